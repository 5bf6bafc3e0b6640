"""What each check runs: harness crate, entry points with time limits, bounds."""

PROPS = {
    "C01": dict(
        crate="core",
        quick=[("c01_leaves", 60), ("c01_flats", 60), ("c01_one", 60), ("c01_deep", 60), ("c01_chain", 60), ("c01_edge", 60), ("c01_absurd", 60), ("c01_large", 90)],
        thorough=[("c01_leaves", 60), ("c01_flats", 60), ("c01_one", 60), ("c01_two", 120), ("c01_three", 400), ("c01_deep", 60), ("c01_chain", 60), ("c01_edge", 60), ("c01_absurd", 60), ("c01_large", 90)],
        bounds="leaves of every kind over their full domain (strings and bytes of up to 4 bytes); containers of every kind (both encodings, every key type) with up to 3 elements "
               "(strings up to 2); one container with up to 2 children of every kind; thorough: containers in containers and three levels with siblings; chains of 1..40 containers of each "
               "kind, mixed kinds next to the limit (depth 30..35), empty containers at 31..33; 16 opening patterns repeated absurdly often; 15 shapes (strings, bytes, containers, keys) with 251..257 "
               "elements, strings and bytes around 1000 and 65536. The limit of 32 is exact in both directions",
        outside="wider and longer values; typed containers other than those of the harness (C16 has generated types)",
    ),
    "C07": dict(
        crate="core",
        quick=[("c07_any4", 60), ("c07_any6", 60), ("c07_unknown5", 60), ("c07_mutated", 60), ("c07_deep", 60), ("c07_huge", 60), ("c07_large", 90)],
        thorough=[("c07_any4", 60), ("c07_any6", 60), ("c07_any7", 120), ("c07_unknown5", 60), ("c07_mutated", 60), ("c07_deep", 60), ("c07_huge", 60), ("c07_large", 90)],
        bounds="every byte string of 4 and 6 (thorough 7) bytes, unknown fields and variants of 5 bytes, encodings of all kinds with one byte arbitrary, cut off anywhere or extended, nesting around the "
               "limit, declared lengths up to 2^32-1 without contents, encodings of 251..257 elements (strings and bytes around 65536, in chunks) with a length byte changed, cut or extended. Decoding to dynamic and typed targets, skipping, len and split_off agree with an independent recogniser in value, length and "
               "error; no panic, no allocation beyond the input's size, bounded steps",
        outside="longer arbitrary byte strings",
    ),
    "C08": dict(
        crate="core",
        quick=[("c08_roundtrip", 60), ("c08_any9", 60), ("c08_any12", 60), ("c08_plain", 60), ("c08_values", 90), ("c08_headers", 60), ("c08_foreign", 60), ("c08_large", 60)],
        thorough=[("c08_roundtrip", 60), ("c08_any9", 60), ("c08_any12", 60), ("c08_plain", 60), ("c08_values", 90), ("c08_headers", 60), ("c08_foreign", 60), ("c08_large", 60)],
        bounds="all 63 kinds: every message with independent symbolic field bytes; every frame of 0..12 bytes; every body of up to 84 bytes (kinds without value) and 40 bytes (with); headers with one "
               "arbitrary field; bodies under foreign kinds; payloads of 245..257 and around 65536 bytes. Accepted exactly if the layout table says so, and then re-encoded to the same bytes",
        outside="longer values inside messages (C01, C07)",
    ),
    "C13": dict(
        crate="core",
        quick=[("c13_versions", 60), ("c13_flats", 60), ("c13_one", 60), ("c13_two", 60), ("c13_deep", 60), ("c13_any5", 60), ("c13_any6", 60), ("c13_messages", 60), ("c13_large", 90)],
        thorough=[("c13_versions", 60), ("c13_flats", 60), ("c13_one", 60), ("c13_two", 60), ("c13_deep", 60), ("c13_any6", 60), ("c13_any7", 120), ("c13_messages", 60), ("c13_large", 90)],
        bounds="all pairs of known and unknown epochs x leaves, flat containers, nests of two kinds (mixed encodings), depth around the limit, every byte string of 5 and 6 (thorough 7) bytes, and "
               "message-level conversion for every kind that carries a value, and values of 251..257 elements (strings and bytes around 65536, in chunks). Conversion keeps the meaning, leaves nothing newer than the target, fails exactly on malformed input and is the identity "
               "where nothing is to be done",
        outside="wider values and longer byte strings",
    ),
    "C14": dict(
        crate="core",
        quick=[("c14_packets3", 60), ("c14_packets4", 60), ("c14_big", 60), ("c14_contents", 60), ("c14_garbage", 60), ("c14_receive", 60), ("c14_send", 60), ("c14_send_err", 60), ("c14_send_big", 60), ("c14_buffered", 60)],
        thorough=[("c14_packets3", 60), ("c14_packets4", 60), ("c14_packets5", 600), ("c14_big", 60), ("c14_big3", 200), ("c14_contents", 60), ("c14_garbage", 60), ("c14_receive", 60), ("c14_receive3", 200), ("c14_send", 60), ("c14_send_err", 60), ("c14_send_big", 60), ("c14_buffered", 60)],
        bounds="frames of 5, 6, 9 and 70000 bytes in every sequence of up to 3-4 (thorough 5) pieces through both input interfaces, frames taken at any time in between; symbolic contents; 9 bytes of "
               "garbage; TokioTransport (and Buffered on it) receiving and sending over scripted I/O where every operation is pending, short, complete, closed or an error. What comes out is the "
               "concatenation, in order, once; nothing is lost on backpressure; errors are reported",
        outside="more pieces; real sockets",
    ),

    "C02": dict(
        crate="bus",
        quick=[("c02_hist", 40), ("c02_pending", 60), ("c02_old", 40), ("c02_wild", 60), ("c06_calls", 60), ("c06_calls_same", 60), ("c06_api_calls", 60), ("c06_gen_calls", 60)],
        thorough=[("c02_hist", 60), ("c02_pending", 90), ("c02_old", 60), ("c02_wild", 90), ("c02_deep", 600), ("c06_calls", 60), ("c06_calls_same", 60), ("c06_calls_2", 300), ("c06_api_calls", 60), ("c06_gen_calls", 60)],
        bounds="3 connections (versions 1.20/1.16/1.14 mixed), one object with a service, up to 2 calls pending before a history of "
               "3 steps (thorough 4), each step any of: call (1 or 2), reply with any result, abort, destroy of service or object, "
               "end of a connection in any of the four ways, over a symbolic choice of acting connection and serial; 'wild' adds "
               "arbitrary 32-bit serials and arbitrary 128-bit cookies. After every message all outputs are compared with a model.",
        outside="more than 3 connections or calls beyond the stated depth; payload contents (C12, C13)",
    ),
    "C03": dict(
        crate="bus",
        quick=[("c03_hist", 60), ("c03_seeded", 90), ("c03_old", 80), ("c03_wild", 80), ("c03_wild2", 30)],
        thorough=[("c03_hist", 60), ("c03_seeded", 90), ("c03_old", 90), ("c03_wild", 90), ("c03_wild2", 30), ("c03_deep", 600)],
        bounds="3 connections, histories of 3 requests (thorough 4) among create/destroy object/service (both protocol forms), "
               "query of version and info, end of connection, with object and service UUIDs, cookies and serials symbolic "
               "(128/32 bit; 'seeded' starts with objects and services present); every reply, notification and the registry "
               "snapshot are compared with a model after every step",
        outside="longer histories; more than 3 connections",
    ),
    "C04": dict(
        crate="bus",
        quick=[("c04_hist", 60), ("c04_subs", 90), ("c06_ev_seq", 60), ("c06_ev_seq_same", 60), ("c06_ev_destroy", 60), ("c06_api_events", 60), ("c06_gen_events", 60)],
        thorough=[("c04_hist", 60), ("c04_subs", 100), ("c04_deep", 600), ("c06_ev_seq", 60), ("c06_ev_seq_same", 60), ("c06_ev", 60), ("c06_ev_destroy", 60), ("c06_api_events", 60), ("c06_gen_events", 60)],
        bounds="3 connections, one service, 3 steps (thorough 4) of subscribe/unsubscribe event, subscribe/unsubscribe all, "
               "subscribe/unsubscribe service, emit, destroy and end of connection, event ids symbolic 32 bit; the model says who receives "
               "every event exactly once, when the owner is told to start or stop, and who hears of the destruction",
        outside="longer histories; event payload contents (C12)",
    ),
    "C05": dict(
        crate="bus",
        quick=[("c05_hist", 90), ("c05_caps", 30), ("c05_est", 40), ("c05_wild", 90), ("c05_flow", 40), ("c05_flow_r", 30), ("c05_low", 30), ("c05_batch", 30), ("c06_chan", 60), ("c06_chan_flow", 120), ("c06_api_chan", 60)],
        thorough=[("c05_hist", 90), ("c05_caps", 30), ("c05_est", 40), ("c05_wild", 90), ("c05_flow", 40), ("c05_flow_r", 30), ("c05_flow5", 120), ("c05_flow_r4", 90), ("c05_low", 30), ("c05_batch", 30), ("c06_chan", 60), ("c06_chan_flow", 120), ("c06_api_chan", 60)],
        bounds="3 connections, one channel; histories of 3-4 operations among create (either end), claim, close, send, add capacity, end of "
               "connection; credit sequences of up to 5 grants and sends where every capacity is a symbolic 32-bit number (sums past 2^32 included), "
               "checked against an unbounded-integer credit model with the invariant that the sender never holds more credit than the receiver granted",
        outside="longer histories, more than one channel",
    ),
    "C09": dict(
        crate="bus",
        quick=[("c09_ends", 30), ("c09_ends_old", 30), ("c09_join", 20), ("c09_lazy", 20), ("c09_lazy_old", 20), ("c09_queued", 20), ("c09_queued2", 60), ("c09_shutdown", 20), ("c09_shutdown_old", 20), ("c09_hist", 30), ("c09_hist_old", 30), ("c09_dropped", 20), ("c11_intro_seeded", 20)],
        thorough=[("c09_ends", 30), ("c09_ends_old", 30), ("c09_join", 20), ("c09_lazy", 20), ("c09_lazy_old", 20), ("c09_queued", 20), ("c09_queued2", 90), ("c09_shutdown", 20), ("c09_shutdown_old", 20), ("c09_hist", 30), ("c09_hist_old", 30), ("c09_hist4", 300), ("c09_dropped", 20), ("c11_intro_seeded", 20)],
        bounds="2-3 connections entangled by one of 9 features (objects, services, calls both ways, subscriptions, channels in each state, "
               "listeners, introspection), one of which ends in any of its ways (transport end, transport error, Shutdown message, handle "
               "shutdown, task dropped and noticed), or whose last 1-2 messages are still queued; statistics compared with a model "
               "after every step of 3-4 step histories; idle and forced broker shutdown. The broker's whole state is compared through the "
               "verif-hooks snapshot, so nothing of an ended connection may remain anywhere. Introspection: three connections that register, "
               "query, answer (or refuse) and end in any order; table, pending queries and statistics are empty at the end.",
        outside="a connection task that is dropped and to which the broker never sends (known finding)",
    ),
    "C10": dict(
        crate="bus",
        quick=[("c10_current", 20), ("c10_current3", 60), ("c10_one", 30), ("c10_one4", 90), ("c10_two", 30), ("c10_wild", 70), ("c10_foreign", 40), ("c10_foreign_wild", 40), ("c10_new_wild", 90), ("c06_listen", 60)],
        thorough=[("c10_current", 20), ("c10_current3", 60), ("c10_one", 30), ("c10_one4", 90), ("c10_two", 30), ("c10_wild", 70), ("c10_foreign", 40), ("c10_foreign_wild", 40), ("c10_new_wild", 90), ("c10_two3", 200), ("c10_foreign4", 200), ("c06_listen", 60), ("c06_listen_2", 90), ("c06_lrace", 60), ("c06_lrace_cancel", 120)],
        bounds="1-2 listeners with up to 3-4 filter edits (any filter over symbolic 128-bit UUIDs), scopes current/new/all, "
               "objects and services appearing and vanishing; the matching rule is an independent oracle over the filter list",
        outside="more than two listeners, more than 4 steps",
    ),
    "C11": dict(
        crate="bus",
        quick=[("c11_abuse", 20), ("c11_abuse_r", 20), ("c11_abuse_o", 20), ("c11_abuse_v", 20), ("c11_two", 40), ("c11_two_r", 40), ("c11_burst", 20), ("c11_burst2", 80), ("c11_intro_seeded3", 60), ("c11_intro", 30), ("c11_garbage", 30), ("c11_garbage3", 40), ("c11_garbage_up", 20)],
        thorough=[("c11_abuse", 20), ("c11_abuse_r", 20), ("c11_abuse_o", 20), ("c11_abuse_v", 20), ("c11_two", 40), ("c11_two_r", 40), ("c11_burst", 20), ("c11_burst2", 120), ("c11_intro_seeded3", 60), ("c11_intro", 30), ("c11_garbage", 30), ("c11_garbage3", 40), ("c11_garbage_up", 20)],
        bounds="1-2 arbitrary messages of all 63 kinds with every serial, cookie (128 bit), UUID and number symbolic, sent by one of three "
               "connections that share one of 9 kinds of state, singly or in one burst, then a full round of service to the other two; "
               "payloads of 2-3 arbitrary bytes forwarded between all version pairs; no panic, and the others stay connected and served",
        outside="longer message sequences; transport-level garbage is C08/C14",
    ),
    "C12": dict(
        crate="bus",
        quick=[("c12_handshake", 20), ("c12_data", 30), ("c12_gate", 60), ("c12_calls", 30), ("c12_calls2", 30), ("c12_calls3", 30), ("c12_events", 50), ("c12_events2", 50), ("c12_leaves", 30), ("c12_flats", 30), ("c12_nests", 30), ("c12_nests2", 50), ("c12_pairs", 30), ("c12_client", 20), ("c12_cl_pairs", 30), ("c12_cl_values", 30), ("c12_cl_calls", 20), ("c12_cl_events", 20), ("c12_cl_chan", 30), ("c12_cl_listen", 30), ("c12_cl_disc", 30), ("c12_cl_life", 20)],
        thorough=[("c12_handshake", 20), ("c12_data", 30), ("c12_gate", 60), ("c12_gate2", 400), ("c12_calls", 30), ("c12_calls2", 30), ("c12_calls3", 30), ("c12_events", 50), ("c12_events2", 50), ("c12_leaves", 30), ("c12_flats", 30), ("c12_nests", 30), ("c12_nests2", 50), ("c12_pairs", 30), ("c12_client", 20), ("c12_cl_pairs", 30), ("c12_cl_values", 30), ("c12_cl_values_all", 200), ("c12_cl_calls", 20), ("c12_cl_events3", 60), ("c12_cl_race", 120), ("c12_cl_chan", 30), ("c12_cl_listen", 30), ("c12_cl_disc", 30), ("c12_cl_life", 20)],
        bounds="every major/minor version number (32 bit) in both handshakes; every one of the 63 message kinds from and to every "
               "version 1.14-1.20; calls, replies, events between mixed versions; payload trees (leaves, flat containers, nests of depth 2) "
               "with symbolic contents between versions, compared with the original after the broker's conversion. Real clients: the handshake with data against every answer (any result, any minor "
               "version, any other message, malformed data, closed transport); all 49 pairs of versions of an owner and a user through service info, calls with versions, replies, aborts, events, subscriptions to "
               "all, items and introspection with old and new values; programs over calls, events, channels, listeners, discoverers and lifetimes (as for C06) with mixed versions, both directions of every wire "
               "watched for message kinds and representations the version doesn't have",
        outside="what a client does with a broker that answers a version below 1.14; payloads wider than the trees above",
    ),
    "C06": dict(
        crate="bus",
        quick=[("c06_calls", 60), ("c06_calls_b", 60), ("c06_calls_same", 60), ("c06_chan", 60), ("c06_chan_same", 60), ("c06_chan_b", 90), ("c06_chan_third", 60), ("c06_ev_destroy", 60), ("c06_ev_b", 60), ("c06_ev_same", 60), ("c06_listen", 60), ("c06_lrace", 60), ("c06_lrace_same", 60), ("c06_lrace_b", 60), ("c06_api_calls", 60), ("c06_api_events", 60), ("c06_api_events_mix", 60), ("c06_api_chan", 60), ("c06_api_chan_b", 60), ("c06_gen_calls", 60), ("c06_gen_events", 60), ("c06_gen_events2", 60), ("c06_intro", 90)],
        thorough=[("c06_calls", 60), ("c06_calls_b", 60), ("c06_calls_same", 60), ("c06_calls_d2", 200), ("c06_calls_2", 300), ("c06_chan", 60), ("c06_chan_again", 60), ("c06_chan_same", 60), ("c06_chan_b", 90), ("c06_chan_third", 60), ("c06_chan_flow", 120), ("c06_ev_seq", 60), ("c06_ev_seq_same", 60), ("c06_ev", 60), ("c06_ev_destroy", 60), ("c06_ev_b", 60), ("c06_ev_same", 60), ("c06_listen", 60), ("c06_listen_f", 60), ("c06_listen_2", 90), ("c06_listen_same", 60), ("c06_lrace", 60), ("c06_lrace_same", 60), ("c06_lrace_b", 60), ("c06_lrace_cancel", 120), ("c06_api_calls", 60), ("c06_api_calls_mix", 120), ("c06_api_events", 60), ("c06_api_events_mix", 60), ("c06_api_chan", 60), ("c06_api_chan_b", 60), ("c06_gen_calls", 60), ("c06_gen_events", 60), ("c06_gen_events2", 60), ("c06_api_calls_same", 60), ("c06_api_calls_d", 150), ("c06_api_chan_d", 120), ("c06_intro", 90), ("c06_intro_mix", 240)],
        bounds="the real broker, its connections and 1-3 real clients joined by aldrin-core's channel transports (unbounded, or a FIFO of one); programs of "
               "2-4 operations per application task, every operation a solver choice: calls (plain, aborted, unanswered, replied out of order, promise or service or object "
               "dropped), channels (either end created/claimed/refused/dropped/closed at every stage, items, capacities), events (subscribe, unsubscribe, proxies cloned "
               "and dropped, subscribe-all), bus listeners; every schedule within one deviation (thorough: two for calls) from round-robin of all tasks of the system. "
               "Every way the API has to answer a call x to await it, to emit x receive an event, to send x receive an item x end a channel; services, proxies and dispatchers made by "
               "service! (with and without fallbacks); introspection that applications register, submit and ask for, registrants leaving. "
               "Checked: no client stops, nothing panics, every awaited operation completes, results are the ones the model expects, after the last handle is dropped "
               "everything stops and the idle broker stops",
        outside="schedules with more deviations, longer programs, FIFOs of 2..16; threads (tasks interleave at await points only)",
    ),
    "C19": dict(
        crate="bus",
        quick=[("c19_seq_sets", 60), ("c19_restart", 120), ("c19_race", 60), ("c19_race_sets", 60), ("c19_race_b", 60), ("c19_race_same", 30), ("c19_race_restart1", 30), ("c19_find", 60), ("c19_find_api", 90), ("c19_find_same", 30), ("c19_life", 30), ("c19_life0", 30), ("c19_life_same", 30), ("c19_life_b", 30), ("c19_life_late", 30)],
        thorough=[("c19_seq", 60), ("c19_seq_sets", 60), ("c19_restart", 120), ("c19_race", 60), ("c19_race_sets", 60), ("c19_race_b", 60), ("c19_race_same", 30), ("c19_race_restart1", 30), ("c19_race_restart", 400), ("c19_find", 60), ("c19_find2", 100), ("c19_find_api", 90), ("c19_find_same", 30), ("c19_life", 30), ("c19_life0", 30), ("c19_life_same", 30), ("c19_life_b", 30), ("c19_life_late", 30), ("c19_life_d2", 60)],
        bounds="the real broker and 1-2 real clients; 2 objects and 2 services per object that are created, destroyed and re-created (same UUID, new cookie) by histories of up to 5 "
               "operations, some before and some concurrent with the discoverer; discoverers with every kind of entry (specific or any object, none, one or both services), alone and "
               "in sets of up to 6, for all or only current objects, restarted at any point; every schedule within one deviation from round-robin (thorough: two for lifetimes). The "
               "history of the bus explains all events (one start point for all entries), and at rest every accessor agrees with the bus (discoverers of current objects show the state at one moment of their start); lookups, through every function of the API, return what existed during the wait; "
               "a lifetime ends iff its object's incarnation was destroyed, dropped, lost with its client, or never existed",
        outside="more objects, longer histories, more deviations",
    ),
    "C15": dict(
        crate="bus",
        quick=[("c15_one", 60), ("c15_one_b", 60), ("c15_one_d", 120), ("c15_all", 60), ("c15_all_b", 60), ("c15_all_d", 60), ("c15_two", 120)],
        thorough=[("c15_one", 60), ("c15_one_b", 60), ("c15_one_d", 120), ("c15_one_d2", 600), ("c15_all", 60), ("c15_all_b", 60), ("c15_all_d", 60), ("c15_two", 120), ("c15_all_two", 200)],
        bounds="the real broker, its connections and two real clients; 20 scenarios at the client that stops (creating and destroying objects and services, proxies with pending "
               "calls, subscriptions and event streams, both channel ends pending, established and being claimed, bus listeners, discoverers, lookups, lifetimes, a promise, syncs, "
               "introspection), one at a time or 16 at once, all operations repeated after the end; every index of the client's transport operations (send, receive, flush, ready) as "
               "the point at which the transport fails on either side (with unbounded FIFOs only that operation, otherwise all that follow), shutdown is requested, the broker or the connection is shut down, or the last handle is dropped, "
               "and in 'two' a second fault at every later operation; unbounded FIFOs and a FIFO of one; every schedule within one deviation from round-robin. Checked: run returns ok or "
               "the transport's error as the cause demands, everything pending or started later completes with Shutdown or end of stream and nothing does so earlier, the connection "
               "ends, the peer learns of it, and the broker's state (snapshot hook) holds nothing of the client any more",
        outside="more than two causes, more deviations; dropping the run future itself",
    ),
    "C16": dict(
        crate="gen", compile_clause=True,
        quick=[("c16_types_a", 60), ("c16_types_b", 60), ("c16_types_c", 60), ("c16_types_d", 60), ("c16_old_new", 30), ("c16_refs", 40),
               ("c16_members", 80), ("c16_values", 30), ("c16_defs", 40), ("c16_graph", 40), ("c16_places", 40)],
        thorough=[("c16_deep_a", 200), ("c16_deep_b", 200), ("c16_deep_c", 200), ("c16_deep_d", 200), ("c16_old_new", 30), ("c16_refs", 40),
                  ("c16_members", 80), ("c16_values", 30), ("c16_defs", 40), ("c16_graph_full", 300), ("c16_places2", 200)],
        bounds="every struct, enum and newtype (72, those of services' inline types included) that the code generator makes of a corpus of 7 schemas covering every built-in type, "
               "required and optional fields, fallbacks, nested generics, arrays with constant lengths, recursion, imports, newtypes of everything, raw identifiers. Per type, dynamic "
               "values derived from an independent reading of the schema text: one field or element at a time takes all forms, through 2 (thorough 3) nested structs or enums and 2 (3) "
               "nested containers of up to 2 elements; integers, floats, ids and keys arbitrary, strings of up to 1 byte; with at most one deviation anywhere: another kind of value, a "
               "missing required field, a wrongly long array, an unwrapped optional, a payload where there is none, unknown variant (any u32); up to 2 unknown fields (any u32, any form "
               "of value); both container encodings and their mixture; encoded from the value, a reference and the generated ref type. All values of the newer of two schemas through "
               "the code of the older one. Schemas that have no valid translation are not accepted: 3 members of a struct, enum (inline too) or service plus a fallback with equal names, equal "
               "ids (however written) or ids out of range; 3 definitions with equal names or service UUIDs; constants at and beyond the limits of all 8 types, array lengths from literals "
               "and constants here and in an import; 20 types of which 14 are wrong (missing, no types, not imported, unusable keys, no lengths, recursive) at 13 places within 11 generics (thorough: two deep); three newtypes or structs (thorough: 9 forms) and an import that contain or name one another, used as keys and plainly",
        outside="schemas other than the corpus: that generated code compiles is established by rustc for the corpus only (a failure is reported as a violation), not by the solver; "
                "two simultaneous deviations; encodings that are not canonical for a value (duplicate field ids)",
    ),
    "C17": dict(
        crate="lang", max_steps=60_000_000, functions="aldrin|pest|comrak",
        quick=[("c17_bytes2", 40), ("c17_soup1", 40), ("c17_soup2", 60), ("c17_mut_a", 40), ("c17_mut_b", 80), ("c17_mut_d", 60), ("c17_corpus", 40), ("c17_docs", 80),
               ("c17_docs_soup2", 40), ("c17_imports", 60), ("c17_snippets1", 60), ("c17_snippets2", 60), ("c17_names", 40), ("c17_graph", 60),
               ("c17_members", 60), ("c17_values", 60), ("c17_defs", 60), ("c17_places", 60)],
        thorough=[("c17_bytes3", 200), ("c17_soup1", 40), ("c17_soup2_all", 200), ("c17_soup3", 300), ("c17_full_a", 200), ("c17_mut_b", 80), ("c17_mut_s", 300), ("c17_full_b", 300),
                  ("c17_mut_c", 200), ("c17_full_c", 300), ("c17_full_d", 300), ("c17_corpus_a", 300), ("c17_corpus_b", 300), ("c17_corpus_c", 300), ("c17_docs", 80),
                  ("c17_docs_deep", 300), ("c17_docs_soup3", 300), ("c17_imports", 60), ("c17_snippets1", 60), ("c17_snippets2_all", 300), ("c17_names", 40), ("c17_graph_full", 300),
                  ("c17_members3", 300), ("c17_values", 60), ("c17_defs", 60), ("c17_places", 60)],
        bounds="parsing (every import missing, unreadable, syntactically wrong, cyclic or valid), rendering of every error and warning (plain; coloured, unicode and narrow), the formatter, "
               "and for schemas without errors the code generator with 4 sets of options, over: all texts of up to 2 (thorough 3) characters, the last one any of ASCII or of 16 others, "
               "the ones before of 36; all sequences of 1 and 2 (3) of 58 tokens alone and within 7 contexts; 8 schemas that together use the whole grammar (thorough: also one with "
               "everything at once) with every single character missing, replaced by one of 12 (thorough: any ASCII), the rest cut off, or one of 6 (thorough: any ASCII) put in front; all 81 "
               "schemas of the repository (thorough: with all such single edits); documentation with 22 forms of links between 18 beginnings and 14 endings at 5 places with CR, LF, "
               "tabs, tables and multi-byte characters, and all sequences of 2 (3) of 24 markdown characters alone, in front of or inside a link; 12 import lists x 5 sets of other "
               "schemas x 10 definitions; 66 definitions that together violate every rule, alone and in pairs; three newtypes or structs (thorough: 9 forms) that refer to each other, an import and back in every way, used as keys and plainly; 10 names of the schema itself; 2 (3) members with 5 ids "
               "and 3 names of structs, enums (inline too) and services, 3 definitions with 3 names, constants at and beyond every limit and array lengths from them, 20 right and wrong types at 13 places within 11 generics. Repeated with another hash function (constants, or "
               "SipHash with another key), the rendered diagnostics are the same ones. No path panics; integer overflow counts as a panic in parser and generator",
        outside="longer arbitrary texts, more than one edit, other markdown; the aldrin-gen command line and FilesystemResolver, --patch; stack exhaustion by nesting (a known finding); "
                "hash functions other than those listed; the order in which diagnostics are reported is not compared",
    ),
    "C18": dict(
        crate="lang", max_steps=60_000_000, functions="aldrin|pest",
        quick=[("c18_writer", 60), ("c18_head", 40), ("c18_defs1", 20), ("c18_defs2", 30), ("c18_bodies", 40), ("c18_function", 60), ("c18_event", 30), ("c18_items0", 20), ("c18_items2", 30),
               ("c18_types1", 40), ("c18_texts1", 20), ("c18_lit0", 20), ("c18_lit1", 20), ("c18_lit2", 20), ("c18_lit3", 20), ("c18_lit4", 20), ("c18_lit5", 20),
               ("c18_layouts", 80), ("c18_mut_a", 20), ("c18_mut_b", 60), ("c18_mut_c", 40), ("c18_corpus", 40)],
        thorough=[("c18_writer", 60), ("c18_head", 40), ("c18_defs1", 20), ("c18_defs2", 30), ("c18_defs3", 300), ("c18_bodies", 40), ("c18_function_full", 300), ("c18_event", 30), ("c18_items0", 20),
                  ("c18_items2_full", 300), ("c18_types2", 300), ("c18_texts2", 300), ("c18_lit0", 20), ("c18_lit1", 20), ("c18_lit2", 20), ("c18_lit3", 20), ("c18_lit4", 20),
                  ("c18_lit5", 20), ("c18_layouts_full", 300), ("c18_full_a", 300), ("c18_full_b", 300), ("c18_full_c", 300), ("c18_corpus", 40), ("c18_corpus_a", 300)],
        bounds="schemas written by an independent printer from an independent model: schema docs and comments of up to 2 lines, up to 3 imports with comments; sequences of up to 2 "
               "(thorough 3) definitions of every kind; structs and enums with up to 2 members and a fallback under every prelude of comments, docs and attributes; functions with every "
               "combination of parts and every inline type (own docs, attributes and bodies), events, services with up to 2 items, their fallbacks and comments; all types with generics "
               "nested 1 (2) deep at 5 places; comments and docs of up to 1 (2) characters, any of ASCII or of 16 others, at 10 places; integers at every boundary, names, strings and UUIDs with any "
               "character; 5 layouts (compact, single-line, line by line, CRLF, indented) and orders of docs, comments and attributes; a schema using everything with odd whitespace "
               "(tabs, CR, unicode) at each of its ~270 gaps; also 8 other schemas with every single edit (as for C17) that stays valid, and all 81 schemas of the repository. Checked: the "
               "parser reads the model; formatting it and parsing again gives the model with imports as a sorted set; the diagnostics are the same ones, positions aside; "
               "formatting again changes nothing; a schema without errors was read completely (its letters and digits are those of the formatted text). Writers that take 1, 3 or 8 bytes at a time, are interrupted or fail at any write",
        outside="longer texts, more members, deeper types, odd whitespace in two places at once; comments where the grammar gives them no place are not comments of the schema; aldrin-gen's "
                "command line",
    ),
    "C20": dict(
        crate="gen",
        quick=[("c20_struct1", 40), ("c20_struct2", 60), ("c20_enum1", 40), ("c20_enum2", 60), ("c20_service_head", 20), ("c20_service_fn", 20), ("c20_service_ev", 20),
               ("c20_builtin", 40), ("c20_newtype", 20), ("c20_kinds", 20), ("c20_graph", 40), ("c20_edit0", 40), ("c20_edit1", 40), ("c20_permuted", 40),
               ("c20_records", 20), ("c20_record_struct", 20), ("c20_record_enum", 20), ("c20_record_service", 20), ("c20_record_builtin", 20), ("c20_std", 20),
               ("c20_generated", 40), ("c20_generated_edit", 60), ("c20_derived", 60)],
        thorough=[("c20_struct1", 40), ("c20_struct2", 60), ("c20_enum1", 40), ("c20_enum2", 60), ("c20_service_head", 20), ("c20_service_fn", 20), ("c20_service_ev", 20), ("c20_service_kinds", 120),
               ("c20_builtin", 40), ("c20_newtype", 20), ("c20_kinds", 20), ("c20_graph", 40), ("c20_graph2", 200), ("c20_edit0", 40), ("c20_edit1", 40), ("c20_permuted", 40),
               ("c20_records", 20), ("c20_record_struct", 20), ("c20_record_enum", 20), ("c20_record_service", 20), ("c20_record_builtin", 20), ("c20_std", 20),
               ("c20_generated", 40), ("c20_generated_edit", 60), ("c20_derived", 60)],
        bounds="pairs of independent descriptions (hand-built IR): structs and enums with up to 2 members, services with up to one function and one event, every built-in type over 4 "
               "arguments, newtypes, graphs of 3 mutually recursive types; names of one arbitrary letter (a name in an edit: 1-2), ids over all of u32 with one member and over 7 bits with "
               "two, any UUID, version and array length, fallbacks, documentation; every single edit and every permutation of one description that uses everything; reference order "
               "reversed; types of the derive macro (named, tuple, unit, newtype, enum; implicit and explicit ids) over arbitrary referenced types and all single edits of them; all 72 "
               "types and services that the code generator makes of a corpus of 7 schemas against an independent reading of the schemas' text, the same schemas with reversed "
               "declaration order and documentation, and single edits; all types the library introspects itself. Ids are equal iff an independent bisimulation of the descriptions holds; "
               "records equal the description with references replaced by ids, resolve, and survive serialization",
        outside="SHA-1 is replaced by an ideal injective hash whose digests have one of two orders (collisions and digest-dependent orders beyond these); longer names; more members; schemas "
                "other than the corpus",
        assumptions=["SHA-1 (sha1_smol) is injective on the inputs: replaced by a table of preimages during symbolic execution; the replay binary uses real SHA-1."],
    ),
}

for _k, _v in PROPS.items():
    _v.setdefault("note", "Exhaustive within the stated bounds over the compiled code; trusts rustc, the executor and z3.")

NOT_APPLICABLE = {"C%02d" % i: "check under construction" for i in range(1, 21) if "C%02d" % i not in PROPS}
HOOKS = dict(guard="cargo feature verif-hooks of aldrin-broker", enable="the harness crates of /verif/harness that need it depend on aldrin-broker with features = [\"verif-hooks\"]", source_commits=["14b7aa4dc0c5ae73b3fcc6021db73d0543505dd9"])

#![allow(dead_code)]
mod abuse;
mod cl;
mod compat;
mod hist;
mod model;
mod net;
#[path = "../../core/src/refc.rs"]
mod refc;
use cl::world::versions;
use cl::{api, calls, chans, disc, events, gen, intro, listen, term, vers};
/// owner's and user's versions
const MIX: &[&[u32]] = &[&[14, 20], &[20, 14], &[17, 20], &[20, 17], &[18, 15], &[16, 18], &[14, 14], &[19, 19]];
const MIXALL: &[&[u32]] = &[&[14, 20, 18], &[20, 14, 18], &[17, 18, 20], &[15, 16, 17], &[20, 17, 14], &[16, 19, 14], &[18, 18, 18], &[19, 17, 16]];

/// all that can go on at once
const ALLF: &[usize] = &[0, 2, 3, 5, 6, 7, 8, 9, 10, 11, 13, 14, 16, 17, 18, 19];
use model::P::*;
const CH: chans::Cfg = chans::Cfg { delays: 1, fifo: 0, same: false, items: 2, caps: &[1, 4], acts: 3, holds: 4, third: false };
const ONE: &[&[usize]] = &[&[0], &[1], &[2], &[3], &[4], &[5]];
const SETS: &[&[usize]] = &[&[0, 1, 2, 3, 4, 5], &[1, 4], &[0, 2, 5], &[3, 6, 7]];
const DI: disc::Cfg = disc::Cfg { delays: 1, fifo: 0, same: false, pre: 1, ops: 2, kinds: 6, sets: ONE, race: true, restart: false };
const EV: events::Cfg = events::Cfg { delays: 1, fifo: 0, same: false, proxies: 2, kinds: 6, ops: 2, destroy: false, race: true };
const ALL: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8];
/// all pairs
const VV: &[&[u32]] = &{
    let mut a: [&[u32]; 49] = [&[]; 49];
    let mut i = 0;
    while i < 49 {
        a[i] = &PAIRS[i];
        i += 1;
    }
    a
};
const PAIRS: &[[u32; 2]; 49] = &{
    let mut a = [[0; 2]; 49];
    let mut i = 0;
    while i < 49 {
        a[i] = [14 + i as u32 / 7, 14 + i as u32 % 7];
        i += 1;
    }
    a
};
const VERSIONS: &[u32] = &[14, 15, 16, 17, 18, 19, 20];
use aldrin_core::Value;
const NEW: &[u32] = &[20, 20, 20];

macro_rules! entries {
    ($($n:ident => $e:expr;)*) => {
        sym::entries!($($n),*);
        $(fn $n() { $e })*
    };
}

entries!(
    c02_hist => hist::c02(C02, 3, NEW, 0, false);
    c02_pending => hist::c02(C02, 3, NEW, 2, false);
    c02_old => hist::c02(C02, 3, &[20, 16, 14], 1, false);
    c02_wild => hist::c02(C02, 3, NEW, 1, true);
    c02_deep => hist::c02(C02, 4, NEW, 1, false);
    c03_hist => hist::c03(3, NEW, false, false);
    c03_seeded => hist::c03(3, NEW, true, false);
    c03_old => hist::c03(3, &[14, 20, 20], true, false);
    c03_wild => hist::c03(3, NEW, false, true);
    c03_wild2 => hist::c03(2, NEW, true, true);
    c03_deep => hist::c03(4, NEW, true, false);
    c04_hist => hist::c04(C04, 3, NEW, 0);
    c04_subs => hist::c04(C04, 3, NEW, 2);
    c04_deep => hist::c04(C04, 4, NEW, 1);
    c05_hist => hist::c05(4, false, &[4], false);
    c05_caps => hist::c05(3, false, &[], false);
    c05_est => hist::c05(3, true, &[], false);
    c05_wild => hist::c05(4, false, &[4], true);
    c05_flow => hist::c05_flow(4, false, &[], 1);
    c05_flow_r => hist::c05_flow(3, true, &[], 1);
    c05_flow5 => hist::c05_flow(5, false, &[], 1);
    c05_flow_r4 => hist::c05_flow(4, true, &[], 1);
    c05_low => hist::c05_flow(9, false, &[1, 5], 1);
    c05_batch => hist::c05_flow(6, true, &[3, 6], 3);
    c10_current => hist::c10_current(2, false);
    c10_current3 => hist::c10_current(3, false);
    c10_wild => hist::c10_current(3, true);
    c10_one => hist::c10_new(3, 1, false);
    c10_two => hist::c10_new(2, 2, false);
    c10_one4 => hist::c10_new(4, 1, false);
    c10_two3 => hist::c10_new(3, 2, false);
    c10_new_wild => hist::c10_new(4, 1, true);
    c10_foreign => hist::c10_foreign(3, false);
    c10_foreign4 => hist::c10_foreign(4, false);
    c09_ends => hist::c09_ends(NEW, 9, false);
    c09_ends_old => hist::c09_ends(&[14, 17, 20], 9, false);
    c09_join => hist::c09_ends(NEW, 6, true);
    c09_dropped => hist::c09_dropped();
    c09_lazy => hist::c09_lazy(NEW);
    c09_lazy_old => hist::c09_lazy(&[20, 14]);
    c09_queued => hist::c09_queued(1, ALL);
    c09_queued2 => hist::c09_queued(2, &[1, 4, 5]);
    c09_shutdown => hist::c09_shutdown(NEW, 9);
    c09_shutdown_old => hist::c09_shutdown(&[14, 20], 9);
    c09_hist => hist::c09_hist(3, &[20, 20]);
    c09_hist_old => hist::c09_hist(3, &[14, 20]);
    c09_hist4 => hist::c09_hist(4, &[20, 20]);
    c11_abuse => abuse::c11_abuse(1, NEW, ALL, (0, 1));
    c11_abuse_r => abuse::c11_abuse(1, NEW, ALL, (1, 0));
    c11_abuse_o => abuse::c11_abuse(1, NEW, ALL, (1, 2));
    c11_abuse_v => abuse::c11_abuse(1, &[14, 16, 20], ALL, (0, 1));
    c11_two => abuse::c11_abuse(2, NEW, &[0, 4, 5], (0, 1));
    c11_two_r => abuse::c11_abuse(2, NEW, &[1, 4, 5], (1, 0));
    c11_burst => abuse::c11_burst(1, ALL);
    c11_burst2 => abuse::c11_burst(2, &[1, 4, 5]);
    c11_intro => abuse::c11_introspection(3, false);
    c11_intro_seeded => abuse::c11_introspection(2, true);
    c11_intro_seeded3 => abuse::c11_introspection(3, true);
    c11_garbage => compat::garbage(&[20], &[14, 16, 17, 19, 20], 2);
    c11_garbage3 => compat::garbage(&[20], &[14, 17], 3);
    c11_garbage_up => compat::garbage(&[14, 17, 19], &[14, 17, 20], 2);
    c12_handshake => compat::handshake();
    c12_data => compat::handshake_data();
    c12_gate => compat::gate(VERSIONS, 1);
    c12_gate2 => compat::gate(&[14, 16, 17, 18, 19], 2);
    c12_calls => hist::c02(C12, 3, &[20, 14, 18], 1, false);
    c12_calls2 => hist::c02(C12, 3, &[19, 16, 19], 1, false);
    c12_calls3 => hist::c02(C12, 3, &[14, 20, 15], 1, false);
    c12_events => hist::c04(C12, 3, &[18, 14, 20], 0);
    c12_events2 => hist::c04(C12, 3, &[20, 18, 17], 0);
    c12_leaves => compat::payload(VERSIONS, || refc::leaf(sym::choice(refc::LEAVES, "leaf"), 1));
    c12_flats => compat::payload(&[14, 19, 20], || refc::flat(sym::choice(refc::FLATS, "flat"), 1, 1));
    c12_nests => compat::payload(&[14, 19, 20], || refc::nest(sym::choice(refc::NESTS, "nest"), 1, 1, &mut || Value::U8(sym::u8("u8"))));
    c12_nests2 => compat::payload(&[14, 20], || refc::nest(sym::choice(refc::NESTS, "nest"), 1, 1, &mut || refc::nest(sym::choice(refc::NESTS, "inner"), 1, 1, &mut || Value::U8(sym::u8("u8")))));
    c12_pairs => compat::payload(&[14, 20], || refc::nest(sym::choice(refc::NESTS, "nest"), 2, 1, &mut || Value::U8(sym::u8("u8"))));
    c12_client => vers::handshake();
    c12_cl_pairs => versions(VV, || vers::features(0, false));
    c12_cl_values => versions(&[&[14, 20], &[20, 14]], || vers::features(0, true));
    c12_cl_values_all => versions(VV, || vers::features(1, true));
    c12_cl_calls => versions(MIX, || calls::run(0, 0, 1, 3, 6, false));
    c12_cl_events => versions(MIX, || events::run(events::Cfg { delays: 0, kinds: 7, ops: 2, race: false, destroy: true, ..EV }));
    c12_cl_events3 => versions(MIX, || events::run(events::Cfg { delays: 0, kinds: 7, ops: 3, race: false, destroy: true, ..EV }));
    c12_cl_race => versions(MIX, || events::run(events::Cfg { destroy: true, ..EV }));
    c12_cl_chan => versions(MIX, || chans::run(chans::Cfg { delays: 0, ..CH }));
    c12_cl_listen => versions(MIX, || listen::run(0, 0, false, 1, 3, 2, true));
    c12_cl_disc => versions(MIX, || disc::run(disc::Cfg { delays: 0, pre: 1, ops: 2, race: false, sets: SETS, ..DI }));
    c12_cl_life => versions(MIX, || disc::lifetime(0, 0, false, 3, 1));
    c10_foreign_wild => hist::c10_foreign(3, true);

    c06_calls0 => calls::run(0, 0, 1, 2, 6, false);
    c06_calls => calls::run(1, 0, 1, 3, 6, false);
    c06_calls_b => calls::run(1, 1, 1, 3, 6, false);
    c06_calls_same => calls::run(1, 0, 1, 3, 6, true);
    c06_calls_d2 => calls::run(2, 0, 1, 3, 6, false);
    c06_calls_2 => calls::run(1, 0, 2, 2, 6, false);
    c06_api_calls => api::calls(0, false, 0);
    c06_api_calls_same => api::calls(1, true, 0);
    c06_api_calls_d => api::calls(0, false, 1);
    c06_api_calls_mix => versions(MIX, || api::calls(0, false, 0));
    c06_api_events => api::events(0, false);
    c06_api_events_mix => versions(MIX, || api::events(1, false));
    c06_api_chan => api::chan(0, false, 0);
    c06_api_chan_b => api::chan(1, true, 0);
    c06_api_chan_d => api::chan(0, false, 1);
    c06_intro => intro::intro(0);
    c06_intro_d => intro::intro(1);
    c06_intro_mix => versions(MIXALL, || intro::intro(0));
    c06_gen_calls => gen::calls(0, false);
    c06_gen_events => gen::events_open(0, false);
    c06_gen_events2 => gen::events_closed(0, false);
    c06_chan0 => chans::run(chans::Cfg { delays: 0, ..CH });
    c06_chan => chans::run(CH);
    c06_chan_again => chans::run(chans::Cfg { acts: 6, holds: 1, ..CH });
    c06_chan_same => chans::run(chans::Cfg { acts: 6, same: true, ..CH });
    c06_chan_b => chans::run(chans::Cfg { fifo: 1, ..CH });
    c06_chan_third => chans::run(chans::Cfg { third: true, items: 1, caps: &[2], ..CH });
    c06_chan_flow => chans::run(chans::Cfg { delays: 1, items: 6, caps: &[1, 3, 4, 5, 6], acts: 1, holds: 1, ..CH });
    c06_ev_seq => events::run(events::Cfg { delays: 0, kinds: 7, ops: 4, race: false, ..EV });
    c06_ev_seq_same => events::run(events::Cfg { delays: 0, kinds: 7, ops: 3, race: false, same: true, destroy: true, ..EV });
    c06_ev => events::run(EV);
    c06_ev_destroy => events::run(events::Cfg { destroy: true, ..EV });
    c06_ev_b => events::run(events::Cfg { destroy: true, fifo: 1, proxies: 1, ..EV });
    c06_ev_same => events::run(events::Cfg { destroy: true, same: true, ..EV });
    c06_listen => listen::run(0, 0, false, 1, 4, 2, true);
    c06_listen_f => listen::run(0, 0, false, 1, 3, 6, false);
    c06_listen_2 => listen::run(0, 0, false, 2, 4, 0, true);
    c06_listen_same => listen::run(0, 0, true, 1, 4, 0, true);
    c06_lrace => listen::race(1, 0, false, 2, false);
    c06_lrace_same => listen::race(1, 0, true, 2, false);
    c06_lrace_b => listen::race(1, 1, false, 2, false);
    c06_lrace_cancel => listen::race(1, 0, false, 2, true);

    c19_seq => disc::run(disc::Cfg { delays: 0, pre: 2, ops: 3, race: false, ..DI });
    c19_seq_sets => disc::run(disc::Cfg { delays: 0, pre: 2, ops: 3, race: false, sets: SETS, ..DI });
    c19_restart => disc::run(disc::Cfg { delays: 0, pre: 2, ops: 2, race: false, restart: true, ..DI });
    c19_race => disc::run(DI);
    c19_race_sets => disc::run(disc::Cfg { sets: SETS, ..DI });
    c19_race_b => disc::run(disc::Cfg { fifo: 1, sets: SETS, ..DI });
    c19_race_same => disc::run(disc::Cfg { same: true, sets: SETS, ..DI });
    c19_race_restart => disc::run(disc::Cfg { restart: true, pre: 1, ops: 2, sets: SETS, ..DI });
    c19_race_restart1 => disc::run(disc::Cfg { restart: true, pre: 1, ops: 1, sets: &[&[0, 1, 2, 3, 4, 5]], ..DI });
    c19_find => disc::find(disc::Cfg { pre: 1, ops: 2, sets: &[&[0, 1, 2, 3, 4, 5]], ..DI }, false);
    c19_find2 => disc::find(disc::Cfg { pre: 2, ops: 2, sets: &[&[2, 5]], ..DI }, false);
    c19_find_api => disc::find(disc::Cfg { delays: 0, pre: 2, ops: 2, sets: &[&[0, 1, 2, 3, 4, 5]], ..DI }, true);
    c19_find_same => disc::find(disc::Cfg { pre: 1, ops: 2, same: true, sets: &[&[0, 2, 4]], ..DI }, false);
    c19_life => disc::lifetime(1, 0, false, 3, 1);
    c19_life0 => disc::lifetime(1, 0, false, 3, 0);
    c19_life_same => disc::lifetime(1, 0, true, 3, 1);
    c19_life_b => disc::lifetime(1, 1, false, 3, 1);
    c19_life_late => disc::lifetime(1, 0, false, 2, 3);
    c15_one => term::run(None, term::CAUSES, 0, 0);
    c15_one_b => term::run(None, term::CAUSES, 1, 0);
    c15_two => term::run(None, term::TWO, 0, 0);
    c15_one_d => term::run(None, term::CAUSES, 0, 1);
    c15_one_d2 => term::run(None, term::CAUSES, 0, 2);
    c15_all_b => term::run(Some(ALLF), term::CAUSES, 1, 0);
    c15_all_two => term::run(Some(ALLF), term::TWO, 0, 0);
    c15_all_d => term::run(Some(&[0, 2, 3, 7, 8, 11, 18, 19]), &[term::Cause::Fail, term::Cause::Shutdown, term::Cause::BrokerShutdown], 0, 1);
    c15_all => term::run(Some(ALLF), term::CAUSES, 0, 0);
    c19_life_d2 => disc::lifetime(2, 0, false, 3, 1);
);

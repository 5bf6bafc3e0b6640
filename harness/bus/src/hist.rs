//! Histories over the real broker: C02, C03, C04, C05, C10.
use crate::model::*;
use aldrin_core::message::*;
use aldrin_core::*;

// ------------------------------------------------------------------- C02

fn result(sel: u8, p: u8) -> CallFunctionResult {
    match sel {
        0 => CallFunctionResult::Ok(val(p)),
        1 => CallFunctionResult::Err(val(p)),
        2 => CallFunctionResult::Aborted,
        3 => CallFunctionResult::InvalidService,
        4 => CallFunctionResult::InvalidFunction,
        _ => CallFunctionResult::InvalidArgs,
    }
}

/// `deep`: the callers' serials are symbolic
pub fn c02(prop: P, depth: usize, versions: &[u32], pending: usize, wild: bool) {
    // 0, 1 call; 2 owns; 3 owns another service
    let mut w = World::new(prop, versions);
    let o = w.object(2, 0);
    let s0 = w.service(2, o, 0);
    w.service(2, o, 1);
    w.wild = wild;
    let mut serials: Vec<u32> = vec![];
    for i in 0..pending {
        let serial = sym::u32("serial");
        w.step(i % 2, CallFunction { serial, service_cookie: s0, function: sym::u32("function"), value: val(sym::u8("arg")) });
        serials.push(serial);
    }
    for _ in 0..depth {
        match sym::choice(7, "op") {
            0 => {
                let c = w.up(&[0, 1]);
                let service_cookie = w.any_svc();
                let serial = sym::u32("serial");
                let value = val(sym::u8("arg"));
                let function = sym::u32("function");
                if w.version[c] >= 19 {
                    let version = if sym::bool("has version") { Some(sym::u32("version")) } else { None };
                    w.step(c, CallFunction2 { serial, service_cookie, function, version, value });
                } else {
                    w.step(c, CallFunction { serial, service_cookie, function, value });
                }
                serials.push(serial);
            }
            1 => {
                let n = if wild { usize::MAX } else { sym::choice(w.calls.len() + 1, "reply to") };
                let serial = if n < w.calls.len() { w.calls[n].callee_serial } else { sym::u32("reply serial") };
                let r = result(sym::choice(if n == 0 || wild { 6 } else { 1 }, "result") as u8, sym::u8("payload"));
                w.step(2, CallFunctionReply { serial, result: r });
            }
            2 => {
                // not the owner
                let c = w.up(&[0, 1]);
                let n = if wild { usize::MAX } else { sym::choice(w.calls.len() + 1, "reply to") };
                let serial = if n < w.calls.len() { w.calls[n].callee_serial } else { sym::u32("reply serial") };
                w.step(c, CallFunctionReply { serial, result: result(0, sym::u8("payload")) });
            }
            3 => {
                let c = w.up(&[0, 1]);
                let n = if wild { usize::MAX } else { sym::choice(serials.len() + 1, "abort") };
                let serial = if n < serials.len() { serials[n] } else { sym::u32("abort serial") };
                w.step(c, AbortFunctionCall { serial });
            }
            4 => {
                let serial = w.serial();
                let cookie = w.any_svc();
                w.step(2, DestroyService { serial, cookie });
            }
            5 => {
                let serial = w.serial();
                w.step(2, DestroyObject { serial, cookie: o });
            }
            _ => {
                let c = w.up(&[0, 1, 2]);
                w.disconnect(c, 1);
                if c == 2 {
                    sym::cover("owner gone");
                    return;
                }
            }
        }
        if !w.alive[2] {
            return;
        }
    }
    sym::cover("history done");
}

// ------------------------------------------------------------------- C03

pub fn c03(depth: usize, versions: &[u32], seeded: bool, wild: bool) {
    let mut w = World::new(P::C03, versions);
    w.wild = wild;
    let probe = versions.len() - 1;
    let users: Vec<usize> = (0..probe).collect();
    if seeded {
        let o = w.object(0, 0);
        w.service(0, o, 0);
    }
    for _ in 0..depth {
        let c = w.up(&users);
        let serial = w.serial();
        match sym::choice(5, "op") {
            0 => {
                w.step(c, CreateObject { serial, uuid: w.obj_id(2) });
            }
            1 => {
                let cookie = w.any_obj();
                w.step(c, DestroyObject { serial, cookie });
            }
            2 => {
                let object_cookie = w.any_obj();
                let uuid = w.svc_id(2);
                // its encoding splits into cases by magnitude
                let version = if wild { sym::u32("version") } else { serial };
                if w.version[c] < 17 {
                    w.step(c, CreateService { serial, object_cookie, uuid, version });
                } else {
                    let mut i = ServiceInfo::new(version);
                    match sym::choice(3, "info") {
                        0 => {}
                        1 => i = i.set_type_id(TypeId(uuid.0)),
                        _ => i = i.set_subscribe_all(sym::bool("all")),
                    }
                    w.step(c, CreateService2 { serial, object_cookie, uuid, value: SerializedValue::serialize(i).unwrap() });
                }
            }
            3 => {
                let cookie = w.any_svc();
                w.step(c, DestroyService { serial, cookie });
            }
            _ => w.disconnect(c, sym::choice(3, "how")),
        }
    }
    // what is live, seen from another connection
    w.probe(probe);
    for i in 0..if wild { 0 } else { 2 } {
        let serial = w.serial();
        w.step(probe, CreateObject { serial, uuid: obj_uuid(i) });
    }
    sym::cover("history done");
}

impl World {
    /// asks for and tries to take everything that was ever there
    pub fn probe(&mut self, p: usize) {
        let mut ms: Vec<(usize, Message)> = vec![];
        for k in 0..self.svc_cookies.len() + 1 {
            let cookie = if k < self.svc_cookies.len() { self.svc_cookies[k] } else { ServiceCookie(bogus()) };
            let serial = self.serial();
            ms.push((p, QueryServiceVersion { serial, cookie }.into()));
            if self.version[p] >= 17 {
                ms.push((p, QueryServiceInfo { serial, cookie }.into()));
            }
            if self.version[p] >= 18 {
                ms.push((p, SubscribeService { serial, service_cookie: cookie }.into()));
            }
            ms.push((p, SubscribeEvent { serial: Some(serial), service_cookie: cookie, event: 1 }.into()));
            ms.push((p, CallFunction { serial, service_cookie: cookie, function: 1, value: val(0) }.into()));
            ms.push((p, DestroyService { serial, cookie }.into()));
        }
        for k in 0..self.obj_cookies.len() {
            let cookie = self.obj_cookies[k];
            let serial = self.serial();
            ms.push((p, CreateService { serial, object_cookie: cookie, uuid: svc_uuid(5), version: 1 }.into()));
            ms.push((p, DestroyObject { serial, cookie }.into()));
        }
        self.burst(ms);
    }
}

// ------------------------------------------------------------------- C04

pub fn c04(prop: P, depth: usize, versions: &[u32], subs: usize) {
    // 0, 1 subscribe; 2 owns and may subscribe
    let mut w = World::new(prop, versions);
    let o = w.object(2, 0);
    let s0 = w.service(2, o, 0);
    let s1 = w.service(2, o, 1);
    let svcs = [s0, s1];
    let ev = [sym::u32("event"), sym::u32("event")];
    for i in 0..subs {
        let serial = w.serial();
        w.step(i, SubscribeEvent { serial: Some(serial), service_cookie: s0, event: ev[0] });
    }
    for _ in 0..depth {
        let serial = w.serial();
        match sym::choice(10, "op") {
            0 => {
                let c = w.up(&[0, 1, 2]);
                let service_cookie = if c == 0 { w.pick(&svcs, "service") } else { s0 };
                let event = w.pick(&ev, "which");
                w.step(c, SubscribeEvent { serial: Some(serial), service_cookie, event });
            }
            1 => {
                let c = w.up(&[0, 1, 2]);
                let service_cookie = if c == 0 { w.pick(&svcs, "service") } else { s0 };
                let event = w.pick(&ev, "which");
                w.step(c, UnsubscribeEvent { service_cookie, event });
            }
            2 => {
                let c = w.up(&[0, 1, 2]);
                w.step(c, SubscribeAllEvents { serial: Some(serial), service_cookie: s0 });
            }
            3 => {
                let c = w.up(&[0, 1, 2]);
                w.step(c, UnsubscribeAllEvents { serial: if c == 0 { Some(serial) } else { None }, service_cookie: s0 });
            }
            4 => {
                let c = w.up(&[0, 1]);
                w.step(c, SubscribeService { serial, service_cookie: s0 });
            }
            5 => {
                let c = w.up(&[0, 1]);
                w.step(c, UnsubscribeService { service_cookie: s0 });
            }
            6 => {
                let c = if sym::choice(3, "emitter") < 2 { 2 } else { w.up(&[0]) };
                let service_cookie = w.pick(&svcs, "service");
                w.step(c, EmitEvent { service_cookie, event: sym::u32("emitted"), value: val(sym::u8("payload")) });
            }
            7 => {
                w.step(2, DestroyService { serial, cookie: s0 });
            }
            8 => {
                w.step(2, DestroyObject { serial, cookie: o });
            }
            _ => {
                let c = w.up(&[0, 1, 2]);
                w.disconnect(c, sym::choice(3, "how"));
                if c == 2 {
                    sym::cover("owner gone");
                    return;
                }
            }
        }
        if !w.alive[2] {
            return;
        }
    }
    // who receives what in the end
    for service_cookie in svcs {
        for event in ev {
            w.step(2, EmitEvent { service_cookie, event, value: val(3) });
        }
    }
    sym::cover("history done");
}

// ------------------------------------------------------------------- C05

pub fn c05(depth: usize, established: bool, caps: &[u32], wild: bool) {
    let mut w = World::new(P::C05, &[20, 20, 20]);
    w.wild = wild;
    let cap = |name: &str| if caps.is_empty() { sym::u32(name) } else { caps[sym::choice(caps.len(), name)] };
    if established {
        let k = match sym::choice(2, "first") {
            0 => {
                let k = w.channel(0, ChannelEndWithCapacity::Sender);
                let serial = w.serial();
                w.step(1, ClaimChannelEnd { serial, cookie: k, end: ChannelEndWithCapacity::Receiver(cap("capacity")) });
                k
            }
            _ => {
                let k = w.channel(1, ChannelEndWithCapacity::Receiver(cap("capacity")));
                let serial = w.serial();
                w.step(0, ClaimChannelEnd { serial, cookie: k, end: ChannelEndWithCapacity::Sender });
                k
            }
        };
        let _ = k;
    }
    for _ in 0..depth {
        let serial = w.serial();
        match sym::choice(6, "op") {
            0 => {
                if w.chan_cookies.len() == if established { 2 } else { 1 } {
                    sym::stop()
                }
                let end = if sym::bool("sender") { ChannelEndWithCapacity::Sender } else { ChannelEndWithCapacity::Receiver(cap("capacity")) };
                let c = w.up(&[0, 1]);
                w.channel(c, end);
            }
            1 => {
                let cookie = w.any_chan();
                let end = if sym::bool("sender") { ChannelEndWithCapacity::Sender } else { ChannelEndWithCapacity::Receiver(cap("capacity")) };
                let c = w.up(&[0, 1, 2]);
                w.step(c, ClaimChannelEnd { serial, cookie, end });
            }
            2 => {
                let cookie = w.any_chan();
                let end = if sym::bool("sender") { ChannelEnd::Sender } else { ChannelEnd::Receiver };
                let c = w.up(&[0, 1, 2]);
                w.step(c, CloseChannelEnd { serial, cookie, end });
            }
            3 => {
                let cookie = w.any_chan();
                let c = w.up(&[0, 1, 2]);
                w.step(c, AddChannelCapacity { cookie, capacity: cap("add") });
            }
            4 => {
                let cookie = w.any_chan();
                let c = w.up(&[0, 1, 2]);
                w.step(c, SendItem { cookie, value: val(sym::u8("item")) });
            }
            _ => {
                let c = w.up(&[0, 1, 2]);
                w.disconnect(c, sym::choice(3, "how"));
            }
        }
    }
    sym::cover("history done");
}

/// flow control: one established channel, only grants and items; everything
/// the sender sends within its credit arrives
pub fn c05_flow(depth: usize, from_receiver: bool, caps: &[u32], batch: usize) {
    let mut w = World::new(P::C05, &[20, 20]);
    let cap = |name: &str| if caps.is_empty() { sym::u32(name) } else { caps[sym::choice(caps.len(), name)] };
    let k;
    let serial = w.serial();
    if from_receiver {
        k = w.channel(1, ChannelEndWithCapacity::Receiver(cap("capacity")));
        if sym::bool("grant before claim") {
            w.step(1, AddChannelCapacity { cookie: k, capacity: cap("add") });
        }
        w.step(0, ClaimChannelEnd { serial, cookie: k, end: ChannelEndWithCapacity::Sender });
    } else {
        k = w.channel(0, ChannelEndWithCapacity::Sender);
        w.step(1, ClaimChannelEnd { serial, cookie: k, end: ChannelEndWithCapacity::Receiver(cap("capacity")) });
    }
    for _ in 0..depth {
        if sym::bool("grant") {
            w.step(1, AddChannelCapacity { cookie: k, capacity: cap("add") });
        } else {
            // a batch the broker finds in its queue at once
            let n = 1 + sym::choice(batch, "batch");
            if let Some(h) = w.chans.first() {
                if n > 1 && h.sent + n as u64 > h.announced {
                    continue;
                }
            }
            let items = (0..n).map(|i| (0, SendItem { cookie: k, value: val(i as u8) }.into())).collect();
            w.burst(items);
        }
    }
    sym::cover("flow done");
}

// ------------------------------------------------------------------- C10

fn filter(i: usize) -> BusListenerFilter {
    match i {
        0 => BusListenerFilter::any_object(),
        1 => BusListenerFilter::object(obj_uuid(0)),
        2 => BusListenerFilter::any_object_any_service(),
        3 => BusListenerFilter::specific_object_any_service(obj_uuid(0)),
        4 => BusListenerFilter::any_object_specific_service(svc_uuid(0)),
        5 => BusListenerFilter::specific_object_and_service(obj_uuid(0), svc_uuid(0)),
        6 => BusListenerFilter::object(obj_uuid(1)),
        _ => BusListenerFilter::specific_object_and_service(obj_uuid(0), svc_uuid(1)),
    }
}

/// any filter there is
pub fn any_filter() -> BusListenerFilter {
    let o = if sym::bool("object given") { Some(ObjectUuid(any_uuid("filter object"))) } else { None };
    if sym::bool("object filter") {
        return BusListenerFilter::Object(o);
    }
    let service = if sym::bool("service given") { Some(ServiceUuid(any_uuid("filter service"))) } else { None };
    BusListenerFilter::Service(BusListenerServiceFilter { object: o, service })
}

pub fn scope(i: usize) -> BusListenerScope {
    match i {
        0 => BusListenerScope::Current,
        1 => BusListenerScope::New,
        _ => BusListenerScope::All,
    }
}

/// filter bookkeeping and the enumeration of what exists
pub fn c10_current(edits: usize, wild: bool) {
    let mut w = World::new(P::C10, &[20, 20]);
    // what exists
    let n = sym::choice(3, "objects");
    for i in 0..n {
        let o = w.object(1, i);
        match sym::choice(3, "services") {
            0 => {}
            1 => {
                w.service(1, o, 0);
            }
            _ => {
                w.service(1, o, 0);
                w.service(1, o, 1);
            }
        }
    }
    let k = w.listener(0);
    for _ in 0..edits {
        match sym::choice(3, "edit") {
            0 => {
                let f = if wild { any_filter() } else { filter(sym::choice(8, "filter")) };
                w.step(0, AddBusListenerFilter { cookie: k, filter: f });
            }
            1 => {
                let f = if wild { any_filter() } else { filter(sym::choice(8, "filter")) };
                w.step(0, RemoveBusListenerFilter { cookie: k, filter: f });
            }
            _ => {
                w.step(0, ClearBusListenerFilters { cookie: k });
            }
        }
    }
    let serial = w.serial();
    w.step(0, StartBusListener { serial, cookie: k, scope: scope(sym::choice(3, "scope")) });
    sym::cover("started");
}

/// new entities, several listeners
pub fn c10_new(depth: usize, listeners: usize, wild: bool) {
    let mut w = World::new(P::C10, &[20, 20]);
    w.wild = wild;
    for _ in 0..listeners {
        let k = w.listener(0);
        let f = if wild { any_filter() } else { filter(sym::choice(6, "filter")) };
        w.step(0, AddBusListenerFilter { cookie: k, filter: f });
        let serial = w.serial();
        w.step(0, StartBusListener { serial, cookie: k, scope: scope(1 + sym::choice(2, "scope")) });
    }
    for _ in 0..depth {
        let serial = w.serial();
        match sym::choice(6, "op") {
            0 => {
                let c = w.up(&[0, 1]);
                w.step(c, CreateObject { serial, uuid: w.obj_id(2) });
            }
            1 => {
                if w.objs.is_empty() {
                    continue;
                }
                let i = sym::choice(w.objs.len(), "object");
                let (c, cookie) = (w.objs[i].owner, w.objs[i].cookie);
                w.step(c, DestroyObject { serial, cookie });
            }
            2 => {
                if w.objs.is_empty() {
                    continue;
                }
                let i = sym::choice(w.objs.len(), "object");
                let (c, object_cookie) = (w.objs[i].owner, w.objs[i].cookie);
                w.step(c, CreateService { serial, object_cookie, uuid: w.svc_id(2), version: 1 });
            }
            3 => {
                if w.svcs.is_empty() {
                    continue;
                }
                let i = sym::choice(w.svcs.len(), "service");
                let (c, cookie) = (w.svcs[i].owner, w.svcs[i].cookie);
                w.step(c, DestroyService { serial, cookie });
            }
            4 => {
                let cookie = w.lis_cookies[sym::choice(w.lis_cookies.len(), "listener")];
                match sym::choice(4, "listener op") {
                    0 => {
                        w.step(0, StopBusListener { serial, cookie });
                    }
                    1 => {
                        w.step(0, DestroyBusListener { serial, cookie });
                    }
                    2 => {
                        w.step(0, StartBusListener { serial, cookie, scope: scope(sym::choice(3, "scope")) });
                    }
                    _ => {
                        w.step(0, ClearBusListenerFilters { cookie });
                    }
                }
            }
            _ => {
                if w.alive[1] {
                    w.disconnect(1, sym::choice(3, "how"));
                }
            }
        }
    }
    sym::cover("history done");
}

/// listeners of others cannot be touched
pub fn c10_foreign(depth: usize, wild: bool) {
    let mut w = World::new(P::C10, &[20, 20]);
    w.wild = wild;
    let o = w.object(1, 0);
    w.service(1, o, 0);
    for c in 0..2 {
        let k = w.listener(c);
        w.step(c, AddBusListenerFilter { cookie: k, filter: filter(0) });
    }
    for _ in 0..depth {
        let serial = w.serial();
        let c = w.up(&[0, 1]);
        let cookie = w.any_lis();
        match sym::choice(8, "op") {
            0 => {
                w.step(c, StartBusListener { serial, cookie, scope: scope(sym::choice(3, "scope")) });
            }
            1 => {
                w.step(c, StopBusListener { serial, cookie });
            }
            2 => {
                w.step(c, DestroyBusListener { serial, cookie });
            }
            3 => {
                w.step(c, AddBusListenerFilter { cookie, filter: filter(2) });
            }
            4 => {
                w.step(c, RemoveBusListenerFilter { cookie, filter: filter(0) });
            }
            5 => {
                w.step(c, ClearBusListenerFilters { cookie });
            }
            6 => {
                w.step(c, CreateObject { serial, uuid: obj_uuid(1) });
            }
            _ => {
                w.disconnect(c, sym::choice(3, "how"));
            }
        }
    }
    sym::cover("history done");
}

// ------------------------------------------------------------------- C09

/// state in which connections `a` and `b` depend on each other in every way the
/// selected features say
pub fn entangle(w: &mut World, features: &[usize], a: usize, b: usize) {
    let has = |f: usize| features.contains(&f);
    if has(0) || has(1) || has(2) || has(3) || has(4) || has(8) {
        let o = w.object(a, 0);
        let s = w.service(a, o, 0);
        let serial = w.serial();
        if has(1) {
            w.step(b, SubscribeEvent { serial: Some(serial), service_cookie: s, event: 1 });
            w.step(b, SubscribeEvent { serial: Some(serial), service_cookie: s, event: 2 });
            w.step(a, SubscribeEvent { serial: Some(serial), service_cookie: s, event: 2 });
        }
        if has(2) && w.version[b] >= 18 {
            w.step(b, SubscribeAllEvents { serial: Some(serial), service_cookie: s });
        }
        if has(3) && w.version[b] >= 18 {
            w.step(b, SubscribeService { serial, service_cookie: s });
        }
        if has(4) {
            w.step(b, CallFunction { serial: 7, service_cookie: s, function: 1, value: val(1) });
        }
        if has(8) {
            // it calls itself, and the call is taken back
            w.step(a, CallFunction { serial: 7, service_cookie: s, function: 1, value: val(1) });
            w.step(b, CallFunction { serial: 9, service_cookie: s, function: 1, value: val(1) });
            if w.version[b] >= 16 {
                w.step(b, AbortFunctionCall { serial: 9 });
            }
        }
    }
    if has(5) {
        let serial = w.serial();
        let k = w.channel(a, ChannelEndWithCapacity::Sender);
        w.step(b, ClaimChannelEnd { serial, cookie: k, end: ChannelEndWithCapacity::Receiver(3) });
    }
    if has(6) {
        w.channel(a, ChannelEndWithCapacity::Sender);
        let serial = w.serial();
        let k = w.channel(a, ChannelEndWithCapacity::Receiver(1));
        w.step(a, ClaimChannelEnd { serial, cookie: k, end: ChannelEndWithCapacity::Sender });
    }
    if has(7) {
        for c in [a, b] {
            let k = w.listener(c);
            w.step(c, AddBusListenerFilter { cookie: k, filter: filter(0) });
            w.step(c, AddBusListenerFilter { cookie: k, filter: filter(2) });
            let serial = w.serial();
            w.step(c, StartBusListener { serial, cookie: k, scope: scope(2) });
        }
    }
}

/// every way for connections to end in every selection of `of` features
pub fn c09_ends(versions: &[u32], of: usize, join: bool) {
    let mut w = World::new(P::C09, versions);
    w.loud = false;
    let mut fs = vec![];
    for f in 0..of {
        if sym::bool("feature") {
            fs.push(f);
        }
    }
    entangle(&mut w, &fs, 0, 1);
    w.audit();
    w.loud = true;
    let n = versions.len();
    for _ in 0..2 {
        let c = w.up(&[0, 1]);
        w.disconnect(c, sym::choice(4, "how"));
        w.audit();
        if join {
            let x = w.join(20);
            w.quiet();
            w.audit();
            w.disconnect(x, 0);
            w.audit();
        }
    }
    for c in 2..n {
        w.disconnect(c, 0);
    }
    w.audit_empty();
    w.net.shutdown_idle();
    w.net.settle();
    sym::check(w.net.broker.done(), "idle shutdown does not complete");
    sym::cover("idle shutdown");
}

/// the broker notices by itself that a connection's task is gone
pub fn c09_dropped() {
    let mut w = World::new(P::C09, &[20, 20]);
    w.loud = false;
    let mut fs = vec![];
    for f in [0, 5, 7] {
        if sym::bool("feature") {
            fs.push(f);
        }
    }
    entangle(&mut w, &fs, 0, 1);
    w.net.drop_task(0);
    w.net.settle();
    let Some(n) = w.net.snapshot() else { sym::stop() };
    sym::cover("dropped");
    sym::check(n.conns == 1, "a connection whose task was dropped is not released until the broker sends to it");
    sym::stop()
}

/// the broker notices because of what another connection asks for
pub fn c09_lazy(versions: &[u32]) {
    let mut w = World::new(P::C09, versions);
    w.loud = false;
    let mut fs = vec![];
    for f in 0..8 {
        if sym::bool("feature") {
            fs.push(f);
        }
    }
    entangle(&mut w, &fs, 0, 1);
    w.audit();
    w.loud = true;
    w.net.drop_task(0);
    w.net.settle();
    let serial = w.serial();
    let svc = w.svc_cookies.first().copied().unwrap_or(ServiceCookie(bogus()));
    let chan = w.chan_cookies.first().copied().unwrap_or(ChannelCookie(bogus()));
    let m: Message = match sym::choice(11, "op") {
        0 => CallFunction { serial: 50, service_cookie: svc, function: 1, value: val(1) }.into(),
        1 => SubscribeEvent { serial: Some(serial), service_cookie: svc, event: 9 }.into(),
        2 => UnsubscribeEvent { service_cookie: svc, event: 1 }.into(),
        3 if versions[1] >= 18 => SubscribeAllEvents { serial: Some(serial), service_cookie: svc }.into(),
        4 if versions[1] >= 18 => UnsubscribeAllEvents { serial: Some(serial), service_cookie: svc }.into(),
        5 => CloseChannelEnd { serial, cookie: chan, end: ChannelEnd::Receiver }.into(),
        6 => ClaimChannelEnd { serial, cookie: chan, end: ChannelEndWithCapacity::Receiver(1) }.into(),
        7 => AddChannelCapacity { cookie: chan, capacity: 9 }.into(),
        8 if versions[1] >= 16 => AbortFunctionCall { serial: 7 }.into(),
        9 => CreateObject { serial, uuid: obj_uuid(3) }.into(),
        10 => Shutdown.into(),
        _ => sym::stop(),
    };
    w.net.send(1, m.clone());
    w.net.settle();
    let Some(n) = w.net.snapshot() else { sym::check(false, "broker does not answer a snapshot request"); sym::stop() };
    let before = w.alive.iter().filter(|a| **a).count() - matches!(m, Message::Shutdown(_)) as usize;
    let noticed = n.conns < before;
    if !noticed {
        w.net.force(0);
        w.net.settle();
    }
    w.collect();
    w.apply(1, &m);
    w.remove_conn(0);
    w.compare();
    w.audit();
    if noticed {
        sym::cover("noticed");
    }
    for c in 1..versions.len() {
        if w.alive[c] {
            w.disconnect(c, sym::choice(2, "how"));
        }
    }
    w.audit_empty();
}

/// a connection ends while requests of it are still in the broker's queue
pub fn c09_queued(n: usize, features: &[usize]) {
    let mut w = World::new(P::C09, &[20, 20, 20]);
    entangle(&mut w, features, 0, 1);
    // something of each sort that stays
    w.object(2, 5);
    w.channel(2, ChannelEndWithCapacity::Sender);
    w.listener(2);
    w.loud = false;
    for _ in 0..n {
        let m = crate::abuse::message(sym::choice(crate::abuse::KINDS, "kind"));
        w.net.send(0, m);
        w.net.pump(0);
    }
    match sym::choice(4, "end") {
        0 => w.net.drop_noticed(0),
        1 => {
            w.net.fail(0);
            w.net.pump(0);
        }
        2 => {
            w.net.send(0, Shutdown);
            w.net.pump(0);
        }
        _ => {
            w.net.force(0);
            w.net.send(0, Shutdown);
        }
    }
    w.net.settle();
    sym::check(w.net.conns[0].closed(), "connection does not end");
    w.counters();
    w.collect();
    w.remove_conn(0);
    w.compare();
    for c in [1, 2] {
        w.net.fail(c);
        w.net.settle();
        w.collect();
        w.remove_conn(c);
        w.compare();
        w.counters();
    }
    w.audit_empty();
    w.net.shutdown_idle();
    w.net.settle();
    sym::check(w.net.broker.done(), "idle shutdown does not complete");
    sym::cover("idle shutdown");
}

/// the broker shuts down, now or as soon as it is idle
pub fn c09_shutdown(versions: &[u32], of: usize) {
    let mut w = World::new(P::C09, versions);
    w.loud = false;
    let mut fs = vec![];
    for f in 0..of {
        if sym::bool("feature") {
            fs.push(f);
        }
    }
    entangle(&mut w, &fs, 0, 1);
    // something may still be in the broker's queue
    if sym::bool("queued") {
        let serial = w.serial();
        w.net.send(0, CreateObject { serial, uuid: obj_uuid(7) });
        w.net.pump(0);
    }
    w.collect();
    let n = versions.len();
    if sym::bool("now") {
        w.net.shutdown();
        w.net.settle();
        sym::check(w.net.broker.done(), "broker does not terminate");
        for c in 0..n {
            let told = w.net.take(c).iter().filter(|m| matches!(m, Message::Shutdown(_))).count();
            sym::check(told == 1, "connection is not told once that the broker shuts down");
            w.net.send(c, Shutdown);
            w.net.settle();
            sym::check(w.net.conns[c].task.done(), "connection outlives the broker");
            sym::check(w.net.conns[c].result.get() == Some(true), "connection reports an error after an orderly shutdown");
        }
        sym::cover("shutdown");
        return;
    }
    w.net.shutdown_idle();
    w.net.settle();
    for c in 0..n {
        sym::check(!w.net.broker.done(), "idle shutdown while there are connections");
        sym::check(!w.net.conns[c].closed(), "idle shutdown closes a connection");
        let how = sym::choice(3, "how");
        match how {
            0 => w.net.send(c, Shutdown),
            1 => w.net.fail(c),
            _ => {
                w.net.force(c);
                w.net.send(c, Shutdown);
            }
        }
        w.net.settle();
        sym::check(w.net.conns[c].task.done(), "connection does not end");
        sym::check(w.net.conns[c].result.get() == Some(how != 1), "connection ends with the wrong result");
    }
    sym::check(w.net.broker.done(), "idle shutdown does not complete");
    sym::cover("idle shutdown");
}

impl World {
    /// what is published is what is there
    pub fn counters(&mut self) {
        let (Some(st), Some(n)) = (self.net.stats(), self.net.snapshot()) else {
            sym::check(false, "broker does not answer a statistics request");
            sym::stop()
        };
        sym::check(st.num_connections() == n.conns, "connection counter is wrong");
        sym::check(st.num_objects() == n.objs, "object counter is wrong");
        sym::check(st.num_services() == n.svcs, "service counter is wrong");
        sym::check(st.num_channels() == n.channels, "channel counter is wrong");
        sym::check(st.num_bus_listeners() == n.bus_listeners, "bus listener counter is wrong");
        if let Some(w) = n.inconsistent {
            sym::check(false, w);
        }
    }
}

/// ordinary histories, looked into after every step
pub fn c09_hist(depth: usize, versions: &[u32]) {
    let mut w = World::new(P::C09, versions);
    for _ in 0..depth {
        let serial = w.serial();
        let c = w.up(&[0, 1]);
        match sym::choice(13, "op") {
            0 => {
                w.step(c, CreateObject { serial, uuid: w.obj_id(1) });
            }
            1 => {
                let cookie = w.any_obj();
                w.step(c, DestroyObject { serial, cookie });
            }
            2 => {
                let object_cookie = w.any_obj();
                let info = ServiceInfo::new(1).set_subscribe_all(true);
                if versions[c] >= 17 {
                    w.step(c, CreateService2 { serial, object_cookie, uuid: svc_uuid(0), value: SerializedValue::serialize(info).unwrap() });
                } else {
                    w.step(c, CreateService { serial, object_cookie, uuid: svc_uuid(0), version: 1 });
                }
            }
            3 => {
                let cookie = w.any_svc();
                w.step(c, DestroyService { serial, cookie });
            }
            4 => {
                let end = if sym::bool("sender") { ChannelEndWithCapacity::Sender } else { ChannelEndWithCapacity::Receiver(2) };
                w.step(c, CreateChannel { serial, end });
            }
            5 => {
                let cookie = w.any_chan();
                let end = if sym::bool("sender") { ChannelEndWithCapacity::Sender } else { ChannelEndWithCapacity::Receiver(2) };
                w.step(c, ClaimChannelEnd { serial, cookie, end });
            }
            6 => {
                let cookie = w.any_chan();
                let end = if sym::bool("sender") { ChannelEnd::Sender } else { ChannelEnd::Receiver };
                w.step(c, CloseChannelEnd { serial, cookie, end });
            }
            7 => {
                let cookie = w.any_chan();
                w.step(c, SendItem { cookie, value: val(1) });
            }
            8 => {
                w.step(c, CreateBusListener { serial });
            }
            9 => {
                let cookie = w.any_lis();
                w.step(c, DestroyBusListener { serial, cookie });
            }
            10 => {
                let service_cookie = w.any_svc();
                match sym::choice(3, "sub") {
                    0 => w.step(c, SubscribeEvent { serial: Some(serial), service_cookie, event: 1 }),
                    1 if versions[c] >= 18 => w.step(c, SubscribeAllEvents { serial: Some(serial), service_cookie }),
                    _ if versions[c] >= 18 => w.step(c, SubscribeService { serial, service_cookie }),
                    _ => sym::stop(),
                };
            }
            11 => {
                let service_cookie = w.any_svc();
                w.step(c, CallFunction { serial, service_cookie, function: 1, value: val(1) });
            }
            _ => w.disconnect(c, sym::choice(4, "how")),
        }
        w.audit();
    }
    sym::cover("history done");
}

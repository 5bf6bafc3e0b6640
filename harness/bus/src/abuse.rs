//! C11: whatever one connection sends, the others are served.
use crate::hist::*;
use crate::model::*;
use aldrin_core::message::*;
use aldrin_core::*;
use std::collections::HashSet;

pub const KINDS: usize = 63;

/// any message of kind `k` with symbolic identifiers, serials and numbers
pub fn message(k: usize) -> Message {
    let serial = sym::u32("serial");
    let o = || ObjectCookie(any_uuid("object cookie"));
    let s = || ServiceCookie(any_uuid("service cookie"));
    let h = || ChannelCookie(any_uuid("channel cookie"));
    let l = || BusListenerCookie(any_uuid("listener cookie"));
    let ou = || ObjectUuid(any_uuid("object uuid"));
    let su = || ServiceUuid(any_uuid("service uuid"));
    let t = || TypeId(any_uuid("type id"));
    let value = val(sym::u8("payload"));
    let ev = || sym::u32("event");
    let end = || if sym::bool("sender") { ChannelEnd::Sender } else { ChannelEnd::Receiver };
    let endc = || if sym::bool("sender") { ChannelEndWithCapacity::Sender } else { ChannelEndWithCapacity::Receiver(sym::u32("capacity")) };
    let maybe = || if sym::bool("with serial") { Some(sym::u32("serial")) } else { None };
    match k {
        0 => Connect { version: sym::u32("version"), value }.into(),
        1 => ConnectReply::Ok(value).into(),
        2 => Shutdown.into(),
        3 => CreateObject { serial, uuid: ou() }.into(),
        4 => CreateObjectReply { serial, result: CreateObjectResult::Ok(o()) }.into(),
        5 => DestroyObject { serial, cookie: o() }.into(),
        6 => DestroyObjectReply { serial, result: DestroyObjectResult::Ok }.into(),
        7 => CreateService { serial, object_cookie: o(), uuid: su(), version: sym::u32("version") }.into(),
        8 => CreateServiceReply { serial, result: CreateServiceResult::Ok(s()) }.into(),
        9 => DestroyService { serial, cookie: s() }.into(),
        10 => DestroyServiceReply { serial, result: DestroyServiceResult::Ok }.into(),
        11 => CallFunction { serial, service_cookie: s(), function: ev(), value }.into(),
        12 => {
            let result = match sym::choice(6, "result") {
                0 => CallFunctionResult::Ok(value),
                1 => CallFunctionResult::Err(value),
                2 => CallFunctionResult::Aborted,
                3 => CallFunctionResult::InvalidService,
                4 => CallFunctionResult::InvalidFunction,
                _ => CallFunctionResult::InvalidArgs,
            };
            CallFunctionReply { serial, result }.into()
        }
        13 => SubscribeEvent { serial: maybe(), service_cookie: s(), event: ev() }.into(),
        14 => SubscribeEventReply { serial, result: SubscribeEventResult::Ok }.into(),
        15 => UnsubscribeEvent { service_cookie: s(), event: ev() }.into(),
        16 => EmitEvent { service_cookie: s(), event: ev(), value }.into(),
        17 => QueryServiceVersion { serial, cookie: s() }.into(),
        18 => QueryServiceVersionReply { serial, result: QueryServiceVersionResult::InvalidService }.into(),
        19 => CreateChannel { serial, end: endc() }.into(),
        20 => CreateChannelReply { serial, cookie: h() }.into(),
        21 => CloseChannelEnd { serial, cookie: h(), end: end() }.into(),
        22 => CloseChannelEndReply { serial, result: CloseChannelEndResult::Ok }.into(),
        23 => ChannelEndClosed { cookie: h(), end: end() }.into(),
        24 => ClaimChannelEnd { serial, cookie: h(), end: endc() }.into(),
        25 => ClaimChannelEndReply { serial, result: ClaimChannelEndResult::ReceiverClaimed }.into(),
        26 => ChannelEndClaimed { cookie: h(), end: endc() }.into(),
        27 => SendItem { cookie: h(), value }.into(),
        28 => ItemReceived { cookie: h(), value }.into(),
        29 => AddChannelCapacity { cookie: h(), capacity: sym::u32("capacity") }.into(),
        30 => Sync { serial }.into(),
        31 => SyncReply { serial }.into(),
        32 => ServiceDestroyed { service_cookie: s() }.into(),
        33 => CreateBusListener { serial }.into(),
        34 => CreateBusListenerReply { serial, cookie: l() }.into(),
        35 => DestroyBusListener { serial, cookie: l() }.into(),
        36 => DestroyBusListenerReply { serial, result: DestroyBusListenerResult::Ok }.into(),
        37 => AddBusListenerFilter { cookie: l(), filter: any_filter() }.into(),
        38 => RemoveBusListenerFilter { cookie: l(), filter: any_filter() }.into(),
        39 => ClearBusListenerFilters { cookie: l() }.into(),
        40 => StartBusListener { serial, cookie: l(), scope: scope(sym::choice(3, "scope")) }.into(),
        41 => StartBusListenerReply { serial, result: StartBusListenerResult::Ok }.into(),
        42 => StopBusListener { serial, cookie: l() }.into(),
        43 => StopBusListenerReply { serial, result: StopBusListenerResult::Ok }.into(),
        44 => EmitBusEvent { cookie: if sym::bool("tagged") { Some(l()) } else { None }, event: BusEvent::ObjectCreated(ObjectId::new(ou(), o())) }.into(),
        45 => BusListenerCurrentFinished { cookie: l() }.into(),
        46 => Connect2 { major_version: sym::u32("major"), minor_version: sym::u32("minor"), value }.into(),
        47 => ConnectReply2 { result: ConnectResult::Rejected, value }.into(),
        48 => AbortFunctionCall { serial }.into(),
        49 => {
            let value = match sym::choice(3, "types") {
                0 => val(1),
                1 => SerializedValue::serialize(HashSet::<TypeId>::new()).unwrap(),
                _ => SerializedValue::serialize(HashSet::from([TypeId(any_uuid("type id"))])).unwrap(),
            };
            RegisterIntrospection { value }.into()
        }
        50 => QueryIntrospection { serial, type_id: t() }.into(),
        51 => {
            let result = if sym::bool("available") { QueryIntrospectionResult::Ok(value) } else { QueryIntrospectionResult::Unavailable };
            QueryIntrospectionReply { serial, result }.into()
        }
        52 => {
            let value = match sym::choice(2, "info") {
                0 => val(1),
                _ => SerializedValue::serialize(ServiceInfo::new(3).set_subscribe_all(sym::bool("all"))).unwrap(),
            };
            CreateService2 { serial, object_cookie: o(), uuid: su(), value }.into()
        }
        53 => QueryServiceInfo { serial, cookie: s() }.into(),
        54 => QueryServiceInfoReply { serial, result: QueryServiceInfoResult::InvalidService }.into(),
        55 => SubscribeService { serial, service_cookie: s() }.into(),
        56 => SubscribeServiceReply { serial, result: SubscribeServiceResult::Ok }.into(),
        57 => UnsubscribeService { service_cookie: s() }.into(),
        58 => SubscribeAllEvents { serial: maybe(), service_cookie: s() }.into(),
        59 => SubscribeAllEventsReply { serial, result: SubscribeAllEventsResult::Ok }.into(),
        60 => UnsubscribeAllEvents { serial: maybe(), service_cookie: s() }.into(),
        61 => UnsubscribeAllEventsReply { serial, result: UnsubscribeAllEventsResult::Ok }.into(),
        _ => CallFunction2 { serial, service_cookie: s(), function: ev(), version: if sym::bool("versioned") { Some(1) } else { None }, value }.into(),
    }
}

impl World {
    /// two well-behaved connections still get all they ask for
    pub fn serve(&mut self, a: usize, b: usize) {
        let serial = self.serial();
        self.step(a, Sync { serial });
        let i = (9..14).find(|i| !self.objs.iter().any(|o| o.uuid == obj_uuid(*i))).unwrap();
        let o = self.object(a, i);
        let s = self.service(a, o, 9);
        let serial = self.serial();
        self.step(b, SubscribeEvent { serial: Some(serial), service_cookie: s, event: 4 });
        self.step(a, EmitEvent { service_cookie: s, event: 4, value: val(1) });
        self.step(b, CallFunction { serial: 800, service_cookie: s, function: 1, value: val(2) });
        let k = self.calls.last().unwrap().callee_serial;
        self.step(a, CallFunctionReply { serial: k, result: CallFunctionResult::Ok(val(3)) });
        let h = self.channel(a, ChannelEndWithCapacity::Sender);
        let serial = self.serial();
        self.step(b, ClaimChannelEnd { serial, cookie: h, end: ChannelEndWithCapacity::Receiver(2) });
        self.step(a, SendItem { cookie: h, value: val(4) });
        let serial = self.serial();
        self.step(a, DestroyObject { serial, cookie: o });
        self.step(b, CloseChannelEnd { serial, cookie: h, end: ChannelEnd::Receiver });
        sym::cover("served");
    }
}

/// connection 0 sends `n` arbitrary messages in a bus where 0 and 1 (or 1 and
/// 2) are entangled
pub fn c11_abuse(n: usize, versions: &[u32], features: &[usize], between: (usize, usize)) {
    let mut w = World::new(P::C11, versions);
    entangle(&mut w, features, between.0, between.1);
    for _ in 0..n {
        if !w.alive[0] {
            sym::stop()
        }
        let m = message(sym::choice(KINDS, "kind"));
        w.step(0, m);
    }
    w.serve(1, 2);
}

/// several messages at once in the broker's queue, the last ones possibly of
/// a connection that is gone
pub fn c11_burst(n: usize, features: &[usize]) {
    let mut w = World::new(P::C11, &[20, 20, 20]);
    entangle(&mut w, features, 0, 1);
    w.loud = false;
    for _ in 0..n {
        let m = message(sym::choice(KINDS, "kind"));
        w.net.send(0, m);
        w.net.pump(0);
    }
    match sym::choice(3, "end") {
        0 => w.net.drop_noticed(0),
        1 => {
            w.net.fail(0);
            w.net.pump(0);
        }
        _ => {}
    }
    w.net.settle();
    // what the abuser did is not followed in detail: it leaves, and the
    // others must still be served
    if !w.net.conns[0].closed() {
        w.net.fail(0);
        w.net.settle();
    }
    w.collect();
    w.remove_conn(0);
    w.compare();
    w.settle_capacity();
    w.loud = true;
    w.serve(1, 2);
}

// ---------------------------------------------------------- introspection

/// queries for introspection are answered as long as someone can answer
pub fn c11_introspection(n: usize, seeded: bool) {
    let mut w = World::new(P::C11, &[20, 20, 20]);
    let ty = [TypeId(uuid::Uuid::from_u128(0x5000)), TypeId(uuid::Uuid::from_u128(0x5001))];
    // who registered, who asked, who was asked (with the broker's serial), the known answer
    let mut reg: Vec<(usize, usize)> = vec![];
    let mut asked: Vec<(usize, usize, u32)> = vec![];
    let mut busy: Vec<(usize, usize, u32)> = vec![];
    let mut known: Vec<(usize, u8)> = vec![];
    let mut gone: Vec<usize> = vec![];
    let mut serial = 0;
    // what happens first: (connection, operation), all about type 0
    const SCRIPTS: [&[(usize, usize)]; 4] = [&[(0, 0), (1, 0), (2, 1)], &[(0, 0), (1, 0), (2, 0), (2, 1)], &[(0, 0), (2, 1), (1, 1)], &[(0, 0), (1, 0), (1, 1), (2, 1)]];
    let script: &[(usize, usize)] = if seeded { SCRIPTS[sym::choice(4, "start")] } else { &[] };
    for step in 0..script.len() + n {
        let scripted = script.get(step);
        let c = if let Some((c, _)) = scripted {
            *c
        } else {
            let v: Vec<usize> = (0..3).filter(|c| !gone.contains(c)).collect();
            if v.is_empty() {
                sym::stop()
            }
            v[sym::choice(v.len(), "conn")]
        };
        let t = if seeded { 0 } else { sym::choice(2, "type") };
        let mut want: Vec<(usize, u32, Option<u8>)> = vec![];
        match scripted.map_or_else(|| sym::choice(5, "op"), |s| s.1) {
            0 => {
                w.net.send(c, RegisterIntrospection { value: SerializedValue::serialize(HashSet::from([ty[t]])).unwrap() });
                if !reg.contains(&(t, c)) {
                    reg.push((t, c));
                }
            }
            1 => {
                serial += 1;
                w.net.send(c, QueryIntrospection { serial, type_id: ty[t] });
                if let Some((_, v)) = known.iter().find(|(k, _)| *k == t) {
                    want.push((c, serial, Some(*v)));
                } else if reg.iter().any(|(k, _)| *k == t) {
                    asked.push((t, c, serial));
                } else {
                    want.push((c, serial, None));
                }
            }
            2 | 3 => {
                // an answer, right or wrong
                let i = sym::choice(busy.len() + 1, "query");
                let s = if i < busy.len() { busy[i].2 } else { 77 };
                let v = if sym::bool("available") { Some(sym::choice(2, "payload") as u8) } else { None };
                let result = match v {
                    Some(v) => QueryIntrospectionResult::Ok(val(v)),
                    None => QueryIntrospectionResult::Unavailable,
                };
                w.net.send(c, QueryIntrospectionReply { serial: s, result });
                if i < busy.len() && busy[i].1 == c {
                    let (k, _, _) = busy.remove(i);
                    match v {
                        Some(v) => {
                            known.push((k, v));
                            asked.retain(|(j, a, s)| {
                                if *j == k {
                                    want.push((*a, *s, Some(v)));
                                }
                                *j != k
                            });
                        }
                        None => {
                            // one that says it does not have what it itself
                            // registered and asks for is on its own
                            if asked.iter().any(|(j, a, _)| *j == k && *a == c) {
                                sym::stop()
                            }
                            reg.retain(|r| *r != (k, c))
                        }
                    }
                } else {
                    // misbehaviour: it may be closed for that
                    w.net.settle();
                    if w.net.conns[c].closed() {
                        leave(c, &mut gone, &mut reg, &mut asked, &mut busy, &mut known);
                    }
                }
            }
            _ => {
                match sym::choice(3, "how") {
                    0 => w.net.send(c, Shutdown),
                    1 => w.net.fail(c),
                    _ => w.net.drop_noticed(c),
                }
                leave(c, &mut gone, &mut reg, &mut asked, &mut busy, &mut known);
            }
        }
        w.net.settle();
        // whoever lost its last source is told so
        asked.retain(|(k, a, s)| {
            let lost = !reg.iter().any(|(j, _)| j == k);
            if lost {
                want.push((*a, *s, None));
            }
            !lost
        });
        for x in 0..3 {
            let got = w.net.take(x);
            if gone.contains(&x) {
                continue;
            }
            sym::check(!w.net.conns[x].closed(), "well-behaved connection closed");
            for m in got {
                match m {
                    Message::QueryIntrospection(q) => {
                        let k = (q.type_id == ty[1]) as usize;
                        sym::check(q.type_id == ty[k] && reg.contains(&(k, x)), "introspection asked from someone who does not have it");
                        sym::check(!busy.iter().any(|b| b.0 == k), "two introspection queries for one type at once");
                        busy.push((k, x, q.serial));
                    }
                    Message::QueryIntrospectionReply(r) => {
                        let v = match r.result {
                            QueryIntrospectionResult::Ok(v) => v.deserialize::<u8>().ok(),
                            QueryIntrospectionResult::Unavailable => None,
                        };
                        let i = want.iter().position(|q| *q == (x, r.serial, v));
                        sym::check(i.is_some(), "unexpected or wrong QueryIntrospectionReply");
                        if i.is_none() {
                            sym::stop()
                        }
                        want.remove(i.unwrap());
                    }
                    _ => sym::check(false, "unexpected message"),
                }
            }
        }
        sym::check(want.iter().all(|(x, _, _)| gone.contains(x)), "missing QueryIntrospectionReply");
        for (k, a, _) in &asked {
            let _ = a;
            sym::check(busy.iter().any(|b| b.0 == *k), "a pending introspection query is not being worked on");
        }
    }
    let residue = |w: &mut World, reg: &[(usize, usize)], busy: usize| {
        let types = (0..2).filter(|t| reg.iter().any(|(k, _)| k == t)).count();
        let (Some(st), Some(n)) = (w.net.stats(), w.net.snapshot()) else {
            sym::check(false, "broker does not answer a snapshot request");
            sym::stop()
        };
        sym::check(n.introspection == types && st.num_introspections() == types, "introspection that nobody provides is kept");
        sym::check(n.query_introspection == busy, "queries for introspection are kept");
    };
    residue(&mut w, &reg, busy.len());
    for c in 0..3 {
        if !gone.contains(&c) {
            w.net.send(c, Shutdown);
            w.net.settle();
        }
    }
    residue(&mut w, &[], 0);
    sym::cover("introspection history done");
}

fn leave(
    c: usize,
    gone: &mut Vec<usize>,
    reg: &mut Vec<(usize, usize)>,
    asked: &mut Vec<(usize, usize, u32)>,
    busy: &mut Vec<(usize, usize, u32)>,
    known: &mut Vec<(usize, u8)>,
) {
    gone.push(c);
    reg.retain(|r| r.1 != c);
    asked.retain(|r| r.1 != c);
    busy.retain(|r| r.1 != c);
    known.retain(|(k, _)| reg.iter().any(|(j, _)| j == k));
}

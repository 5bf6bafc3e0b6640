//! C12: versions. What the handshake agrees on, what each version may say and
//! is told, and that values mean the same at both ends. Also C11: payloads
//! that are no values.
use crate::abuse::*;
use crate::hist::*;
use crate::model::*;
use crate::net::*;
use crate::refc;
use aldrin_broker::Acceptor;
use aldrin_core::message::*;
use aldrin_core::*;

/// the oldest version with a message kind
pub fn since(m: &Message) -> u32 {
    use MessageKind::*;
    match m.kind() {
        Connect2 | ConnectReply2 => 15,
        AbortFunctionCall => 16,
        RegisterIntrospection | QueryIntrospection | QueryIntrospectionReply | CreateService2 | QueryServiceInfo | QueryServiceInfoReply => 17,
        SubscribeService | SubscribeServiceReply | UnsubscribeService | SubscribeAllEvents | SubscribeAllEventsReply | UnsubscribeAllEvents
        | UnsubscribeAllEventsReply => 18,
        CallFunction2 => 19,
        _ => 14,
    }
}

/// which versions the two must agree on
fn agreed(hello: &Message) -> Option<u32> {
    match hello {
        Message::Connect(m) if m.version == 14 => Some(14),
        Message::Connect2(m) if m.major_version == 1 && m.minor_version >= 14 => Some(m.minor_version.min(20)),
        _ => None,
    }
}

fn hello(user: &SerializedValue) -> Message {
    if sym::bool("legacy") {
        return Connect { version: sym::u32("version"), value: user.clone() }.into();
    }
    let d = ConnectData { user: Some(user.clone()) };
    Connect2 { major_version: sym::u32("major"), minor_version: sym::u32("minor"), value: SerializedValue::serialize(d).unwrap() }.into()
}

/// a value with a representation that newer and older peers write differently
pub fn modern() -> Value {
    match sym::choice(4, "value") {
        0 => Value::Vec(vec![Value::U8(sym::u8("u8")), Value::Bytes(Bytes(vec![1, sym::u8("u8")]))]),
        1 => refc::nest(3, 1, 1, &mut || Value::U32(sym::u32("u32"))),
        2 => refc::nest(4, 1, 1, &mut || refc::flat(5, 1, 1)),
        _ => Value::String("x".into()),
    }
}

fn means(v: &SerializedValueSlice, e: &Value, version: u32) {
    let ok = v.deserialize::<Value>().is_ok_and(|d| refc::same(&d, e));
    sym::check(ok, "a value does not arrive as what was sent");
    match refc::scan(v) {
        Some((n, _, modern)) => {
            sym::check(n == v.len(), "a value is followed by something");
            sym::check(version >= 20 || !modern, "an older peer gets a representation it does not know");
        }
        None => sym::check(false, "a value arrives malformed"),
    }
}

/// the first message of a connection, whatever it is
pub fn handshake() {
    let mut net = Net::new();
    let user = Value::U32(sym::u32("user"));
    let user_s = SerializedValue::serialize(&user).unwrap();
    let m = if sym::bool("hello") { hello(&user_s) } else { message(sym::choice(KINDS, "kind")) };
    let want = agreed(&m);
    let offers = matches!(m, Message::Connect(_) | Message::Connect2(_));
    let legacy = matches!(m, Message::Connect(_));
    // a request whose data is no connect data is nobody's fault here
    let sound = match &m {
        Message::Connect2(m) => m.value.deserialize::<ConnectData>().is_ok(),
        _ => true,
    };
    let (pipe, c) = net.open(m.clone());
    let told: Vec<Message> = pipe.borrow_mut().from_broker.drain(..).collect();
    if !offers || !sound {
        sym::check(c.is_none(), "connection established without a proper request");
        sym::cover("no handshake");
        return;
    }
    match want {
        None => {
            sym::check(c.is_none(), "connection established with an incompatible version");
            let ok = match (legacy, told.as_slice()) {
                (true, [Message::ConnectReply(ConnectReply::IncompatibleVersion(14))]) => true,
                (false, [Message::ConnectReply2(r)]) => r.result == ConnectResult::IncompatibleVersion && r.value.deserialize::<ConnectReplyData>().is_ok(),
                _ => false,
            };
            sym::check(ok, "client is not told that its version is incompatible");
            sym::cover("incompatible");
        }
        Some(v) => {
            let ok = match (legacy, told.as_slice()) {
                (true, [Message::ConnectReply(ConnectReply::Ok(_))]) => true,
                (false, [Message::ConnectReply2(r)]) => r.result == ConnectResult::Ok(v) && r.value.deserialize::<ConnectReplyData>().is_ok(),
                _ => false,
            };
            sym::check(ok, "client is told something else than the negotiated version");
            let Some(c) = c else {
                sym::check(false, "connection refused with a supported version");
                return;
            };
            // the broker acts by the negotiated version
            let k = net.add(pipe, c, v);
            net.send(k, AbortFunctionCall { serial: 1 });
            net.settle();
            sym::check(net.conns[k].closed() == (v < 16), "broker does not act by the negotiated version");
            if v >= 16 {
                net.send(k, QueryServiceInfo { serial: 1, cookie: ServiceCookie(bogus()) });
                net.settle();
                sym::check(net.conns[k].closed() == (v < 17), "broker does not act by the negotiated version");
            }
            if v >= 17 {
                net.send(k, SubscribeService { serial: 1, service_cookie: ServiceCookie(bogus()) });
                net.settle();
                sym::check(net.conns[k].closed() == (v < 18), "broker does not act by the negotiated version");
            }
            if v >= 18 {
                net.send(k, CallFunction2 { serial: 1, service_cookie: ServiceCookie(bogus()), function: 1, version: None, value: val(1) });
                net.settle();
                sym::check(net.conns[k].closed() == (v < 19), "broker does not act by the negotiated version");
            }
            sym::cover("connected");
        }
    }
}

/// data given with the request and with the answer
pub fn handshake_data() {
    let mut net = Net::new();
    let user = modern();
    let reply = modern();
    let user_s = SerializedValue::serialize(&user).unwrap();
    let reply_s = SerializedValue::serialize(&reply).unwrap();
    let legacy = sym::bool("legacy");
    let minor = 14 + sym::choice(8, "minor") as u32;
    let m: Message = if legacy {
        Connect { version: 14, value: user_s }.into()
    } else {
        let d = ConnectData { user: Some(user_s) };
        Connect2 { major_version: 1, minor_version: minor, value: SerializedValue::serialize(d).unwrap() }.into()
    };
    let v = if legacy { 14 } else { minor.min(20) };
    let pipe = std::rc::Rc::new(std::cell::RefCell::new(PipeState::default()));
    pipe.borrow_mut().to_broker.push_back(m);
    let p = Pipe(pipe.clone());
    let mut h = net.handle.as_ref().unwrap().clone();
    let accept = sym::bool("accept");
    let c = net.block(async move {
        let Ok(mut a) = Acceptor::new(p).await else { return None };
        sym::check(a.version() == ProtocolVersion::new(1, v), "wrong negotiated version");
        match a.client_data() {
            Some(d) => sym::check(d.deserialize::<Value>().is_ok_and(|d| refc::same(&d, &user)), "the client's data does not arrive"),
            None => sym::check(false, "the client's data does not arrive"),
        }
        a.set_reply_data(reply_s);
        if accept {
            Some(a.accept(&mut h).await.is_ok())
        } else {
            Some(a.reject().await.is_ok())
        }
    });
    sym::check(c.flatten() == Some(true), "handshake fails");
    let told: Vec<Message> = pipe.borrow_mut().from_broker.drain(..).collect();
    match (legacy, accept, told.as_slice()) {
        (true, true, [Message::ConnectReply(ConnectReply::Ok(d))]) | (true, false, [Message::ConnectReply(ConnectReply::Rejected(d))]) => {
            means(d, &reply, v)
        }
        (false, _, [Message::ConnectReply2(r)]) if r.result == (if accept { ConnectResult::Ok(v) } else { ConnectResult::Rejected }) => {
            let d = r.value.deserialize::<ConnectReplyData>();
            match d {
                Ok(ConnectReplyData { user: Some(d), .. }) => means(&d, &reply, v),
                _ => sym::check(false, "reply data does not arrive"),
            }
            sym::check(v >= 20 || refc::scan(&r.value).is_some_and(|s| !s.2), "an older peer gets a representation it does not know");
        }
        _ => sym::check(false, "wrong answer to the handshake"),
    }
    sym::cover("data exchanged");
}

/// every kind of message, from every version
pub fn gate(versions: &[u32], n: usize) {
    let a = versions[sym::choice(versions.len(), "version 0")];
    let b = versions[sym::choice(versions.len(), "version 1")];
    let mut w = World::new(P::C12, &[a, b, 20]);
    let fs: &[usize] = match sym::choice(3, "bus") {
        0 => &[],
        1 => &[0, 4, 5],
        _ => &[1, 2, 3, 4, 7],
    };
    let r = sym::bool("reversed");
    entangle(&mut w, fs, r as usize, 1 - r as usize);
    for _ in 0..n {
        if !w.alive[0] {
            break;
        }
        let m = message(sym::choice(KINDS, "kind"));
        let f = w.step(0, m.clone());
        if since(&m) > a && since(&m) != 15 {
            let _ = f;
            sym::check(w.net.conns[0].closed(), "connection stays open after a message its version does not have");
            sym::cover("closed for a newer message");
        }
    }
    if w.alive[1] {
        w.serve(1, 2);
    }
}

/// a value from one connection to another, of any two versions, along every way
pub fn payload(versions: &[u32], mut make: impl FnMut() -> Value) {
    let a = versions[sym::choice(versions.len(), "from")];
    let b = versions[sym::choice(versions.len(), "to")];
    let mut w = World::new(P::C12, &[a, b]);
    w.loud = false;
    let v = make();
    let s = {
        let mut s = SerializedValue::serialize(&v).unwrap();
        // a peer writes what its own version knows
        if s.convert(None, ProtocolVersion::new(1, a)).is_err() {
            sym::check(false, "value cannot be converted");
            sym::stop()
        }
        s
    };
    let way = sym::choice(7, "way");
    transport(&mut w, way, &s);
    sym::check(!w.net.conns[0].closed() && !w.net.conns[1].closed(), "connection closed because of a well-formed value");
    let got = w.net.take(1);
    let value = got.iter().find_map(|m| match m {
        Message::CallFunction(m) => Some(&m.value),
        Message::CallFunction2(m) => Some(&m.value),
        Message::CallFunctionReply(m) => match &m.result {
            CallFunctionResult::Ok(v) | CallFunctionResult::Err(v) => Some(v),
            _ => None,
        },
        Message::EmitEvent(m) => Some(&m.value),
        Message::ItemReceived(m) => Some(&m.value),
        Message::QueryIntrospectionReply(QueryIntrospectionReply { result: QueryIntrospectionResult::Ok(v), .. }) => Some(v),
        _ => None,
    });
    match value {
        Some(x) => means(x, &v, b),
        None => sym::check(false, "value does not arrive"),
    }
    for m in &got {
        sym::check(since(m) <= b, "a message kind newer than the connection's version");
    }
    sym::cover("arrived");
}

/// sends `s` from connection 0 to connection 1
fn transport(w: &mut World, way: usize, s: &SerializedValue) {
    let (a, b) = (w.version[0], w.version[1]);
    let value = s.clone();
    let m: Message = match way {
        0 | 1 => {
            let o = w.object(1, 0);
            let k = w.service(1, o, 0);
            if way == 1 && a >= 19 {
                CallFunction2 { serial: 1, service_cookie: k, function: 2, version: Some(3), value }.into()
            } else {
                CallFunction { serial: 1, service_cookie: k, function: 2, value }.into()
            }
        }
        2 | 3 => {
            let o = w.object(0, 0);
            let k = w.service(0, o, 0);
            w.step(1, CallFunction { serial: 1, service_cookie: k, function: 2, value: val(1) });
            let Some(c) = w.calls.last() else { sym::stop() };
            let serial = c.callee_serial;
            CallFunctionReply { serial, result: if way == 2 { CallFunctionResult::Ok(value) } else { CallFunctionResult::Err(value) } }.into()
        }
        4 => {
            let o = w.object(0, 0);
            let k = w.service(0, o, 0);
            w.step(1, SubscribeEvent { serial: Some(1), service_cookie: k, event: 3 });
            EmitEvent { service_cookie: k, event: 3, value }.into()
        }
        5 => {
            let k = w.channel(0, ChannelEndWithCapacity::Sender);
            w.step(1, ClaimChannelEnd { serial: 1, cookie: k, end: ChannelEndWithCapacity::Receiver(3) });
            SendItem { cookie: k, value }.into()
        }
        _ => {
            if a < 17 || b < 17 {
                sym::stop()
            }
            let ty = TypeId(uuid::Uuid::from_u128(0x5000));
            let types = SerializedValue::serialize(std::collections::HashSet::from([ty])).unwrap();
            w.net.send(0, RegisterIntrospection { value: types });
            w.net.settle();
            w.net.send(1, QueryIntrospection { serial: 1, type_id: ty });
            w.net.settle();
            let q = w.net.take(0).iter().find_map(|m| match m {
                Message::QueryIntrospection(m) => Some(m.serial),
                _ => None,
            });
            let Some(serial) = q else { sym::stop() };
            QueryIntrospectionReply { serial, result: QueryIntrospectionResult::Ok(value) }.into()
        }
    };
    w.net.send(0, m);
    w.net.settle();
}

/// C11: a payload of any bytes harms nobody but its sender
pub fn garbage(from: &[u32], to: &[u32], n: usize) {
    let a = from[sym::choice(from.len(), "from")];
    let b = to[sym::choice(to.len(), "to")];
    let mut w = World::new(P::C11, &[a, b, 20]);
    w.loud = false;
    let bytes = sym::vec(1 + sym::choice(n, "length"), "payload");
    let s = refc::raw(&bytes);
    let way = sym::choice(7, "way");
    transport(&mut w, way, &s);
    sym::check(!w.net.conns[1].closed(), "a connection is closed because of a payload it was sent");
    if w.net.conns[1].closed() {
        sym::stop()
    }
    let told = w.net.take(1);
    if way == 2 || way == 3 {
        let n = told.iter().filter(|m| matches!(m, Message::CallFunctionReply(_))).count();
        sym::check(n == 1, "a call is not answered once");
    }
    // what the abuser did is not followed further: it leaves
    if !w.net.conns[0].closed() {
        sym::cover("tolerated");
        w.net.fail(0);
        w.net.settle();
    }
    w.collect();
    w.remove_conn(0);
    w.compare();
    w.settle_capacity();
    w.loud = true;
    w.serve(1, 2);
}

//! Clients of different versions, and the client's half of the handshake.
use crate::cl::calls::{OBJ, SVC};
use crate::cl::exec::{Exec, Slot};
use crate::cl::stop::*;
use crate::cl::world::*;
use crate::compat::modern;
use crate::refc;
use aldrin::core::introspection::Introspection;
use aldrin::core::transport::{AsyncTransport, AsyncTransportExt};
use aldrin::error::ConnectError;
use aldrin::low_level::{Proxy, ServiceInfo};
use aldrin::{ClientBuilder, Error};
use aldrin_core::message::*;
use aldrin_core::*;
use std::future::Future;
use std::pin::Pin;
use uuid::Uuid;

fn same(v: Result<Value, DeserializeError>, e: &Value, m: &str) {
    sym::check(v.is_ok_and(|v| refc::same(&v, e)), m);
}

/// everything that depends on versions, between an owner and a user; the
/// wires watch what is said
pub fn features(fifo: usize, rich: bool) {
    let mut w = World::new(2, fifo);
    let (ov, uv) = (w.version(0), w.version(1));
    let both = move |v: u32| ov >= v && uv >= v;
    for i in 0..2 {
        let h = w.h(i);
        let v = w.block(async move { h.version().await });
        sym::check(v == Ok(ProtocolVersion::new(1, w.version(i))), "a client acts by another version than the negotiated one");
    }
    let version = 1000;
    let extras = sym::bool("type id and call version");
    let ty = extras.then(|| TypeId(Uuid::from_u128(0x33)));
    let h = w.h(0);
    let (obj, mut svc) = w.block(async move {
        let o = h.create_object(OBJ).await.expect("create object");
        let mut i = ServiceInfo::new(version);
        if let Some(t) = ty {
            i = i.set_type_id(t);
        }
        let s = o.create_service(SVC, i).await.expect("create service");
        (o, s)
    });
    let (h, id) = (w.h(1), svc.id());
    let mut p = w.block(async move { Proxy::new(&h, id).await }).expect("create proxy");
    sym::check(p.version() == version, "a service's version is not what it was created with");
    sym::check(p.type_id() == if both(17) { ty } else { None }, "a service's type id is not what it was created with");
    // a call and its reply
    let v1 = if rich { modern() } else { Value::Bytes(Bytes(vec![sym::u8("u8"), 3])) };
    let v2 = Value::Vec(vec![Value::U8(7), Value::Bytes(Bytes(vec![1, 2]))]);
    let call_version = extras.then(|| 70000);
    let mut r = p.call(7, &v1, call_version);
    let c = w.block(async move {
        let c = svc.next_call().await;
        (c, svc)
    });
    svc = c.1;
    let Some(c) = c.0 else {
        sym::check(false, "a call does not arrive");
        return;
    };
    sym::check(c.id() == 7, "a call arrives for another function");
    sym::check(c.version() == if both(19) { call_version } else { None }, "a call's version is not what it was made with");
    same(c.deserialize::<Value>(), &v1, "a call's arguments do not mean what was sent");
    let mut promise = c.into_promise();
    match sym::choice(4, "reaction") {
        0 => {
            sym::check(promise.ok(&v2).is_ok(), "replying fails");
            match w.block(r) {
                Ok(r) => sym::check(matches!(r.deserialize::<Value, u8>(), Ok(Ok(v)) if refc::same(&v, &v2)), "a reply does not mean what was sent"),
                Err(_) => sym::check(false, "a call fails"),
            }
        }
        1 => {
            sym::check(promise.err(&v2).is_ok(), "replying fails");
            match w.block(r) {
                Ok(r) => sym::check(matches!(r.deserialize::<u8, Value>(), Ok(Err(v)) if refc::same(&v, &v2)), "a reply does not mean what was sent"),
                Err(_) => sym::check(false, "a call fails"),
            }
        }
        2 => {
            drop(promise);
            sym::check(matches!(w.block(r), Err(Error::CallAborted)), "a dropped promise is not reported");
        }
        _ => {
            let early = w.block(async move {
                let first = try_now(|cx| Pin::new(&mut r).poll(cx)).await.is_some();
                drop(r);
                first
            });
            sym::check(!early, "a call resolves before it is answered");
            let (a, promise) = w.block(async move {
                let a = try_now(|cx| promise.poll_aborted(cx)).await.is_some();
                (a, promise)
            });
            sym::check(a == both(16), "an aborted call's callee is told exactly if both versions know aborts");
            sym::check(promise.ok(&v2).is_ok(), "replying to an aborted call fails");
            sym::cover("abort");
        }
    }
    w.ex.run();
    w.check_alive();
    // events
    sym::check(p.can_subscribe_all() || !both(18), "all events cannot be subscribed to");
    let all = sym::bool("all");
    p = w.block(async move {
        let r = if all { p.subscribe_all().await } else { p.subscribe(3).await };
        sym::check(r == if all && !both(18) { Err(Error::NotSupported) } else { Ok(()) }, "a subscription ends in an unexpected result");
        p
    });
    sym::check(svc.emit(3, &v2).is_ok(), "emitting fails");
    w.ex.run();
    p = w.block(async move {
        match try_now(|cx| p.poll_next_event(cx)).await {
            Some(Some(e)) => {
                sym::check(!all || both(18), "an event arrives that is not subscribed to");
                sym::check(e.id() == 3, "another event arrives");
                same(e.deserialize::<Value>(), &v2, "an event's arguments do not mean what was sent");
                sym::cover("event");
            }
            _ => sym::check(all && !both(18), "an event does not arrive"),
        }
        let r = if all { p.unsubscribe_all().await } else { p.unsubscribe(3).await };
        sym::check(r.is_ok(), "unsubscribing fails");
        p
    });
    // items, in both directions
    for (a, b) in [(0, 1), (1, 0)] {
        let (h, h2) = (w.h(a), w.h(b));
        let v = v1.clone();
        w.block(async move {
            let (ps, ur) = h.create_low_level_channel().claim_sender().await.expect("create channel");
            let mut rx = ur.unbind().claim(h2, 2).await.expect("claim receiver");
            let mut tx = ps.establish().await.expect("establish");
            sym::check(tx.send_item(&v).await.is_ok(), "sending an item fails");
            let got = rx.next_item::<Value>().await;
            sym::check(matches!(got, Ok(Some(g)) if refc::same(&g, &v)), "an item does not mean what was sent");
        });
    }
    // introspection
    let h = w.h(0);
    sym::check(h.register_introspection::<Vec<bool>>().is_ok() && h.submit_introspection().is_ok(), "registering introspection fails");
    w.block(async move { h.sync_broker().await }).expect("sync");
    let t = Introspection::new::<Vec<bool>>().type_id();
    let h = w.h(1);
    let i = w.block(async move { h.query_introspection(t).await });
    match i {
        Ok(Some(i)) => {
            sym::check(both(17), "introspection is had from an old version");
            sym::check(i.type_id() == t, "another introspection is had");
            sym::cover("introspection");
        }
        Ok(None) => sym::check(!both(17), "introspection is not had"),
        Err(_) => sym::check(false, "querying introspection fails"),
    }
    w.check_alive();
    // the end
    drop(obj);
    w.ex.run();
    w.block(async move {
        if uv >= 18 {
            sym::check(p.next_event().await.is_none(), "a proxy's events do not end with the service");
        }
        let r = p.call(7, 1u32, None).await;
        sym::check(matches!(r, Err(Error::InvalidService)), "a call of a service that is gone ends in an unexpected result");
    });
    drop(svc);
    w.check_alive();
    w.finish();
}

/// the client's half of the handshake, against an arbitrary answer
pub fn handshake() {
    let mut ex = Exec::new();
    let (t1, mut t2) = aldrin_core::channel::unbounded();
    let user = sym::bool("user data").then(modern);
    let legacy = sym::bool("legacy");
    let mut b = ClientBuilder::new(t1);
    if let Some(u) = &user {
        b.set_data(SerializedValue::serialize(u).unwrap());
    }
    let out = Slot::new();
    let o = out.clone();
    ex.spawn(async move {
        o.set(Some(if legacy {
            b.connect1_with_data().await.map(|(c, d)| (c.version(), Some(d)))
        } else {
            b.connect_with_data().await.map(|(c, d)| (c.version(), d))
        }))
    });
    ex.run();
    sym::check(out.take().is_none(), "a client connects without an answer");
    // the request
    let got = Slot::new();
    let g = got.clone();
    ex.spawn(async move {
        let m = t2.receive().await;
        g.set(Some((m, t2)))
    });
    ex.run();
    let Some((Ok(m), mut t2)) = got.take().flatten() else {
        sym::check(false, "a client asks for nothing");
        return;
    };
    let old = |v: &SerializedValueSlice| refc::scan(v).is_some_and(|s| !s.2);
    match &m {
        Message::Connect(m) if legacy => {
            sym::check(m.version == 14, "a client asks for an unexpected version");
            sym::check(old(&m.value), "a client assumes a representation before it is negotiated");
            same(m.value.deserialize::<Value>(), user.as_ref().unwrap_or(&Value::None), "a client's data is not what was given");
        }
        Message::Connect2(m) if !legacy => {
            sym::check(m.major_version == 1 && m.minor_version == 20, "a client asks for an unexpected version");
            sym::check(old(&m.value), "a client assumes a representation before it is negotiated");
            match (m.value.deserialize::<ConnectData>().map(|d| d.user), &user) {
                (Ok(None), None) => (),
                (Ok(Some(d)), Some(u)) => same(d.deserialize::<Value>(), u, "a client's data is not what was given"),
                _ => sym::check(false, "a client's data is not what was given"),
            }
        }
        _ => sym::check(false, "a client asks for something else than a connection"),
    }
    // the answer
    let reply = sym::bool("reply data").then(modern);
    let minor = sym::u32("minor");
    let data = |v: &Option<Value>| SerializedValue::serialize(v.clone().unwrap_or(Value::None)).unwrap();
    let kind = sym::choice(5, "answer");
    let broken = kind < 3 && sym::bool("malformed data");
    let junk = || refc::raw(&[77, 1]);
    let answer: Message = match kind {
        3 => crate::abuse::message(sym::choice(crate::abuse::KINDS, "kind")),
        4 => {
            drop(t2);
            ex.run();
            sym::check(matches!(out.take().flatten(), Some(Err(ConnectError::Transport(_)))), "a closed transport is not reported");
            sym::cover("closed");
            return;
        }
        k if legacy => ConnectReply::into(match k {
            0 => ConnectReply::Ok(if broken { junk() } else { data(&reply) }),
            1 => ConnectReply::Rejected(if broken { junk() } else { data(&reply) }),
            _ => ConnectReply::IncompatibleVersion(minor),
        }),
        k => {
            let d = ConnectReplyData { user: reply.as_ref().map(|r| SerializedValue::serialize(r).unwrap()) };
            let value = if broken { junk() } else { SerializedValue::serialize(d).unwrap() };
            let result = match k {
                0 => ConnectResult::Ok(minor),
                1 => ConnectResult::Rejected,
                _ => ConnectResult::IncompatibleVersion,
            };
            ConnectReply2 { result, value }.into()
        }
    };
    let fits = if legacy { matches!(answer, Message::ConnectReply(_)) } else { matches!(answer, Message::ConnectReply2(_)) };
    ex.spawn(async move {
        let _ = t2.send_and_flush(answer).await;
        std::future::poll_fn(|cx| Pin::new(&mut t2).receive_poll(cx).map(|_| ())).await
    });
    ex.run();
    let Some(r) = out.take().flatten() else {
        sym::check(false, "a client does not conclude the handshake");
        return;
    };
    let told = |d: Option<SerializedValue>| {
        match (d, &reply) {
            (None, None) => (),
            (Some(d), Some(r)) => same(d.deserialize::<Value>(), r, "the broker's data does not arrive"),
            // the old protocol always has data
            (Some(d), None) => sym::check(legacy && d.deserialize::<Value>().is_ok_and(|v| matches!(v, Value::None)), "the broker's data does not arrive"),
            _ => sym::check(false, "the broker's data does not arrive"),
        }
    };
    if kind == 3 {
        if !fits {
            sym::check(matches!(r, Err(ConnectError::UnexpectedMessageReceived(_))), "an unexpected answer is not reported");
            sym::cover("unexpected");
        }
        return;
    }
    if broken && !legacy {
        sym::check(r.is_err(), "a connection is established with malformed data");
        return;
    }
    match (kind, r) {
        (0, Ok((v, d))) => {
            if legacy {
                sym::check(v == ProtocolVersion::V1_14, "a client acts by another version than the negotiated one");
            } else {
                // what a broker answers below 14 is not said
                sym::check(v.major() == 1 && v.minor() == minor, "a client acts by another version than the negotiated one");
                sym::check(minor <= 20, "a client connects with a version it does not know");
            }
            if !broken {
                told(d);
            }
            sym::cover("connected");
        }
        (0, Err(e)) => {
            sym::check(!legacy && !(14..=20).contains(&minor), "a client refuses a supported version");
            sym::check(matches!(e, ConnectError::IncompatibleVersion), "an incompatible version is reported as something else");
            sym::cover("refused");
        }
        (1, Err(ConnectError::Rejected(d))) => {
            if !broken {
                told(d)
            }
            sym::cover("rejected");
        }
        (2, Err(ConnectError::IncompatibleVersion)) => sym::cover("incompatible"),
        _ => sym::check(false, "a handshake ends in an unexpected result"),
    }
}

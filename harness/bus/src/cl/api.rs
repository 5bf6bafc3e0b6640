//! The public API's many ways to say the same thing: every way to answer a call
//! against every way to await it, every way to send and to receive.
use crate::cl::calls::{OBJ, SVC};
use crate::cl::stop::*;
use crate::cl::world::*;
use aldrin::low_level::{self, Proxy, Service, ServiceInfo};
use aldrin::{Error, Handle, Object};
use aldrin_core::{SerializedValue, ServiceId};
use futures_core::stream::{FusedStream, Stream};
use futures_sink::Sink;
use std::future::poll_fn;
use std::pin::Pin;
use std::rc::Rc;
use std::task::Poll;

/// what the caller must see
#[derive(Clone, Copy, PartialEq, Debug)]
enum Out {
    Ok(u32),
    Done,
    Err(u32),
    Aborted,
    NoFunction,
    BadArgs,
}

/// answers that all kinds of calls and promises have
const COMMON: usize = 8;
macro_rules! answer {
    ($x:expr, $v:expr, $a:expr, $done:expr) => {{
        let (x, v) = ($x, $v);
        match $a {
            0 => (x.ok(v), Out::Ok(v)),
            1 => (x.err(v), Out::Err(v)),
            2 => (x.set(if v & 1 == 0 { Ok::<u32, u32>(v) } else { Err(v) }), if v & 1 == 0 { Out::Ok(v) } else { Out::Err(v) }),
            3 => ($done(x), Out::Done),
            4 => (x.abort(), Out::Aborted),
            5 => (x.invalid_function(), Out::NoFunction),
            6 => (x.invalid_args(), Out::BadArgs),
            _ => {
                drop(x);
                (Ok(()), Out::Aborted)
            }
        }
    }};
}
/// and those that typed ones have
macro_rules! typed {
    ($x:expr, $v:expr, $a:expr) => {{
        let (x, v) = ($x, $v);
        match $a {
            8 => (x.ok_val(v), Out::Ok(v)),
            9 => (x.ok_ref(&v), Out::Ok(v)),
            10 => (x.err_val(v), Out::Err(v)),
            11 => (x.err_ref(&v), Out::Err(v)),
            12 => (x.set_val(Err(v)), Out::Err(v)),
            13 => (x.set_ref(Ok(&v)), Out::Ok(v)),
            14 => (x.set_val(Ok(v)), Out::Ok(v)),
            15 => (x.set_ref(Err(&v)), Out::Err(v)),
            a => answer!(x, v, a, |x: aldrin::Promise<u32, u32>| x.cast::<(), u32>().done()),
        }
    }};
}

struct Sent {
    fun: u32,
    arg: u32,
    ver: Option<u32>,
    svc: ServiceId,
    /// the caller does not want to know
    aborts: bool,
}

macro_rules! same_call {
    ($c:expr, $s:expr) => {
        sym::check($c.id() == $s.fun, "a call arrives with another function id");
        sym::check($c.version() == $s.ver, "a call arrives with another version");
        sym::check($c.service() == $s.svc, "a call arrives with another service");
    };
}

/// handles one call in one of all ways
async fn handle(mut call: low_level::Call, s: &Sent) -> Out {
    same_call!(call, s);
    sym::check(call.deserialize::<u32>() == Ok(s.arg), "a call arrives with other arguments");
    sym::check(call.args().deserialize::<u32>() == Ok(s.arg), "a call arrives with other arguments");
    if s.aborts {
        // told in every way
        match sym::choice(5, "told") {
            0 => call.aborted().await,
            1 => poll_fn(|cx| call.poll_aborted(cx)).await,
            2 => {
                let mut p = call.into_promise();
                p.aborted().await;
                p.aborted().await;
                sym::check(p.is_aborted(), "an aborted promise does not say so");
                let r = p.ok(1u32);
                sym::check(r.is_ok(), "answering an aborted call fails");
                return Out::Aborted;
            }
            3 => {
                let mut c = call.deserialize_and_cast::<u32, u32, u32>().expect("arguments");
                c.aborted().await;
                sym::check(c.is_aborted(), "an aborted call does not say so");
                sym::check(c.ok(1u32).is_ok(), "answering an aborted call fails");
                return Out::Aborted;
            }
            _ => {
                let mut c = call.into_unknown_call();
                poll_fn(|cx| c.poll_aborted(cx)).await;
                sym::check(c.is_aborted(), "an aborted call does not say so");
                return Out::Aborted;
            }
        }
        sym::check(call.is_aborted(), "an aborted call does not say so");
        sym::check(call.promise_mut().is_aborted(), "an aborted call does not say so");
        return Out::Aborted;
    }
    sym::check(!call.is_aborted(), "a call is aborted that nobody aborted");
    let v = s.arg.wrapping_add(1);
    let kind = sym::choice(9, "as");
    let n = match kind {
        2 | 3 | 7 => 16,
        8 => 1,
        _ => COMMON,
    };
    let a = sym::choice(n, "answer");
    let (r, out) = match kind {
        0 => answer!(call, v, a, low_level::Call::done),
        1 => answer!(call.into_promise(), v, a, low_level::Promise::done),
        2 => {
            let mut c = call.deserialize_and_cast::<u32, u32, u32>().expect("arguments");
            same_call!(c, s);
            sym::check(*c.args() == s.arg && *c.args_mut() == s.arg, "a call arrives with other arguments");
            sym::check(!c.is_aborted(), "a call is aborted that nobody aborted");
            match a {
                8 => (c.ok_val(v), Out::Ok(v)),
                9 => (c.ok_ref(&v), Out::Ok(v)),
                10 => (c.err_val(v), Out::Err(v)),
                11 => (c.err_ref(&v), Out::Err(v)),
                12 => (c.set_val(Err(v)), Out::Err(v)),
                13 => (c.set_ref(Ok(&v)), Out::Ok(v)),
                14 => (c.set_val(Ok(v)), Out::Ok(v)),
                15 => (c.set_ref(Err(&v)), Out::Err(v)),
                a => answer!(c, v, a, |c: aldrin::Call<u32, u32, u32>| c.cast::<(), u32>().done()),
            }
        }
        3 => {
            let c = call.deserialize_and_cast::<u32, String, u8>().expect("arguments");
            let (arg, p) = c.cast::<u32, u32>().into_args_and_promise();
            same_call!(p, s);
            sym::check(arg == s.arg, "a call arrives with other arguments");
            typed!(p, v, a)
        }
        4 => {
            let mut c = call.into_unknown_call();
            same_call!(c, s);
            sym::check(c.deserialize::<u32>() == Ok(s.arg), "a call arrives with other arguments");
            sym::check(!c.is_aborted(), "a call is aborted that nobody aborted");
            let (r, out) = answer!(c, v, a, aldrin::UnknownCall::done);
            // nobody knows it
            (r, if a == 7 { Out::NoFunction } else { out })
        }
        5 => answer!(call.into_unknown_call().into_promise(), v, a, low_level::Promise::done),
        6 => {
            let (args, p) = call.into_unknown_call().into_args_and_promise();
            sym::check(args.deserialize::<u32>() == Ok(s.arg), "a call arrives with other arguments");
            answer!(p, v, a, low_level::Promise::done)
        }
        7 => {
            let c = call.into_unknown_call().deserialize_and_cast::<u32, u32, u32>().expect("arguments");
            let (_, p) = c.into_args_and_promise();
            typed!(p, v, a)
        }
        _ => {
            // not what the function takes
            let r = if s.arg & 1 == 0 {
                call.deserialize_and_cast::<String, u32, u32>().err()
            } else {
                call.into_unknown_call().deserialize_and_cast::<String, u32, u32>().err()
            };
            sym::check(matches!(r, Some(Error::InvalidArguments(e)) if e.id() == s.fun), "wrong arguments are accepted");
            (Ok(()), Out::BadArgs)
        }
    };
    sym::check(r.is_ok(), "answering a call fails");
    out
}

fn failed(e: Error, fun: u32) -> Option<Out> {
    match e {
        Error::CallAborted => Some(Out::Aborted),
        Error::InvalidFunction(e) if e.id() == fun => Some(Out::NoFunction),
        Error::InvalidArguments(e) if e.id() == fun => Some(Out::BadArgs),
        _ => None,
    }
}

/// awaits it in one of all ways; None: could not tell, or did not want to
async fn outcome(p: low_level::PendingReply, fun: u32, ver: Option<u32>, how: usize) -> Option<Out> {
    sym::check(p.id() == fun && p.version() == ver, "a pending reply belongs to another call");
    let wrong = "a reply is taken for what it is not";
    match how {
        0 => match p.await {
            Ok(r) => {
                sym::check(r.id() == fun, "a reply belongs to another call");
                if let Ok(r) = r.deserialize::<(), u32>() {
                    let t = r.map(|()| Out::Done);
                    return Some(t.unwrap_or_else(Out::Err));
                }
                let t = r.deserialize_and_cast::<u32, u32>().ok()?;
                sym::check(r.args().is_ok() == t.args().is_ok(), "a reply is two things");
                Some(match t.into_args() {
                    Ok(v) => Out::Ok(v),
                    Err(v) => Out::Err(v),
                })
            }
            Err(e) => failed(e, fun),
        },
        1 => match p.cast::<u32, u32>().await {
            Ok(r) => {
                sym::check(r.id() == fun, "a reply belongs to another call");
                Some(match r.into_args() {
                    Ok(v) => Out::Ok(v),
                    Err(v) => Out::Err(v),
                })
            }
            Err(Error::InvalidReply(_)) => Some(Out::Done),
            Err(e) => failed(e, fun),
        },
        2 => match p.cast::<(), u32>().await {
            Ok(r) => Some(match r.args() {
                Ok(()) => Out::Done,
                Err(v) => Out::Err(*v),
            }),
            Err(Error::InvalidReply(_)) => None,
            Err(e) => failed(e, fun),
        },
        3 => match p.cast::<String, String>().await {
            Ok(_) => {
                sym::check(false, wrong);
                None
            }
            Err(Error::InvalidReply(_)) => None,
            Err(e) => {
                let o = failed(e, fun);
                sym::check(o.is_some(), "a call ends in an unexpected error");
                o
            }
        },
        4 => {
            p.abort();
            None
        }
        5 => {
            p.cast::<u32, u32>().abort();
            None
        }
        _ => {
            drop(p);
            None
        }
    }
}

async fn setup(h: Handle) -> (Object, Service) {
    let o = h.create_object(OBJ).await.expect("create object");
    let s = o.create_service(SVC, ServiceInfo::new(1)).await.expect("create service");
    (o, s)
}

/// one call, answered in every way and awaited in every way
pub fn calls(fifo: usize, same: bool, delays: usize) {
    let mut w = World::new(if same { 1 } else { 2 }, fifo);
    let (obj, mut svc) = {
        let h = w.h(0);
        w.block(setup(h))
    };
    let id = svc.id();
    let fun = sym::u32("function");
    let arg = [0, 1, 255, 0x1234, u32::MAX - 1][sym::choice(5, "arg")];
    let ver = if sym::choice(2, "versioned") == 1 { Some(sym::u32("version")) } else { None };
    // versions are known since 1.19
    let seen = if w.version(if same { 0 } else { 1 }) >= 19 && w.version(0) >= 19 { ver } else { None };
    // giving up is told since 1.16
    let tells = w.version(0) >= 16 && w.version(if same { 0 } else { 1 }) >= 16;
    let how = sym::choice(if tells { 7 } else { 4 }, "await");
    let sent = Sent { fun, arg, ver: seen, svc: id, aborts: how > 3 };
    w.ex.delays = delays;
    let h = w.h(if same { 0 } else { 1 });
    let seen_out = Rc::new(std::cell::Cell::new(None));
    let told = Rc::new(std::cell::Cell::new(None));
    let ready = Gate::default();
    let (s, g) = (seen_out.clone(), ready.clone());
    let a = w.ex.spawn(async move {
        let p = Proxy::new(&h, id).await.expect("create proxy");
        sym::check(p.id() == id && p.version() == 1, "a proxy describes another service");
        let r = p.call(fun, arg, ver);
        if how > 3 {
            // not before it arrived: it would not be seen
            g.wait().await;
        }
        s.set(Some(outcome(r, fun, ver, how).await));
        drop(p)
    });
    let t = told.clone();
    let b = w.ex.spawn(async move {
        let c = if arg == 1 { poll_fn(|cx| Pin::new(&mut svc).poll_next(cx)).await } else { svc.next_call().await };
        ready.open();
        let c = c.expect("a service has calls");
        t.set(Some(handle(c, &sent).await));
        sym::check(!svc.is_terminated(), "a service ends although nobody ended it");
        sym::check(svc.destroy().await.is_ok(), "destroying a service fails");
        sym::check(svc.next_call().await.is_none(), "a call to a destroyed service");
        sym::check(svc.is_terminated(), "a destroyed service goes on");
    });
    w.ex.run();
    sym::check(w.ex.done(a) && w.ex.done(b), "an operation the application awaits never completes");
    w.check_alive();
    let (got, want) = (seen_out.take().unwrap(), told.take().unwrap());
    if how < 4 {
        let same = match (how, want) {
            (2, Out::Ok(_)) | (3, Out::Ok(_) | Out::Err(_) | Out::Done) => got.is_none(),
            _ => got == Some(want),
        };
        sym::check(same, "a call's outcome is not what the callee said");
    } else {
        sym::cover("gave up");
    }
    drop(obj);
    w.ex.run();
    w.finish();
}

/// events, received in every way
pub fn events(fifo: usize, same: bool) {
    let mut w = World::new(if same { 1 } else { 2 }, fifo);
    let (obj, svc) = {
        let h = w.h(0);
        w.block(setup(h))
    };
    let id = svc.id();
    let ev = sym::u32("event");
    let arg = [0, 255, 0x1234][sym::choice(3, "arg")];
    let h = w.h(if same { 0 } else { 1 });
    let how = sym::choice(6, "receive");
    let sub = sym::choice(3, "subscribe");
    let p = w.block(async move {
        let p = Proxy::new(&h, id).await.expect("create proxy");
        if sub == 0 {
            let r = p.subscribe(ev).await;
            sym::check(r.is_ok(), "subscribing fails");
        } else if sub == 1 {
            let r = p.subscribe_all().await;
            sym::check(r.is_ok() || r == Err(Error::NotSupported), "subscribing to all events fails");
            sym::check(r.is_err() || p.can_subscribe_all(), "subscribing to all events of a service that has no such thing");
            if r.is_err() {
                let r = p.subscribe(ev).await;
                sym::check(r.is_ok(), "subscribing fails");
            }
        }
        p
    });
    let as_val = sym::choice(2, "emit") == 1;
    let a = w.ex.spawn(async move {
        let r = if as_val { svc.emit(ev, arg) } else { svc.emit_as::<aldrin_core::tags::U32>(ev, &arg) };
        sym::check(r.is_ok(), "emitting fails");
        sym::check(svc.destroy().await.is_ok(), "destroying a service fails");
    });
    let told = w.version(if same { 0 } else { 1 }) >= 18;
    let b = w.ex.spawn(async move {
        let mut p = p;
        let gate = Gate::default();
        if !told {
            gate.open()
        }
        if sub < 2 {
            let e = if how & 1 == 0 { p.next_event().await } else { poll_fn(|cx| Pin::new(&mut p).poll_next(cx)).await };
            let Some(mut e) = e else {
                sym::check(false, "an event is not delivered");
                return;
            };
            sym::check(e.id() == ev && e.service() == id, "an event arrives as another one");
            sym::check(e.args().deserialize::<u32>() == Ok(arg), "an event arrives with other arguments");
            let got = match how {
                0 => e.deserialize::<u32>().ok(),
                1 => e.into_args().deserialize::<u32>().ok(),
                2 => e.take_args().deserialize::<u32>().ok(),
                3 => e.deserialize_and_cast::<u32>().ok().and_then(|e| {
                    sym::check(e.id() == ev && e.service() == id && *e.args() == arg, "an event arrives as another one");
                    let e = e.map(|v| v ^ 1);
                    (e.id() == ev && e.service() == id).then(|| e.into_args() ^ 1)
                }),
                4 => {
                    let u = e.into_unknown_event();
                    sym::check(u.id() == ev && u.service() == id, "an event arrives as another one");
                    sym::check(u.deserialize_and_cast::<u32>().is_ok_and(|e| e.id() == ev && *e.args() == arg), "an event arrives as another one");
                    u.into_low_level().deserialize::<u32>().ok()
                }
                _ => {
                    sym::check(e.deserialize_and_cast::<String>().is_err(), "an event is taken for what it is not");
                    e.deserialize::<u32>().ok()
                }
            };
            sym::check(got == Some(arg), "an event arrives with other arguments");
        }
        if told {
            sym::check(!p.events_finished(), "a proxy ends before it says so");
            sym::check(p.next_event().await.is_none(), "an event arrives that nobody emitted");
            sym::check(p.events_finished() && p.is_terminated(), "an ended proxy does not say so");
        }
    });
    w.ex.run();
    sym::check(w.ex.done(a) && w.ex.done(b), "an operation the application awaits never completes");
    w.check_alive();
    drop(obj);
    w.ex.run();
    w.finish();
}

async fn send(tx: &mut aldrin::Sender<u32>, v: u32, how: usize) -> Result<(), Error> {
    match how {
        0 => tx.send_item(v).await,
        1 => tx.send_item_val(v).await,
        2 => tx.send_item_ref(&v).await,
        3 => {
            tx.send_ready().await?;
            tx.start_send_item(&v)
        }
        4 => {
            tx.send_ready().await?;
            tx.send_ready().await?;
            tx.start_send_item_val(v)
        }
        5 => {
            poll_fn(|cx| tx.poll_send_ready(cx)).await?;
            tx.start_send_item_ref(&v)
        }
        _ => {
            poll_fn(|cx| Sink::<u32>::poll_ready(Pin::new(&mut *tx), cx)).await?;
            Sink::<u32>::start_send(Pin::new(&mut *tx), v)?;
            poll_fn(|cx| Sink::<u32>::poll_flush(Pin::new(&mut *tx), cx)).await
        }
    }
}

async fn receive(mut rx: aldrin::Receiver<u32>, how: usize) -> (aldrin::Receiver<u32>, Option<u32>) {
    let r = match how {
        0 => rx.next_item().await,
        1 => rx.next_item_as::<u32>().await,
        2 => poll_fn(|cx| rx.poll_next_item(cx)).await,
        3 => poll_fn(|cx| Pin::new(&mut rx).poll_next(cx)).await.transpose(),
        4 => {
            let mut low = rx.into_lowlevel();
            let r = low.next_item::<u32>().await;
            rx = low.cast();
            r
        }
        _ => {
            let mut low = rx.into_lowlevel();
            let v = poll_fn(|cx| Pin::new(&mut low).poll_next(cx)).await;
            rx = low.cast();
            v.map(|v: SerializedValue| v.deserialize::<u32>()).transpose().map_err(Error::invalid_item)
        }
    };
    match r {
        Ok(v) => (rx, v),
        Err(_) => {
            sym::check(false, "receiving fails");
            (rx, None)
        }
    }
}

/// a typed channel: made, handed over, used and ended in every way
pub fn chan(fifo: usize, same: bool, delays: usize) {
    let mut w = World::new(if same { 1 } else { 2 }, fifo);
    let side = sym::choice(2, "creator receives") == 1;
    let cap = [1, 2, 5][sym::choice(3, "capacity")];
    let (how, got) = (sym::choice(7, "send"), sym::choice(6, "receive"));
    let items = 1 + sym::choice(2, "items") as u32;
    let end = sym::choice(4, "end");
    let (h, h2) = (w.h(0), w.h(if same { 0 } else { 1 }));
    let tx = Rc::new(std::cell::Cell::new(None));
    let rx = Rc::new(std::cell::Cell::new(None));
    let over = Rc::new(std::cell::RefCell::new(None));
    let ready = Gate::default();
    w.ex.delays = delays;
    let (t, r, o, g) = (tx.clone(), rx.clone(), over.clone(), ready.clone());
    let a = w.ex.spawn(async move {
        let b = h.create_channel::<u8>().cast::<u32>();
        if side {
            let (us, mut pr) = b.claim_receiver(cap).await.expect("create channel");
            sym::check(us.cookie() == pr.cookie(), "a channel's ends have different cookies");
            let s = SerializedValue::serialize(us.unbind()).expect("serialize an unbound sender");
            *o.borrow_mut() = Some(s);
            g.open();
            pr.wait_established().await;
            r.set(Some(pr.establish().await.expect("establish")));
        } else {
            let (mut ps, ur) = b.claim_sender().await.expect("create channel");
            sym::check(ur.cookie() == ps.cookie(), "a channel's ends have different cookies");
            let s = SerializedValue::serialize(&ur.unbind()).expect("serialize an unbound receiver");
            *o.borrow_mut() = Some(s);
            g.open();
            poll_fn(|cx| ps.poll_wait_established(cx)).await;
            t.set(Some(ps.establish().await.expect("establish")));
        }
    });
    let (t, r, o, g) = (tx.clone(), rx.clone(), over, ready);
    let b = w.ex.spawn(async move {
        g.wait().await;
        let s = o.borrow_mut().take().unwrap();
        if side {
            let u: aldrin::UnboundSender<u32> = s.deserialize().expect("deserialize an unbound sender");
            sym::check(s.deserialize::<aldrin::UnboundReceiver<u32>>().is_err(), "a sender is taken for a receiver");
            let tx = if how & 1 == 0 { u.claim(h2).await } else { u.bind(h2).claim().await };
            t.set(Some(tx.expect("claim")));
        } else {
            let u: aldrin::UnboundReceiver<u32> = s.deserialize().expect("deserialize an unbound receiver");
            sym::check(s.deserialize::<aldrin::UnboundSender<u32>>().is_err(), "a receiver is taken for a sender");
            let rx = if how & 1 == 0 { u.claim(h2, cap).await } else { u.bind(h2).claim(cap).await };
            r.set(Some(rx.expect("claim")));
        }
    });
    w.ex.run();
    sym::check(w.ex.done(a) && w.ex.done(b), "a channel is not established");
    let (mut tx, rx) = (tx.take().unwrap(), rx.take().unwrap());
    sym::check(tx.cookie() == rx.cookie(), "a channel's ends have different cookies");
    let gone = Rc::new(std::cell::Cell::new(false));
    let g = gone.clone();
    let a = w.ex.spawn(async move {
        for i in 0..items {
            if let Err(e) = send(&mut tx, i, how).await {
                sym::check(g.get() && e == Error::InvalidChannel, "sending fails");
            }
        }
        match end {
            0 => drop(tx),
            1 => {
                sym::check(tx.close().await.is_ok(), "closing a sender fails");
                sym::check(poll_fn(|cx| tx.poll_close(cx)).await.is_ok(), "closing a sender again fails");
                sym::check(tx.send_item(1u32).await == Err(Error::InvalidChannel), "a closed sender sends");
            }
            2 => {
                sym::check(poll_fn(|cx| Sink::<u32>::poll_close(Pin::new(&mut tx), cx)).await.is_ok(), "closing a sender fails");
                let r = poll_fn(|cx| Sink::<u32>::poll_flush(Pin::new(&mut tx), cx)).await;
                sym::check(r == Err(Error::InvalidChannel), "a closed sender flushes");
            }
            _ => {
                // until the receiver is gone
                if how & 1 == 0 {
                    tx.receiver_closed().await
                } else {
                    poll_fn(|cx| tx.poll_receiver_closed(cx)).await
                }
                sym::check(g.get(), "a receiver is reported closed although it is not");
                sym::check(tx.send_item(1u32).await == Err(Error::InvalidChannel), "items are sent to nobody");
                sym::cover("receiver closed");
            }
        }
    });
    let b = w.ex.spawn(async move {
        let mut rx = rx;
        let mut v;
        for i in 0..items {
            (rx, v) = receive(rx, got).await;
            sym::check(v == Some(i), "items arrive out of order, twice or not at all");
        }
        if end == 3 {
            gone.set(true);
            if got & 1 == 0 {
                drop(rx);
                return;
            }
            sym::check(rx.close().await.is_ok(), "closing a receiver fails");
            sym::check(poll_fn(|cx| rx.poll_close(cx)).await.is_ok(), "closing a receiver again fails");
        } else {
            (rx, v) = receive(rx, got).await;
            sym::check(v.is_none(), "an item arrives that nobody sent");
            sym::check(rx.is_terminated(), "an ended receiver does not say so");
            sym::cover("sender closed");
        }
        (_, v) = receive(rx, got).await;
        sym::check(v.is_none(), "an item arrives that nobody sent");
    });
    w.ex.run();
    sym::check(w.ex.done(a) && w.ex.done(b), "an operation the application awaits never completes");
    w.check_alive();
    w.finish();
}

#[allow(dead_code)]
fn _p(_: Poll<()>) {}

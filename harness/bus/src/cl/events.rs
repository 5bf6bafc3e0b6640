//! Event subscriptions of several proxies to one service.
use crate::cl::calls::{OBJ, SVC};
use crate::cl::stop::*;
use crate::cl::world::*;
use aldrin::low_level::{Proxy, Service, ServiceInfo};
use aldrin::{Error, Handle, Object};
use aldrin_core::ServiceId;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

const EVENTS: u32 = 2;

/// a proxy and what it is subscribed to
struct P {
    proxy: Proxy,
    events: [bool; EVENTS as usize],
    all: bool,
    /// value of the last event received
    last: u32,
}

#[derive(Default)]
struct Known {
    /// both sides know subscriptions to all events
    sub_all: Cell<bool>,
    /// the subscriber is told of the service's end (1.18)
    told: Cell<bool>,
    gone: Cell<bool>,
    emitted: Cell<u32>,
}

type Ps = Rc<RefCell<Vec<Option<P>>>>;

fn ok(r: Result<(), Error>, k: &Known, m: &str) -> bool {
    match r {
        Ok(()) => true,
        Err(Error::InvalidService) => {
            sym::check(k.gone.get(), m);
            sym::cover("service gone");
            false
        }
        Err(_) => {
            sym::check(false, m);
            false
        }
    }
}

async fn open(h: &Handle, id: ServiceId, k: &Known) -> Option<P> {
    match Proxy::new(h, id).await {
        Ok(proxy) => Some(P { proxy, events: [false; 2], all: false, last: k.emitted.get() }),
        Err(e) => {
            sym::check(e == Error::InvalidService && k.gone.get(), "a proxy cannot be created although the service lives");
            None
        }
    }
}

/// one operation on one of the proxies
#[allow(clippy::await_holding_refcell_ref)]
async fn op(h: &Handle, id: ServiceId, k: &Known, ps: &Ps, kinds: usize) {
    let i = sym::choice(ps.borrow().len(), "proxy");
    let Some(mut p) = ps.borrow_mut()[i].take() else {
        let p = open(h, id, k).await;
        ps.borrow_mut()[i] = p;
        return;
    };
    let kind = sym::choice(kinds, "proxy op");
    match kind {
        0 | 1 => {
            p.events[kind] |= ok(p.proxy.subscribe(kind as u32).await, k, "subscribing fails");
        }
        2 => {
            p.events[0] = false;
            ok(p.proxy.unsubscribe(0).await, k, "unsubscribing fails");
        }
        3 => return drop(p),
        4 => {
            let r = p.proxy.subscribe_all().await;
            if k.sub_all.get() {
                p.all |= ok(r, k, "subscribing to all events fails");
            } else {
                sym::check(r == Err(Error::NotSupported), "subscribing to all events is not refused by an old version");
                sym::cover("not supported");
            }
        }
        5 => {
            p.all = false;
            p.events = [false; 2];
            ok(p.proxy.unsubscribe_all().await, k, "unsubscribing from all events fails");
        }
        _ => {
            p.events[1] = false;
            ok(p.proxy.unsubscribe(1).await, k, "unsubscribing fails");
        }
    }
    ps.borrow_mut()[i] = Some(p);
}

fn emit(s: &Service, e: u32, k: &Known) -> u32 {
    let n = k.emitted.get() + 1;
    k.emitted.set(n);
    let _ = s.emit(e, 10 * n + e);
    n
}

/// takes what has arrived; nothing arrives twice or out of order
async fn drain(p: &mut P, k: &Known) -> Vec<u32> {
    let mut got = vec![];
    loop {
        match try_now(|cx| p.proxy.poll_next_event(cx)).await {
            Some(Some(e)) => {
                let v = e.deserialize::<u32>().unwrap_or(0);
                sym::check(v % 10 == e.id(), "an event arrives with another event's arguments");
                sym::check(v / 10 > p.last, "an event arrives twice or out of order");
                sym::check(v / 10 <= k.emitted.get(), "an event arrives that was not emitted");
                p.last = v / 10;
                got.push(v / 10);
            }
            Some(None) => {
                sym::check(k.gone.get(), "a proxy's events end although the service lives");
                return got;
            }
            None => return got,
        }
    }
}

fn setup(w: &mut World) -> (Object, Service) {
    let h = w.h(0);
    w.block(async move {
        let o = h.create_object(OBJ).await.expect("create object");
        let s = o.create_service(SVC, ServiceInfo::new(1)).await.expect("create service");
        (o, s)
    })
}

#[derive(Clone, Copy)]
pub struct Cfg {
    pub delays: usize,
    pub fifo: usize,
    pub same: bool,
    pub proxies: usize,
    pub kinds: usize,
    pub ops: usize,
    /// the service may be destroyed meanwhile
    pub destroy: bool,
    /// operations follow one another without waiting for rest in between
    pub race: bool,
}

pub fn run(c: Cfg) {
    let mut w = World::new(if c.same { 1 } else { 2 }, c.fifo);
    let (obj, svc) = setup(&mut w);
    let svc = Rc::new(svc);
    let id = svc.id();
    let h = w.h(if c.same { 0 } else { 1 });
    let k = Rc::new(Known::default());
    let sub = w.version(if c.same { 0 } else { 1 });
    k.sub_all.set(w.version(0) >= 18 && sub >= 18);
    k.told.set(sub >= 18);
    let ps: Ps = Rc::new(RefCell::new(vec![]));
    for _ in 0..c.proxies {
        let (h, k) = (h.clone(), k.clone());
        let p = w.block(async move { open(&h, id, &k).await });
        ps.borrow_mut().push(p);
    }
    w.ex.delays = c.delays;
    let mut obj = Some(obj);
    if c.race {
        let end = if c.destroy { sym::choice(3, "destroy") } else { 0 };
        let (h2, k2, ps2) = (h.clone(), k.clone(), ps.clone());
        let a = w.ex.spawn(async move {
            for _ in 0..c.ops {
                op(&h2, id, &k2, &ps2, c.kinds).await;
                for i in 0..c.proxies {
                    let Some(mut p) = ps2.borrow_mut()[i].take() else { continue };
                    drain(&mut p, &k2).await;
                    ps2.borrow_mut()[i] = Some(p);
                }
            }
        });
        let (s, k2, o) = (svc.clone(), k.clone(), obj.take());
        let keep = Rc::new(RefCell::new(None));
        let keep2 = keep.clone();
        let b = w.ex.spawn(async move {
            let h = s.client().clone();
            for i in 0..c.ops {
                emit(&s, 0, &k2);
                let _ = h.sync_broker().await;
                emit(&s, 1, &k2);
                if end == 1 && i == 0 {
                    k2.gone.set(true);
                    sym::check(s.destroy().await.is_ok(), "destroying a service fails");
                }
                if end == 2 && i == 0 {
                    k2.gone.set(true);
                    sym::check(o.as_ref().unwrap().destroy().await.is_ok(), "destroying an object fails");
                }
            }
            *keep2.borrow_mut() = o;
        });
        w.ex.run();
        w.check_alive();
        for t in [a, b] {
            sym::check(w.ex.done(t), "an operation the application awaits never completes");
        }
        obj = keep.take();
        if !k.gone.get() {
            judge(&mut w, &svc, &k, &ps);
        } else {
            over(&mut w, &k, &ps);
        }
    } else {
        for _ in 0..c.ops {
            let (h, k2, ps2) = (h.clone(), k.clone(), ps.clone());
            w.block(async move { op(&h, id, &k2, &ps2, c.kinds).await });
            w.check_alive();
            judge(&mut w, &svc, &k, &ps);
        }
        if c.destroy {
            k.gone.set(true);
            if sym::choice(2, "destroy") == 0 {
                let s = svc.clone();
                sym::check(w.block(async move { s.destroy().await }).is_ok(), "destroying a service fails");
            } else {
                drop(obj.take());
                w.ex.run();
            }
            over(&mut w, &k, &ps);
        }
    }
    drop((obj, svc, ps, h));
    w.ex.run();
    w.check_alive();
    w.finish();
}

/// with nothing under way, an event reaches exactly the proxies subscribed to it
fn judge(w: &mut World, svc: &Rc<Service>, k: &Rc<Known>, ps: &Ps) {
    let (k2, ps2) = (k.clone(), ps.clone());
    w.block(async move {
        let n = ps2.borrow().len();
        for i in 0..n {
            let Some(mut p) = ps2.borrow_mut()[i].take() else { continue };
            drain(&mut p, &k2).await;
            ps2.borrow_mut()[i] = Some(p);
        }
    });
    let first = emit(svc, 0, k);
    emit(svc, 1, k);
    w.ex.run();
    let (k2, ps2) = (k.clone(), ps.clone());
    w.block(async move {
        let n = ps2.borrow().len();
        for i in 0..n {
            let Some(mut p) = ps2.borrow_mut()[i].take() else { continue };
            let got = drain(&mut p, &k2).await;
            for e in 0..EVENTS {
                let want = p.all || p.events[e as usize];
                let have = got.contains(&(first + e));
                sym::check(have || !want, "a subscribed proxy does not receive an event");
                sym::check(want || !have, "a proxy receives an event it is not subscribed to");
                if have {
                    sym::cover("received")
                }
            }
            ps2.borrow_mut()[i] = Some(p);
        }
    });
}

/// after destruction every proxy's events end
fn over(w: &mut World, k: &Rc<Known>, ps: &Ps) {
    let (k2, ps2) = (k.clone(), ps.clone());
    w.block(async move {
        let n = ps2.borrow().len();
        for i in 0..n {
            let Some(mut p) = ps2.borrow_mut()[i].take() else { continue };
            drain(&mut p, &k2).await;
            if k2.told.get() {
                sym::check(p.proxy.events_finished(), "a proxy's events do not end with the service");
                sym::check(p.proxy.next_event().await.is_none(), "an event arrives after the end");
            }
            let r = p.proxy.subscribe(0).await;
            sym::check(r == Err(Error::InvalidService), "subscribing succeeds although the service is gone");
            sym::cover("ended");
        }
    });
}

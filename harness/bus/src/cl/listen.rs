//! Bus listeners against a model of the bus.
use crate::cl::stop::*;
use crate::cl::world::*;
use aldrin::low_level::{Service, ServiceInfo};
use aldrin::{BusListener, Error, Object};
use aldrin_core::*;
use std::cell::RefCell;
use std::future::Future;
use std::rc::Rc;
use uuid::Uuid;

pub const O: [ObjectUuid; 2] = [ObjectUuid(Uuid::from_u128(0x101)), ObjectUuid(Uuid::from_u128(0x102))];
pub const S: ServiceUuid = ServiceUuid(Uuid::from_u128(0x201));

fn filter(i: usize) -> BusListenerFilter {
    match i {
        0 => BusListenerFilter::any_object(),
        1 => BusListenerFilter::any_object_any_service(),
        2 => BusListenerFilter::object(O[0]),
        3 => BusListenerFilter::specific_object_and_service(O[1], S),
        4 => BusListenerFilter::specific_object_any_service(O[0]),
        _ => BusListenerFilter::any_object_specific_service(S),
    }
}

const SCOPES: [BusListenerScope; 3] = [BusListenerScope::All, BusListenerScope::New, BusListenerScope::Current];

struct L {
    l: BusListener,
    filters: Vec<BusListenerFilter>,
    scope: Option<BusListenerScope>,
    /// what it must still report; the first `k` of equal rank in any order
    due: Vec<BusEvent>,
}

#[derive(Default)]
struct Bus {
    objs: Vec<(Object, Option<Service>)>,
}

impl Bus {
    fn ids(&self) -> Vec<BusEvent> {
        let mut v = vec![];
        for (o, s) in &self.objs {
            v.push(BusEvent::ObjectCreated(o.id()));
            if let Some(s) = s {
                v.push(BusEvent::ServiceCreated(s.id()));
            }
        }
        v
    }
}

fn tell(ls: &mut [Option<L>], e: BusEvent) {
    for l in ls.iter_mut().flatten() {
        if l.scope.is_some_and(|s| s.includes_new()) && l.filters.iter().any(|f| f.matches_event(e)) {
            l.due.push(e)
        }
    }
}

/// the due events arrive, each once; creation order is free among objects of
/// one enumeration, so only membership and relative order of related events
/// are compared
async fn drain(l: &mut L) {
    loop {
        match try_now(|cx| l.l.poll_next_event(cx)).await {
            Some(Some(e)) => {
                let p = l.due.iter().position(|d| *d == e);
                sym::check(p.is_some(), "a listener reports an event that did not happen, did not match or was reported before");
                if let Some(p) = p {
                    let after_related = l.due[..p].iter().any(|d| related(*d, e));
                    sym::check(!after_related, "a listener reports events of one object out of order");
                    l.due.remove(p);
                }
                sym::cover("event");
            }
            Some(None) => {
                sym::check(l.l.is_finished(), "a listener ends without being finished");
                sym::check(!l.scope.is_some_and(|s| s.includes_new()), "a listener that listens for new events is finished");
                break;
            }
            None => {
                sym::check(!l.l.is_finished(), "a finished listener still waits");
                // unstarted listeners are finished, those for current entities once these were reported
                sym::check(l.scope.is_some_and(|s| s.includes_new()), "a listener with nothing to report is not finished");
                break;
            }
        }
    }
    sym::check(l.due.is_empty(), "a listener misses an event");
    sym::check(l.l.scope() == l.scope, "a listener reports another scope than it was started with");
}

fn oid(e: BusEvent) -> ObjectId {
    match e {
        BusEvent::ObjectCreated(o) | BusEvent::ObjectDestroyed(o) => o,
        BusEvent::ServiceCreated(s) | BusEvent::ServiceDestroyed(s) => s.object_id,
    }
}

/// `a` was due before `b` and must come first: a service's events lie inside
/// its object's lifetime. (Enumerations promise no order.)
fn related(a: BusEvent, b: BusEvent) -> bool {
    oid(a) == oid(b)
        && !matches!((a, b), (BusEvent::ObjectCreated(_), BusEvent::ServiceCreated(_)) | (BusEvent::ServiceCreated(_), BusEvent::ObjectCreated(_)))
}

async fn bus_op(h: &aldrin::Handle, bus: &mut Bus, ls: &mut [Option<L>], op: usize) {
    match op {
        0 | 1 => {
            let u = O[op];
            if let Some(i) = bus.objs.iter().position(|(o, _)| o.id().uuid == u) {
                let (o, s) = bus.objs.remove(i);
                if let Some(s) = &s {
                    tell(ls, BusEvent::ServiceDestroyed(s.id()));
                }
                tell(ls, BusEvent::ObjectDestroyed(o.id()));
                sym::check(o.destroy().await.is_ok(), "destroying an object fails");
            } else {
                let o = h.create_object(u).await.expect("create object");
                tell(ls, BusEvent::ObjectCreated(o.id()));
                bus.objs.push((o, None));
            }
        }
        _ => {
            if let Some((o, s)) = bus.objs.last_mut() {
                if let Some(s) = s.take() {
                    tell(ls, BusEvent::ServiceDestroyed(s.id()));
                    sym::check(s.destroy().await.is_ok(), "destroying a service fails");
                } else {
                    let n = o.create_service(S, ServiceInfo::new(0)).await.expect("create service");
                    tell(ls, BusEvent::ServiceCreated(n.id()));
                    *s = Some(n);
                }
            }
        }
    }
}

async fn listener_op(h: &aldrin::Handle, bus: &Bus, slot: &mut Option<L>, filters: usize) {
    let Some(l) = slot else {
        let l = BusListener::new(h).await.expect("create bus listener");
        *slot = Some(L { l, filters: vec![], scope: None, due: vec![] });
        return;
    };
    match sym::choice(6 + filters, "listener op") {
        n @ 0..=2 => {
            let r = l.l.start(SCOPES[n]).await;
            if l.scope.is_some() {
                sym::check(r == Err(Error::BusListenerAlreadyStarted), "a listener is started twice");
            } else {
                sym::check(r.is_ok(), "starting a listener fails");
                l.scope = Some(SCOPES[n]);
                if SCOPES[n].includes_current() {
                    let cur = bus.ids();
                    l.due.extend(cur.into_iter().filter(|e| l.filters.iter().any(|f| f.matches_event(*e))));
                }
            }
        }
        3 => {
            let r = l.l.stop().await;
            if l.scope.take().is_some() {
                sym::check(r.is_ok(), "stopping a listener fails");
            } else {
                sym::check(r == Err(Error::BusListenerNotStarted), "a listener is stopped although it was not started");
            }
        }
        4 => {
            sym::check(l.l.clear_filters().is_ok(), "clearing filters fails");
            l.filters.clear();
        }
        5 => {
            sym::check(l.l.destroy().await.is_ok(), "destroying a listener fails");
            sym::check(l.l.destroy().await == Err(Error::InvalidBusListener), "a listener is destroyed twice");
            let mut l = slot.take().unwrap();
            // what was reported before may still be taken; then it ends
            let mut n = 0;
            while let Some(_e) = l.l.next_event().await {
                n += 1;
            }
            sym::check(n <= l.due.len(), "a destroyed listener reports more than happened");
            sym::check(l.l.is_finished(), "a destroyed listener is not finished");
            sym::cover("destroyed");
        }
        n => {
            let f = filter(n - 6);
            if let Some(i) = l.filters.iter().position(|g| *g == f) {
                sym::check(l.l.remove_filter(f).is_ok(), "removing a filter fails");
                l.filters.remove(i);
            } else {
                sym::check(l.l.add_filter(f).is_ok(), "adding a filter fails");
                l.filters.push(f);
            }
            sym::check(l.l.num_filters() == l.filters.len() && l.l.has_filter(f) == l.filters.contains(&f), "a listener's filters are not what was set");
        }
    }
}

/// histories of `ops` operations, each run to completion; then all is drained
pub fn run(delays: usize, fifo: usize, same: bool, listeners: usize, ops: usize, filters: usize, seeded: bool) {
    let mut w = World::new(if same { 1 } else { 2 }, fifo);
    let ho = w.h(0);
    let hl = w.h(if same { 0 } else { 1 });
    let bus = Rc::new(RefCell::new(Bus::default()));
    let ls: Rc<RefCell<Vec<Option<L>>>> = Rc::new(RefCell::new((0..listeners).map(|_| None).collect()));
    for i in 0..listeners {
        let (h, l) = (hl.clone(), ls.clone());
        w.block(async move {
            let b = BusListener::new(&h).await.expect("create bus listener");
            let mut x = L { l: b, filters: vec![], scope: None, due: vec![] };
            if seeded {
                for f in [0, 1] {
                    let f = filter(f);
                    sym::check(x.l.add_filter(f).is_ok(), "adding a filter fails");
                    x.filters.push(f);
                }
            }
            l.borrow_mut()[i] = Some(x);
        });
    }
    w.ex.delays = delays;
    for _ in 0..ops {
        let (h, h2, b, l) = (ho.clone(), hl.clone(), bus.clone(), ls.clone());
        w.block(async move {
            let n = sym::choice(3 + listeners, "op");
            let mut bus = b.take();
            let mut ls = l.take();
            if n < 3 {
                bus_op(&h, &mut bus, &mut ls, n).await
            } else {
                listener_op(&h2, &bus, &mut ls[n - 3], filters).await
            }
            *b.borrow_mut() = bus;
            *l.borrow_mut() = ls;
        });
        w.check_alive();
    }
    let l = ls.clone();
    w.block(async move {
        let mut ls = l.take();
        for x in ls.iter_mut().flatten() {
            drain(x).await
        }
        *l.borrow_mut() = ls;
    });
    drop((bus, ls, ho, hl));
    w.ex.run();
    w.check_alive();
    w.finish();
}

/// a listener's operations race the bus's: nothing breaks, and what was
/// reported is consistent
pub fn race(delays: usize, fifo: usize, same: bool, ops: usize, cancel: bool) {
    let mut w = World::new(if same { 1 } else { 2 }, fifo);
    let ho = w.h(0);
    let hl = w.h(if same { 0 } else { 1 });
    w.ex.delays = delays;
    let a = w.ex.spawn(async move {
        let mut bus = Bus::default();
        let n = ops;
        for _ in 0..n {
            bus_op(&ho, &mut bus, &mut [], 2 * sym::choice(2, "bus op")).await;
        }
        drop(bus);
    });
    let b = w.ex.spawn(async move {
        let mut l = BusListener::new(&hl).await.expect("create bus listener");
        let _ = l.add_filter(filter(0));
        let _ = l.add_filter(filter(1));
        let mut alive: Vec<BusEvent> = vec![];
        for _ in 0..ops + 1 {
            let n = sym::choice(if cancel { 8 } else { 5 }, "listener op");
            match n {
                0..=2 => {
                    let _ = l.start(SCOPES[n]).await;
                }
                3 => {
                    let _ = l.stop().await;
                }
                4 => {
                    while let Some(Some(e)) = try_now(|cx| l.poll_next_event(cx)).await {
                        alive.push(e)
                    }
                }
                5 | 6 => {
                    // started, but the result is not waited for
                    let mut f = Box::pin(l.start(SCOPES[2 * (n - 5)]));
                    let _ = try_now(|cx| f.as_mut().poll(cx)).await;
                    sym::cover("cancelled");
                }
                _ => {
                    let mut f = Box::pin(l.stop());
                    let _ = try_now(|cx| f.as_mut().poll(cx)).await;
                }
            }
        }
        while let Some(Some(e)) = try_now(|cx| l.poll_next_event(cx)).await {
            alive.push(e)
        }
        // a destroyed listener ends
        let _ = l.destroy().await;
        while l.next_event().await.is_some() {}
    });
    w.ex.run();
    w.check_alive();
    for t in [a, b] {
        sym::check(w.ex.done(t), "an operation the application awaits never completes");
    }
    w.finish();
}

//! Discoverers, object lookup and lifetimes against the history of the bus.
use crate::cl::listen::O;
use crate::cl::stop::*;
use crate::cl::world::*;
use aldrin::low_level::{Service, ServiceInfo};
use aldrin::{Discoverer, DiscovererEvent, DiscovererEventKind, Handle, LifetimeId, Object};
use aldrin_core::*;
use std::cell::RefCell;
use std::future::Future;
use std::rc::Rc;
use std::task::Poll;
use uuid::Uuid;

pub const S: [ServiceUuid; 2] = [ServiceUuid(Uuid::from_u128(0x201)), ServiceUuid(Uuid::from_u128(0x202))];

/// the bus as seen by the only client that changes it
#[derive(Clone, Default, PartialEq)]
struct State {
    obj: [Option<ObjectId>; 2],
    svc: [[Option<ServiceId>; 2]; 2],
}

#[derive(Default)]
struct Hist {
    /// after 0, 1, .. operations; the last one is the current state
    states: Vec<State>,
    issued: usize,
    done: usize,
    objs: [Option<Object>; 2],
    svcs: [[Option<Service>; 2]; 2],
}

type H = Rc<RefCell<Hist>>;

impl Hist {
    fn new() -> H {
        let mut h = Hist::default();
        h.states.push(State::default());
        Rc::new(RefCell::new(h))
    }
    fn last(&self) -> State {
        self.states.last().unwrap().clone()
    }
}

/// create or destroy (alternately) object `n % 2`, or service `(n / 2 - 1)` on it
async fn op(h: &Handle, hist: &H, n: usize) {
    let o = n % 2;
    let mut s = hist.borrow().last();
    hist.borrow_mut().issued += 1;
    if n < 2 {
        let old = hist.borrow_mut().objs[o].take();
        if let Some(x) = old {
            let svcs = std::mem::take(&mut hist.borrow_mut().svcs[o]);
            sym::check(x.destroy().await.is_ok(), "destroying an object fails");
            drop(svcs);
            s.obj[o] = None;
            s.svc[o] = [None; 2];
        } else {
            let x = h.create_object(O[o]).await.expect("create object");
            s.obj[o] = Some(x.id());
            hist.borrow_mut().objs[o] = Some(x);
        }
    } else {
        let k = n / 2 - 1;
        let old = hist.borrow_mut().svcs[o][k].take();
        if let Some(x) = old {
            sym::check(x.destroy().await.is_ok(), "destroying a service fails");
            s.svc[o][k] = None;
        } else {
            let x = hist.borrow_mut().objs[o].take();
            if let Some(x) = x {
                let y = x.create_service(S[k], ServiceInfo::new(0)).await.expect("create service");
                s.svc[o][k] = Some(y.id());
                let mut m = hist.borrow_mut();
                m.svcs[o][k] = Some(y);
                m.objs[o] = Some(x);
            }
        }
    }
    let mut m = hist.borrow_mut();
    m.states.push(s);
    m.done += 1;
}

/// what an entry asks for
#[derive(Clone, Copy, Debug, PartialEq)]
struct Want {
    obj: Option<usize>,
    svcs: &'static [usize],
}

const W: [Want; 8] = [
    Want { obj: Some(0), svcs: &[] },
    Want { obj: Some(0), svcs: &[0] },
    Want { obj: Some(0), svcs: &[0, 1] },
    Want { obj: None, svcs: &[] },
    Want { obj: None, svcs: &[0] },
    Want { obj: None, svcs: &[1, 0] },
    Want { obj: Some(1), svcs: &[1] },
    Want { obj: Some(1), svcs: &[] },
];

type Found = (ObjectId, Vec<ServiceId>);

impl Want {
    fn uuids(&self) -> Vec<ServiceUuid> {
        self.svcs.iter().map(|i| S[*i]).collect()
    }
    fn object(&self) -> Option<ObjectUuid> {
        self.obj.map(|o| O[o])
    }
    fn at(&self, s: &State, o: usize) -> Option<Found> {
        if self.obj.is_some_and(|x| x != o) {
            return None;
        }
        let id = s.obj[o]?;
        let mut v = vec![];
        for k in self.svcs {
            v.push(s.svc[o][*k]?);
        }
        Some((id, v))
    }
    fn any(&self, s: &State) -> bool {
        (0..2).any(|o| self.at(s, o).is_some())
    }
    /// created/destroyed events of object `o` for an observer that starts
    /// after `t` operations
    fn events(&self, states: &[State], t: usize, o: usize) -> Vec<(bool, ObjectId)> {
        let mut v = vec![];
        let mut cur = None;
        for s in &states[t..] {
            let n = self.at(s, o);
            if n != cur {
                if let Some(c) = cur {
                    let (id, _): Found = c;
                    v.push((false, id));
                }
                if let Some((id, _)) = &n {
                    v.push((true, *id));
                }
            }
            cur = n;
        }
        v
    }
}

#[derive(Clone, Copy)]
pub struct Cfg {
    pub delays: usize,
    pub fifo: usize,
    pub same: bool,
    /// operations before the discoverer is there, and while it is
    pub pre: usize,
    pub ops: usize,
    /// kinds of operations (of 6)
    pub kinds: usize,
    /// sets of entries to choose from
    pub sets: &'static [&'static [usize]],
    pub race: bool,
    pub restart: bool,
}

struct View {
    d: Discoverer<usize>,
    wants: Vec<usize>,
    /// since the last start
    events: Vec<DiscovererEvent<usize>>,
    /// operations that were done when the start was requested, and issued when
    /// it was confirmed
    lo: usize,
    hi: usize,
    current_only: bool,
    /// its events were passed over
    waited: bool,
}

async fn build(h: &Handle, hist: &H, wants: &[usize], current_only: bool) -> View {
    let lo = hist.borrow().done;
    let mut b = if current_only { h.create_discoverer() } else { Discoverer::builder(h) };
    for w in wants {
        let x = W[*w];
        b = match x.object() {
            _ if wants.len() > 1 => b.add(*w, x.object(), x.uuids()),
            None => b.any_object_with_services(*w, x.uuids()),
            Some(o) if x.svcs.is_empty() => b.bare_object(*w, o),
            Some(o) => b.object_with_services(*w, o, x.uuids()),
        }
    }
    let waited = current_only && sym::choice(2, "and wait") == 1;
    let d = if waited {
        b.build_current_only_and_wait().await
    } else if current_only {
        b.build_current_only().await
    } else {
        b.build().await
    };
    let d = d.expect("build a discoverer");
    sym::check(!waited || d.is_finished(), "a discoverer that was waited for has not finished");
    View { d, wants: wants.to_vec(), events: vec![], lo, hi: hist.borrow().issued, current_only, waited }
}

impl View {
    fn note(&mut self, e: DiscovererEvent<usize>) {
        // what it says now is consistent with the event
        let w = W[e.key()];
        let id = e.object_id();
        sym::check(self.wants.contains(&e.key()), "an event for an entry that does not exist");
        if e.is_created() {
            sym::check(self.d.object_id(e.key(), id.uuid) == Some(id), "a discovered object is not known by its id");
            let s = self.d.service_ids(e.key(), id.uuid, w.uuids());
            sym::check(s.as_ref().is_some_and(|s| s.len() == w.svcs.len() && s.iter().all(|s| s.object_id == id)), "a discovered object's services are not known");
            let all = e.service_ids(&self.d, w.uuids());
            sym::check(Some(&all) == s.as_ref(), "an event knows other services");
            if let [a, b] = w.uuids()[..] {
                sym::check(e.service_ids_n(&self.d, &[a, b])[..] == all[..], "an event knows other services");
            }
            for (u, i) in w.uuids().into_iter().zip(&all) {
                sym::check(i.uuid == u && e.service_id(&self.d, u) == *i, "an event knows another service");
            }
            sym::check(e.kind() == DiscovererEventKind::Created && !e.is_destroyed(), "an event's kind");
        } else {
            sym::check(e.kind() == DiscovererEventKind::Destroyed && e.is_destroyed(), "an event's kind");
            sym::check(self.d.object_id(e.key(), id.uuid) != Some(id), "a vanished object is still known");
        }
        self.events.push(e);
    }

    async fn restart(&mut self, hist: &H, n: usize) {
        self.lo = hist.borrow().done;
        let first = std::mem::replace(&mut self.current_only, n == 1);
        self.waited = n == 1 && if first { !self.waited } else { sym::choice(2, "and wait") == 1 };
        let r = if self.waited {
            self.d.restart_current_only_and_wait().await
        } else if n == 1 {
            self.d.restart_current_only().await
        } else {
            self.d.restart().await
        };
        sym::check(r.is_ok(), "restarting a discoverer fails");
        sym::check(!self.waited || self.d.is_finished(), "a discoverer that was waited for has not finished");
        self.hi = hist.borrow().issued;
        self.events.clear();
    }

    /// all has been consumed
    fn check(&self, hist: &Hist) {
        let states = &hist.states;
        let s = hist.last();
        // one point in time explains the events of all entries
        let ok = (self.lo..=self.hi).any(|t| {
            let end = if self.current_only { t + 1 } else { states.len() };
            let ev = self.waited
                || self.wants.iter().all(|w| {
                    (0..2).all(|o| {
                        let got: Vec<_> = self.events.iter().filter(|e| e.key() == *w && e.object_id().uuid == O[o]).map(|e| (e.is_created(), e.object_id())).collect();
                        got == W[*w].events(&states[..end], t, o)
                    })
                });
            ev && (!self.current_only || end <= states.len() && self.wants.iter().all(|w| self.shows(*w, &states[t]).is_ok()))
        });
        sym::check(ok, "a discoverer's events are not the transitions since it was started");
        let total = self.events.iter().filter(|e| O.contains(&e.object_id().uuid)).count();
        sym::check(total == self.events.len(), "an event of an unknown object");
        if self.current_only {
            sym::cover("current only");
            return;
        }
        for w in &self.wants {
            if let Err(m) = self.shows(*w, &s) {
                sym::check(false, m);
            }
        }
    }

    /// whether entry `w` shows state `s`
    fn shows(&self, w: usize, s: &State) -> Result<(), &'static str> {
        let want = W[w];
        let mut n = 0;
        let ok = |b: bool, m| if b { Ok(()) } else { Err(m) };
        ok(self.d.entry(w).key() == w, "an entry has another key")?;
        for o in 0..2 {
            if want.obj.is_some_and(|x| x != o) {
                continue;
            }
            let m = want.at(s, o);
            n += m.is_some() as usize;
            ok(self.d.contains(w, O[o]) == m.is_some(), "a discoverer contains what does not match, or not what does")?;
            ok(self.d.object_id(w, O[o]) == m.as_ref().map(|m| m.0), "a discoverer knows an object by another id")?;
            // (an entry without services has no service ids to ask for)
            if !want.svcs.is_empty() {
                let got = self.d.service_ids(w, O[o], want.uuids());
                ok(got == m.as_ref().map(|m| m.1.clone()), "a discoverer knows a service by another id")?;
                match want.uuids()[..] {
                    [a] => ok(self.d.service_ids_n(w, O[o], &[a]).map(Vec::from) == got, "a discoverer knows a service by another id")?,
                    [a, b] => ok(self.d.service_ids_n(w, O[o], &[a, b]).map(Vec::from) == got, "a discoverer knows a service by another id")?,
                    _ => (),
                }
                for k in want.svcs {
                    let one = self.d.service_id(w, O[o], S[*k]);
                    ok(one == m.as_ref().and_then(|_| s.svc[o][*k]), "a discoverer knows one service by another id")?;
                }
            }
            let it = self.d.entry_iter(w).filter(|e| e.object_id().uuid == O[o]).count();
            ok(it == m.is_some() as usize, "iterating a discoverer's entry shows something else than it contains")?;
        }
        ok(self.d.contains_any(w) == (n > 0), "contains_any is wrong")?;
        for e in (&self.d).into_iter().filter(|e| e.key() == w) {
            let o = O.iter().position(|u| *u == e.object_id().uuid).unwrap_or(0);
            let m = want.at(s, o);
            ok(m.as_ref().map(|m| m.0) == Some(e.object_id()), "iterating a discoverer shows an object that does not match")?;
            let Some((_, ids)) = m else { continue };
            if !want.svcs.is_empty() {
                ok(ids == e.service_ids(want.uuids()), "iterating a discoverer shows other services")?;
                ok(ids.iter().all(|i| e.service_id(i.uuid) == *i), "iterating a discoverer shows another service")?;
            }
            let ev = DiscovererEvent::from(e);
            ok(ev.is_created() && ev.key() == w && ev.object_id() == e.object_id(), "an iterated entry is another event")?;
        }
        ok(self.d.iter().filter(|e| e.key() == w).count() == n, "iterating a discoverer misses an object or repeats one")
    }
}

pub fn run(c: Cfg) {
    let mut w = World::new(if c.same { 1 } else { 2 }, c.fifo);
    let ho = w.h(0);
    let hd = w.h(if c.same { 0 } else { 1 });
    let hist = Hist::new();
    let set = c.sets[sym::choice(c.sets.len(), "entries")];
    for _ in 0..c.pre {
        let (h, m) = (ho.clone(), hist.clone());
        w.block(async move { op(&h, &m, sym::choice(c.kinds, "op before")).await });
    }
    w.ex.delays = c.delays;
    let gate = Gate::default();
    let view = Rc::new(RefCell::new(None));
    let (m, g, v) = (hist.clone(), gate.clone(), view.clone());
    let first_current = c.restart && sym::choice(2, "current only") == 1;
    let b = w.ex.spawn(async move {
        let mut d = build(&hd, &m, set, first_current).await;
        let restart = c.race && c.restart;
        let mut left = if restart { Some(sym::choice(3, "restart after")) } else { None };
        loop {
            if left == Some(0) {
                let n = sym::choice(2, "restart");
                d.restart(&m, n).await;
                left = None;
                sym::cover("restarted");
            }
            match g.or(|cx| d.d.poll_next_event(cx)).await {
                Some(Some(e)) => {
                    d.note(e);
                    left = left.map(|n| n.saturating_sub(1));
                }
                Some(None) => {
                    sym::check(d.current_only && d.d.is_finished(), "a discoverer ends although it listens for new objects");
                    if left.is_some() {
                        left = Some(0);
                        continue;
                    }
                    g.wait().await;
                    break;
                }
                None => {
                    sym::check(!d.current_only, "a discoverer of current objects does not finish");
                    break;
                }
            }
        }
        *v.borrow_mut() = Some(d);
    });
    if !c.race {
        w.ex.run();
    }
    let (m, h) = (hist.clone(), ho.clone());
    let a = w.ex.spawn(async move {
        for _ in 0..c.ops {
            op(&h, &m, sym::choice(c.kinds, "op")).await;
        }
    });
    w.ex.run();
    sym::check(w.ex.done(a), "an operation the application awaits never completes");
    gate.open();
    w.ex.run();
    sym::check(w.ex.done(b), "a discoverer's operation never completes");
    w.check_alive();
    let v = view.take();
    if let Some(mut v) = v {
        v.check(&hist.borrow());
        if !v.events.is_empty() {
            sym::cover("discovered");
        }
        if c.restart && !c.race {
            // a second round, from scratch
            let m = hist.clone();
            let n = sym::choice(2, "restart");
            let v = w.block(async move {
                v.restart(&m, n).await;
                while let Some(Some(e)) = try_now(|cx| v.d.poll_next_event(cx)).await {
                    v.note(e);
                }
                v
            });
            sym::check(v.d.is_finished() == v.current_only, "a restarted discoverer's end");
            v.check(&hist.borrow());
            sym::cover("restarted");
            drop(v);
        }
    }
    drop((hist, ho));
    w.ex.run();
    w.check_alive();
    w.finish();
}

/// the other ways to find or wait for an object
async fn lookup(h: &Handle, want: Want, wait: bool) -> Option<Found> {
    let u = want.uuids();
    let n = sym::choice(2, "array") == 1;
    if wait {
        Some(
            match (want.object(), &u[..]) {
                (Some(o), []) if n => h.wait_for_object_n(Some(o), &[]).await.map(|(o, [])| (o, vec![])),
                (Some(o), []) => h.wait_for_bare_object(o).await.map(|o| (o, vec![])),
                (Some(o), &[a]) if n => h.wait_for_object_with_services_n(o, &[a]).await.map(|(o, v)| (o, v.to_vec())),
                (Some(o), &[a, b]) if n => h.wait_for_object_with_services_n(o, &[a, b]).await.map(|(o, v)| (o, v.to_vec())),
                (Some(o), _) => h.wait_for_object_with_services(o, u).await,
                (None, &[a]) if n => h.wait_for_any_object_with_services_n(&[a]).await.map(|(o, v)| (o, v.to_vec())),
                (None, &[a, b]) if n => h.wait_for_any_object_with_services_n(&[a, b]).await.map(|(o, v)| (o, v.to_vec())),
                (None, _) => h.wait_for_any_object_with_services(u).await,
            }
            .expect("wait for object"),
        )
    } else {
        match (want.object(), &u[..]) {
            (Some(o), []) if n => h.find_object_n(Some(o), &[]).await.map(|r| r.map(|(o, [])| (o, vec![]))),
            (Some(o), []) => h.find_bare_object(o).await.map(|r| r.map(|o| (o, vec![]))),
            (Some(o), &[a]) if n => h.find_object_with_services_n(o, &[a]).await.map(|r| r.map(|(o, v)| (o, v.to_vec()))),
            (Some(o), &[a, b]) if n => h.find_object_with_services_n(o, &[a, b]).await.map(|r| r.map(|(o, v)| (o, v.to_vec()))),
            (Some(o), _) => h.find_object_with_services(o, u).await,
            (None, &[a]) if n => h.find_any_object_with_services_n(&[a]).await.map(|r| r.map(|(o, v)| (o, v.to_vec()))),
            (None, &[a, b]) if n => h.find_any_object_with_services_n(&[a, b]).await.map(|r| r.map(|(o, v)| (o, v.to_vec()))),
            (None, _) => h.find_any_object_with_services(u).await,
        }
        .expect("find object")
    }
}

/// finding and waiting for an object while the bus changes
pub fn find(c: Cfg, api: bool) {
    let mut w = World::new(if c.same { 1 } else { 2 }, c.fifo);
    let ho = w.h(0);
    let hd = w.h(if c.same { 0 } else { 1 });
    let hist = Hist::new();
    let want = W[c.sets[0][sym::choice(c.sets[0].len(), "wanted")]];
    for _ in 0..c.pre {
        let (h, m) = (ho.clone(), hist.clone());
        w.block(async move { op(&h, &m, sym::choice(c.kinds, "op before")).await });
    }
    w.ex.delays = c.delays;
    let wait = sym::choice(2, "wait") == 1;
    let (m, h) = (hist.clone(), ho.clone());
    let a = w.ex.spawn(async move {
        for _ in 0..c.ops {
            op(&h, &m, sym::choice(c.kinds, "op")).await;
        }
    });
    let out = Rc::new(RefCell::new(None));
    let (m, o) = (hist.clone(), out.clone());
    let b = w.ex.spawn(async move {
        let lo = m.borrow().done;
        let r = if api { lookup(&hd, want, wait).await } else if wait {
            Some(hd.wait_for_object(want.object(), want.uuids()).await.expect("wait for object"))
        } else {
            hd.find_object(want.object(), want.uuids()).await.expect("find object")
        };
        let hi = m.borrow().issued;
        *o.borrow_mut() = Some((lo, hi, r));
    });
    w.ex.run();
    sym::check(w.ex.done(a), "an operation the application awaits never completes");
    let m = hist.borrow();
    if let Some((lo, hi, r)) = out.take() {
        let during = &m.states[lo..=hi.min(m.states.len() - 1)];
        match r {
            Some(f) => {
                let ok = during.iter().any(|s| (0..2).any(|o| want.at(s, o).as_ref() == Some(&f)));
                sym::check(ok, "an object is found that did not exist at any time during the search");
                sym::cover("found");
            }
            None => {
                sym::check(during.iter().any(|s| !want.any(s)), "an object that existed all the time is not found");
                sym::cover("not found");
            }
        }
    } else {
        sym::check(wait, "finding an object does not complete");
        sym::check(!want.any(&m.last()), "waiting for an object that exists does not complete");
        sym::cover("waits");
    }
    drop(m);
    w.ex.kill(b);
    drop((hist, ho));
    w.ex.run();
    w.check_alive();
    w.finish();
}

/// A lifetime bound to some incarnation of an object (or to one that never
/// was) while the object comes and goes.
pub fn lifetime(delays: usize, fifo: usize, same: bool, ops: usize, late: usize) {
    let mut w = World::new(if same { 1 } else { 2 }, fifo);
    let ho = w.h(0);
    let hb = w.h(if same { 0 } else { 1 });
    w.ex.delays = delays;
    // incarnations of O[0], and how many of them were asked to end
    let born: Rc<RefCell<Vec<ObjectId>>> = Rc::default();
    let ended = Rc::new(RefCell::new(0usize));
    let scope = Rc::new(RefCell::new(None::<Object>));
    let asked = w.peers[0].asked.clone();
    let step = move |h: Handle, born: Rc<RefCell<Vec<ObjectId>>>, ended: Rc<RefCell<usize>>, scope: Rc<RefCell<Option<Object>>>| {
        let asked = asked.clone();
        async move {
        let old = scope.borrow_mut().take();
        if let Some(x) = old {
            *ended.borrow_mut() += 1;
            let n = sym::choice(if same { 2 } else { 3 }, "drop");
            if n == 1 {
                drop(x);
            } else if n == 2 {
                // its client ends
                asked.set(true);
                h.shutdown();
            } else {
                sym::check(x.destroy().await.is_ok(), "ending a scope fails");
            }
        } else {
            // (the broker may still have to see a dropped one)
            if let Ok(x) = h.create_object(O[0]).await {
                born.borrow_mut().push(x.id());
                *scope.borrow_mut() = Some(x);
            }
        }
    }};
    for _ in 0..late {
        let f = step(ho.clone(), born.clone(), ended.clone(), scope.clone());
        w.block(f);
    }
    let (h, bo, en, sc) = (ho.clone(), born.clone(), ended.clone(), scope.clone());
    let ops = sym::choice(ops + 1, "ops");
    let a = w.ex.spawn(async move {
        for _ in 0..ops {
            step(h.clone(), bo.clone(), en.clone(), sc.clone()).await;
        }
    });
    let gate = Gate::default();
    let (bo, en, g) = (born.clone(), ended.clone(), gate.clone());
    let b = w.ex.spawn(async move {
        // some incarnation the binder has heard of, or one that never was
        let n = bo.borrow().len();
        let k = sym::choice(n + 2, "incarnation");
        let id = if k < n {
            bo.borrow()[k]
        } else if k == n {
            ObjectId::new(O[0], ObjectCookie(Uuid::from_u128(7)))
        } else {
            ObjectId::new(O[1], ObjectCookie(Uuid::from_u128(7)))
        };
        let mut l = LifetimeId(id).bind(&hb).await.expect("bind a lifetime");
        sym::check(!l.has_ended(), "a lifetime has ended before it was polled");
        if sym::choice(3, "give up") == 2 {
            return;
        }
        let r = g
            .or(|cx| match std::pin::Pin::new(&mut l).poll(cx) {
                Poll::Ready(()) => Poll::Ready(()),
                Poll::Pending => Poll::Pending,
            })
            .await;
        let must = k >= n || *en.borrow() > k;
        if r.is_some() {
            sym::check(must, "a lifetime ends while its scope is alive");
            sym::check(l.has_ended(), "an ended lifetime has not ended");
            sym::cover("ended");
        } else {
            sym::check(!must, "a lifetime does not end with its scope");
            sym::check(!l.has_ended(), "a lifetime has ended without saying so");
            sym::cover("alive");
        }
    });
    w.ex.run();
    sym::check(w.ex.done(a), "an operation the application awaits never completes");
    gate.open();
    w.ex.run();
    sym::check(w.ex.done(b), "binding a lifetime never completes");
    w.check_alive();
    drop((scope, ho));
    w.ex.run();
    w.check_alive();
    w.finish();
}

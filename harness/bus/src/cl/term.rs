//! A client stops, in any way and at any point of its transport's life. All
//! that is pending or started later resolves, and the broker forgets it.
use crate::cl::disc::S;
use crate::cl::listen::O;
use crate::cl::stop::*;
use crate::cl::world::*;
use aldrin::low_level::{Promise, Proxy, Receiver, Sender, Service, ServiceInfo, UnboundReceiver, UnboundSender};
use aldrin::{BusListener, Discoverer, Error, Handle, LifetimeId, LifetimeScope, Object};
use aldrin_core::{BusListenerFilter, BusListenerScope, ChannelCookie, ObjectId, ObjectUuid, ServiceId, TypeId};
use std::cell::{Cell, RefCell};
use std::future::{poll_fn, Future};
use std::pin::Pin;
use std::rc::Rc;
use std::task::Poll;
use uuid::Uuid;

/// what application tasks of the stopping client share
#[derive(Clone)]
struct Cx {
    h: Handle,
    /// it may stop from here on
    fired: Rc<Cell<bool>>,
    /// it has stopped
    dead: Gate,
}

impl Cx {
    /// an operation that may be cut off
    fn sd<T>(&self, r: Result<T, Error>) -> Option<T> {
        match r {
            Ok(v) => Some(v),
            Err(Error::Shutdown) => {
                sym::check(self.fired.get() || self.dead.is_open(), "a running client reports that it has shut down");
                sym::cover("cut off");
                None
            }
            Err(_) => {
                sym::check(false, "an operation of a stopping client ends in an unexpected error");
                None
            }
        }
    }

    /// like `sd`, for ends of channels
    fn ch<T>(&self, r: Result<T, Error>) -> Option<T> {
        match r {
            Err(Error::InvalidChannel) => {
                sym::check(self.fired.get(), "a channel ends although nobody stops");
                None
            }
            r => self.sd(r),
        }
    }

    fn none<T>(&self, r: Option<T>) {
        sym::check(r.is_none(), "a stream yields something nobody sent");
        sym::check(self.fired.get(), "a stream ends although nobody stops");
        sym::cover("stream ended");
    }
}

/// after the end
fn late<T>(r: Result<T, Error>) {
    sym::check(matches!(r, Err(Error::Shutdown)), "an operation on a stopped client does not report the shutdown");
}

fn late_ch<T>(r: Result<T, Error>) {
    sym::check(matches!(r, Err(Error::Shutdown | Error::InvalidChannel)), "an operation on a stopped client's channel succeeds");
}

type Fut = Pin<Box<dyn Future<Output = ()>>>;

/// objects that exist before anything can fail
struct Env {
    /// of the peer
    svc: ServiceId,
    obj: ObjectId,
    own: Option<(Object, Service)>,
    promise: Option<Promise>,
    tx: Option<Sender>,
    rx: Option<Receiver>,
    claim_tx: ChannelCookie,
    claim_rx: ChannelCookie,
}

pub const FEATURES: usize = 20;

fn feature(n: usize, x: Cx, e: &mut Env) -> Option<Fut> {
    let (svc, obj) = (e.svc, e.obj);
    let h = x.h.clone();
    let f: Fut = match n {
        0 => Box::pin(async move {
            let mut keep = None;
            if let Some(o) = x.sd(h.create_object(O[0]).await) {
                if let Some(mut s) = x.sd(o.create_service(S[0], ServiceInfo::new(3)).await) {
                    x.sd(s.emit(7, 1u32));
                    x.none(s.next_call().await);
                    keep = Some(s);
                }
                x.dead.wait().await;
                late(o.create_service(S[1], ServiceInfo::new(3)).await);
                late(o.destroy().await);
            }
            x.dead.wait().await;
            if let Some(mut s) = keep {
                late(s.emit(7, 1u32));
                late(s.destroy().await);
                x.none(s.next_call().await);
            }
            late(h.create_object(O[0]).await);
        }),
        1 => Box::pin(async move {
            for _ in 0..2 {
                let Some(o) = x.sd(h.create_object(O[0]).await) else { return };
                let Some(s) = x.sd(o.create_service(S[0], ServiceInfo::new(3)).await) else { return };
                if x.sd(s.destroy().await).is_none() {
                    return;
                }
                if x.sd(o.destroy().await).is_none() {
                    return;
                }
            }
        }),
        2 => Box::pin(async move {
            if let Some(p) = x.sd(Proxy::new(&h, svc).await) {
                // never answered
                let r = p.call(1, 5u32, None).await;
                sym::check(r.is_err(), "a call that nobody answers resolves");
                x.sd(r);
                x.dead.wait().await;
                late(p.call(1, 6u32, None).await);
            }
            x.dead.wait().await;
            late(Proxy::new(&h, svc).await);
        }),
        3 => Box::pin(async move {
            if let Some(mut p) = x.sd(Proxy::new(&h, svc).await) {
                x.sd(p.subscribe(1).await);
                x.none(p.next_event().await);
                sym::check(p.events_finished(), "an ended proxy claims to go on");
                x.dead.wait().await;
                late(p.subscribe(1).await);
                late(p.subscribe(2).await);
                late(p.subscribe_all().await);
                late(p.unsubscribe(2).await);
            }
        }),
        4 => Box::pin(async move {
            if let Some(mut p) = x.sd(Proxy::new(&h, svc).await) {
                if x.sd(p.subscribe_all().await).is_some() && x.sd(p.unsubscribe_all().await).is_some() && x.sd(p.subscribe(3).await).is_some() {
                    x.sd(p.unsubscribe(3).await);
                }
                x.none(p.next_event().await);
                x.dead.wait().await;
                late(p.unsubscribe_all().await);
            }
        }),
        5 => Box::pin(async move {
            if let Some((tx, mut rx)) = x.sd(h.create_low_level_channel().claim_sender().await) {
                let r = tx.establish().await;
                sym::check(r.is_err(), "a channel is established by nobody");
                x.ch(r);
                x.dead.wait().await;
                late(rx.close().await);
            }
            x.dead.wait().await;
            late(h.create_low_level_channel().claim_sender().await);
        }),
        6 => Box::pin(async move {
            if let Some((tx, rx)) = x.sd(h.create_low_level_channel().claim_receiver(3).await) {
                let r = rx.establish().await;
                sym::check(r.is_err(), "a channel is established by nobody");
                x.ch(r);
                x.dead.wait().await;
                late(tx.claim().await);
            }
            x.dead.wait().await;
            late(h.create_low_level_channel().claim_receiver(3).await);
        }),
        7 => {
            let mut tx = e.tx.take()?;
            Box::pin(async move {
                if x.ch(tx.send_item(1u32).await).is_some() {
                    // there was room for one
                    let r = tx.send_item(2u32).await;
                    sym::check(r.is_err(), "an item is accepted without capacity");
                    x.ch(r);
                }
                tx.receiver_closed().await;
                x.dead.wait().await;
                late_ch(tx.send_item(3u32).await);
                late_ch(tx.send_ready().await);
                let _ = tx.close().await;
            })
        }
        8 => {
            let mut rx = e.rx.take()?;
            Box::pin(async move {
                match x.ch(rx.next_item::<u32>().await) {
                    None => (),
                    v => x.none(v.unwrap()),
                }
                x.dead.wait().await;
                x.none(rx.next_item::<u32>().await.ok().flatten());
                late(rx.close().await);
            })
        }
        9 => {
            let c = e.claim_tx;
            Box::pin(async move {
                if let Some(mut tx) = x.ch(UnboundSender::new(c).claim(h.clone()).await) {
                    x.ch(tx.send_ready().await);
                    if x.ch(tx.send_item(1u32).await).is_some() {
                        x.ch(tx.close().await);
                    }
                }
                x.dead.wait().await;
                late(UnboundSender::new(c).claim(h).await);
            })
        }
        10 => {
            let c = e.claim_rx;
            Box::pin(async move {
                if let Some(mut rx) = x.ch(UnboundReceiver::new(c).claim(h.clone(), 1).await) {
                    x.ch(rx.next_item::<u32>().await);
                    x.ch(rx.close().await);
                }
                x.dead.wait().await;
                late(UnboundReceiver::new(c).claim(h, 1).await);
            })
        }
        11 => Box::pin(async move {
            if let Some(mut l) = x.sd(h.create_bus_listener().await) {
                x.sd(l.add_filter(BusListenerFilter::object(O[1])));
                x.sd(l.start(BusListenerScope::All).await);
                x.none(l.next_event().await);
                x.dead.wait().await;
                late(l.start(BusListenerScope::All).await);
                late(l.stop().await);
                late(l.add_filter(BusListenerFilter::any_object()));
                late(l.remove_filter(BusListenerFilter::object(O[1])));
                late(l.clear_filters());
                x.none(l.next_event().await);
                late(l.destroy().await);
            }
            x.dead.wait().await;
            late(BusListener::new(&h).await);
        }),
        12 => Box::pin(async move {
            if let Some(mut l) = x.sd(h.create_bus_listener().await) {
                x.sd(l.add_filter(BusListenerFilter::object(O[1])));
                if x.sd(l.start(BusListenerScope::Current).await).is_some() {
                    sym::check(l.next_event().await.is_none(), "a stream yields something nobody sent");
                    if x.sd(l.stop().await).is_some() && x.sd(l.start(BusListenerScope::New).await).is_some() {
                        x.sd(l.stop().await);
                        x.sd(l.destroy().await);
                    }
                }
            }
        }),
        13 => Box::pin(async move {
            if let Some(mut d) = x.sd(Discoverer::builder(&h).add(0, Some(O[1]), [S[1]]).add(1, None::<ObjectUuid>, [S[1]]).build().await) {
                x.none(d.next_event().await);
                x.dead.wait().await;
                late(d.restart().await);
                late(d.restart_current_only().await);
                x.none(d.next_event().await);
            }
            x.dead.wait().await;
            late(Discoverer::builder(&h).add(0, Some(O[1]), [S[1]]).build().await);
        }),
        14 => Box::pin(async move {
            let r = h.wait_for_object(Some(O[1]), [S[1]]).await;
            sym::check(r.is_err(), "an object is found that does not exist");
            x.sd(r);
            x.dead.wait().await;
            late(h.wait_for_object(Some(O[1]), [S[1]]).await);
            late(h.find_object(Some(O[1]), [S[1]]).await);
        }),
        15 => Box::pin(async move {
            let r = h.find_object(Some(O[1]), [S[1]]).await;
            sym::check(!matches!(r, Ok(Some(_))), "an object is found that does not exist");
            x.sd(r);
            x.sd(h.find_any_object_with_services([svc.uuid]).await);
        }),
        16 => Box::pin(async move {
            if let Some(mut l) = x.sd(h.create_lifetime(LifetimeId(obj)).await) {
                l.ended().await;
                sym::check(x.fired.get(), "a lifetime ends although nobody stops");
                sym::check(l.has_ended(), "an ended lifetime claims to go on");
            }
            x.dead.wait().await;
            late(h.create_lifetime(LifetimeId(obj)).await);
        }),
        17 => Box::pin(async move {
            if let Some(s) = x.sd(LifetimeScope::new(&h).await) {
                x.dead.wait().await;
                late(s.end().await);
            }
            x.dead.wait().await;
            late(LifetimeScope::new(&h).await);
        }),
        18 => {
            let mut p = e.promise.take()?;
            let own = e.own.take();
            Box::pin(async move {
                p.aborted().await;
                sym::check(x.fired.get(), "a call is aborted although nobody stops");
                x.dead.wait().await;
                late(p.ok(1u32));
                let (o, mut s) = own.unwrap();
                x.none(s.next_call().await);
                late(s.destroy().await);
                late(o.destroy().await);
            })
        }
        _ => Box::pin(async move {
            x.sd(h.sync_client().await);
            x.sd(h.sync_broker().await);
            x.sd(h.version().await);
            x.sd(h.query_introspection(TypeId(Uuid::from_u128(5))).await);
            x.sd(h.sync_broker().await);
            x.dead.wait().await;
            late(h.sync_client().await);
            late(h.sync_broker().await);
            late(h.version().await);
            late(h.query_introspection(TypeId(Uuid::from_u128(5))).await);
            late(h.submit_introspection());
        }),
    };
    Some(f)
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cause {
    /// the client's transport fails
    Fail,
    /// the broker's end of it fails
    FailBroker,
    Shutdown,
    /// and the transport fails on the way
    ShutdownFail,
    ShutdownFailBroker,
    BrokerShutdown,
    BrokerShutdownFail,
    ConnShutdown,
    ConnShutdownFail,
    Dropped,
    DroppedFail,
}
use Cause::*;

pub const CAUSES: &[Cause] = &[Fail, FailBroker, Shutdown, BrokerShutdown, ConnShutdown, Dropped];
pub const TWO: &[Cause] = &[ShutdownFail, ShutdownFailBroker, BrokerShutdownFail, ConnShutdownFail, DroppedFail];

/// `f` until `drop` opens; then it is dropped
async fn droppable(f: Fut, drop: Gate) {
    let mut f = Some(f);
    poll_fn(move |cx| {
        if drop.is_open() || drop.poll(cx).is_ready() {
            f = None;
            return Poll::Ready(());
        }
        f.as_mut().unwrap().as_mut().poll(cx)
    })
    .await
}

/// `feats`: the features in use, each on its own task; None: a single one, any
pub fn run(feats: Option<&[usize]>, causes: &[Cause], fifo: usize, delays: usize) {
    let mut w = World::new(2, fifo);
    let (a, b) = (w.h(0), w.h(1));

    // the peer: a service that never answers, one end of two established
    // channels and of two that are yet to be claimed
    let h = b.clone();
    let (ob, sb, btx, brx, c1, c2) = {
        let h2 = a.clone();
        w.block(async move {
            let o = h.create_object(Uuid::from_u128(0x77)).await.unwrap();
            let s = o.create_service(Uuid::from_u128(0x78), ServiceInfo::new(1)).await.unwrap();
            let (tx, rx) = h2.create_low_level_channel().claim_sender().await.unwrap();
            let brx = rx.unbind().claim(h.clone(), 1).await.unwrap();
            let atx = tx.establish().await.unwrap();
            let (tx, rx) = h2.create_low_level_channel().claim_receiver(1).await.unwrap();
            let btx = tx.unbind().claim(h.clone()).await.unwrap();
            let arx = rx.establish().await.unwrap();
            let (tx1, rx1) = h.create_low_level_channel().claim_receiver(2).await.unwrap();
            let (tx2, rx2) = h.create_low_level_channel().claim_sender().await.unwrap();
            (o, s, (btx, arx), (brx, atx), (tx1.unbind(), rx1), (rx2.unbind(), tx2))
        })
    };
    let (btx, arx) = btx;
    let (brx, atx) = brx;
    let (t1, brx1) = c1;
    let (t2, btx2) = c2;
    let (h, h2) = (a.clone(), b.clone());
    let (own, promise, bproxy, breply) = w.block(async move {
        let o = h.create_object(Uuid::from_u128(0x67)).await.unwrap();
        let mut s = o.create_service(Uuid::from_u128(0x68), ServiceInfo::new(1)).await.unwrap();
        let p = Proxy::new(&h2, s.id()).await.unwrap();
        p.subscribe(9).await.unwrap();
        let r = p.call(1, 1u32, None);
        let c = s.next_call().await.unwrap();
        ((o, s), c.into_promise(), p, r)
    });
    let mut env = Env {
        svc: sb.id(),
        obj: ob.id(),
        own: Some(own),
        promise: Some(promise),
        tx: Some(atx),
        rx: Some(arx),
        claim_tx: t1.cookie(),
        claim_rx: t2.cookie(),
    };

    // what the peer waits for
    let bye = Gate::default();
    let end = Gate::default();
    let bye2 = end.clone();
    let fired = Rc::new(Cell::new(false));
    let mut peer = vec![];
    let f = fired.clone();
    peer.push(w.ex.spawn(async move {
        let mut p = bproxy;
        let r = breply.await;
        sym::check(matches!(r, Err(Error::InvalidService | Error::CallAborted | Error::Shutdown)), "a call to a stopped client resolves unexpectedly");
        sym::check(f.get(), "a call is cut off although nobody stops");
        loop {
            match p.next_event().await {
                Some(_) => (),
                None => break,
            }
        }
        sym::cover("peer learned of the end");
    }));
    let g = bye.clone();
    peer.push(w.ex.spawn(async move {
        let mut sb = sb;
        let mut kept = vec![];
        while let Some(Some(c)) = g.or(|cx| sb.poll_next_call(cx)).await {
            kept.push(c.into_promise());
        }
        for mut p in kept {
            p.aborted().await;
            sym::cover("call aborted by the end");
        }
        bye2.wait().await;
        drop((sb, ob));
    }));
    let g = bye.clone();
    peer.push(w.ex.spawn(async move {
        let mut rx = brx;
        // takes nothing until the sender is gone
        g.wait().await;
        let mut n = 0;
        g_wait_items(&mut rx, &mut n).await;
        sym::check(n <= 1, "more items than there was room for");
    }));
    peer.push(w.ex.spawn(async move {
        let mut tx = btx;
        tx.receiver_closed().await;
        sym::check(tx.send_item(1u32).await.is_err(), "a stopped client's receiver takes items");
    }));
    let g = bye.clone();
    peer.push(w.ex.spawn(async move {
        let mut rx1 = brx1;
        if g.or(|cx| rx1.poll_wait_established(cx)).await.is_some() {
            if let Ok(mut rx) = rx1.establish().await {
                let mut n = 0;
                g_wait_items(&mut rx, &mut n).await;
                sym::check(n <= 1, "more items than were sent");
            }
        }
    }));
    let g = bye.clone();
    peer.push(w.ex.spawn(async move {
        let mut tx2 = btx2;
        if g.or(|cx| tx2.poll_wait_established(cx)).await.is_some() {
            if let Ok(mut tx) = tx2.establish().await {
                tx.receiver_closed().await;
            }
        }
    }));
    w.ex.run();

    let cause = causes[sym::choice(causes.len(), "cause")];
    let dead = Gate::default();
    let dropped = Gate::default();
    let x = Cx { h: a.clone(), fired: fired.clone(), dead: dead.clone() };
    let mut apps = vec![];
    let one;
    let feats = match feats {
        Some(f) => f,
        None => {
            one = [sym::choice(FEATURES, "feature")];
            &one
        }
    };
    for n in feats {
        if let Some(f) = feature(*n, x.clone(), &mut env) {
            apps.push(w.ex.spawn(droppable(f, dropped.clone())));
        }
    }
    drop(x);

    // the end
    let kill = Gate::default();
    let conn = w.peers[0].conn.clone();
    let mut broker = w.broker.clone();
    let (faults, cfaults) = (w.peers[0].faults.clone(), w.peers[0].conn_faults.clone());
    // without a limit of the FIFOs, a single operation fails; with it, all that follow do, too
    faults.once.set(fifo == 0);
    cfaults.once.set(fifo == 0);
    let rest: RefCell<Option<(Env, Handle)>> = RefCell::new(Some((env, w.peers[0].handle.take().unwrap())));
    match cause {
        Fail | FailBroker => fired.set(true),
        _ => {
            *faults.gate.borrow_mut() = Some(kill.clone());
        }
    }
    if cause == FailBroker {
        cfaults.armed.set(true);
    } else {
        faults.armed.set(true);
    }
    let (k, f, fa, cf, d) = (kill.clone(), fired.clone(), faults.clone(), cfaults.clone(), dropped.clone());
    let a2 = a.clone();
    drop(a);
    let killer = w.ex.spawn(async move {
        k.wait().await;
        f.set(true);
        fa.hit.set(false);
        *fa.gate.borrow_mut() = None;
        match cause {
            ShutdownFail | BrokerShutdownFail | ConnShutdownFail | DroppedFail => fa.armed.set(true),
            ShutdownFailBroker => cf.armed.set(true),
            _ => (),
        }
        match cause {
            Fail | FailBroker => (),
            Shutdown | ShutdownFail | ShutdownFailBroker => a2.shutdown(),
            BrokerShutdown | BrokerShutdownFail => broker.shutdown().await,
            ConnShutdown | ConnShutdownFail => {
                let _ = broker.shutdown_connection(&conn).await;
            }
            Dropped | DroppedFail => {
                d.open();
                drop(a2);
                drop(rest.borrow_mut().take());
                return;
            }
        }
        // handles stay around
        k.wait().await;
        std::mem::forget(rest);
        std::mem::forget(a2);
    });
    w.ex.delays = delays;
    w.ex.run();
    w.ex.delays = 0;

    if !kill.is_open() && !faults.hit.get() && !cfaults.hit.get() {
        if matches!(cause, Fail | FailBroker) {
            // nothing failed
            w.check_alive();
            sym::cover("no fault");
            sym::stop();
        }
        // nothing is happening any more
        faults.armed.set(false);
        kill.open();
        w.ex.run();
    }
    sym::check(matches!(cause, Fail | FailBroker) || w.ex.done(killer), "a request to stop never completes");
    faults.armed.set(false);
    cfaults.armed.set(false);

    let p = &w.peers[0];
    let (hit, chit) = (faults.hit.get(), cfaults.hit.get());
    match p.client_end.get() {
        None => sym::check(false, "the client does not stop"),
        Some(End::Ok) => {
            sym::cover("ended well");
            sym::check(!hit || !matches!(cause, Fail), "a client whose transport failed reports success")
        }
        Some(End::Transport(WireErr::Injected)) => sym::check(hit, "the client reports an error its transport did not have"),
        Some(End::Transport(WireErr::Closed)) => {
            sym::cover("closed by the other side");
            sym::check(chit, "a clean end is reported as an error")
        }
        Some(_) => sym::check(false, "the client stops for an unexpected reason"),
    }
    if hit {
        sym::check(p.client_end.get() == Some(End::Transport(WireErr::Injected)), "a transport error is swallowed");
    }
    if chit && cause == FailBroker {
        sym::check(p.client_end.get() == Some(End::Transport(WireErr::Closed)), "the closing of the transport is not reported");
    }
    match p.conn_end.get() {
        None => sym::check(false, "the broker does not see the connection end"),
        Some(ok) => sym::check(ok || hit || chit, "the connection of a cleanly stopped client ends in an error"),
    }
    dead.open();
    w.ex.run();
    for t in apps {
        sym::check(w.ex.done(t), "an operation on a stopped client never completes");
    }

    // the peer
    let down = matches!(cause, BrokerShutdown | BrokerShutdownFail);
    if down {
        sym::check(w.ex.done(w.broker_task), "a broker that was shut down keeps running");
        sym::check(w.peers[1].client_end.get() == Some(End::Ok), "a peer does not end with the broker");
        sym::check(w.peers[1].conn_end.get() == Some(true), "a peer's connection does not end with the broker");
        bye.open();
        end.open();
        w.ex.run();
        for t in peer {
            sym::check(w.ex.done(t), "an operation of a peer never completes");
        }
        return;
    }
    w.peers.remove(0);
    w.check_alive();
    for t in [peer[0], peer[3]] {
        sym::check(w.ex.done(t), "a peer does not learn that a client has stopped");
    }
    let mut br = w.broker.clone();
    let Ok(n) = w.block(async move { br.verif_snapshot().await }) else {
        sym::check(false, "the broker is gone");
        sym::stop()
    };
    sym::check(n.inconsistent.is_none(), "the broker's state is inconsistent");
    sym::check(n.conns == 1, "the broker keeps a stopped client's connection");
    sym::check(n.objs == 1 && n.svcs == 1, "the broker keeps objects or services of a stopped client");
    sym::check(n.bus_listeners == 0, "the broker keeps bus listeners of a stopped client");
    sym::check(n.query_introspection == 0, "the broker keeps queries of a stopped client");
    bye.open();
    w.ex.run();
    let mut br = w.broker.clone();
    let Ok(n) = w.block(async move { br.verif_snapshot().await }) else { sym::stop() };
    sym::check(n.svc_refs == 0, "the broker keeps subscriptions of a stopped client");
    sym::check(n.function_calls == 0, "the broker keeps calls of or to a stopped client");
    sym::check(n.channels == 0 && n.conn_refs == 1, "the broker keeps channels of a stopped client");
    end.open();
    w.ex.run();
    for t in peer {
        sym::check(w.ex.done(t), "an operation of a peer never completes");
    }
    drop(b);
    w.finish();
}

async fn g_wait_items(rx: &mut Receiver, n: &mut u32) {
    while let Ok(Some(_)) = rx.next_item::<u32>().await {
        *n += 1;
    }
}

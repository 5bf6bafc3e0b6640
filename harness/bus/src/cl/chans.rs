//! A producer and a consumer over one channel, optionally with a third party
//! that knows the cookie.
use crate::cl::stop::*;
use crate::cl::world::*;
use aldrin::low_level::*;
use aldrin::{Error, Handle};
use aldrin_core::ChannelCookie;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

struct Plan {
    /// items the producer sends before it ends
    send: u32,
    /// items the consumer takes before it ends; beyond `send`: until the end
    take: u32,
    tx_close: bool,
    rx_close: bool,
}

#[derive(Default)]
struct Seen {
    tx_ended: Cell<bool>,
    rx_ended: Cell<bool>,
    /// somebody else may interfere with unclaimed ends
    wild: Cell<bool>,
    /// a second binding of the same client has closed a claimed end
    closed: Cell<bool>,
    sent: Cell<u32>,
    got: Cell<u32>,
}

async fn produce(tx: Result<Sender, Error>, p: Rc<Plan>, s: Rc<Seen>) {
    let mut tx = match tx {
        Ok(tx) => tx,
        Err(e) => {
            sym::check(e == Error::InvalidChannel, "obtaining a sender ends in an unexpected error");
            sym::check(s.rx_ended.get() || s.wild.get(), "a sender cannot be had although its channel is fine");
            s.tx_ended.set(true);
            return;
        }
    };
    for i in 0..p.send {
        match tx.send_item(i).await {
            Ok(()) => s.sent.set(i + 1),
            Err(e) => {
                sym::check(e == Error::InvalidChannel, "sending ends in an unexpected error");
                sym::check(s.rx_ended.get() || s.closed.get(), "a sender is cut off although the receiver lives");
                sym::cover("receiver went first");
                break;
            }
        }
    }
    s.tx_ended.set(true);
    if p.tx_close {
        sym::check(tx.close().await.is_ok() || s.closed.get(), "closing a sender fails");
        sym::check(tx.close().await.is_ok(), "closing a sender again fails");
    }
}

async fn consume(rx: Result<Receiver, Error>, p: Rc<Plan>, s: Rc<Seen>) {
    let mut rx = match rx {
        Ok(rx) => rx,
        Err(e) => {
            sym::check(e == Error::InvalidChannel, "obtaining a receiver ends in an unexpected error");
            sym::check(s.tx_ended.get() || s.wild.get(), "a receiver cannot be had although its channel is fine");
            s.rx_ended.set(true);
            return;
        }
    };
    let mut n = 0;
    while n < p.take {
        match rx.next_item::<u32>().await {
            Ok(Some(v)) => {
                sym::check(v == n, "items arrive out of order, twice or not at all");
                n += 1;
                s.got.set(n);
            }
            Ok(None) => {
                sym::check(s.tx_ended.get() || s.closed.get(), "a receiver ends although the sender lives");
                sym::check(n == s.sent.get() || s.closed.get(), "a sent item is not received");
                sym::cover("all received");
                break;
            }
            Err(_) => sym::check(false, "receiving fails"),
        }
    }
    s.rx_ended.set(true);
    if p.rx_close {
        sym::check(rx.close().await.is_ok() || s.closed.get(), "closing a receiver fails");
    }
}

/// what the other side does with its unclaimed end
async fn take_sender(u: UnboundSender, h: Handle, p: Rc<Plan>, s: Rc<Seen>, act: usize) {
    let u2 = u;
    let mut us = u.bind(h.clone());
    match act {
        0 => produce(us.claim().await, p, s).await,
        1 => {
            s.tx_ended.set(true);
            let r = us.close().await;
            sym::check(r.is_ok() || s.wild.get() || s.rx_ended.get(), "closing an unclaimed sender fails");
        }
        2 => {
            s.tx_ended.set(true);
            drop(us)
        }
        _ => {
            // bound a second time while it is claimed
            let tx = us.claim().await;
            let ok = tx.is_ok();
            if act == 3 {
                let r = u2.claim(h).await;
                sym::check(!ok || matches!(r, Err(Error::InvalidChannel)), "a sender is claimed twice");
                sym::cover("claimed again");
            } else {
                // closing it through another binding of its owner ends it
                let mut again = u2.bind(h);
                s.closed.set(ok);
                s.tx_ended.set(true);
                if act == 4 {
                    let r = again.close().await;
                    sym::check(r.is_ok() || !ok, "an owner's end cannot be closed");
                }
            }
            produce(tx, p, s).await
        }
    }
}

async fn take_receiver(u: UnboundReceiver, h: Handle, cap: u32, p: Rc<Plan>, s: Rc<Seen>, act: usize) {
    let u2 = u;
    let mut ur = u.bind(h.clone());
    match act {
        0 => consume(ur.claim(cap).await, p, s).await,
        1 => {
            s.rx_ended.set(true);
            let r = ur.close().await;
            sym::check(r.is_ok() || s.wild.get() || s.tx_ended.get(), "closing an unclaimed receiver fails");
        }
        2 => {
            s.rx_ended.set(true);
            drop(ur)
        }
        _ => {
            let rx = ur.claim(cap).await;
            let ok = rx.is_ok();
            if act == 3 {
                let r = u2.claim(h, cap).await;
                sym::check(!ok || matches!(r, Err(Error::InvalidChannel)), "a receiver is claimed twice");
                sym::cover("claimed again");
            } else {
                // closing it through another binding of its owner ends it
                let mut again = u2.bind(h);
                s.closed.set(ok);
                s.rx_ended.set(true);
                if act == 4 {
                    let r = again.close().await;
                    sym::check(r.is_ok() || !ok, "an owner's end cannot be closed");
                }
            }
            consume(rx, p, s).await
        }
    }
}

async fn third(cookie: ChannelCookie, h: Handle) {
    match sym::choice(6, "third") {
        0 => drop(UnboundSender::new(cookie).bind(h)),
        1 => drop(UnboundReceiver::new(cookie).bind(h)),
        2 => {
            let _ = UnboundSender::new(cookie).bind(h).close().await;
        }
        3 => {
            let _ = UnboundReceiver::new(cookie).bind(h).close().await;
        }
        4 => {
            let r = UnboundSender::new(cookie).claim(h).await;
            sym::check(matches!(r, Ok(_) | Err(Error::InvalidChannel)), "a claim ends in an unexpected error");
        }
        _ => {
            let r = UnboundReceiver::new(cookie).claim(h, 2).await;
            sym::check(matches!(r, Ok(_) | Err(Error::InvalidChannel)), "a claim ends in an unexpected error");
        }
    }
}

#[derive(Clone, Copy)]
pub struct Cfg {
    pub delays: usize,
    pub fifo: usize,
    pub same: bool,
    pub items: u32,
    pub caps: &'static [u32],
    /// what the second side may do with its end
    pub acts: usize,
    /// what the first side may do while its end is pending
    pub holds: usize,
    pub third: bool,
}

pub fn run(c: Cfg) {
    let mut w = World::new(if c.same { 1 } else { 2 }, c.fifo);
    let side = sym::choice(2, "creator receives") == 1;
    let cap = c.caps[sym::choice(c.caps.len(), "capacity")];
    let act = sym::choice(c.acts, "second");
    let hold = sym::choice(c.holds, "first");
    let plan = Rc::new(Plan {
        send: sym::choice(c.items as usize + 1, "send") as u32,
        take: match sym::choice(c.items as usize + 1, "take") as u32 {
            n if n == c.items => u32::MAX,
            n => n,
        },
        tx_close: sym::choice(2, "close sender") == 1,
        rx_close: sym::choice(2, "close receiver") == 1,
    });
    let s = Rc::new(Seen::default());
    s.wild.set(c.third);
    let (h, h2) = (w.h(0), w.h(if c.same { 0 } else { 1 }));
    let mut apps = vec![];
    let known = Rc::new(RefCell::new(None));
    let ready = Gate::default();
    let (p1, s1, k1, g1) = (plan.clone(), s.clone(), known.clone(), ready.clone());
    let (p2, s2, k2, g2) = (plan, s.clone(), known.clone(), ready.clone());
    if !side {
        apps.push(w.ex.spawn(async move {
            let (mut ps, ur) = h.create_low_level_channel().claim_sender().await.expect("create channel");
            *k1.borrow_mut() = Some(ur.cookie());
            // hand the other end over, or leave it to the one who knows the cookie
            let _ = ur.unbind();
            g1.open();
            match hold {
                0 => produce(ps.establish().await, p1, s1).await,
                1 => {
                    s1.tx_ended.set(true);
                    sym::check(ps.close().await.is_ok(), "closing a pending sender fails");
                }
                2 => {
                    s1.tx_ended.set(true);
                    drop(ps)
                }
                _ => {
                    ps.wait_established().await;
                    produce(ps.establish().await, p1, s1).await
                }
            }
        }));
        apps.push(w.ex.spawn(async move {
            g2.wait().await;
            let c = k2.borrow().unwrap();
            take_receiver(UnboundReceiver::new(c), h2, cap, p2, s2, act).await
        }));
    } else {
        apps.push(w.ex.spawn(async move {
            let (us, mut pr) = h.create_low_level_channel().claim_receiver(cap).await.expect("create channel");
            *k1.borrow_mut() = Some(us.cookie());
            let _ = us.unbind();
            g1.open();
            match hold {
                0 => consume(pr.establish().await, p1, s1).await,
                1 => {
                    s1.rx_ended.set(true);
                    sym::check(pr.close().await.is_ok(), "closing a pending receiver fails");
                }
                2 => {
                    s1.rx_ended.set(true);
                    drop(pr)
                }
                _ => {
                    pr.wait_established().await;
                    consume(pr.establish().await, p1, s1).await
                }
            }
        }));
        apps.push(w.ex.spawn(async move {
            g2.wait().await;
            let c = k2.borrow().unwrap();
            take_sender(UnboundSender::new(c), h2, p2, s2, act).await
        }));
    }
    if c.third {
        w.join(c.fifo);
        let n = w.peers.len() - 1;
        let h = w.h(if c.same { 0 } else { n });
        let (k, g) = (known.clone(), ready.clone());
        apps.push(w.ex.spawn(async move {
            g.wait().await;
            let c = k.borrow().unwrap();
            third(c, h).await
        }));
    }
    w.ex.delays = c.delays;
    w.ex.run();
    w.check_alive();
    for a in apps {
        sym::check(w.ex.done(a), "an operation the application awaits never completes");
    }
    w.finish();
}

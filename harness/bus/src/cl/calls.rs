//! Calls between a server and a caller application.
use crate::cl::stop::*;
use crate::cl::world::*;
use aldrin::low_level::{PendingReply, Promise, Proxy, ServiceInfo};
use aldrin::{Error, Handle};
use aldrin_core::{ObjectUuid, ServiceId, ServiceUuid};
use std::cell::Cell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use uuid::Uuid;

pub const OBJ: ObjectUuid = ObjectUuid(Uuid::from_u128(0x11));
pub const SVC: ServiceUuid = ServiceUuid(Uuid::from_u128(0x22));

#[derive(Default)]
struct Known {
    /// the service's destruction has begun
    gone: Cell<bool>,
    /// calls whose promise was dropped or aborted
    aborted: Cell<u32>,
    /// calls answered, by argument
    answered: Cell<u32>,
}

/// what the caller may observe for call `n`
fn judge(k: &Known, n: u32, r: Result<aldrin::low_level::Reply, Error>) {
    match r {
        Ok(r) => {
            sym::check(k.answered.get() & 1 << n != 0, "a call resolves although it was not answered");
            match r.deserialize::<u32, u32>() {
                Ok(Ok(v)) => sym::check(v == 1000 + n, "a call returns a value computed for another call"),
                Ok(Err(v)) => sym::check(v == 2000 + n, "a call returns an error computed for another call"),
                Err(_) => sym::check(false, "a reply does not deserialize"),
            }
            sym::cover("replied");
        }
        Err(Error::InvalidService) => {
            sym::check(k.gone.get(), "a call fails although its service lives");
            sym::cover("service gone");
        }
        Err(Error::CallAborted) => {
            sym::check(k.aborted.get() & 1 << n != 0, "a call is reported aborted although nobody aborted it");
            sym::cover("aborted");
        }
        Err(_) => sym::check(false, "a call ends in an unexpected error"),
    }
}

/// one reaction of the server to a call; false: the service is gone
async fn server(svc: aldrin::low_level::Service, k: Rc<Known>, stop: Gate, acts: usize) {
    let mut svc = svc;
    let mut kept: Vec<(u32, Promise)> = vec![];
    loop {
        let Some(Some(call)) = stop.or(|cx| svc.poll_next_call(cx)).await else { break };
        let n = call.deserialize::<u32>().unwrap_or(99);
        sym::check(n < 30, "the server receives an argument nobody sent");
        let bit = 1u32 << n;
        match sym::choice(acts, "server") {
            0 => {
                k.answered.set(k.answered.get() | bit);
                let _ = call.ok(1000 + n);
            }
            1 => {
                kept.push((n, call.into_promise()));
                if kept.len() == 2 {
                    // answers in reverse
                    for (n, p) in kept.drain(..).rev() {
                        k.answered.set(k.answered.get() | 1 << n);
                        let _ = p.ok(1000 + n);
                    }
                }
            }
            2 => {
                k.answered.set(k.answered.get() | bit);
                let _ = call.err(2000 + n);
                k.gone.set(true);
                let r = svc.destroy().await;
                sym::check(r.is_ok() || r == Err(Error::InvalidService), "destroying a service fails");
            }
            3 => {
                k.aborted.set(k.aborted.get() | bit);
                drop(call)
            }
            4 => {
                k.gone.set(true);
                k.aborted.set(k.aborted.get() | bit);
                break;
            }
            _ => {
                // until the caller gives up or all ends
                let mut p = call.into_promise();
                k.aborted.set(k.aborted.get() | bit);
                stop.or(|cx| p.poll_aborted(cx)).await;
                sym::cover("abort seen");
            }
        }
    }
    k.gone.set(true);
    for (n, _) in &kept {
        k.aborted.set(k.aborted.get() | 1 << n);
    }
}

async fn caller(h: Handle, id: ServiceId, k: Rc<Known>, base: u32, ops: usize, done: Gate) {
    let mut proxy = match Proxy::new(&h, id).await {
        Ok(p) => Some(p),
        Err(Error::InvalidService) => {
            sym::check(k.gone.get(), "a proxy cannot be created although the service lives");
            None
        }
        Err(_) => {
            sym::check(false, "creating a proxy ends in an unexpected error");
            None
        }
    };
    let mut pend: Vec<(u32, PendingReply)> = vec![];
    let mut n = base;
    for _ in 0..ops {
        match sym::choice(5, "caller") {
            0 => {
                if let Some(p) = &proxy {
                    pend.push((n, p.call(7, n, None)));
                    n += 1;
                }
            }
            1 => {
                // abort the oldest
                if !pend.is_empty() {
                    drop(pend.remove(0));
                }
            }
            2 => drop(proxy.take()),
            3 => {
                proxy = match Proxy::new(&h, id).await {
                    Ok(p) => Some(p),
                    Err(_) => {
                        sym::check(k.gone.get(), "a proxy cannot be created although the service lives");
                        None
                    }
                }
            }
            _ => {
                if let Some((n, mut p)) = pend.pop() {
                    if let Some(r) = try_now(|cx| Pin::new(&mut p).poll(cx)).await {
                        judge(&k, n, r)
                    } else {
                        pend.push((n, p))
                    }
                }
            }
        }
    }
    done.open();
    // by now the server is going away: everything resolves
    for (n, p) in pend {
        judge(&k, n, p.await);
    }
}

/// `ops` operations of each of `callers` callers, on clients of their own or
/// (`same`) on the server's client
pub fn run(delays: usize, fifo: usize, callers: usize, ops: usize, acts: usize, same: bool) {
    let mut w = World::new(if same { 1 } else { 1 + callers }, fifo);
    let h = w.h(0);
    let (obj, svc) = w.block(async move {
        let o = h.create_object(OBJ).await.expect("create object");
        let s = o.create_service(SVC, ServiceInfo::new(1)).await.expect("create service");
        (o, s)
    });
    let id = svc.id();
    let k = Rc::new(Known::default());
    let stop = Gate::default();
    let mut apps = vec![];
    let dones: Vec<Gate> = (0..callers).map(|_| Gate::default()).collect();
    for (i, d) in dones.iter().enumerate() {
        let h = w.h(if same { 0 } else { 1 + i });
        apps.push(w.ex.spawn(caller(h, id, k.clone(), 10 * i as u32, ops, d.clone())));
    }
    apps.push(w.ex.spawn(server(svc, k.clone(), stop.clone(), acts)));
    // the object goes away once the callers have issued their operations
    let killer = sym::choice(2, "object dropped first") == 1;
    apps.push(w.ex.spawn(async move {
        if killer {
            k.gone.set(true);
            drop(obj);
            for d in &dones {
                d.wait().await;
            }
            stop.open();
        } else {
            for d in &dones {
                d.wait().await;
            }
            k.gone.set(true);
            stop.open();
            obj.destroy().await.expect("destroy object");
        }
    }));
    w.ex.delays = delays;
    w.ex.run();
    w.check_alive();
    for a in apps {
        sym::check(w.ex.done(a), "an operation the application awaits never completes");
    }
    w.finish();
}

//! The real broker, its real connections and real clients, joined by the
//! channel transports of aldrin-core.
use crate::cl::exec::{Exec, Slot};
use aldrin::error::RunError;
use aldrin::{Client, ClientBuilder, Handle};
use aldrin_broker::{Broker, BrokerHandle, BrokerShutdown, ConnectionHandle};
use aldrin_core::channel::{self, Bounded, Unbounded};
use aldrin_core::message::{Message, MessageOps};
use aldrin_core::transport::AsyncTransport;
use crate::cl::stop::Gate;
use std::cell::{Cell, RefCell};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum WireErr {
    Injected,
    Closed,
}

enum Kind {
    U(Unbounded),
    B(Bounded),
}

/// where and how one side's transport fails
#[derive(Default)]
pub struct Faults {
    /// at any operation while this is set, `gate` may open or, if there is
    /// none, the transport may fail
    pub armed: Cell<bool>,
    pub hit: Cell<bool>,
    /// only that operation fails; the transport claims to go on
    pub once: Cell<bool>,
    pub gate: RefCell<Option<Gate>>,
}

/// A transport that can fail (for good) at any of its operations.
pub struct Wire {
    kind: Option<Kind>,
    faults: Rc<Faults>,
    /// On a client's side: the version it asks for, whatever it would like. Both
    /// directions are watched: nothing newer may be said.
    speaks: Option<u32>,
}

thread_local! {
    /// one of these lists gives the clients' versions, in the order they join
    static VERSIONS: Cell<&'static [&'static [u32]]> = const { Cell::new(&[&[20]]) };
}

/// runs `f` with clients of other versions
pub fn versions(v: &'static [&'static [u32]], f: impl FnOnce()) {
    VERSIONS.set(v);
    f()
}

fn watch(m: &Message, v: u32) {
    sym::check(crate::compat::since(m) <= v, "a message is sent that the negotiated version does not have");
    if let Some(value) = m.value() {
        match crate::refc::scan(value) {
            Some((_, _, modern)) => sym::check(v >= 20 || !modern, "a value is sent in a representation the negotiated version does not have"),
            None => sym::check(false, "a malformed value is sent"),
        }
    }
}

impl Wire {
    fn new(kind: Kind) -> Self {
        Wire { kind: Some(kind), faults: Rc::default(), speaks: None }
    }
    fn fault(&mut self) -> Result<(), WireErr> {
        if self.kind.is_none() {
            return Err(WireErr::Injected);
        }
        if self.faults.armed.get() && sym::choice(2, "fault") == 1 {
            self.faults.armed.set(false);
            self.faults.hit.set(true);
            if let Some(g) = &*self.faults.gate.borrow() {
                g.open();
                return Ok(());
            }
            if !self.faults.once.get() {
                self.kind = None;
            }
            return Err(WireErr::Injected);
        }
        Ok(())
    }
}

macro_rules! fwd {
    ($s:expr, $t:ident => $e:expr) => {
        match $s.kind.as_mut().unwrap() {
            Kind::U($t) => {
                let $t = Pin::new($t);
                $e
            }
            Kind::B($t) => {
                let $t = Pin::new($t);
                $e
            }
        }
    };
}

impl AsyncTransport for Wire {
    type Error = WireErr;
    fn receive_poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<Message, WireErr>> {
        self.fault()?;
        let r = fwd!(self, t => t.receive_poll(cx)).map_err(|_| WireErr::Closed);
        if let (Some(v), Poll::Ready(Ok(m))) = (self.speaks, &r) {
            if !matches!(m, Message::ConnectReply2(_)) {
                watch(m, v)
            }
        }
        r
    }
    fn send_poll_ready(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<(), WireErr>> {
        self.fault()?;
        fwd!(self, t => t.send_poll_ready(cx)).map_err(|_| WireErr::Closed)
    }
    fn send_start(mut self: Pin<&mut Self>, mut msg: Message) -> Result<(), WireErr> {
        self.fault()?;
        if let Some(v) = self.speaks {
            match &mut msg {
                Message::Connect2(c) => c.minor_version = v,
                m => watch(m, v),
            }
        }
        fwd!(self, t => t.send_start(msg)).map_err(|_| WireErr::Closed)
    }
    fn send_poll_flush(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<(), WireErr>> {
        self.fault()?;
        fwd!(self, t => t.send_poll_flush(cx)).map_err(|_| WireErr::Closed)
    }
}

/// capacity of the FIFOs; 0 is unbounded
fn pair(fifo: usize) -> (Wire, Wire) {
    if fifo == 0 {
        let (a, b) = channel::unbounded();
        (Wire::new(Kind::U(a)), Wire::new(Kind::U(b)))
    } else {
        let (a, b) = channel::bounded(fifo - 1);
        (Wire::new(Kind::B(a)), Wire::new(Kind::B(b)))
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum End {
    Ok,
    Unexpected,
    Transport(WireErr),
    Other,
}

pub struct Peer {
    pub handle: Option<Handle>,
    pub conn: ConnectionHandle,
    pub client_task: usize,
    pub conn_task: usize,
    pub client_end: Rc<Cell<Option<End>>>,
    pub conn_end: Rc<Cell<Option<bool>>>,
    pub faults: Rc<Faults>,
    /// of the broker's side
    pub conn_faults: Rc<Faults>,
    /// the application asked it to stop
    pub asked: Rc<Cell<bool>>,
    pub version: u32,
}

pub struct World {
    pub ex: Exec,
    pub broker: BrokerHandle,
    pub broker_task: usize,
    pub peers: Vec<Peer>,
    versions: &'static [u32],
}

impl World {
    pub fn new(clients: usize, fifo: usize) -> World {
        let mut ex = Exec::new();
        let b = Broker::new();
        let broker = b.handle().clone();
        let broker_task = ex.spawn(b.run());
        let lists = VERSIONS.get();
        let versions = lists[sym::choice(lists.len(), "versions")];
        let mut w = World { ex, broker, broker_task, peers: vec![], versions };
        for _ in 0..clients {
            w.join(fifo);
        }
        w
    }

    pub fn join(&mut self, fifo: usize) {
        let (t1, mut t2) = pair(fifo);
        let v = self.versions[self.peers.len() % self.versions.len()];
        if v != 20 {
            t2.speaks = Some(v);
        }
        let (faults, conn_faults) = (t2.faults.clone(), t1.faults.clone());
        let conn = Slot::new();
        let client = Slot::new();
        let (s, mut h) = (conn.clone(), self.broker.clone());
        let a = self.ex.spawn(async move { s.set(h.connect(t1).await.ok()) });
        let s = client.clone();
        let b = self.ex.spawn(async move { 
            s.set(if v == 14 {
                // the only way to be 1.14 without asking
                ClientBuilder::new(t2).connect1().await.ok()
            } else {
                Client::connect(t2).await.ok()
            })
        });
        self.ex.run();
        sym::check(self.ex.done(a) && self.ex.done(b), "the handshake does not complete");
        let conn = conn.take().flatten().expect("handshake failed at the broker");
        let client = client.take().flatten().expect("handshake failed at the client");
        let chandle = conn.handle().clone();
        let handle = Some(client.handle().clone());
        let client_end = Rc::new(Cell::new(None));
        let conn_end = Rc::new(Cell::new(None));
        let e = conn_end.clone();
        let conn_task = self.ex.spawn(async move {
            let r = conn.run().await;
            e.set(Some(r.is_ok()))
        });
        let e = client_end.clone();
        let client_task = self.ex.spawn(async move {
            let r = client.run().await;
            e.set(Some(match r {
                Ok(()) => End::Ok,
                Err(RunError::UnexpectedMessageReceived(_)) => End::Unexpected,
                Err(RunError::Transport(e)) => End::Transport(e),
                Err(_) => End::Other,
            }))
        });
        self.peers.push(Peer { handle, conn: chandle, client_task, conn_task, client_end, conn_end, faults, conn_faults, asked: Rc::default(), version: v });
    }

    /// runs `f` with everything else and returns its result
    pub fn block<T: 'static>(&mut self, f: impl std::future::Future<Output = T> + 'static) -> T {
        let out = Slot::new();
        let o = out.clone();
        self.ex.spawn(async move { o.set(f.await) });
        self.ex.run();
        match out.take() {
            Some(v) => v,
            None => {
                sym::check(false, "an operation the application awaits never completes");
                sym::stop()
            }
        }
    }

    pub fn h(&self, c: usize) -> Handle {
        self.peers[c].handle.as_ref().unwrap().clone()
    }

    pub fn version(&self, c: usize) -> u32 {
        self.peers[c].version
    }

    /// no client has stopped
    pub fn check_alive(&self) {
        for p in self.peers.iter().filter(|p| !p.asked.get()) {
            match p.client_end.get() {
                None => (),
                Some(End::Unexpected) => sym::check(false, "a client stops on a message it does not expect"),
                Some(_) => sym::check(false, "a client stops although nobody asked it to"),
            }
            sym::check(p.conn_end.get().is_none(), "a connection ends although its client runs");
        }
    }

    /// drops the last handles; everything must stop cleanly and the broker,
    /// asked to stop when idle, must stop
    pub fn finish(mut self) {
        for p in &mut self.peers {
            p.handle = None;
        }
        let mut b = self.broker.clone();
        let t = self.ex.spawn(async move { b.shutdown_idle().await });
        self.ex.run();
        for p in &self.peers {
            match p.client_end.get() {
                Some(End::Ok) => (),
                None => sym::check(false, "a client without handles does not stop"),
                Some(End::Unexpected) => sym::check(false, "a client stops on a message it does not expect"),
                Some(_) => sym::check(false, "a clean client shutdown ends in an error"),
            }
            sym::check(p.conn_end.get() == Some(true), "a connection does not end cleanly after its client");
        }
        sym::check(self.ex.done(t), "the request to stop when idle is not accepted");
        sym::check(self.ex.done(self.broker_task), "the idle broker does not stop");
        sym::cover("all stopped");
    }
}

#[allow(dead_code)]
fn _unused(_: BrokerShutdown) {}

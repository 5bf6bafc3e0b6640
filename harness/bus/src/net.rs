//! The real broker and its real connection tasks on an executor that polls
//! exactly the tasks that were woken, over in-memory transports.
use aldrin_broker::{Broker, BrokerHandle, BrokerStatistics, Connection, ConnectionHandle, VerifSnapshot};
use aldrin_core::message::*;
use aldrin_core::transport::AsyncTransport;
use aldrin_core::*;
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

pub struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Relaxed)
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.store(true, Relaxed)
    }
}

pub struct Task {
    fut: Option<Pin<Box<dyn Future<Output = ()>>>>,
    flag: Arc<Flag>,
    waker: Waker,
}

impl Task {
    pub fn new(f: impl Future<Output = ()> + 'static) -> Self {
        let flag = Arc::new(Flag(AtomicBool::new(true)));
        Task { fut: Some(Box::pin(f)), waker: flag.clone().into(), flag }
    }
    pub fn done(&self) -> bool {
        self.fut.is_none()
    }
    /// polls once if woken; true if polled
    pub fn step(&mut self) -> bool {
        if self.fut.is_none() || !self.flag.0.swap(false, Relaxed) {
            return false;
        }
        let mut cx = Context::from_waker(&self.waker);
        if let Poll::Ready(()) = self.fut.as_mut().unwrap().as_mut().poll(&mut cx) {
            self.fut = None;
        }
        true
    }
    pub fn drop_now(&mut self) {
        self.fut = None;
    }
}

#[derive(Default)]
pub struct PipeState {
    pub to_broker: VecDeque<Message>,
    pub from_broker: VecDeque<Message>,
    pub err: bool,
    pub dropped: bool,
    waker: Option<Waker>,
}

/// the broker's end of a transport
pub struct Pipe(pub Rc<RefCell<PipeState>>);

impl Drop for Pipe {
    fn drop(&mut self) {
        self.0.borrow_mut().dropped = true;
    }
}

impl AsyncTransport for Pipe {
    type Error = ();
    fn receive_poll(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<Message, ()>> {
        let mut s = self.0.borrow_mut();
        if let Some(m) = s.to_broker.pop_front() {
            return Poll::Ready(Ok(m));
        }
        if s.err {
            return Poll::Ready(Err(()));
        }
        s.waker = Some(cx.waker().clone());
        Poll::Pending
    }
    fn send_poll_ready(self: Pin<&mut Self>, _: &mut Context) -> Poll<Result<(), ()>> {
        Poll::Ready(if self.0.borrow().err { Err(()) } else { Ok(()) })
    }
    fn send_start(self: Pin<&mut Self>, msg: Message) -> Result<(), ()> {
        let mut s = self.0.borrow_mut();
        if s.err {
            return Err(());
        }
        s.from_broker.push_back(msg);
        Ok(())
    }
    fn send_poll_flush(self: Pin<&mut Self>, _: &mut Context) -> Poll<Result<(), ()>> {
        Poll::Ready(if self.0.borrow().err { Err(()) } else { Ok(()) })
    }
}

pub struct Conn {
    pub pipe: Rc<RefCell<PipeState>>,
    pub task: Task,
    pub handle: Option<ConnectionHandle>,
    pub version: u32,
    /// outcome of `Connection::run`
    pub result: Rc<Cell<Option<bool>>>,
}

impl Conn {
    fn push(&self, m: Message) {
        let mut s = self.pipe.borrow_mut();
        s.to_broker.push_back(m);
        if let Some(w) = s.waker.take() {
            drop(s);
            w.wake();
        }
    }
    /// the connection's task has finished or no longer holds the transport
    pub fn closed(&self) -> bool {
        self.task.done() || self.pipe.borrow().dropped
    }
}

pub struct Net {
    pub broker: Task,
    pub handle: Option<BrokerHandle>,
    pub conns: Vec<Conn>,
}

/// what came out of the handshake
pub enum Shake {
    Up(usize),
    Refused,
}

pub fn connect2(minor: u32) -> Message {
    Message::Connect2(Connect2 {
        major_version: 1,
        minor_version: minor,
        value: SerializedValue::serialize(ConnectData { user: None }).unwrap(),
    })
}

impl Net {
    pub fn new() -> Self {
        let b = Broker::new();
        let handle = b.handle().clone();
        Net { broker: Task::new(b.run()), handle: Some(handle), conns: vec![] }
    }

    /// runs `f` to completion together with everything else
    pub fn block<T: 'static>(&mut self, f: impl Future<Output = T> + 'static) -> Option<T> {
        let out = Rc::new(RefCell::new(None));
        let o = out.clone();
        let mut t = Task::new(async move {
            let v = f.await;
            *o.borrow_mut() = Some(v);
        });
        for _ in 0..200 {
            t.step();
            if t.done() {
                break;
            }
            self.round();
        }
        drop(t);
        let v = out.borrow_mut().take();
        v
    }

    pub fn open(&mut self, hello: Message) -> (Rc<RefCell<PipeState>>, Option<Connection<Pipe>>) {
        let pipe = Rc::new(RefCell::new(PipeState::default()));
        pipe.borrow_mut().to_broker.push_back(hello);
        let mut h = self.handle.as_ref().unwrap().clone();
        let p = Pipe(pipe.clone());
        let c = self.block(async move { h.connect(p).await.ok() });
        (pipe, c.flatten())
    }

    pub fn connect(&mut self, minor: u32) -> usize {
        let (pipe, c) = self.open(connect2(minor));
        let c = c.expect("handshake");
        pipe.borrow_mut().from_broker.clear();
        self.add(pipe, c, minor)
    }

    pub fn add(&mut self, pipe: Rc<RefCell<PipeState>>, c: Connection<Pipe>, version: u32) -> usize {
        let handle = Some(c.handle().clone());
        let result = Rc::new(Cell::new(None));
        let r = result.clone();
        let task = Task::new(async move {
            let v = c.run().await;
            r.set(Some(v.is_ok()));
        });
        self.conns.push(Conn { pipe, task, handle, version, result });
        self.settle();
        self.conns.len() - 1
    }

    fn round(&mut self) -> bool {
        let mut any = self.broker.step();
        for c in &mut self.conns {
            any |= c.task.step();
        }
        any
    }

    /// until nobody is woken any more
    pub fn settle(&mut self) {
        for _ in 0..400 {
            if !self.round() {
                return;
            }
        }
        sym::check(false, "broker does not come to rest");
        sym::stop()
    }

    pub fn send(&mut self, c: usize, m: impl Into<Message>) {
        self.conns[c].push(m.into());
    }

    /// hands a connection's pending messages to the broker's queue without
    /// running the broker
    pub fn pump(&mut self, c: usize) {
        for _ in 0..20 {
            if !self.conns[c].task.step() {
                return;
            }
        }
    }

    pub fn fail(&mut self, c: usize) {
        let w = {
            let mut s = self.conns[c].pipe.borrow_mut();
            s.err = true;
            s.waker.take()
        };
        if let Some(w) = w {
            w.wake()
        }
    }

    pub fn drop_task(&mut self, c: usize) {
        self.conns[c].task.drop_now();
    }

    /// drops a connection's task. The broker is only obliged (see the known
    /// finding of C09) to notice once it sends something to it; that is made
    /// to happen through the broker's handle.
    pub fn drop_noticed(&mut self, c: usize) {
        self.drop_task(c);
        self.settle();
        self.force(c);
    }

    pub fn force(&mut self, c: usize) {
        let ch = self.conns[c].handle.clone().unwrap();
        let mut h = self.handle.as_ref().unwrap().clone();
        self.block(async move {
            let _ = h.shutdown_connection(&ch).await;
        });
    }

    pub fn stats(&mut self) -> Option<BrokerStatistics> {
        let mut h = self.handle.as_ref().unwrap().clone();
        self.block(async move { h.take_statistics().await.ok() }).flatten()
    }

    pub fn snapshot(&mut self) -> Option<VerifSnapshot> {
        let mut h = self.handle.as_ref().unwrap().clone();
        self.block(async move { h.verif_snapshot().await.ok() }).flatten()
    }

    pub fn shutdown(&mut self) {
        let mut h = self.handle.as_ref().unwrap().clone();
        self.block(async move { h.shutdown().await });
    }

    pub fn shutdown_idle(&mut self) {
        let mut h = self.handle.as_ref().unwrap().clone();
        self.block(async move { h.shutdown_idle().await });
    }

    pub fn take(&mut self, c: usize) -> Vec<Message> {
        self.conns[c].pipe.borrow_mut().from_broker.drain(..).collect()
    }
}

//! Cooperative executor. Without delays it polls woken tasks round-robin; each
//! delay (a solver choice, at any scheduling point) passes over the task that
//! would run next, so d delays reach every schedule within d deviations.
use std::cell::Cell;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Relaxed)
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.store(true, Relaxed)
    }
}

struct Task {
    fut: Option<Pin<Box<dyn Future<Output = ()>>>>,
    flag: Arc<Flag>,
    waker: Waker,
}

pub struct Exec {
    tasks: Vec<Task>,
    pos: usize,
    pub delays: usize,
}

/// a step limit that no terminating program within the bounds comes near
const STEPS: usize = 3000;

impl Exec {
    pub fn new() -> Self {
        Exec { tasks: vec![], pos: 0, delays: 0 }
    }

    pub fn spawn(&mut self, f: impl Future<Output = ()> + 'static) -> usize {
        let flag = Arc::new(Flag(AtomicBool::new(true)));
        let waker = flag.clone().into();
        self.tasks.push(Task { fut: Some(Box::pin(f)), flag, waker });
        self.tasks.len() - 1
    }

    pub fn done(&self, t: usize) -> bool {
        self.tasks[t].fut.is_none()
    }

    pub fn kill(&mut self, t: usize) {
        self.tasks[t].fut = None;
    }

    fn ready(&self, t: usize) -> bool {
        let t = &self.tasks[t];
        t.fut.is_some() && t.flag.0.load(Relaxed)
    }

    /// until no task is woken
    pub fn run(&mut self) {
        let n = self.tasks.len();
        for _ in 0..STEPS {
            let mut next = None;
            let mut more = false;
            for k in 0..n {
                let t = (self.pos + k) % n;
                if self.ready(t) {
                    if next.is_none() {
                        next = Some(t);
                    } else {
                        more = true;
                        break;
                    }
                }
            }
            let Some(t) = next else { return };
            self.pos = (t + 1) % n;
            if more && self.delays > 0 && sym::choice(2, "delay") == 1 {
                self.delays -= 1;
                continue;
            }
            let task = &mut self.tasks[t];
            task.flag.0.store(false, Relaxed);
            let mut cx = Context::from_waker(&task.waker);
            if let Poll::Ready(()) = task.fut.as_mut().unwrap().as_mut().poll(&mut cx) {
                task.fut = None;
            }
        }
        sym::check(false, "the system does not come to rest");
        sym::stop()
    }
}

/// one-shot value filled in by a task
pub struct Slot<T>(std::rc::Rc<Cell<Option<T>>>);
impl<T> Clone for Slot<T> {
    fn clone(&self) -> Self {
        Slot(self.0.clone())
    }
}
impl<T> Slot<T> {
    pub fn new() -> Self {
        Slot(std::rc::Rc::new(Cell::new(None)))
    }
    pub fn set(&self, v: T) {
        self.0.set(Some(v))
    }
    pub fn take(&self) -> Option<T> {
        self.0.take()
    }
}

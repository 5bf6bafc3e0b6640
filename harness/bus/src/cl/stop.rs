//! Signals between application tasks.
use std::cell::{Cell, RefCell};
use std::future::poll_fn;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

#[derive(Clone, Default)]
pub struct Gate(Rc<(Cell<bool>, RefCell<Vec<Waker>>)>);

impl Gate {
    pub fn open(&self) {
        self.0 .0.set(true);
        for w in self.0 .1.take() {
            w.wake()
        }
    }
    pub fn is_open(&self) -> bool {
        self.0 .0.get()
    }
    pub fn poll(&self, cx: &mut Context) -> Poll<()> {
        if self.is_open() {
            return Poll::Ready(());
        }
        self.0 .1.borrow_mut().push(cx.waker().clone());
        Poll::Pending
    }
    pub async fn wait(&self) {
        poll_fn(|cx| self.poll(cx)).await
    }
    /// `f`, or None once the gate is open and `f` has nothing to give
    pub async fn or<T>(&self, mut f: impl FnMut(&mut Context) -> Poll<T>) -> Option<T> {
        poll_fn(|cx| match f(cx) {
            Poll::Ready(v) => Poll::Ready(Some(v)),
            Poll::Pending => self.poll(cx).map(|()| None),
        })
        .await
    }
}

/// polls once
pub async fn try_now<T>(mut f: impl FnMut(&mut Context) -> Poll<T>) -> Option<T> {
    poll_fn(|cx| match f(cx) {
        Poll::Ready(v) => Poll::Ready(Some(v)),
        Poll::Pending => Poll::Ready(None),
    })
    .await
}

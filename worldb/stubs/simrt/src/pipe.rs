//! One direction of a simulated connection: messages in order, after a delay, until it breaks.
use std::cell::RefCell;
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

#[derive(Default)]
struct State {
    arrived: VecDeque<Vec<u8>>,
    closed: bool,
    reset: bool,
    waker: Option<Waker>,
}
#[derive(Clone, Default)]
pub struct Pipe(Rc<RefCell<State>>);
impl Pipe {
    /// The network hands a message to the receiving side.
    pub fn deliver(&self, m: Vec<u8>) {
        let mut s = self.0.borrow_mut();
        if !s.closed {
            s.arrived.push_back(m);
            if let Some(w) = s.waker.take() {
                w.wake()
            }
        }
    }
    /// The receiving side learns that the connection is gone. What has arrived can still be read.
    pub fn close(&self) {
        let mut s = self.0.borrow_mut();
        s.closed = true;
        if let Some(w) = s.waker.take() {
            w.wake()
        }
    }
    /// The receiving side learns that the connection broke: what it has not read yet can still be
    /// read, and then comes an error instead of an orderly end.
    pub fn reset(&self) {
        self.0.borrow_mut().reset = true;
        self.close()
    }
    pub fn was_reset(&self) -> bool {
        self.0.borrow().reset
    }
    pub fn is_closed(&self) -> bool {
        self.0.borrow().closed
    }
    pub fn recv(&self) -> Recv {
        Recv(self.clone())
    }
}
pub struct Recv(Pipe);
impl Future for Recv {
    type Output = Option<Vec<u8>>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Vec<u8>>> {
        let mut s = self.0.0.borrow_mut();
        if let Some(m) = s.arrived.pop_front() {
            return Poll::Ready(Some(m));
        }
        if s.closed {
            return Poll::Ready(None);
        }
        s.waker = Some(cx.waker().clone());
        Poll::Pending
    }
}

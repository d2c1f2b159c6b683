//! Stand-in for roam: calls over a message link, one outstanding-call table per connection.
pub use facet;
use facet::Val;
pub use roam_macro::service;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context as Cx, Poll, Waker};

/// What a transport offers: messages in, messages out.
#[derive(Clone)]
pub struct Link {
    pub rx: simrt::pipe::Pipe,
    pub tx: Rc<dyn Fn(Vec<u8>)>,
}
#[derive(Debug, Default)]
pub struct Context {}
#[derive(Debug, Clone, PartialEq)]
pub enum CallError {
    Closed,
    Remote(String),
    Decode(String),
}
impl std::fmt::Display for CallError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            CallError::Closed => f.write_str("connection closed"),
            CallError::Remote(s) => write!(f, "remote error: {s}"),
            CallError::Decode(s) => write!(f, "bad reply: {s}"),
        }
    }
}
impl std::error::Error for CallError {}

#[allow(async_fn_in_trait)]
pub trait Dispatcher: 'static {
    async fn dispatch(&self, cx: &Context, method: u32, args: Val) -> Result<Val, String>;
}
#[derive(Default)]
struct Call {
    reply: Option<Result<Val, CallError>>,
    waker: Option<Waker>,
}
#[derive(Default)]
struct Calls {
    next: u64,
    open: BTreeMap<u64, Call>,
    closed: bool,
}
#[derive(Clone)]
pub struct Handle {
    link: Link,
    calls: Rc<RefCell<Calls>>,
}
pub fn encode(kind: u64, id: u64, method: u64, body: Val) -> Vec<u8> {
    let mut out = vec![];
    facet::write(&Val::Seq(vec![Val::U(kind), Val::U(id), Val::U(method), body]), &mut out);
    out
}
pub fn decode(m: &[u8]) -> Option<(u64, u64, u64, Val)> {
    let mut b = m;
    match facet::read(&mut b, 0) {
        Ok(Val::Seq(s)) => match <[Val; 4]>::try_from(s) {
            Ok([Val::U(k), Val::U(i), Val::U(m), body]) => Some((k, i, m, body)),
            _ => None,
        },
        _ => None,
    }
}
impl Handle {
    pub fn new(link: Link) -> Handle {
        Handle { link, calls: Rc::default() }
    }
    pub fn link(&self) -> &Link {
        &self.link
    }
    /// The message leaves at once; the future waits for the reply.
    pub fn call(&self, method: u32, args: Val) -> Reply {
        let id = {
            let mut c = self.calls.borrow_mut();
            let id = c.next;
            c.next += 1;
            let mut call = Call::default();
            if c.closed {
                call.reply = Some(Err(CallError::Closed));
            }
            c.open.insert(id, call);
            id
        };
        (self.link.tx)(encode(1, id, method as u64, args));
        Reply { calls: self.calls.clone(), id }
    }
    pub fn resolve(&self, id: u64, r: Result<Val, CallError>) {
        let w = {
            let mut c = self.calls.borrow_mut();
            let Some(call) = c.open.get_mut(&id) else { return };
            call.reply.get_or_insert(r);
            call.waker.take()
        };
        if let Some(w) = w {
            w.wake()
        }
    }
    pub fn closed(&self) {
        let ids: Vec<u64> = {
            let mut c = self.calls.borrow_mut();
            c.closed = true;
            c.open.keys().copied().collect()
        };
        for i in ids {
            self.resolve(i, Err(CallError::Closed))
        }
    }
}
pub struct Reply {
    calls: Rc<RefCell<Calls>>,
    id: u64,
}
impl Future for Reply {
    type Output = Result<Val, CallError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<Self::Output> {
        let mut c = self.calls.borrow_mut();
        let Some(call) = c.open.get_mut(&self.id) else { return Poll::Ready(Err(CallError::Closed)) };
        match call.reply.take() {
            Some(r) => {
                c.open.remove(&self.id);
                Poll::Ready(r)
            }
            None => {
                call.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}
impl Drop for Reply {
    fn drop(&mut self) {
        self.calls.borrow_mut().open.remove(&self.id);
    }
}

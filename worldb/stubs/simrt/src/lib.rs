//! A single-threaded executor on virtual time, owned by one simulated run.
//!
//! Every task belongs to a realm (one browser page, one server process). Within a realm tasks run
//! first-in-first-out, as a page's event loop does; between realms a seeded draw decides who goes
//! next. When nothing is ready, time jumps to the next timer. Killing a realm drops its tasks.
use simcore::choices::{S_FAULT, S_NET, S_SCHED};
use simcore::{Choices, EventQueue, Obs};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, VecDeque};
use std::future::Future;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

pub mod pipe;

pub type Realm = u32;
type Fut = Pin<Box<dyn Future<Output = ()>>>;

struct Task {
    realm: Realm,
    fut: Option<Fut>,
    queued: Arc<Mutex<bool>>,
}
type Ready = Arc<Mutex<VecDeque<u64>>>;
struct Handle {
    id: u64,
    queued: Arc<Mutex<bool>>,
    ready: Ready,
}
impl Wake for Handle {
    fn wake(self: Arc<Self>) {
        let mut q = self.queued.lock().unwrap();
        if !*q {
            *q = true;
            self.ready.lock().unwrap().push_back(self.id);
        }
    }
}
enum Ev {
    Call(Box<dyn FnOnce()>),
    Wake(Waker),
}
pub struct Rt {
    queue: RefCell<EventQueue<(Realm, Ev)>>,
    tasks: RefCell<BTreeMap<u64, Task>>,
    next: Cell<u64>,
    ready: Ready,
    cur: Cell<Realm>,
    pub ch: RefCell<Choices>,
    pub obs: RefCell<Obs>,
    pub steps: Cell<u64>,
    panics: RefCell<Vec<(Realm, String)>>,
}
thread_local! {
    static RT: RefCell<Option<Rc<Rt>>> = const { RefCell::new(None) };
}
/// Realm 0 is the environment: it is never killed.
pub const ENV: Realm = 0;

/// Take the run's tape and observations, run `f` with the executor installed, give them back.
pub fn with_runtime<R>(ch: &mut Choices, obs: &mut Obs, f: impl FnOnce() -> R) -> R {
    let rt = Rc::new(Rt {
        queue: RefCell::default(),
        tasks: RefCell::default(),
        next: Cell::new(1),
        ready: Ready::default(),
        cur: Cell::new(ENV),
        ch: RefCell::new(std::mem::replace(ch, Choices::record(0))),
        obs: RefCell::new(std::mem::take(obs)),
        steps: Cell::new(0),
        panics: RefCell::default(),
    });
    RT.with(|r| *r.borrow_mut() = Some(rt.clone()));
    let out = catch_unwind(AssertUnwindSafe(f));
    // drop futures while the executor is still reachable
    let tasks = std::mem::take(&mut *rt.tasks.borrow_mut());
    drop(tasks);
    *rt.queue.borrow_mut() = EventQueue::default();
    RT.with(|r| *r.borrow_mut() = None);
    std::mem::swap(ch, &mut rt.ch.borrow_mut());
    *obs = std::mem::take(&mut rt.obs.borrow_mut());
    match out {
        Ok(v) => v,
        Err(p) => std::panic::resume_unwind(p),
    }
}
pub fn rt() -> Rc<Rt> {
    RT.with(|r| r.borrow().clone()).expect("no simulated runtime on this thread")
}
pub fn now() -> u64 {
    rt().queue.borrow().now
}
pub fn current() -> Realm {
    rt().cur.get()
}
pub fn draw(stream: usize, n: u64) -> u64 {
    rt().ch.borrow_mut().draw(stream, n)
}
pub fn chance(stream: usize, num: u64, den: u64) -> bool {
    rt().ch.borrow_mut().chance(stream, num, den)
}
pub fn range(stream: usize, lo: u64, hi: u64) -> u64 {
    rt().ch.borrow_mut().range(stream, lo, hi)
}
pub fn fault(num: u64, den: u64) -> bool {
    chance(S_FAULT, num, den)
}
pub fn net(lo: u64, hi: u64) -> u64 {
    range(S_NET, lo, hi)
}
pub fn count(k: &'static str) {
    rt().obs.borrow_mut().count(k)
}
pub fn add(k: &'static str, n: u64) {
    rt().obs.borrow_mut().add(k, n)
}
pub fn log(f: impl FnOnce() -> String) {
    let rt = rt();
    let on = rt.obs.borrow().trace_on;
    if on {
        let t = rt.queue.borrow().now;
        let s = format!("[{t:>6} ms] {}", f());
        rt.obs.borrow_mut().trace.push(s);
    }
}
pub fn sched(v: u64) {
    rt().obs.borrow_mut().sched(v)
}
/// Run `f` as if called from inside `realm`.
pub fn enter<R>(realm: Realm, f: impl FnOnce() -> R) -> R {
    let rt = rt();
    let old = rt.cur.replace(realm);
    struct Back(Rc<Rt>, Realm);
    impl Drop for Back {
        fn drop(&mut self) {
            self.0.cur.set(self.1)
        }
    }
    let _b = Back(rt, old);
    f()
}
pub fn spawn(realm: Realm, f: impl Future<Output = ()> + 'static) {
    let rt = rt();
    let id = rt.next.get();
    rt.next.set(id + 1);
    let queued = Arc::new(Mutex::new(true));
    rt.tasks.borrow_mut().insert(id, Task { realm, fut: Some(Box::pin(f)), queued });
    rt.ready.lock().unwrap().push_back(id);
}
pub fn spawn_here(f: impl Future<Output = ()> + 'static) {
    spawn(current(), f)
}
/// The page is gone, the process is dead: its tasks and timers go with it.
pub fn kill(realm: Realm) {
    let rt = rt();
    let dead: Vec<u64> = rt.tasks.borrow().iter().filter(|(_, t)| t.realm == realm).map(|(i, _)| *i).collect();
    for i in dead {
        let t = rt.tasks.borrow_mut().remove(&i);
        drop(t)
    }
}
/// Environment callback after `ms`.
pub fn after(ms: u64, f: impl FnOnce() + 'static) {
    rt().queue.borrow_mut().after(ms, (ENV, Ev::Call(Box::new(f))));
}
pub struct Sleep {
    at: u64,
    armed: bool,
}
pub fn sleep(ms: u64) -> Sleep {
    Sleep { at: now() + ms, armed: false }
}
impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let rt = rt();
        let now = rt.queue.borrow().now;
        if now >= self.at {
            return Poll::Ready(());
        }
        if !self.armed {
            self.armed = true;
            let d = self.at - now;
            rt.queue.borrow_mut().after(d, (rt.cur.get(), Ev::Wake(cx.waker().clone())));
        }
        Poll::Pending
    }
}
pub fn panics() -> Vec<(Realm, String)> {
    rt().panics.borrow().clone()
}
/// One task step, or one timer. False when nothing is left.
pub fn step() -> bool {
    let rt = rt();
    rt.steps.set(rt.steps.get() + 1);
    // heads of the per-realm queues
    let mut heads: Vec<(Realm, usize)> = vec![];
    {
        let mut ready = rt.ready.lock().unwrap();
        let tasks = rt.tasks.borrow();
        ready.retain(|i| tasks.contains_key(i));
        for (k, i) in ready.iter().enumerate() {
            let r = tasks[i].realm;
            if !heads.iter().any(|h| h.0 == r) {
                heads.push((r, k))
            }
        }
    }
    if !heads.is_empty() {
        let k = if heads.len() == 1 { 0 } else { rt.ch.borrow_mut().idx(S_SCHED, heads.len()) };
        let (realm, at) = heads[k];
        let id = rt.ready.lock().unwrap().remove(at).unwrap();
        let (mut fut, queued) = {
            let mut tasks = rt.tasks.borrow_mut();
            let t = tasks.get_mut(&id).unwrap();
            (t.fut.take().unwrap(), t.queued.clone())
        };
        *queued.lock().unwrap() = false;
        let t = rt.queue.borrow().now;
        rt.obs.borrow_mut().sched(simcore::mix(t, realm as u64 + 3));
        let waker = Waker::from(Arc::new(Handle { id, queued, ready: rt.ready.clone() }));
        let r = catch_unwind(AssertUnwindSafe(|| enter(realm, || fut.as_mut().poll(&mut Context::from_waker(&waker)))));
        match r {
            Ok(Poll::Ready(())) => {
                rt.tasks.borrow_mut().remove(&id);
                drop(fut);
            }
            Ok(Poll::Pending) => {
                // the realm may have been killed from inside its own task
                if let Some(t) = rt.tasks.borrow_mut().get_mut(&id) {
                    t.fut = Some(fut);
                }
            }
            Err(p) => {
                rt.tasks.borrow_mut().remove(&id);
                rt.panics.borrow_mut().push((realm, simcore::runner::panic_text(&p)));
            }
        }
        return true;
    }
    let ev = rt.queue.borrow_mut().pop();
    match ev {
        None => false,
        Some((_, Ev::Wake(w))) => {
            let t = rt.queue.borrow().now;
            rt.obs.borrow_mut().sched(simcore::mix(t, 1));
            w.wake();
            true
        }
        Some((_, Ev::Call(f))) => {
            let t = rt.queue.borrow().now;
            rt.obs.borrow_mut().sched(simcore::mix(t, 2));
            f();
            true
        }
    }
}
pub fn pending_tasks(realm: Realm) -> usize {
    rt().tasks.borrow().values().filter(|t| t.realm == realm).count()
}

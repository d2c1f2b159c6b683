//! Callers on several threads share trees and compute diffs at the same time. Exactly one of them
//! runs at any moment; every callback of the code under test into a caller's tree is a point where
//! the seeded scheduler may switch threads, where the caller may fail (unwind out of the
//! computation), or where the caller itself computes another diff (re-entrancy).
use crate::doc::*;
use crate::live::*;
use crate::oracle::*;
use cinereus::MatchingConfig;
use simcore::choices::*;
use simcore::{mix, Choices, Obs, Scenario, Violation};
use std::cell::Cell;
use std::sync::{Condvar, Mutex};

pub struct Threads {
    pub name: &'static str,
    pub class: &'static str,
    pub aborts: bool,
    pub nested: bool,
    /// hundreds of computations, most of them abandoned
    pub many: bool,
    /// documents that differ in what their hashes do not cover, and one configuration per pair
    pub alike: bool,
}

struct State<'c> {
    turn: usize,
    alive: Vec<bool>,
    ch: &'c mut Choices,
    quantum: u64,
    switches: u64,
    sched: u64,
}
struct Baton<'c> {
    m: Mutex<State<'c>>,
    cv: Condvar,
}
impl Baton<'_> {
    fn wait(&self, me: usize) -> u64 {
        let mut g = self.m.lock().unwrap();
        while g.turn != me {
            g = self.cv.wait(g).unwrap();
        }
        let q = g.quantum;
        1 + g.ch.draw(S_SCHED, q)
    }
    /// Chooses who runs next; returns how many callbacks this thread may make once it is back.
    fn switch(&self, me: usize) -> u64 {
        let mut g = self.m.lock().unwrap();
        let up: Vec<usize> = (0..g.alive.len()).filter(|i| g.alive[*i]).collect();
        let k = g.ch.idx(S_SCHED, up.len());
        let next = up[k];
        g.sched = mix(g.sched, next as u64);
        if next == me {
            let q = g.quantum;
            return 1 + g.ch.draw(S_SCHED, q);
        }
        g.switches += 1;
        g.turn = next;
        self.cv.notify_all();
        while g.turn != me {
            g = self.cv.wait(g).unwrap();
        }
        let q = g.quantum;
        1 + g.ch.draw(S_SCHED, q)
    }
    fn leave(&self, me: usize) {
        let mut g = self.m.lock().unwrap();
        g.alive[me] = false;
        let up: Vec<usize> = (0..g.alive.len()).filter(|i| g.alive[*i]).collect();
        if !up.is_empty() {
            let k = g.ch.idx(S_SCHED, up.len());
            g.turn = up[k];
        }
        self.cv.notify_all();
    }
}
struct TaskHook<'x, 'c> {
    me: usize,
    baton: &'x Baton<'c>,
    left: &'x Cell<u64>,
    n: Cell<u64>,
    fail_at: u64,
    nest_at: u64,
    max: u64,
    nest: &'x dyn Fn(),
}
const ABORT: &str = "the caller gives up";
impl Hook for TaskHook<'_, '_> {
    fn tick(&self, _: u8) {
        let n = self.n.get() + 1;
        self.n.set(n);
        if n == self.fail_at {
            panic!("{ABORT}");
        }
        if n > self.max {
            panic!("{BUDGET_PANIC}");
        }
        if n == self.nest_at {
            (self.nest)();
        }
        let l = self.left.get();
        if l <= 1 {
            self.left.set(self.baton.switch(self.me));
        } else {
            self.left.set(l - 1);
        }
    }
    fn steps(&self) -> u64 {
        self.n.get()
    }
}

struct Job {
    pair: usize,
    via: Via,
    fail_at: u64,
    nest_at: u64,
    nest_pair: usize,
}
type Answer = (Vec<String>, Vec<(u32, u32)>);
fn answer(a: &Live, b: &Live, cfg: &MatchingConfig, via: Via, hook: &dyn Hook) -> Result<Answer, String> {
    let o = diff(a, b, cfg, via, hook);
    let mut p = pairs_by_uid(a, b, &o.m)?;
    p.sort();
    Ok((norm(a, b, &o.ops), p))
}

impl Scenario for Threads {
    fn name(&self) -> &'static str {
        self.name
    }
    fn run(&self, ch: &mut Choices, obs: &mut Obs) -> Result<(), Violation> {
        let hs = ch.draw(S_ENV, u64::MAX);
        simcore::hashseed::set_thread_seed(hs);
        let mut cfg = DocCfg::draw(ch, 24);
        if self.many {
            cfg.deep = true;
            cfg.max_kids = cfg.max_kids.min(3);
        }
        let mut d0 = Doc::generate(ch, S_DOC, &cfg);
        d0.hash_attrs = ch.chance(S_CFG, 1, 2);
        if self.alike {
            cfg.attr_keys = ch.range(S_CFG, 2, 4) as u8;
            d0.hash_attrs = false;
        }
        let mut docs = vec![d0];
        if self.alike {
            for _ in 0..ch.range(S_CFG, 1, 2) {
                let mut d = docs[0].clone();
                for _ in 0..ch.range(S_EDIT, 1, 4) {
                    d.edit(ch, S_EDIT, &cfg, &[30, 20, 10, 15, 5, 5, 8, 6, 4]);
                }
                docs.push(d);
            }
            for k in 0..docs.len() {
                for _ in 0..ch.range(S_CFG, 1, 2) {
                    let mut d = docs[k].clone();
                    d.repaint(ch, S_EDIT, &cfg);
                    docs.push(d);
                }
            }
        }
        for _ in 0..if self.alike { 0 } else { ch.range(S_CFG, 1, 3) } {
            let mut d = docs.last().unwrap().clone();
            for _ in 0..ch.range(S_EDIT, 1, 6) {
                d.edit(ch, S_EDIT, &cfg, &[20, 20, 15, 15, 15, 5, 8, 6, 4]);
            }
            docs.push(d);
        }
        let layouts = [Layout::Preorder, Layout::Shuffled, Layout::Recycled, Layout::Sparse];
        let lives: Vec<Live> = docs
            .iter()
            .map(|d| {
                let l = *ch.pick(S_ENV, &layouts);
                Live::build(d, l, ch)
            })
            .collect();
        let mc = MatchingConfig { similarity_threshold: *ch.pick(S_CFG, &[0.5, 0.3, 0.8]), min_height: *ch.pick(S_CFG, &[1usize, 0, 2]) };
        let npairs = if self.alike { ch.range(S_CFG, 2, 7) } else { ch.range(S_CFG, 1, 3) } as usize;
        let pairs: Vec<(usize, usize)> = (0..npairs).map(|_| (ch.idx(S_CFG, docs.len()), ch.idx(S_CFG, docs.len()))).collect();
        let mcs: Vec<MatchingConfig> = (0..npairs)
            .map(|_| {
                if self.alike && ch.chance(S_CFG, 1, 2) {
                    MatchingConfig { similarity_threshold: *ch.pick(S_CFG, &[0.5, 0.2, 0.7, 0.95]), min_height: *ch.pick(S_CFG, &[1usize, 0, 2]) }
                } else {
                    mc.clone()
                }
            })
            .collect();
        let prints: Vec<u64> = lives.iter().map(|l| l.fingerprint()).collect();
        // What each pair gives when nothing else is going on, each on a fresh thread.
        let mut base: Vec<Answer> = vec![];
        let mut base_steps = vec![];
        for (k, &(x, y)) in pairs.iter().enumerate() {
            let (a, b) = (&lives[x], &lives[y]);
            let mc = &mcs[k];
            let bound = work_bound(docs[x].nodes.len(), docs[y].nodes.len());
            let r = std::thread::scope(|s| {
                s.spawn(move || {
                    simcore::hashseed::set_thread_seed(hs ^ 1);
                    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        let h = Budget::new(bound);
                        let r = answer(a, b, mc, Via::View, &h);
                        (r, h.n.get())
                    }))
                    .map_err(|p| simcore::runner::panic_text(&p))
                })
                .join()
                .unwrap()
            });
            match r {
                Ok((Ok(v), n)) => {
                    base.push(v);
                    base_steps.push(n);
                }
                // wrong even alone: another property's business
                _ => {
                    obs.count("run_cut_short_by_another_property");
                    return Ok(());
                }
            }
        }
        let ntasks = if self.many || self.alike { ch.range(S_CFG, 1, 2) as usize } else { ch.range(S_CFG, 2, 4) as usize };
        let mut plans: Vec<Vec<Job>> = vec![];
        for _ in 0..ntasks {
            let n = if self.many { *ch.pick(S_CFG, &[100u64, 300, 700]) } else if self.alike { ch.range(S_CFG, 3, 12) } else { ch.range(S_CFG, 1, 4) };
            plans.push(
                (0..n)
                    .map(|_| {
                        let pair = ch.idx(S_CFG, npairs);
                        let steps = base_steps[pair].max(1);
                        Job {
                            pair,
                            via: *ch.pick(S_ENV, &VIAS[..3]),
                            fail_at: if self.aborts && ch.chance(S_FAULT, if self.many { 4 } else { 1 }, if self.many { 5 } else { 3 }) { 1 + ch.draw(S_FAULT, steps) } else { 0 },
                            nest_at: if self.nested && ch.chance(S_FAULT, 1, 3) { 1 + ch.draw(S_FAULT, steps) } else { 0 },
                            nest_pair: ch.idx(S_FAULT, npairs),
                        }
                    })
                    .collect(),
            );
        }
        let quantum = if self.many { 4000 } else { *ch.pick(S_CFG, &[400u64, 60, 12, 3]) };
        obs.log(|| format!("{ntasks} threads, {npairs} pairs over {} documents, quantum {quantum}, {}", docs.len(), cfg.describe()));
        for (i, d) in docs.iter().enumerate() {
            obs.log(|| format!("doc {i}: {}", d.show(0, true)));
        }
        let first = ch.idx(S_SCHED, ntasks);
        let baton = Baton { m: Mutex::new(State { turn: first, alive: vec![true; ntasks], ch, quantum, switches: 0, sched: 0 }), cv: Condvar::new() };
        let errs: Mutex<Vec<(usize, String, String)>> = Mutex::new(vec![]);
        let counts: Mutex<Vec<&'static str>> = Mutex::new(vec![]);
        std::thread::scope(|s| {
            for (me, plan) in plans.iter().enumerate() {
                let (baton, lives, pairs, base, mcs, errs, counts, docs) = (&baton, &lives, &pairs, &base, &mcs, &errs, &counts, &docs);
                std::thread::Builder::new()
                    .stack_size(4 << 20)
                    .spawn_scoped(s, move || {
                        simcore::hashseed::set_thread_seed(mix(hs, me as u64));
                        let left = Cell::new(baton.wait(me));
                        for (j, job) in plan.iter().enumerate() {
                            let (x, y) = pairs[job.pair];
                            let mc = &mcs[job.pair];
                            let bound = 4 * work_bound(docs[x].nodes.len(), docs[y].nodes.len());
                            let attempt = |fail_at: u64, nest_at: u64| {
                                let nest = || {
                                    let (x, y) = pairs[job.nest_pair];
                                    counts.lock().unwrap().push("fault.reentrant_call");
                                    let h = Budget::new(bound.max(work_bound(docs[x].nodes.len(), docs[y].nodes.len())));
                                    match answer(&lives[x], &lives[y], &mcs[job.nest_pair], Via::View, &h) {
                                        Ok(r) if r == base[job.nest_pair] => {}
                                        other => errs.lock().unwrap().push((me, "reentrant".into(), format!("thread {me} job {j}: a diff of docs {x} -> {y} computed from inside a callback differs from the same diff computed alone: {other:?}"))),
                                    }
                                };
                                let hook = TaskHook { me, baton, left: &left, n: Cell::new(0), fail_at, nest_at, max: bound, nest: &nest };
                                std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| answer(&lives[x], &lives[y], mc, job.via, &hook))).map_err(|p| simcore::runner::panic_text(&p))
                            };
                            let mut r = attempt(job.fail_at, job.nest_at);
                            if matches!(&r, Err(m) if m.contains(ABORT)) {
                                counts.lock().unwrap().push("fault.caller_abort");
                                r = attempt(0, 0);
                            }
                            counts.lock().unwrap().push("oracle.compared");
                            match r {
                                Ok(Ok(v)) if v == base[job.pair] => {}
                                Ok(Ok(v)) => errs.lock().unwrap().push((me, "result".into(), format!("thread {me} job {j} ({:?}): docs {x} -> {y} gives {:#?} next to other computations and {:#?} alone", job.via, v.0, base[job.pair].0))),
                                Ok(Err(e)) => errs.lock().unwrap().push((me, "result".into(), e)),
                                Err(m) => errs.lock().unwrap().push((me, "panic".into(), format!("thread {me} job {j} ({:?}): docs {x} -> {y} works alone and fails next to other computations: {m}", job.via))),
                            }
                        }
                        baton.leave(me);
                    })
                    .expect("spawn");
            }
        });
        let st = baton.m.into_inner().unwrap();
        obs.schedule = mix(obs.schedule, st.sched);
        obs.add("fault.thread_switch", st.switches);
        obs.nontrivial = st.switches > 0 || self.many || self.alike;
        for c in counts.into_inner().unwrap() {
            obs.count(c);
        }
        obs.state(st.sched);
        obs.sim_time = base_steps.iter().sum();
        obs.sample = Some(format!("{ntasks} threads, {} jobs, {} switches, {} documents", plans.iter().map(|p| p.len()).sum::<usize>(), st.switches, docs.len()));
        let mut errs = errs.into_inner().unwrap();
        errs.sort();
        let show = || docs.iter().enumerate().map(|(i, d)| format!("\ndoc {i}: {}", d.show(0, true))).collect::<String>();
        if let Some((_, k, e)) = errs.into_iter().next() {
            return Err(Violation::new(format!("{}:{k}", self.class), format!("{e}{}", show())));
        }
        if lives.iter().map(|l| l.fingerprint()).collect::<Vec<_>>() != prints {
            return Err(Violation::new(format!("{}:modified", self.class), format!("a shared input tree changed{}", show())));
        }
        Ok(())
    }
}

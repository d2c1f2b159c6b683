//! A publisher keeps subscribers' documents up to date over an unreliable network.
//!
//! The author edits a document; its revisions are durable. The publisher answers each subscriber
//! with the next operations of the *real* edit script between the revision the subscriber has and
//! the one it wants, computed by the code under test from trees whose arena layout, lifetime and
//! hash keys vary. Subscribers execute one operation at a time, journal it, crash, lose the tail of
//! their journal, come back and carry on in the middle of a script. A publisher that crashes
//! forgets everything but the revisions and computes every script anew.
use crate::doc::*;
use crate::live::*;
use crate::oracle::*;
use crate::wire::*;
use cinereus::MatchingConfig;
use simcore::choices::*;
use simcore::{mix, Choices, EventQueue, Obs, Scenario, Violation};
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Want {
    Converge,
    Matching,
    Quiet,
    Economy,
    Deterministic,
    Opaque,
    Prefix,
    Inputs,
    Work,
    Identity,
}
impl Want {
    pub fn class(self) -> &'static str {
        match self {
            Want::Converge => "converge",
            Want::Matching => "correspondence",
            Want::Quiet => "quiet",
            Want::Economy => "economy",
            Want::Deterministic => "determinism",
            Want::Opaque => "opaque",
            Want::Prefix => "prefix",
            Want::Inputs => "inputs",
            Want::Work => "work",
            Want::Identity => "identity",
        }
    }
}

/// What the author does to the document.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Edits {
    /// anything, including rewrites, reverts and republishing the same content
    Any,
    /// unique content; only texts change, always to fresh values
    Texts,
    /// unique content; only attribute values change
    Attrs,
    /// unique content; fresh content is appended after the last child of some element
    Append,
    /// unique content; the last child of some element is removed
    RemoveLast,
    /// unique content; two neighbours swap places
    Swap,
    /// only content strictly inside opaque elements changes
    OpaqueOnly,
    /// unique content with opaque elements; only texts outside them change
    TextsBesideOpaque,
    /// anything, on elements that carry an attribute of their own
    Keyed,
    /// the same with unique texts
    KeyedUnique,
}

pub struct Session {
    pub name: &'static str,
    pub want: Want,
    pub edits: &'static [Edits],
    pub faults: bool,
    /// scripts from a correspondence supplied by the caller (like the stack's own forced root pair)
    pub own: bool,
    pub max_size: usize,
    pub force_opaque: bool,
}

#[derive(Clone, Debug)]
struct FaultCfg {
    loss: u64,
    dup: u64,
    reorder: u64,
    max_delay: u64,
    partitions: u64,
    rcrash: u64,
    pcrash: u64,
    lose_tail: bool,
    stall: u64,
}
impl FaultCfg {
    fn none() -> FaultCfg {
        FaultCfg { loss: 0, dup: 0, reorder: 0, max_delay: 5, partitions: 0, rcrash: 0, pcrash: 0, lose_tail: false, stall: 0 }
    }
    fn draw(ch: &mut Choices) -> FaultCfg {
        // swarm: every kind of fault is present in only some of the runs
        FaultCfg {
            loss: *ch.pick(S_CFG, &[0u64, 0, 5, 20, 50]),
            dup: *ch.pick(S_CFG, &[0u64, 0, 10, 40]),
            reorder: *ch.pick(S_CFG, &[0u64, 0, 20, 60]),
            max_delay: *ch.pick(S_CFG, &[5u64, 20, 120]),
            partitions: *ch.pick(S_CFG, &[0u64, 0, 1, 3]),
            rcrash: *ch.pick(S_CFG, &[0u64, 1, 3, 8]),
            pcrash: *ch.pick(S_CFG, &[0u64, 1, 3]),
            lose_tail: ch.chance(S_CFG, 1, 2),
            stall: *ch.pick(S_CFG, &[0u64, 0, 1, 3]),
        }
    }
}

#[derive(Clone, Debug)]
enum Msg {
    Hello { rev: usize, target: Option<usize>, applied: usize },
    Ops { from: usize, to: usize, start: usize, ops: Vec<WOp>, end: Option<BTreeMap<u32, u32>> },
}
#[derive(Debug)]
enum Ev {
    Author,
    HelloTick(usize),
    ToPub(usize, Msg),
    ToSub(usize, Msg),
    SubCrash(usize),
    SubRestart(usize),
    PubCrash,
    PubRestart,
    Cut(usize),
    Mend(usize),
    Stall(usize),
    EndFaults,
}
#[derive(Clone, Debug)]
enum Rec {
    Begin(usize),
    Op(WOp),
    Commit(usize, BTreeMap<u32, u32>),
}
struct Disk {
    snap: Replica,
    log: Vec<Rec>,
    synced: usize,
}
struct Sub {
    up: bool,
    cut: bool,
    stalled_until: u64,
    doc: Replica,
    target: Option<usize>,
    disk: Disk,
    stuck: bool,
    done_at: Option<u64>,
    at_heal: (usize, Option<usize>, usize),
}
impl Sub {
    fn recover(&mut self) {
        self.doc = self.disk.snap.clone();
        self.target = None;
        for r in self.disk.log.clone() {
            match r {
                Rec::Begin(t) => self.target = Some(t),
                Rec::Op(o) => {
                    let _ = self.doc.apply(&o);
                }
                Rec::Commit(t, ren) => {
                    self.doc.commit(t, &ren);
                    self.target = None;
                }
            }
        }
    }
}
/// What was observed of a script the first time it was computed.
struct Ledger {
    norm: Vec<String>,
    map: Vec<(u32, u32)>,
    how: String,
}
#[derive(Default)]
struct Publisher {
    up: bool,
    scripts: BTreeMap<(usize, usize), Script>,
    /// long-lived trees, edited in place from revision to revision
    arenas: Vec<Live>,
    incarnation: u64,
}
struct Sim<'a> {
    s: &'a Session,
    f: FaultCfg,
    mc: MatchingConfig,
    salt: u64,
    docs: Vec<Doc>,
    cfg: DocCfg,
    edit_mode: Edits,
    texts_left: u16,
    p: Publisher,
    subs: Vec<Sub>,
    q: EventQueue<Ev>,
    ledger: BTreeMap<(usize, usize), Ledger>,
    healed: bool,
    window: usize,
    diffs: u64,
    revs: usize,
}

fn describe(da: &Doc, db: &Doc, from: usize, to: usize, mc: &MatchingConfig) -> String {
    format!("\nold (rev {from}): {}\nnew (rev {to}): {}\nthreshold={} min_height={}", da.show(da.root, true), db.show(db.root, true), mc.similarity_threshold, mc.min_height)
}
fn viol(w: Want, what: &str, d: String) -> Violation {
    Violation::new(format!("{}:{}", w.class(), what), d)
}

impl Sim<'_> {
    fn want(&self, w: Want) -> bool {
        self.s.want == w
    }
    fn describe(&self, from: usize, to: usize) -> String {
        describe(&self.docs[from], &self.docs[to], from, to, &self.mc)
    }

    /// The real computation, under one of the environments that must not matter.
    fn compute(&mut self, from: usize, to: usize, ch: &mut Choices, obs: &mut Obs) -> Result<Script, Violation> {
        let (da, db) = (self.docs[from].clone(), self.docs[to].clone());
        let layouts = [Layout::Preorder, Layout::Shuffled, Layout::Recycled, Layout::Preorder, Layout::Shuffled, Layout::Recycled, Layout::Sparse];
        let env = ch.idx(S_ENV, 4);
        let via = *ch.pick(S_ENV, &VIAS);
        let elsewhere = ch.chance(S_ENV, 1, 4);
        let hash_seed = ch.draw(S_ENV, u64::MAX);
        let (mut fa, mut fb);
        let (a, b): (&Live, &Live) = match env {
            // long-lived arenas, brought to the wanted revisions in place
            1 | 2 => {
                while self.p.arenas.len() < 2 {
                    self.p.arenas.push(Live::build(&self.docs[0], Layout::Preorder, ch));
                }
                let (x, y) = if env == 1 { (0, 1) } else { (1, 0) };
                self.p.arenas[x].evolve(&da);
                self.p.arenas[y].evolve(&db);
                obs.count("env.long_lived_arena");
                (&self.p.arenas[x], &self.p.arenas[y])
            }
            _ => {
                let la = *ch.pick(S_ENV, &layouts);
                fa = Live::build(&da, la, ch);
                let lb = *ch.pick(S_ENV, &layouts);
                fb = Live::build(&db, lb, ch);
                if env == 3 {
                    // one more in-place round trip, so that slots have been recycled
                    fa.evolve(&db);
                    fa.evolve(&da);
                    fb.evolve(&da);
                    fb.evolve(&db);
                    obs.count("env.recycled_slots");
                }
                (&fa, &fb)
            }
        };
        let same_object = from == to && ch.chance(S_ENV, 1, 2);
        let b = if same_object { a } else { b };
        let (pa, pb) = (a.fingerprint(), b.fingerprint());
        let bound = work_bound(da.nodes.len(), db.nodes.len());
        let mc = self.mc.clone();
        let own = self.s.own;
        let salt = mix(self.salt, (from as u64) << 20 | to as u64);
        let run = || {
            let hook = Budget::new(bound);
            if own {
                let m = own_matching(&da, &db, a, b, salt);
                let ops = cinereus::generate_edit_script(&View { live: a, hook: &hook }, &PlainView { live: b, hook: &hook }, &m);
                DiffOut { ops, m, steps: hook.n.get() }
            } else {
                diff(a, b, &mc, via, &hook)
            }
        };
        self.diffs += 1;
        obs.count("diffs");
        simcore::hashseed::set_clock(hash_seed);
        let how = format!("{via:?}/env{env}/{}", if elsewhere { "other process" } else { "same process" });
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            if elsewhere {
                obs.count("fault.process_change");
                std::thread::scope(|s| {
                    s.spawn(|| {
                        simcore::hashseed::set_thread_seed(hash_seed);
                        std::panic::catch_unwind(std::panic::AssertUnwindSafe(run)).map_err(|p| simcore::runner::panic_text(&p))
                    })
                    .join()
                    .unwrap()
                })
            } else {
                std::panic::catch_unwind(std::panic::AssertUnwindSafe(run)).map_err(|p| simcore::runner::panic_text(&p))
            }
        }));
        let out: DiffOut = match r {
            Ok(Ok(o)) => o,
            Ok(Err(msg)) => {
                let d = format!("computing rev {from} -> {to} ({how}): {msg}{}", self.describe(from, to));
                return Err(if msg.contains(BUDGET_PANIC) { viol(Want::Work, "bound", format!("more than {bound} callbacks; {d}")) } else { Violation::new("panic:diff", d) });
            }
            Err(p) => std::panic::resume_unwind(p),
        };
        obs.add("steps", out.steps);
        if std::env::var_os("VERIF_RATIO").is_some() && out.steps > 0 {
            let r = out.steps as f64 / (bound - 200) as f64 * 32.0;
            static M: std::sync::Mutex<f64> = std::sync::Mutex::new(0.0);
            let mut g = M.lock().unwrap();
            if r > *g {
                *g = r;
                println!("ratio {r:.3} steps {} na {} nb {}", out.steps, da.nodes.len(), db.nodes.len());
            }
        }
        let fail = |w: Want, what: &str, e: String| viol(w, what, format!("{e} ({how}){}\nscript: {:#?}", describe(&da, &db, from, to, &mc), norm(a, b, &out.ops)));
        if self.want(Want::Inputs) && (a.fingerprint() != pa || b.fingerprint() != pb) {
            return Err(fail(Want::Inputs, "modified", "computing the script changed an input tree".into()));
        }
        if self.want(Want::Matching) && !own {
            obs.count("oracle.matching");
            check_matching(&da, &db, a, b, &out.m, mc.similarity_threshold).map_err(|e| fail(Want::Matching, "invalid", e))?;
        }
        if self.want(Want::Quiet) {
            if da.digest() == db.digest() {
                obs.count("oracle.equal_documents");
                obs.nontrivial = true;
            }
            check_quiet(&da, &db, a, b, &out).map_err(|e| fail(Want::Quiet, "equal", e))?;
        }
        if self.want(Want::Opaque) {
            obs.add("oracle.opaque_nodes", (a.opaque.len() + b.opaque.len()) as u64);
            check_opaque(&da, &db, a, b, &out).map_err(|e| fail(Want::Opaque, "interior", e))?;
            if self.edit_mode == Edits::OpaqueOnly && !out.ops.is_empty() {
                return Err(fail(Want::Opaque, "interior-change", "only the interior of opaque nodes changed, yet the script is not empty".into()));
            }
        }
        if self.want(Want::Economy) && !own {
            obs.count("oracle.economy");
            check_economy(&da, &db, a, b, &out).map_err(|e| fail(Want::Economy, "superfluous", e))?;
            self.locality(&da, &db, from, to, &out, obs).map_err(|e| fail(Want::Economy, "locality", e))?;
        }
        if self.want(Want::Identity) && !own {
            let n = check_identity(&da, &db, a, b, &out, mc.similarity_threshold, mc.min_height).map_err(|e| fail(Want::Identity, "lost", e))?;
            if da.digest() != db.digest() {
                for (k, n) in ["oracle.owed_unchanged_subtree", "oracle.owed_same_position", "oracle.owed_same_content", "oracle.owed_leaf", "oracle.owed_same_place", "oracle.owed_opaque"].iter().zip(n) {
                    obs.add(k, n as u64);
                }
                obs.nontrivial |= n.iter().sum::<usize>() > 0;
            }
        }
        if self.want(Want::Opaque) && self.edit_mode == Edits::TextsBesideOpaque {
            self.locality(&da, &db, from, to, &out, obs).map_err(|e| fail(Want::Opaque, "disturbed", e))?;
        }
        let n = norm(a, b, &out.ops);
        let map = match pairs_by_uid(a, b, &out.m) {
            Ok(m) => m,
            Err(e) => {
                let w = if self.want(Want::Matching) { Want::Matching } else { Want::Converge };
                return Err(fail(w, "foreign", e));
            }
        };
        if let Some(l) = self.ledger.get(&(from, to)) {
            obs.count("oracle.recomputed");
            if self.want(Want::Deterministic) {
                obs.nontrivial = true;
                let mut sm = map.clone();
                sm.sort();
                if l.norm != n {
                    return Err(fail(Want::Deterministic, "script", format!("the script for the same two documents differs from the one computed before ({}): {:#?}", l.how, l.norm)));
                }
                if l.map != sm {
                    return Err(fail(Want::Deterministic, "correspondence", format!("the correspondence for the same two documents differs from the one computed before ({})", l.how)));
                }
            }
        } else {
            let mut sm = map.clone();
            sm.sort();
            self.ledger.insert((from, to), Ledger { norm: n, map: sm, how: how.clone() });
        }
        let map: BTreeMap<u32, u32> = map.into_iter().collect();
        let ops = name_ops(&da, &db, a, b, &map, &out.ops).map_err(|e| {
            let w = if self.want(Want::Prefix) { Want::Prefix } else { Want::Converge };
            fail(w, "names", e)
        })?;
        Ok(Script { from, to, ops, rename: map })
    }

    fn locality(&self, da: &Doc, db: &Doc, from: usize, to: usize, o: &DiffOut, obs: &mut Obs) -> Result<(), String> {
        use cinereus::EditOp::*;
        let (mut t, mut p, mut i, mut m, mut d) = (0, 0, 0, 0, 0);
        for op in &o.ops {
            match op {
                SetText { .. } => t += 1,
                UpdateProperties { .. } => p += 1,
                Insert { .. } => i += 1,
                Move { .. } => m += 1,
                Delete { .. } => d += 1,
            }
        }
        let got = format!("{t} text, {p} attribute, {i} insert, {m} move, {d} delete operations");
        let one_step = to == from + 1;
        match self.edit_mode {
            Edits::Texts | Edits::TextsBesideOpaque => {
                let k = da.nodes.iter().filter(|(u, n)| db.nodes[u].text != n.text).count();
                obs.count("oracle.locality");
                if (t, p, i, m, d) != (k, 0, 0, 0, 0) {
                    return Err(format!("{k} texts changed and nothing else; the script has {got}"));
                }
            }
            Edits::Attrs => {
                let k = da.nodes.iter().filter(|(u, n)| db.nodes[u].attrs != n.attrs).count();
                obs.count("oracle.locality");
                if (t, p, i, m, d) != (0, k, 0, 0, 0) {
                    return Err(format!("attributes of {k} nodes changed and nothing else; the script has {got}"));
                }
            }
            Edits::Append if one_step => {
                let k = db.nodes.len() - da.nodes.len();
                obs.count("oracle.locality");
                if (t, p, i, m, d) != (0, 0, k, 0, 0) {
                    return Err(format!("{k} nodes were appended and nothing else; the script has {got}"));
                }
            }
            Edits::RemoveLast if one_step => {
                let k = da.nodes.len() - db.nodes.len();
                obs.count("oracle.locality");
                if (t, p, i, m, d) != (0, 0, 0, 0, k) {
                    return Err(format!("{k} nodes were removed at the end of their parent and nothing else; the script has {got}"));
                }
            }
            Edits::Swap if one_step && da.digest() != db.digest() => {
                obs.count("oracle.locality");
                if t + p + i + d > 0 || m > 2 {
                    return Err(format!("two neighbours swapped places and nothing else; the script has {got}"));
                }
            }
            _ => {}
        }
        Ok(())
    }

    fn script(&mut self, from: usize, to: usize, ch: &mut Choices, obs: &mut Obs) -> Result<Script, Violation> {
        if let Some(s) = self.p.scripts.get(&(from, to)) {
            // a publisher without a cache computes again
            if !ch.chance(S_ENV, 1, 6) {
                return Ok(s.clone());
            }
        }
        let s = self.compute(from, to, ch, obs)?;
        self.p.scripts.insert((from, to), s.clone());
        Ok(s)
    }

    fn send(&mut self, ev: fn(usize, Msg) -> Ev, sub: usize, m: Msg, ch: &mut Choices, obs: &mut Obs) {
        if self.subs[sub].cut {
            obs.count("fault.partitioned_message");
            return;
        }
        if self.healed {
            let d = ch.range(S_NET, 1, 10);
            self.q.after(d, ev(sub, m));
            return;
        }
        if ch.chance(S_NET, self.f.loss, 100) {
            obs.count("fault.message_lost");
            return;
        }
        let mut d = 1 + ch.draw(S_NET, self.f.max_delay);
        if ch.chance(S_NET, self.f.reorder, 100) {
            obs.count("fault.message_delayed_past_others");
            d += ch.range(S_NET, 10, 300);
        }
        if ch.chance(S_NET, self.f.dup, 100) {
            obs.count("fault.message_duplicated");
            let d2 = d + ch.range(S_NET, 0, 200);
            self.q.after(d2, ev(sub, m.clone()));
        }
        self.q.after(d, ev(sub, m));
    }

    fn on_hello(&mut self, sub: usize, m: Msg, ch: &mut Choices, obs: &mut Obs) -> Result<(), Violation> {
        let Msg::Hello { rev, target, applied } = m else { return Ok(()) };
        let latest = self.docs.len() - 1;
        let to = target.unwrap_or(latest);
        if rev == to {
            if self.want(Want::Quiet) || ch.chance(S_ENV, 1, 8) {
                // nothing new: asking again must cost nothing
                self.compute(rev, rev, ch, obs)?;
            }
            return Ok(());
        }
        let s = self.script(rev, to, ch, obs)?;
        let start = applied.min(s.ops.len());
        let end = (start + self.window).min(s.ops.len());
        let ops = s.ops[start..end].to_vec();
        let fin = if end == s.ops.len() { Some(s.rename.clone()) } else { None };
        self.send(Ev::ToSub, sub, Msg::Ops { from: rev, to, start, ops, end: fin }, ch, obs);
        Ok(())
    }

    fn on_ops(&mut self, r: usize, m: Msg, ch: &mut Choices, obs: &mut Obs) -> Result<(), Violation> {
        let Msg::Ops { from, to, start, ops, end } = m else { return Ok(()) };
        let sub = &mut self.subs[r];
        if sub.stuck || sub.doc.rev != from || sub.target.is_some_and(|t| t != to) {
            obs.count("stale_message_ignored");
            return Ok(());
        }
        if start > sub.doc.applied {
            return Ok(());
        }
        if sub.target.is_none() {
            sub.target = Some(to);
            sub.disk.log.push(Rec::Begin(to));
        }
        let skip = sub.doc.applied - start;
        if skip > 0 {
            obs.count("duplicate_operations_skipped");
        }
        let total = start + ops.len();
        for op in ops.into_iter().skip(skip) {
            let before = self.subs[r].doc.applied;
            if let Err(e) = self.subs[r].doc.apply(&op) {
                let d = format!("subscriber {r}, rev {from} -> {to}, operation {before} {op:?}: {e}{}", self.describe(from, to));
                let d = format!("{d}\nscript: {:#?}", self.ledger.get(&(from, to)).map(|l| l.norm.clone()));
                self.subs[r].stuck = true;
                if self.want(Want::Prefix) {
                    return Err(viol(Want::Prefix, "inapplicable", d));
                }
                if self.want(Want::Converge) {
                    return Err(viol(Want::Converge, "inapplicable", d));
                }
                return Ok(());
            }
            obs.count("operations_applied");
            let sub = &mut self.subs[r];
            sub.disk.log.push(Rec::Op(op));
            // a crash can hit between any two operations
            if !self.healed && self.f.rcrash > 0 && ch.chance(S_FAULT, self.f.rcrash, 200) {
                obs.count("fault.crash_between_operations");
                self.crash_sub(r, ch, obs);
                return Ok(());
            }
        }
        let sub = &mut self.subs[r];
        if sub.doc.applied == total {
            if let Some(ren) = end {
                sub.doc.commit(to, &ren);
                sub.target = None;
                obs.count("scripts_completed");
                obs.log(|| format!("t={} sub{r} completed rev {from} -> {to}", self.q.now));
                if self.want(Want::Converge) {
                    obs.count("oracle.converged");
                    if self.docs[from].digest() != self.docs[to].digest() {
                        obs.nontrivial = true;
                    }
                    if let Err(e) = self.subs[r].doc.compare(&self.docs[to]) {
                        return Err(viol(Want::Converge, "differs", format!("subscriber {r} executed the whole script rev {from} -> {to} and does not have the new document: {e}{}\nscript: {:#?}", self.describe(from, to), self.ledger.get(&(from, to)).map(|l| l.norm.clone()))));
                    }
                } else if self.subs[r].doc.compare(&self.docs[to]).is_err() {
                    self.subs[r].stuck = true;
                    return Ok(());
                }
                if self.want(Want::Prefix) && self.docs[from].digest() != self.docs[to].digest() {
                    obs.nontrivial = true;
                }
                let sub = &mut self.subs[r];
                sub.disk.log.push(Rec::Commit(to, ren));
                sub.disk.synced = sub.disk.log.len();
                sub.doc.compact();
                if ch.chance(S_MISC, 1, 2) {
                    sub.disk.snap = sub.doc.clone();
                    sub.disk.log.clear();
                    sub.disk.synced = 0;
                } else {
                    // the journal is kept: recovery replays several scripts
                    let was = sub.doc.clone();
                    sub.recover();
                    sub.doc.compact();
                    if sub.doc != was {
                        return Err(Violation::new("harness:recovery", "journal replay differs from live state"));
                    }
                }
            }
        }
        let sub = &mut self.subs[r];
        if sub.up && ch.chance(S_MISC, 1, 2) {
            sub.disk.synced = sub.disk.log.len();
        }
        obs.state(mix(r as u64, self.subs[r].doc.digest()));
        let now = self.q.now;
        let latest = self.docs.len() - 1;
        let sub = &mut self.subs[r];
        if sub.doc.rev == latest && sub.target.is_none() && self.docs.len() == self.revs && sub.done_at.is_none() {
            sub.done_at = Some(now);
        }
        if self.healed {
            // do not wait for the tick: ask for more at once
            self.hello(r, ch, obs);
        }
        Ok(())
    }
    fn hello(&mut self, r: usize, ch: &mut Choices, obs: &mut Obs) {
        let s = &self.subs[r];
        if s.stuck {
            return;
        }
        let m = Msg::Hello { rev: s.doc.rev, target: s.target, applied: s.doc.applied };
        self.send(Ev::ToPub, r, m, ch, obs);
    }
    fn crash_sub(&mut self, r: usize, ch: &mut Choices, obs: &mut Obs) {
        let lose = self.f.lose_tail;
        let sub = &mut self.subs[r];
        if !sub.up {
            return;
        }
        sub.up = false;
        let un = sub.disk.log.len() - sub.disk.synced;
        if lose && un > 0 {
            // a part of the unsynced tail reached the disk; a torn last record is detected and dropped
            let keep = sub.disk.synced + ch.idx(S_FAULT, un + 1);
            if keep < sub.disk.log.len() {
                obs.count("fault.journal_tail_lost");
            }
            sub.disk.log.truncate(keep);
        }
        sub.disk.synced = sub.disk.log.len();
        sub.done_at = None;
        obs.log(|| format!("t={} sub{r} crash (journal {} records)", self.q.now, self.subs[r].disk.log.len()));
        let d = ch.range(S_FAULT, 5, 300);
        self.q.after(d, Ev::SubRestart(r));
    }

    fn author(&mut self, ch: &mut Choices, obs: &mut Obs) {
        let mut d = self.docs.last().unwrap().clone();
        let next = self.docs.iter().map(|d| d.next).max().unwrap();
        let mut what = vec![];
        match self.edit_mode {
            Edits::Any | Edits::Keyed | Edits::KeyedUnique => match ch.weighted(S_EDIT, &[70, 8, 8, 6]) {
                0 => {
                    let n = *ch.pick(S_EDIT, &[1u64, 1, 2, 4, 10]);
                    for _ in 0..n {
                        what.push(d.edit(ch, S_EDIT, &self.cfg, &[20, 20, 15, 15, 15, 5, 8, 6, 4]));
                    }
                    if self.s.max_size > 40 && d.nodes.len() < 300 && ch.chance(S_EDIT, 1, 4) {
                        what.push(d.flood(ch, S_EDIT, &self.cfg));
                    }
                }
                1 => what.push("republish".into()),
                2 => {
                    let k = ch.idx(S_EDIT, self.docs.len());
                    d = self.docs[k].clone();
                    what.push(format!("revert to rev {k}"));
                }
                _ => {
                    let h = d.hash_attrs;
                    d = Doc::generate_from(ch, S_EDIT, &self.cfg, next);
                    d.hash_attrs = h;
                    what.push("rewrite".into());
                }
            },
            Edits::Texts | Edits::TextsBesideOpaque => {
                let ts: Vec<u32> = d.preorder().into_iter().filter(|u| has_text(d.nodes[u].tag) && !d.inside_opaque(*u)).collect();
                let n = 1 + ch.idx(S_EDIT, ts.len().max(1));
                for _ in 0..n {
                    if ts.is_empty() {
                        break;
                    }
                    let u = *ch.pick(S_EDIT, &ts);
                    d.nodes.get_mut(&u).unwrap().text = self.texts_left;
                    self.texts_left += 1;
                    what.push(format!("text #{u}"));
                }
            }
            Edits::Attrs => {
                let es: Vec<u32> = d.elements().into_iter().filter(|u| !d.nodes[u].attrs.is_empty()).collect();
                for _ in 0..1 + ch.idx(S_EDIT, 4) {
                    if es.is_empty() {
                        break;
                    }
                    let u = *ch.pick(S_EDIT, &es);
                    let n = d.nodes.get_mut(&u).unwrap();
                    let i = ch.idx(S_EDIT, n.attrs.len());
                    n.attrs[i].1 = n.attrs[i].1.wrapping_add(1 + ch.draw(S_EDIT, 3) as u8);
                    what.push(format!("attr #{u}"));
                }
            }
            Edits::Append => {
                let es = d.elements();
                let u = *ch.pick(S_EDIT, &es);
                let k = d.nodes[&u].kids.len();
                let v = d.next;
                let el = ch.chance(S_EDIT, 1, 2);
                d.next += 1;
                d.nodes.insert(v, DNode { tag: if el { 40 } else { TEXT }, attrs: vec![], text: if el { 0 } else { self.texts_left }, opaque: false, kids: vec![], parent: None });
                d.attach(u, k, v);
                self.texts_left += 1;
                if el {
                    let w = d.next;
                    d.next += 1;
                    d.nodes.insert(w, DNode { tag: TEXT, attrs: vec![], text: self.texts_left, opaque: false, kids: vec![], parent: None });
                    d.attach(v, 0, w);
                    self.texts_left += 1;
                }
                what.push(format!("append #{v} to #{u}"));
            }
            Edits::RemoveLast => {
                let es: Vec<u32> = d.elements().into_iter().filter(|u| d.nodes[u].kids.len() > 1).collect();
                if !es.is_empty() {
                    let u = *ch.pick(S_EDIT, &es);
                    let k = *d.nodes[&u].kids.last().unwrap();
                    d.remove(k);
                    what.push(format!("remove last child of #{u}"));
                }
            }
            Edits::Swap => {
                let es: Vec<u32> = d.elements().into_iter().filter(|u| d.nodes[u].kids.len() > 1).collect();
                if !es.is_empty() {
                    let u = *ch.pick(S_EDIT, &es);
                    let n = d.nodes.get_mut(&u).unwrap();
                    let i = ch.idx(S_EDIT, n.kids.len() - 1);
                    n.kids.swap(i, i + 1);
                    what.push(format!("swap children {i},{} of #{u}", i + 1));
                }
            }
            Edits::OpaqueOnly => {
                let ins: Vec<u32> = d.preorder().into_iter().filter(|u| d.inside_opaque(*u)).collect();
                for _ in 0..1 + ch.idx(S_EDIT, 3) {
                    if ins.is_empty() {
                        break;
                    }
                    let u = *ch.pick(S_EDIT, &ins);
                    if !d.nodes.contains_key(&u) {
                        continue;
                    }
                    if d.nodes[&u].tag < FIRST_EL {
                        d.nodes.get_mut(&u).unwrap().text = self.texts_left;
                        self.texts_left += 1;
                    } else if ch.chance(S_EDIT, 1, 2) {
                        let k = d.nodes[&u].kids.len();
                        let f = d.fresh(ch, S_EDIT, &self.cfg);
                        if d.nodes[&f].tag < FIRST_EL {
                            d.nodes.get_mut(&f).unwrap().text = self.texts_left;
                            self.texts_left += 1;
                        }
                        d.attach(u, k, f);
                    } else {
                        d.remove(u);
                    }
                    d.make_unique_missing(&mut self.texts_left);
                    what.push(format!("inside opaque #{u}"));
                }
            }
        }
        if matches!(self.edit_mode, Edits::Keyed | Edits::KeyedUnique) {
            d.key();
        }
        if self.edit_mode == Edits::KeyedUnique {
            d.unique_texts(&mut self.texts_left);
        }
        d.next = d.next.max(next);
        obs.log(|| format!("t={} author rev {}: {}", self.q.now, self.docs.len(), what.join(", ")));
        self.docs.push(d);
        for s in &mut self.subs {
            s.done_at = None;
        }
    }

    fn run(&mut self, ch: &mut Choices, obs: &mut Obs) -> Result<(), Violation> {
        let mut t = 0;
        for _ in 1..self.revs {
            t += 1 + ch.draw(S_EDIT, *ch_pick(&[30, 200, 600], self.salt));
            self.q.after(t, Ev::Author);
        }
        let end = t + ch.range(S_CFG, 20, 600);
        self.q.after(end, Ev::EndFaults);
        for r in 0..self.subs.len() {
            let d = ch.draw(S_NET, 25);
            self.q.after(d, Ev::HelloTick(r));
        }
        if self.s.faults {
            for _ in 0..self.f.partitions {
                let r = ch.idx(S_FAULT, self.subs.len());
                let at = ch.draw(S_FAULT, end);
                self.q.after(at, Ev::Cut(r));
                let d = at + ch.range(S_FAULT, 10, 400);
                self.q.after(d, Ev::Mend(r));
            }
            for _ in 0..self.f.rcrash {
                let r = ch.idx(S_FAULT, self.subs.len());
                let at = ch.draw(S_FAULT, end);
                self.q.after(at, Ev::SubCrash(r));
            }
            for _ in 0..self.f.pcrash {
                let at = ch.draw(S_FAULT, end);
                self.q.after(at, Ev::PubCrash);
            }
            for _ in 0..self.f.stall {
                let r = ch.idx(S_FAULT, self.subs.len());
                let at = ch.draw(S_FAULT, end);
                self.q.after(at, Ev::Stall(r));
            }
        }
        let mut heal_at = 0;
        let mut deadline = u64::MAX;
        let mut events = 0u64;
        while let Some(ev) = self.q.pop() {
            events += 1;
            if events > 60_000 {
                return Err(viol(Want::Converge, "liveness", "60000 events without convergence".into()));
            }
            obs.sched(ev_digest(&ev));
            let now = self.q.now;
            match ev {
                Ev::Author => self.author(ch, obs),
                Ev::HelloTick(r) => {
                    let all = self.healed && self.subs.iter().all(|s| s.done_at.is_some() || s.stuck);
                    if !all {
                        self.q.after(25, Ev::HelloTick(r));
                    }
                    if self.subs[r].up && self.subs[r].stalled_until <= now {
                        self.hello(r, ch, obs);
                    }
                }
                Ev::ToPub(r, m) => {
                    if self.p.up {
                        self.on_hello(r, m, ch, obs)?;
                    }
                }
                Ev::ToSub(r, m) => {
                    let s = &self.subs[r];
                    if s.up && s.stalled_until > now && !self.healed {
                        // a slow node: the message waits in its queue
                        obs.count("fault.slow_node_message");
                        let d = s.stalled_until - now;
                        self.q.after(d, Ev::ToSub(r, m));
                    } else if s.up {
                        self.on_ops(r, m, ch, obs)?;
                    }
                }
                Ev::SubCrash(r) => {
                    if !self.healed && self.subs[r].up {
                        obs.count("fault.subscriber_crash");
                        self.crash_sub(r, ch, obs);
                    }
                }
                Ev::SubRestart(r) => {
                    let s = &mut self.subs[r];
                    if !s.up {
                        s.up = true;
                        s.recover();
                        if s.target.is_some() && s.doc.applied > 0 {
                            obs.count("fault.restart_in_the_middle_of_a_script");
                        }
                        obs.log(|| format!("t={now} sub{r} restart at rev {} +{}", self.subs[r].doc.rev, self.subs[r].doc.applied));
                        let (rev, target) = (self.subs[r].doc.rev, self.subs[r].target);
                        if rev + 1 == self.docs.len() && target.is_none() && self.docs.len() == self.revs {
                            self.subs[r].done_at = Some(now);
                        }
                    }
                }
                Ev::PubCrash => {
                    if !self.healed && self.p.up {
                        obs.count("fault.publisher_crash");
                        obs.log(|| format!("t={now} publisher crash"));
                        self.p = Publisher { up: false, incarnation: self.p.incarnation + 1, ..Default::default() };
                        let d = ch.range(S_FAULT, 5, 150);
                        self.q.after(d, Ev::PubRestart);
                    }
                }
                Ev::PubRestart => self.p.up = true,
                Ev::Cut(r) => {
                    if !self.healed {
                        obs.count("fault.partition");
                        self.subs[r].cut = true;
                    }
                }
                Ev::Mend(r) => self.subs[r].cut = false,
                Ev::Stall(r) => {
                    if !self.healed {
                        obs.count("fault.slow_node");
                        self.subs[r].stalled_until = now + ch.range(S_FAULT, 20, 300);
                    }
                }
                Ev::EndFaults => {
                    heal_at = now;
                    self.healed = true;
                    self.p.up = true;
                    let latest = self.docs.len() - 1;
                    let mut rounds = 0;
                    for r in 0..self.subs.len() {
                        let s = &mut self.subs[r];
                        s.cut = false;
                        s.stalled_until = 0;
                        if !s.up {
                            s.up = true;
                            s.recover();
                        }
                        if s.doc.rev == latest && s.target.is_none() {
                            s.done_at = Some(now);
                        }
                        s.at_heal = (s.doc.rev, s.target, s.doc.applied);
                        let (rev, target) = (s.doc.rev, s.target);
                        let mut need = 0;
                        let mut at = rev;
                        if let Some(t) = target {
                            need += self.script(rev, t, ch, obs)?.ops.len() / self.window + 1;
                            at = t;
                        }
                        if at != latest {
                            need += self.script(at, latest, ch, obs)?.ops.len() / self.window + 1;
                        }
                        rounds = rounds.max(need);
                    }
                    deadline = now + 60 * (rounds as u64 + 6);
                    obs.log(|| format!("t={now} faults stop; every subscriber must have rev {latest} by t={deadline}"));
                }
            }
            if self.healed {
                if self.subs.iter().all(|s| s.done_at.is_some() || s.stuck) {
                    break;
                }
                if self.q.now > deadline {
                    if self.want(Want::Converge) {
                        return Err(viol(Want::Converge, "liveness", format!("faults stopped at t={heal_at}; at t={} some subscriber still does not have the last revision", self.q.now)));
                    }
                    break;
                }
            }
        }
        obs.sim_time = self.q.now;
        // Steady state: what every subscriber has is what the author has; asking once more is free.
        if self.want(Want::Quiet) {
            let latest = self.docs.len() - 1;
            self.compute(latest, latest, ch, obs)?;
        }
        if self.want(Want::Deterministic) {
            let keys: Vec<(usize, usize)> = self.ledger.keys().copied().collect();
            for (f, t) in keys.into_iter().take(6) {
                self.compute(f, t, ch, obs)?;
            }
        }
        if self.diffs > 0 && !matches!(self.s.want, Want::Converge | Want::Prefix | Want::Quiet | Want::Deterministic | Want::Identity) {
            obs.nontrivial = true;
        }
        Ok(())
    }
}
fn ch_pick<'a>(xs: &'a [u64], salt: u64) -> &'a u64 {
    &xs[(salt % xs.len() as u64) as usize]
}
fn ev_digest(e: &Ev) -> u64 {
    match e {
        Ev::Author => 1,
        Ev::HelloTick(r) => 2 + 16 * *r as u64,
        Ev::ToPub(r, Msg::Hello { rev, target, applied }) => 3 + 16 * *r as u64 + ((*rev as u64) << 12) + ((target.map(|t| t as u64 + 1).unwrap_or(0)) << 20) + ((*applied as u64) << 28),
        Ev::ToSub(r, Msg::Ops { from, to, start, .. }) => 4 + 16 * *r as u64 + ((*from as u64) << 12) + ((*to as u64) << 20) + ((*start as u64) << 28),
        Ev::SubCrash(r) => 5 + 16 * *r as u64,
        Ev::SubRestart(r) => 6 + 16 * *r as u64,
        Ev::PubCrash => 7,
        Ev::PubRestart => 8,
        Ev::Cut(r) => 9 + 16 * *r as u64,
        Ev::Mend(r) => 10 + 16 * *r as u64,
        Ev::Stall(r) => 11 + 16 * *r as u64,
        _ => 15,
    }
}

impl Scenario for Session {
    fn name(&self) -> &'static str {
        self.name
    }
    fn run(&self, ch: &mut Choices, obs: &mut Obs) -> Result<(), Violation> {
        let hs = ch.draw(S_ENV, u64::MAX);
        simcore::hashseed::set_thread_seed(hs);
        let edit_mode = *ch.pick(S_CFG, self.edits);
        let mut cfg = DocCfg::draw(ch, self.max_size);
        if self.force_opaque || matches!(edit_mode, Edits::OpaqueOnly | Edits::TextsBesideOpaque) {
            cfg.p_opaque = *ch.pick(S_CFG, &[25u64, 10, 50]);
        }
        let keyed = matches!(edit_mode, Edits::Keyed | Edits::KeyedUnique);
        let unique = !matches!(edit_mode, Edits::Any | Edits::Keyed);
        if unique && !keyed && !matches!(edit_mode, Edits::OpaqueOnly | Edits::TextsBesideOpaque) {
            cfg.p_opaque = 0;
            if edit_mode == Edits::Attrs {
                cfg.attr_keys = cfg.attr_keys.max(1);
            }
        }
        let mc = MatchingConfig {
            similarity_threshold: if matches!(edit_mode, Edits::RemoveLast | Edits::Swap) { 0.5 } else { *ch.pick(S_CFG, &[0.5, 0.5, 0.5, 0.3, 0.8, 0.0, 1.0]) },
            min_height: match edit_mode {
                // what the stack itself uses; larger values leave small opaque nodes to guesswork
                Edits::OpaqueOnly | Edits::TextsBesideOpaque | Edits::Swap => 0,
                Edits::RemoveLast => 1,
                _ => *ch.pick(S_CFG, &[1usize, 0, 1, 2, 3, 6]),
            },
        };
        // what the caller does not set is left to the library
        let mc = match (mc.similarity_threshold, mc.min_height) {
            (0.5, 1) => MatchingConfig::default(),
            (0.5, min_height) => MatchingConfig { min_height, ..MatchingConfig::default() },
            _ => mc,
        };
        let f = if self.faults { FaultCfg::draw(ch) } else { FaultCfg::none() };
        let nsubs = if self.faults { ch.range(S_CFG, 1, 3) as usize } else { 1 };
        let revs = ch.range(S_CFG, 2, 8) as usize;
        let window = *ch.pick(S_CFG, if self.max_size > 40 { &[64usize, 400, 16, 7] } else { &[64usize, 8, 2, 1] });
        let salt = ch.draw(S_CFG, 1 << 30);
        let mut d0 = Doc::generate(ch, S_DOC, &cfg);
        d0.hash_attrs = ch.chance(S_CFG, 1, 2);
        let mut texts_left = 2000;
        if unique {
            d0.make_unique(&mut texts_left);
        }
        if keyed {
            d0.key();
        }
        obs.log(|| format!("edits={edit_mode:?} {} threshold={} min_height={} hash_attrs={} subs={nsubs} revs={revs} window={window} faults={f:?}", cfg.describe(), mc.similarity_threshold, mc.min_height, d0.hash_attrs));
        obs.log(|| format!("rev 0: {}", d0.show(0, true)));
        let doc = Replica::of(&d0, 0);
        let subs = (0..nsubs)
            .map(|_| Sub {
                up: true,
                cut: false,
                stalled_until: 0,
                doc: doc.clone(),
                target: None,
                disk: Disk { snap: doc.clone(), log: vec![], synced: 0 },
                stuck: false,
                done_at: None,
                at_heal: (0, None, 0),
            })
            .collect();
        let mut sim = Sim { s: self, f, mc, salt, docs: vec![d0], cfg, edit_mode, texts_left, p: Publisher { up: true, ..Default::default() }, subs, q: EventQueue::default(), ledger: BTreeMap::new(), healed: false, window, diffs: 0, revs };
        let r = sim.run(ch, obs);
        obs.sim_time = sim.q.now;
        obs.sample = Some(format!("{nsubs} subscribers, {revs} revisions ({edit_mode:?}), {} diffs, {} ms simulated, faults {:?}", sim.diffs, sim.q.now, sim.f));
        match r {
            // a different property's failure ends the run without a verdict on this one
            Err(v) if !mine(self.want, &v) => {
                obs.count("run_cut_short_by_another_property");
                Ok(())
            }
            r => r,
        }
    }
}
fn mine(w: Want, v: &Violation) -> bool {
    let c = v.class.split(':').next().unwrap_or("");
    c == w.class() || c == "harness" || (c == "panic" && matches!(w, Want::Converge | Want::Work | Want::Inputs | Want::Deterministic))
}

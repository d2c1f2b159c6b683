//! Seeded exploration: many independent simulated runs, minimisation, replay files, evidence.
use crate::choices::{Choices, Tape, STREAM_NAMES};
use crate::json::Json;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Violation {
    /// Short stable signature: same class = same kind of failure (used by the minimiser).
    pub class: String,
    pub detail: String,
}
impl Violation {
    pub fn new(class: impl Into<String>, detail: impl Into<String>) -> Violation {
        Violation { class: class.into(), detail: detail.into() }
    }
}

/// What one run observed. Logging never draws decisions.
#[derive(Default)]
pub struct Obs {
    pub trace_on: bool,
    /// print the trace as it comes, for runs that bring down the process
    pub live: bool,
    pub trace: Vec<String>,
    /// counted events: fault kinds that fired, oracle evaluations, rare conditions reached
    pub counts: BTreeMap<&'static str, u64>,
    pub sim_time: u64,
    /// digest of the schedule of this run (which interleaving / fault sequence it was)
    pub schedule: u64,
    /// digests of the states reached
    pub states: Vec<u64>,
    /// did the run exercise the property (rather than trivially pass)?
    pub nontrivial: bool,
    pub sample: Option<String>,
}
impl Obs {
    pub fn count(&mut self, k: &'static str) {
        *self.counts.entry(k).or_insert(0) += 1;
    }
    pub fn add(&mut self, k: &'static str, n: u64) {
        if n == 0 {
            return;
        }
        *self.counts.entry(k).or_insert(0) += n;
    }
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if self.trace_on {
            let s = f();
            if self.live {
                println!("| {s}");
            } else {
                self.trace.push(s);
            }
        }
    }
    pub fn sched(&mut self, v: u64) {
        self.schedule = crate::mix(self.schedule, v);
    }
    pub fn state(&mut self, v: u64) {
        if self.states.len() < 4096 {
            self.states.push(v);
        }
    }
}

pub trait Scenario: Sync + Send {
    fn name(&self) -> &'static str;
    fn run(&self, ch: &mut Choices, obs: &mut Obs) -> Result<(), Violation>;
}

pub struct CheckSpec {
    pub property: &'static str,
    pub scenarios: Vec<(Box<dyn Scenario>, u64)>, // (scenario, number of runs in the quick tier)
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub real: Vec<&'static str>,
    pub stub: Vec<&'static str>,
    pub thorough_factor: u64,
}

pub fn run_once(sc: &dyn Scenario, ch: &mut Choices, obs: &mut Obs) -> Result<(), Violation> {
    let r = catch_unwind(AssertUnwindSafe(|| sc.run(ch, obs)));
    match r {
        Ok(r) => r,
        Err(p) => {
            let msg = panic_text(&p);
            Err(Violation::new(format!("panic:{}", panic_class(&msg)), format!("panic: {msg}")))
        }
    }
}
pub fn panic_text(p: &Box<dyn std::any::Any + Send>) -> String {
    let m = p
        .downcast_ref::<&str>()
        .map(|s| s.to_string())
        .or_else(|| p.downcast_ref::<String>().cloned())
        .unwrap_or_else(|| "<non-string panic>".into());
    let loc = LAST_PANIC.with(|l| l.borrow().clone());
    format!("{m} [{loc}]")
}
fn panic_class(m: &str) -> String {
    // digits out, so that sizes and indices do not split classes
    m.chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).take(80).collect()
}
thread_local! {
    pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file().rsplit('/').next().unwrap_or(""), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|l| *l.borrow_mut() = loc);
    }));
}

pub fn seed_of(base: u64, scenario: &str, i: u64) -> u64 {
    crate::mix(crate::mix(base, crate::fnv(scenario.as_bytes())), i)
}

/// Run on a thread of its own: fresh thread-locals (hash keys, caches), generous stack.
pub fn isolated<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(s, f)
            .expect("spawn")
            .join()
            .expect("run thread")
    })
}

struct Found {
    idx: u64,
    seed: u64,
    v: Violation,
    tape: Tape,
}
#[derive(Default)]
struct Agg {
    runs: u64,
    counts: BTreeMap<&'static str, u64>,
    counted_in: BTreeMap<&'static str, u64>,
    sim_time: u128,
    nontrivial: u64,
    schedules: HashSet<u64>,
    states: HashSet<u64>,
    samples: Vec<String>,
    decisions: u64,
}

pub struct Ctx {
    pub verif: String,
    pub tier: String,
    pub seed: u64,
    pub workers: usize,
    pub time_cap: Duration,
    pub scale: f64,
    /// how long a failing run may be minimised
    pub min_cap: Duration,
    pub world: &'static str,
}
impl Ctx {
    pub fn from_env(world: &'static str) -> Ctx {
        let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
        let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
        let tier = if tier == "thorough" { "thorough".to_string() } else { "quick".to_string() };
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let workers = std::env::var("VERIF_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 8));
        let cap = std::env::var("VERIF_CAP_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "quick" { 300 } else { 7200 });
        let scale = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
        let min = std::env::var("VERIF_MINIMISE_S").ok().and_then(|s| s.parse().ok()).unwrap_or(30);
        Ctx { verif, tier, seed, workers, time_cap: Duration::from_secs(cap), scale, min_cap: Duration::from_secs(min), world }
    }
}

fn tape_json(t: &Tape) -> Json {
    let mut o = Json::obj();
    for (i, s) in t.s.iter().enumerate() {
        o = o.set(STREAM_NAMES[i], s.clone());
    }
    o
}
pub fn tape_from(j: &Json) -> Tape {
    let mut t = Tape::empty();
    for (i, n) in STREAM_NAMES.iter().enumerate() {
        if let Some(a) = j.get(n).and_then(|x| x.as_arr()) {
            t.s[i] = a.iter().map(|x| x.as_u64().unwrap_or(0)).collect();
        }
    }
    t
}

/// Replays a tape on a fresh thread; returns the violation, the trace and the canonical tape.
pub fn replay_tape(sc: &dyn Scenario, tape: &Tape, trace: bool) -> (Option<Violation>, Vec<String>, Tape) {
    isolated(|| {
        let mut ch = Choices::replay(tape.clone());
        let mut obs = Obs { trace_on: trace, ..Default::default() };
        let r = run_once(sc, &mut ch, &mut obs);
        (r.err(), obs.trace, ch.recorded())
    })
}

/// Greedy tape reduction preserving the violation class.
pub fn minimise(sc: &dyn Scenario, tape: Tape, class: &str, budget: Duration) -> (Tape, u64) {
    minimise_by(tape, budget, |t| {
        let (v, _, canon) = replay_tape(sc, t, false);
        match v {
            Some(v) if v.class == class => Some(if canon.weight() <= t.weight() { canon } else { t.clone() }),
            _ => None,
        }
    })
}
/// `still` says whether a tape still fails, and in which canonical form.
fn minimise_by(tape: Tape, budget: Duration, still: impl Fn(&Tape) -> Option<Tape>) -> (Tape, u64) {
    let start = Instant::now();
    let mut best = tape;
    let mut tries = 0u64;
    let test = |t: &Tape, tries: &mut u64| -> Option<Tape> {
        *tries += 1;
        still(t)
    };
    loop {
        let before = best.weight();
        for s in 0..best.s.len() {
            // whole stream gone?
            if !best.s[s].is_empty() {
                let mut t = best.clone();
                t.s[s].clear();
                if let Some(t) = test(&t, &mut tries) {
                    best = t;
                    continue;
                }
            }
            let mut size = best.s[s].len().next_power_of_two().max(1);
            while size >= 1 {
                let mut i = 0;
                while i < best.s[s].len() {
                    if start.elapsed() > budget {
                        return (best, tries);
                    }
                    let end = (i + size).min(best.s[s].len());
                    let mut t = best.clone();
                    t.s[s].drain(i..end);
                    if let Some(t2) = test(&t, &mut tries) {
                        if t2.weight() < best.weight() {
                            best = t2;
                            continue;
                        }
                    }
                    if best.s[s][i..end].iter().any(|&v| v != 0) {
                        let mut t = best.clone();
                        for v in &mut t.s[s][i..end] {
                            *v = 0;
                        }
                        if let Some(t2) = test(&t, &mut tries) {
                            if t2.weight() < best.weight() {
                                best = t2;
                            }
                        }
                    }
                    i += size;
                }
                if size == 1 {
                    break;
                }
                size /= 2;
            }
            // lower single values
            let mut i = 0;
            while i < best.s[s].len() {
                let v = best.s[s][i];
                for cand in [1u64, v / 2, v.saturating_sub(1)] {
                    if start.elapsed() > budget {
                        return (best, tries);
                    }
                    if i < best.s[s].len() && cand < best.s[s][i] {
                        let mut t = best.clone();
                        t.s[s][i] = cand;
                        if let Some(t2) = test(&t, &mut tries) {
                            if t2.weight() < best.weight() {
                                best = t2;
                                break;
                            }
                        }
                    }
                }
                i += 1;
            }
        }
        if best.weight() >= before {
            return (best, tries);
        }
    }
}

pub struct KnownFinding {
    pub property: String,
    pub scenario: String,
    pub class: String,
    pub tape: Tape,
    pub what: String,
}
pub fn known_findings(ctx: &Ctx) -> Vec<KnownFinding> {
    let p = format!("{}/known-findings.json", ctx.verif);
    let Ok(s) = std::fs::read_to_string(&p) else { return vec![] };
    let j = match Json::parse(&s) {
        Ok(j) => j,
        Err(e) => {
            eprintln!("harness error: {p}: {e}");
            std::process::exit(3);
        }
    };
    let mut out = vec![];
    for f in j.get("findings").and_then(|x| x.as_arr()).unwrap_or(&[]) {
        let g = |k: &str| f.get(k).and_then(|x| x.as_str()).unwrap_or("").to_string();
        out.push(KnownFinding { property: g("property"), scenario: g("scenario"), class: g("class"), what: g("what"), tape: f.get("tape").map(tape_from).unwrap_or_else(Tape::empty) });
    }
    out
}

fn write_file(path: &str, s: &str) {
    if let Some(d) = std::path::Path::new(path).parent() {
        let _ = std::fs::create_dir_all(d);
    }
    if let Err(e) = std::fs::write(path, s) {
        eprintln!("harness error: cannot write {path}: {e}");
        std::process::exit(3);
    }
}

/// A run that stops making steps (an endless loop in the code under test) is reported from here,
/// because no in-run budget can interrupt it.
struct Watch {
    slots: Vec<Mutex<Option<Begun>>>,
}
#[derive(Clone, Copy)]
struct Begun {
    at: Instant,
    seed: u64,
    /// CPU clock of the thread of the run, once it has one
    clock: Option<i32>,
}
/// A run may burn this much CPU time on its own thread, or take that long by the clock on the wall
/// (its helper threads included). Machine load does not count against it.
const RUN_CPU: Duration = Duration::from_secs(60);
const RUN_WALL: Duration = Duration::from_secs(300);

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}
extern "C" {
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(thread: usize, clock: *mut i32) -> i32;
    fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
}
fn own_clock() -> Option<i32> {
    let mut c = 0;
    // SAFETY: asks for the clock of the calling thread, which exists
    (unsafe { pthread_getcpuclockid(pthread_self(), &mut c) } == 0).then_some(c)
}
/// CPU time spent by a thread; None once it is gone.
fn spent(clock: i32) -> Option<Duration> {
    let mut t = Timespec { sec: 0, nsec: 0 };
    // SAFETY: an invalid clock makes it fail, nothing else
    (unsafe { clock_gettime(clock, &mut t) } == 0).then(|| Duration::new(t.sec as u64, t.nsec as u32))
}
impl Begun {
    fn hangs(&self) -> bool {
        let wall = self.at.elapsed();
        wall > RUN_WALL || wall > RUN_CPU && self.clock.and_then(spent).is_some_and(|c| c > RUN_CPU)
    }
}

/// Where each worker notes the run it is about to begin, for whoever finds the process dead.
struct Diary(Option<std::fs::File>);
const LINE: usize = 128;
impl Diary {
    fn note(&self, worker: usize, scenario: &str, seed: u64) {
        use std::os::unix::fs::FileExt;
        if let Some(f) = &self.0 {
            let mut l = format!("{scenario} {seed}");
            l.push_str(&" ".repeat(LINE.saturating_sub(l.len() + 1)));
            l.push('\n');
            let _ = f.write_at(l.as_bytes(), (worker * LINE) as u64);
        }
    }
}
const DIARY: &str = "VERIF_DIARY";
const TAPE_LOG: &str = "VERIF_TAPE_LOG";
const DEATH: &str = "process-death";

/// Runs the check in a process of its own. Code that brings the whole process down (a stack overflow,
/// an abort) is a violation too: the run that did it is found among those under way, by repeating
/// each in a process of its own.
pub fn supervised(property: &str, ctx: &Ctx, f: impl FnOnce() -> i32) -> i32 {
    use std::process::Command;
    if std::env::var_os(DIARY).is_some() {
        return f();
    }
    let Ok(exe) = std::env::current_exe() else { return f() };
    let diary = format!("{}/out/diary-{property}-{}", ctx.verif, std::process::id());
    write_file(&diary, "");
    let st = Command::new(&exe).args(std::env::args().skip(1)).env(DIARY, &diary).status();
    let text = std::fs::read_to_string(&diary).unwrap_or_default();
    let _ = std::fs::remove_file(&diary);
    match st {
        Ok(st) if st.code().is_some() => return st.code().unwrap(),
        Ok(st) => eprintln!("the process died: {st}"),
        Err(e) => {
            eprintln!("harness error: {e}");
            return 3;
        }
    }
    for l in text.lines() {
        let mut w = l.split_whitespace();
        let (Some(name), Some(seed)) = (w.next(), w.next()) else { continue };
        let path = format!("{}/out/replays/{property}-{name}-{:016x}.json", ctx.verif, seed.parse::<u64>().unwrap_or(0));
        let tape_log = format!("{diary}-tape");
        let file = |tape: Option<&Tape>| {
            let j = Json::obj().set("property", property).set("world", ctx.world).set("scenario", name).set("class", DEATH).set("seed", seed).set("detail", "the run brings down the whole process");
            match tape {
                Some(t) => j.set("tape", tape_json(t)),
                None => j,
            }
            .dump()
        };
        let dies = |at: &str, quiet: bool| {
            let mut c = Command::new(&exe);
            c.arg("replay").arg(at).env(DIARY, "").stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
            if !quiet {
                c.env(TAPE_LOG, &tape_log);
            }
            c.status().is_ok_and(|st| st.code().is_none())
        };
        write_file(&path, &file(None));
        if dies(&path, false) {
            let whole = Choices::tape_of(&std::fs::read(&tape_log).unwrap_or_default());
            let cand = format!("{diary}-candidate.json");
            let still = |t: &Tape| {
                write_file(&cand, &file(Some(t)));
                dies(&cand, true).then(|| t.clone())
            };
            if still(&whole).is_some() {
                let (tape, tries) = minimise_by(whole.clone(), Duration::from_secs(25), still);
                write_file(&path, &file(Some(&tape)));
                println!("minimised {} -> {} decisions in {tries} replays", whole.len(), tape.len());
            }
            let _ = std::fs::remove_file(&cand);
            let _ = std::fs::remove_file(&tape_log);
            println!("VIOLATION property={property} replay={path}");
            println!("  class={DEATH} scenario={name} run_seed={seed}: the run brings down the whole process");
            return 1;
        }
        let _ = std::fs::remove_file(&tape_log);
        let _ = std::fs::remove_file(&path);
    }
    eprintln!("harness error: no run under way brings the process down again");
    3
}

pub fn check(spec: CheckSpec, ctx: &Ctx) -> i32 {
    let diary = Diary(std::env::var(DIARY).ok().and_then(|p| std::fs::OpenOptions::new().write(true).open(p).ok()));
    let t0 = Instant::now();
    println!("seed={} tier={} property={} workers={}", ctx.seed, ctx.tier, spec.property, ctx.workers);
    let known: Vec<KnownFinding> = known_findings(ctx).into_iter().filter(|k| k.property == spec.property).collect();
    let mut status = 0;
    let mut known_json = vec![];
    for k in &known {
        let Some((sc, _)) = spec.scenarios.iter().find(|(s, _)| s.name() == k.scenario) else { continue };
        let (v, _, _) = replay_tape(sc.as_ref(), &k.tape, false);
        let still = v.as_ref().is_some_and(|v| v.class == k.class);
        if still {
            println!("KNOWN-FINDING: property={} {}", spec.property, k.what);
        }
        known_json.push(Json::obj().set("what", k.what.as_str()).set("class", k.class.as_str()).set("still_fails", still));
    }
    let mut agg = Agg::default();
    let mut per_scenario = vec![];
    let mut found: Option<(usize, Found)> = None;
    let mut n_viol = 0u64;
    let mut capped = false;
    for (si, (sc, quick_n)) in spec.scenarios.iter().enumerate() {
        let n = ((*quick_n as f64) * ctx.scale * if ctx.tier == "thorough" { spec.thorough_factor as f64 } else { 1.0 }) as u64;
        let n = n.max(1);
        let st = Instant::now();
        let sc: &dyn Scenario = sc.as_ref();
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let first: Mutex<Option<Found>> = Mutex::new(None);
        let shared = Mutex::new(Agg::default());
        let watch = Arc::new(Watch { slots: (0..ctx.workers).map(|_| Mutex::new(None)).collect() });
        let done = Arc::new(AtomicBool::new(false));
        {
            let (watch, done) = (watch.clone(), done.clone());
            let (property, name, verif, tier, seed) = (spec.property, sc.name(), ctx.verif.clone(), ctx.tier.clone(), ctx.seed);
            std::thread::spawn(move || {
                while !done.load(Ordering::Relaxed) {
                    std::thread::sleep(Duration::from_millis(200));
                    for s in &watch.slots {
                        if let Some(b) = *s.lock().unwrap() {
                            let sd = b.seed;
                            if b.hangs() && !done.load(Ordering::Relaxed) {
                                let path = format!("{verif}/out/replays/{property}-{name}-{sd:016x}.json");
                                write_file(&path, &Json::obj().set("property", property).set("scenario", name).set("class", "no-progress").set("seed", format!("{sd}")).set("tier", tier.as_str()).set("detail", "the run does not end (60 s of CPU time, or 300 s in all)").dump());
                                println!("VIOLATION property={property} replay={path}");
                                println!("  class=no-progress scenario={name} base_seed={seed} run_seed={sd}");
                                std::process::exit(1);
                            }
                        }
                    }
                }
            });
        }
        std::thread::scope(|s| {
            for w in 0..ctx.workers {
                let (next, stop, first, shared, watch, diary) = (&next, &stop, &first, &shared, watch.clone(), &diary);
                let known = &known;
                let _ = known;
                s.spawn(move || {
                    let mut local = Agg::default();
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= n || stop.load(Ordering::SeqCst) {
                            break;
                        }
                        if t0.elapsed() > ctx.time_cap {
                            stop.store(true, Ordering::SeqCst);
                            break;
                        }
                        let seed = seed_of(ctx.seed, sc.name(), i);
                        let mut begun = Begun { at: Instant::now(), seed, clock: None };
                        *watch.slots[w].lock().unwrap() = Some(begun);
                        diary.note(w, sc.name(), seed);
                        let (r, obs, ch) = isolated(|| {
                            begun.clock = own_clock();
                            *watch.slots[w].lock().unwrap() = Some(begun);
                            let mut ch = Choices::record(seed);
                            let mut obs = Obs::default();
                            let r = run_once(sc, &mut ch, &mut obs);
                            (r, obs, ch)
                        });
                        *watch.slots[w].lock().unwrap() = None;
                        local.runs += 1;
                        local.decisions += ch.decisions() as u64;
                        local.sim_time += obs.sim_time as u128;
                        for (k, v) in &obs.counts {
                            *local.counts.entry(k).or_insert(0) += v;
                            *local.counted_in.entry(k).or_insert(0) += 1;
                        }
                        if obs.nontrivial && local.schedules.insert(obs.schedule) {
                            local.nontrivial += 1;
                        }
                        local.states.extend(obs.states.iter());
                        if local.samples.len() < 2 {
                            if let Some(s) = obs.sample {
                                local.samples.push(format!("run_seed={seed:#x}: {s}"));
                            }
                        }
                        if let Err(v) = r {
                            let mut f = first.lock().unwrap();
                            if f.as_ref().is_none_or(|x| i < x.idx) {
                                *f = Some(Found { idx: i, seed, v, tape: ch.recorded() });
                            }
                            // finish the runs already handed out, so the smallest index wins
                            next.fetch_max(n, Ordering::SeqCst);
                        }
                    }
                    let mut g = shared.lock().unwrap();
                    g.runs += local.runs;
                    g.decisions += local.decisions;
                    g.sim_time += local.sim_time;
                    for (k, v) in local.counts {
                        *g.counts.entry(k).or_insert(0) += v;
                    }
                    for (k, v) in local.counted_in {
                        *g.counted_in.entry(k).or_insert(0) += v;
                    }
                    g.schedules.extend(local.schedules);
                    g.states.extend(local.states);
                    g.samples.extend(local.samples);
                });
            }
        });
        done.store(true, Ordering::SeqCst);
        if stop.load(Ordering::SeqCst) {
            capped = true;
        }
        let g = shared.into_inner().unwrap();
        let el = st.elapsed().as_secs_f64().max(1e-6);
        per_scenario.push(
            Json::obj()
                .set("scenario", sc.name())
                .set("runs", g.runs)
                .set("runs_planned", n)
                .set("wall_s", el)
                .set("runs_per_hour", (g.runs as f64 / el * 3600.0) as u64)
                .set("simulated_ms", g.sim_time as u64)
                .set("distinct_nontrivial_schedules", g.schedules.len())
                .set("distinct_states", g.states.len())
                .set("decisions_drawn", g.decisions)
                .set("counts", Json::Obj(g.counts.iter().map(|(k, v)| (k.to_string(), Json::from(*v))).collect()))
                .set("runs_in_which_it_happened", Json::Obj(g.counted_in.iter().map(|(k, v)| (k.to_string(), Json::from(*v))).collect())),
        );
        agg.runs += g.runs;
        agg.decisions += g.decisions;
        agg.sim_time += g.sim_time;
        for (k, v) in g.counts {
            *agg.counts.entry(k).or_insert(0) += v;
        }
        agg.nontrivial += g.schedules.len() as u64;
        agg.states.extend(g.states);
        let mut s = g.samples;
        s.sort();
        s.truncate(2);
        agg.samples.extend(s);
        if let Some(f) = first.into_inner().unwrap() {
            n_viol += 1;
            found = Some((si, f));
            break;
        }
        if capped {
            break;
        }
    }
    if let Some((si, f)) = &found {
        let sc = spec.scenarios[*si].0.as_ref();
        let path = format!("{}/out/replays/{}-{}-{:016x}.json", ctx.verif, spec.property, sc.name(), f.seed);
        let describe = |tape: &Tape, class: &str, detail: &str| {
            Json::obj()
                .set("property", spec.property)
                .set("world", ctx.world)
                .set("scenario", sc.name())
                .set("seed", format!("{}", f.seed))
                .set("base_seed", ctx.seed)
                .set("run_index", f.idx)
                .set("class", class)
                .set("detail", detail)
                .set("tape", tape_json(tape))
                .set("decisions_before", f.tape.len())
                .set("decisions_after", tape.len())
        };
        // A shortened run may hang where the one found did not: then that one is reported as it is.
        write_file(&path, &describe(&f.tape, &f.v.class, &f.v.detail).dump());
        {
            let (cap, property, path) = (ctx.min_cap + Duration::from_secs(90), spec.property, path.clone());
            let text = format!("  class={} scenario={} run_seed={:#x} (not minimised)\n  {}", f.v.class, sc.name(), f.seed, f.v.detail.replace('\n', "\n  "));
            std::thread::spawn(move || {
                std::thread::sleep(cap);
                println!("VIOLATION property={property} replay={path}\n{text}");
                std::process::exit(1);
            });
        }
        // The violation must come back from its tape before it is believed and minimised.
        let (v0, _, _) = replay_tape(sc, &f.tape, false);
        let (tape, tries, class) = match v0 {
            Some(v) => {
                let (t, n) = minimise(sc, f.tape.clone(), &v.class, ctx.min_cap);
                (t, n, v.class)
            }
            None => (f.tape.clone(), 0, f.v.class.clone()),
        };
        let (v1, trace, _) = replay_tape(sc, &tape, true);
        let v = v1.clone().unwrap_or_else(|| f.v.clone());
        let j = describe(&tape, &class, &v.detail)
            .set("minimiser_runs", tries)
            .set("reproduced", v1.is_some())
            .set("trace", trace.clone());
        write_file(&path, &j.dump());
        println!("VIOLATION property={} replay={}", spec.property, path);
        println!("  class={} scenario={} run_seed={:#x} (index {}), tape {} -> {} decisions after {} minimiser runs", class, sc.name(), f.seed, f.idx, f.tape.len(), tape.len(), tries);
        println!("  {}", v.detail.replace('\n', "\n  "));
        for l in trace.iter().take(60) {
            println!("    | {l}");
        }
        status = 1;
    }
    let wall = t0.elapsed().as_secs_f64();
    let total_runs = agg.runs;
    let faults: BTreeMap<String, Json> = agg.counts.iter().filter(|(k, _)| k.starts_with("fault.")).map(|(k, v)| (k.to_string(), Json::from(*v))).collect();
    let probes: BTreeMap<String, Json> = agg.counts.iter().filter(|(k, _)| !k.starts_with("fault.")).map(|(k, v)| (k.to_string(), Json::from(*v))).collect();
    let cov = Json::obj()
        .set("evaluations", total_runs)
        .set("distinct_nontrivial", agg.nontrivial)
        .set("rule", spec.rule)
        .set("samples", agg.samples.clone())
        .set("simulated_runs_per_hour", (total_runs as f64 / wall.max(1e-6) * 3600.0) as u64)
        .set("seeds_per_hour", (total_runs as f64 / wall.max(1e-6) * 3600.0) as u64)
        .set("simulated_ms_total", agg.sim_time as u64)
        .set("faults_fired", Json::Obj(faults))
        .set("probes", Json::Obj(probes))
        .set("distinct_states_reached", agg.states.len())
        .set("decisions_drawn", agg.decisions)
        .set("state_measure", "digest of every node's document/tree state and progress at quiescent points; schedules are digests of the sequence of (task or message, fault) decisions")
        .set("per_scenario", per_scenario)
        .set("components_real", spec.real.iter().map(|s| Json::from(*s)).collect::<Vec<_>>())
        .set("components_stub", spec.stub.iter().map(|s| Json::from(*s)).collect::<Vec<_>>())
        .set("stopped_by_time_cap", capped)
        .set("hash_key_seam_calls", crate::hashseed::interposed_calls())
        .set("clock_seam_reads", crate::hashseed::clock_reads())
        .set("known_findings", known_json);
    let ev = Json::obj()
        .set("property", spec.property)
        .set("tier", ctx.tier.as_str())
        .set("seed", ctx.seed)
        .set("level", spec.level)
        .set("coverage", cov)
        .set("assumptions", spec.assumptions.iter().map(|s| Json::from(*s)).collect::<Vec<_>>())
        .set("wall_s", wall)
        .set("violations", n_viol);
    write_file(&format!("{}/evidence/{}.json", ctx.verif, spec.property), &ev.dump());
    println!("property={} runs={} distinct_nontrivial={} simulated={}ms wall={:.1}s violations={}", spec.property, total_runs, agg.nontrivial, agg.sim_time, wall, n_viol);
    status
}

/// Replays a file written by `check`. Exit 1 when the violation comes back, 0 when it does not.
pub fn replay_file(path: &str, find: impl Fn(&str, &str) -> Option<Box<dyn Scenario>>) -> i32 {
    if std::env::var_os(DIARY).is_none() {
        // in a process of its own, for the run may bring it down
        if let Ok(exe) = std::env::current_exe() {
            let st = std::process::Command::new(exe).arg("replay").arg(path).env(DIARY, "").status();
            return match st {
                Ok(st) => st.code().unwrap_or_else(|| {
                    println!("VIOLATION property={} replay={path}", std::fs::read_to_string(path).ok().and_then(|s| Json::parse(&s).ok()).and_then(|j| j.get("property").and_then(|x| x.as_str()).map(|s| s.to_string())).unwrap_or_default());
                    println!("  class={DEATH}: {st}");
                    1
                }),
                Err(_) => 3,
            };
        }
    }
    let s = match std::fs::read_to_string(path) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("cannot read {path}: {e}");
            return 3;
        }
    };
    let j = match Json::parse(&s) {
        Ok(j) => j,
        Err(e) => {
            eprintln!("bad replay file: {e}");
            return 3;
        }
    };
    let prop = j.get("property").and_then(|x| x.as_str()).unwrap_or("").to_string();
    let scn = j.get("scenario").and_then(|x| x.as_str()).unwrap_or("").to_string();
    let Some(sc) = find(&prop, &scn) else {
        eprintln!("unknown scenario {prop}/{scn}");
        return 3;
    };
    let (v, trace, canon) = if let Some(t) = j.get("tape") {
        let live = j.get("class").and_then(|x| x.as_str()) == Some(DEATH);
        isolated(|| {
            let mut ch = Choices::replay(tape_from(t));
            let mut obs = Obs { trace_on: true, live, ..Default::default() };
            let r = run_once(sc.as_ref(), &mut ch, &mut obs);
            (r.err(), obs.trace, ch.recorded())
        })
    } else {
        let seed: u64 = j.get("seed").and_then(|x| x.as_str()).and_then(|s| s.parse().ok()).unwrap_or(0);
        isolated(|| {
            let log = std::env::var(TAPE_LOG).ok().and_then(|p| std::fs::File::create(p).ok());
            let mut ch = match log {
                Some(f) => Choices::record_to(seed, f),
                None => Choices::record(seed),
            };
            let mut obs = Obs { trace_on: true, ..Default::default() };
            let r = run_once(sc.as_ref(), &mut ch, &mut obs);
            (r.err(), obs.trace, ch.recorded())
        })
    };
    for l in &trace {
        println!("| {l}");
    }
    println!("decisions: {}", canon.len());
    match v {
        Some(v) => {
            println!("VIOLATION property={prop} replay={path}");
            println!("  class={}", v.class);
            println!("  {}", v.detail.replace('\n', "\n  "));
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}

/// Event logs of `n` runs, for determinism proofs: prints one digest per run.
pub fn digests(sc: &dyn Scenario, base: u64, n: u64, workers: usize) -> Vec<u64> {
    let out: Vec<AtomicU64> = (0..n).map(|_| AtomicU64::new(0)).collect();
    let next = AtomicU64::new(0);
    std::thread::scope(|s| {
        for _ in 0..workers {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= n {
                    break;
                }
                let seed = seed_of(base, sc.name(), i);
                let d = isolated(|| {
                    let mut ch = Choices::record(seed);
                    let mut obs = Obs { trace_on: true, ..Default::default() };
                    let r = run_once(sc, &mut ch, &mut obs);
                    let mut h = crate::mix(obs.schedule, obs.sim_time);
                    for l in &obs.trace {
                        h = crate::mix(h, crate::fnv(l.as_bytes()));
                    }
                    for st in &obs.states {
                        h = crate::mix(h, *st);
                    }
                    for s in &ch.recorded().s {
                        for v in s {
                            h = crate::mix(h, *v);
                        }
                    }
                    if let Err(v) = r {
                        h = crate::mix(h, crate::fnv(v.class.as_bytes()));
                    }
                    h
                });
                out[i as usize].store(d, Ordering::SeqCst);
            });
        }
    });
    out.into_iter().map(|a| a.into_inner()).collect()
}

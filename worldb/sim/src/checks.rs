//! Which scenarios decide which property.
use crate::page::{Feat, Ink};
use crate::world::*;
use simcore::choices::*;
use simcore::{CheckSpec, Choices, Obs, Scenario, Violation};

pub struct Live {
    pub name: &'static str,
    pub prop: &'static str,
    pub faults: Faults,
    pub opaque: bool,
}
#[derive(Clone, Copy, PartialEq)]
pub enum Faults {
    None,
    Net,
    /// long outages, refusals: the client's pacing
    Outage,
    /// pages and events that do not fit
    Misfit,
}
fn draw_cfg(s: &Live, ch: &mut Choices) -> Cfg {
    let mut c = |n: u64, d: u64| ch.chance(S_CFG, n, d);
    let feat = Feat {
        opaque: if s.opaque { true } else { c(1, 3) },
        opaque_rich: s.opaque && c(3, 4),
        svg: c(1, 4),
        exotic_attrs: c(1, 3),
        raw: c(1, 4),
        body_attrs: c(1, 3),
        comments: c(1, 2),
        same_words: c(1, 2),
        no_head_tag: c(1, 6),
        unicode: c(1, 3),
        pre: c(1, 4),
        max: 0,
        opaque_attr_edits: c(1, 2),
            opaque_toggle: c(1, 3),
            opaque_body: c(1, 3),
        ..Feat::default()
    }
    .more(&mut c);
    let (mount, ror, pip, strict, head) = (c(1, 4), c(1, 2), c(1, 2), c(1, 3), c(1, 2));
    let f = s.faults;
    let on = f != Faults::None;
    let mut p = |xs: &[u64]| *ch.pick(S_CFG, xs);
    let listener = match p(&[0, 1, 2]) {
        0 => Listener::Show,
        1 => Listener::Widget,
        _ => Listener::Nobody,
    };
    let mut cfg = Cfg {
        feat: Feat { max: p(&[6, 12, 30]) as usize, no_head_tag: feat.no_head_tag && !mount, ink: Ink { sloppy: feat.ink.sloppy && !mount, ..feat.ink }, ..feat },
        routes: p(&[1, 1, 2, 3]) as usize,
        tabs: p(&[1, 1, 2, 3]) as usize,
        mount,
        listener,
        render_on_request: ror,
        pipelined: pip,
        strict_names: strict,
        revisions: p(&[3, 6, 12]) as usize,
        edits_per_rev: p(&[1, 2, 6]) as usize,
        span: p(&[1500, 4000, 12000]),
        head_edits: head,
        opaque_edits: s.opaque,
        hash_seed: 0,
        latency: p(&[1, 10, 60]),
        stall: 0,
        cuts: 0,
        outages: 0,
        crashes: 0,
        reloads: 0,
        refuse: 0,
        lazy_watch: p(&[0, 50, 400]),
        foreign: 0,
        bad: 0,
        long_outage: 0,
        torn: 0,
        identity: s.prop == "C18",
    };
    if on {
        cfg.stall = p(&[0, 0, 5, 20]);
        cfg.cuts = p(&[0, 1, 3, 6]) as usize;
        cfg.outages = p(&[0, 0, 1, 2]) as usize;
        cfg.crashes = p(&[0, 0, 1, 2]) as usize;
        cfg.reloads = p(&[0, 0, 1, 3]) as usize;
        cfg.refuse = p(&[0, 0, 20]);
        cfg.torn = if mount { 0 } else { p(&[0, 0, 10, 40]) };
    }
    match f {
        Faults::Outage => {
            cfg.revisions = p(&[0, 2]) as usize;
            cfg.span = p(&[4000, 20000, 60000]);
            cfg.outages = p(&[0, 2, 5]) as usize;
            cfg.refuse = p(&[0, 30, 80]);
            cfg.crashes = p(&[0, 1, 4]) as usize;
            cfg.long_outage = if p(&[0, 1]) == 1 { cfg.span / 2 } else { 0 };
        }
        Faults::Misfit => {
            cfg.foreign = p(&[0, 1, 2]) as usize;
            cfg.bad = p(&[0, 2, 5]) as usize;
            if cfg.foreign + cfg.bad == 0 {
                cfg.bad = 1
            }
        }
        _ => {}
    }
    cfg.hash_seed = ch.draw(S_ENV, 1 << 20);
    cfg
}
impl Scenario for Live {
    fn name(&self) -> &'static str {
        self.name
    }
    fn run(&self, ch: &mut Choices, obs: &mut Obs) -> Result<(), Violation> {
        let cfg = draw_cfg(self, ch);
        let out = run(cfg, ch, obs);
        obs.nontrivial = match self.prop {
            "C13" => out.opaque_checked > 0,
            "C14" => out.gaps > 0,
            "C18" => out.kept > 0,
            "C15" => out.bad > 0,
            _ => out.compared > 0,
        };
        obs.add("oracle.events_applied_and_compared", out.compared);
        obs.add("opaque elements followed through an event", out.opaque_checked);
        obs.add("reconnect gaps measured", out.gaps);
        match out.viol.into_iter().find(|v| v.0 == self.prop) {
            Some(v) => Err(v.1),
            None => Ok(()),
        }
    }
}
const REAL: &[&str] = &[
    "hotmeal (parser sink, diff, patch conversion, native applier, serialiser)",
    "hotmeal-server (LiveReloadServer, loader_script, inject_into_head, RPC trait definitions)",
    "hotmeal-wasm (start_live_reload: reconnect loop, session, event handling, DOM applier)",
    "cinereus",
];
const STUB: &[&str] = &["HTML parser under hotmeal (html5ever stand-in)", "DOM (web-sys stand-in)", "RPC and WebSocket (roam stand-ins)", "timers and tasks (virtual clock)", "file watcher, embedding server, author, users"];

fn live(name: &'static str, prop: &'static str, faults: Faults, opaque: bool) -> Box<dyn Scenario> {
    Box::new(Live { name, prop, faults, opaque })
}
/// Every scenario runs this many times the number given with it.
const RUNS: u64 = 3;

pub fn spec(id: &str) -> Option<CheckSpec> {
    let mk = |property: &'static str, scenarios: Vec<(Box<dyn Scenario>, u64)>, rule: &'static str| CheckSpec {
        property,
        scenarios: scenarios.into_iter().map(|(s, n)| (s, n * RUNS)).collect(),
        level: "exploration",
        rule,
        assumptions: vec!["Seeded search over edits, schedules and faults: a sample, not an enumeration.", "Up to 3 routes, 3 tabs, 12 revisions, documents of up to about 120 nodes per run.", "HTML parsing, DOM, RPC and sockets are stand-ins written for this simulator (see DESIGN.md)."],
        real: REAL.to_vec(),
        stub: STUB.to_vec(),
        thorough_factor: 10,
    };
    let rule = "a run counts when a page applied patches and was compared with its source; distinct by the digest of its schedule and states";
    Some(match id {
        "C10" => mk("C10", vec![(live("live-calm", "C10", Faults::None, false), 24000), (live("live-faults", "C10", Faults::Net, false), 40000)], rule),
        "C11" => mk("C11", vec![(live("parity-calm", "C11", Faults::None, false), 24000), (live("parity-faults", "C11", Faults::Net, false), 24000)], rule),
        "C12" => mk("C12", vec![(Box::new(crate::server::Server { name: "server-life", prop: "C12", misfit: false }), 40000)], "a run counts when at least one page was patched"),
        "C16" => mk("C16", vec![(Box::new(crate::server::Server { name: "native-misfit", prop: "C16", misfit: true }), 40000)], "a run counts when at least one patch list met a document it was not made for"),
        "C19" => mk(
            "C19",
            vec![(Box::new(crate::live::Living { name: "living-calm", faults: false }), 10000), (Box::new(crate::live::Living { name: "living-faults", faults: true }), 14000)],
            "a run counts when a follower applied patches and completed at least one revision",
        ),
        "C20" => mk(
            "C20",
            vec![(Box::new(crate::isles::Isles { name: "isles-calm", faults: false }), 12000), (Box::new(crate::isles::Isles { name: "isles-faults", faults: true }), 16000)],
            "a run counts when a part of a page dealt with a whole patch list",
        ),
        "C13" => mk("C13", vec![(live("opaque-live-calm", "C13", Faults::None, true), 36000), (live("opaque-live-faults", "C13", Faults::Net, true), 24000)], rule),
        "C14" => mk("C14", vec![(live("reconnect", "C14", Faults::Outage, false), 30000)], "a run counts when at least one gap between two connection attempts of a page was measured"),
        "C15" => mk("C15", vec![(live("misfit", "C15", Faults::Misfit, false), 32000)], "a run counts when at least one event that does not fit was delivered and dealt with"),
        "C18" => mk(
            "C18",
            vec![(live("identity-calm", "C18", Faults::None, false), 20000), (live("identity-opaque", "C18", Faults::None, true), 10000), (live("identity-faults", "C18", Faults::Net, false), 16000)],
            "a run counts when at least one node of a page was owed its identity across an event",
        ),
        _ => return None,
    })
}

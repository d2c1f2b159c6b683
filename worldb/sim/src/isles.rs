//! Pages that keep several parts of themselves up to date, side by side: each part follows a
//! document of its own, with patches computed in the page or sent by a server, dealt with in one
//! call or bit by bit, while other parts, other tabs and the network do as they please.
use crate::page::*;
use crate::world::Canon;
use hotmeal::{Patch, StrTendril};
use hotmeal_server::{LiveReloadEvent, LiveReloadServer};
use simcore::choices::*;
use simcore::{Choices, Obs, Scenario, Violation};
use simrt::{after, chance, count, draw, enter, log, net, now, range};
use std::cell::RefCell;
use std::rc::Rc;
use web_sys::dom::{self, Kind, Ref};
use web_sys::sim::{self, Page, PageRef};

pub struct Isles {
    pub name: &'static str,
    pub faults: bool,
}
#[derive(Clone, Debug)]
struct Cfg {
    feat: Feat,
    tabs: usize,
    isles: usize,
    edits: usize,
    edits_per_rev: usize,
    span: u64,
    latency: u64,
    pause: u64,
    loss: u64,
    dup: u64,
    abandoned: u64,
    stale: u64,
    garbled: u64,
    unmounted: u64,
    crashes: usize,
    strict_names: bool,
    hash_seed: u64,
}
type Rev = (usize, String);
#[derive(Clone, Copy, PartialEq, Debug)]
enum Way {
    Json,
    Owned,
    Blob,
}
struct Job {
    to: Rev,
    way: Way,
    patches: Vec<Patch<'static>>,
    json: String,
    blob: Vec<u8>,
    at: usize,
    whole: bool,
}
struct Isle {
    tab: usize,
    /// the selector; none is the body
    sel: Option<&'static str>,
    group: usize,
    root: Option<Ref>,
    have: Rev,
    want: Rev,
    in_step: bool,
    job: Option<Job>,
    /// timers of an earlier job are void
    round: u64,
    slots: hotmeal_wasm::Slots,
    last: Vec<Patch<'static>>,
}
struct Tab {
    page: Option<(u32, PageRef)>,
}
struct S {
    cfg: Cfg,
    me: std::rc::Weak<RefCell<S>>,
    docs: Vec<(PageDoc, Rev)>,
    tabs: Vec<Tab>,
    isles: Vec<Isle>,
    fresh: u32,
    next_realm: u32,
    healed: bool,
    viol: Option<Violation>,
    done: u64,
    beside: u64,
}
const SPOTS: &[(&str, &str)] = &[("#isle0", "<main id=\"isle0\">"), ("section.isle1", "<section class=\"wide isle1\">"), ("[data-isle=\"2\"]", "<div data-isle=\"2\">")];
const CLOSE: &[&str] = &["</main>", "</section>", "</div>"];

/// What a body with this inside shows.
fn shows(html: &str) -> String {
    let doc = dom::parse_document(&format!("<!DOCTYPE html><html><head></head><body>{html}"));
    sim::body(&doc).map(|b| Canon { interiors: true }.kids(&b)).unwrap_or_default()
}
/// A part has no html or body tags of its own, not even stray ones: they speak of the whole page.
fn fragment(d: &mut PageDoc) {
    let l = d.inner().to_ascii_lowercase();
    let l = l.replace("<header", "");
    if ["<html", "<body", "<head"].iter().any(|t| l.contains(t)) {
        d.plainer()
    }
}
/// Every node outside a part (all nodes when there is no part), with its own data.
fn outside(doc: &Ref, part: Option<&Ref>) -> Vec<(u64, u64, String)> {
    fn go(n: &Ref, up: u64, part: Option<&Ref>, out: &mut Vec<(u64, u64, String)>) {
        let own = match &n.kind {
            Kind::Element(e) => format!("{}{:?}", e.local, e.attrs.borrow()),
            Kind::Text(t) | Kind::Comment(t) => t.borrow().clone(),
            _ => String::new(),
        };
        out.push((n.id, up, own));
        if part.is_some_and(|p| Rc::ptr_eq(p, n)) {
            return;
        }
        if let Some(f) = n.el().and_then(|e| e.content.clone()) {
            go(&f, n.id, part, out)
        }
        for k in n.children.borrow().iter() {
            go(k, n.id, part, out)
        }
    }
    let mut out = vec![];
    go(doc, 0, part, &mut out);
    out
}
fn first_change(a: &[(u64, u64, String)], b: &[(u64, u64, String)]) -> Option<String> {
    if a == b {
        return None;
    }
    let i = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    Some(format!("{:?} became {:?}", a.get(i), b.get(i)))
}
impl S {
    fn fail(&mut self, class: &str, text: String) {
        log(|| format!("!! {class}: {text}"));
        if self.viol.is_none() {
            self.viol = Some(Violation::new(class, text))
        }
    }
    fn later(&self, d: u64, f: impl FnOnce(&mut S) + 'static) {
        let me = self.me.clone();
        after(d, move || {
            if let Some(s) = me.upgrade() {
                let mut s = s.borrow_mut();
                if s.viol.is_none() {
                    f(&mut s)
                }
            }
        })
    }
    fn fault(&self, num: u64) -> bool {
        !self.healed && num > 0 && chance(S_FAULT, num, 100)
    }
    // -------------------------------------------------------------- author and network
    fn edit(&mut self, g: usize) {
        let n = 1 + draw(S_EDIT, self.cfg.edits_per_rev as u64);
        let rt = simrt::rt();
        let mut ch = rt.ch.borrow_mut();
        let (d, rev) = &mut self.docs[g];
        for _ in 0..n {
            Gen { ch: &mut ch, f: &self.cfg.feat, s: S_EDIT, fresh: &mut self.fresh }.edit(d);
            tidy(d)
        }
        drop(ch);
        fragment(d);
        *rev = (rev.0 + 1, d.inner());
        let rev = rev.clone();
        log(|| format!("author: document {g} revision {}: {:?}", rev.0, rev.1));
        for i in 0..self.isles.len() {
            if self.isles[i].group == g {
                self.send(i, rev.clone())
            }
        }
    }
    fn send(&mut self, i: usize, rev: Rev) {
        let mut copies = 1;
        if self.fault(self.cfg.loss) {
            count("fault.message_lost");
            copies = 0
        }
        if self.fault(self.cfg.dup) {
            count("fault.message_duplicated");
            copies += 1
        }
        for _ in 0..copies {
            let rev = rev.clone();
            let d = if self.healed { net(1, 10) } else { net(1, self.cfg.latency) };
            self.later(d, move |s| s.arrived(i, rev))
        }
    }
    fn arrived(&mut self, i: usize, rev: Rev) {
        let p = &mut self.isles[i];
        if self.tabs[p.tab].page.is_none() {
            return;
        }
        if rev.0 <= p.want.0 {
            count("old news");
            return;
        }
        p.want = rev;
        if p.job.is_none() {
            self.soon(i)
        }
    }
    fn soon(&mut self, i: usize) {
        let round0 = self.isles[i].round;
        let d = range(S_SCHED, 0, if self.healed { self.cfg.pause.min(5) } else { self.cfg.pause });
        self.later(d, move |s| {
            if s.isles[i].round == round0 && s.isles[i].job.is_none() {
                s.next(i)
            }
        })
    }
    // -------------------------------------------------------------- tabs
    fn open(&mut self, t: usize) {
        let realm = self.next_realm;
        self.next_realm += 1;
        let mine: Vec<usize> = (0..self.isles.len()).filter(|i| self.isles[*i].tab == t).collect();
        let mut html = String::from("<!DOCTYPE html><html lang=\"en\"><head><title>t</title></head><body class=\"site\">");
        let whole = mine.iter().any(|i| self.isles[*i].sel.is_none());
        if !whole {
            html.push_str("<nav>site <a href=\"/\">home</a></nav>\n<!-- parts -->");
            for (k, s) in SPOTS.iter().enumerate() {
                html.push_str(&format!("{}{}<p>beside {k}</p>text", s.1, CLOSE[k]))
            }
        }
        html.push_str("</body></html>");
        let doc = dom::parse_document(&html);
        let page = sim::install(realm, Page { doc: doc.clone(), path: "/".into(), on_reload: Rc::new(|| ()), events: vec![], console: vec![], listener: None });
        self.tabs[t].page = Some((realm, page));
        for i in mine {
            let root = match self.isles[i].sel {
                None => sim::body(&doc),
                Some(s) => dom::select(&doc, s).unwrap(),
            };
            let at = self.docs[self.isles[i].group].1.clone();
            let p = &mut self.isles[i];
            p.root = root;
            p.round += 1;
            p.job = None;
            p.want = at;
            p.last = vec![];
            self.reset(i)
        }
    }
    fn tab_dies(&mut self, t: usize) {
        if self.healed || self.tabs[t].page.is_none() {
            return;
        }
        count("fault.tab_crash");
        if self.isles.iter().any(|p| p.tab == t && p.job.as_ref().is_some_and(|j| j.at > 0)) {
            count("crashes in the middle of a patch list")
        }
        if let Some((realm, _)) = self.tabs[t].page.take() {
            sim::remove(realm)
        }
        for p in self.isles.iter_mut().filter(|p| p.tab == t) {
            p.round += 1;
            p.job = None;
            p.root = None
        }
        let d = range(S_FAULT, 1, 500);
        self.later(d, move |s| s.tab_starts(t))
    }
    fn tab_starts(&mut self, t: usize) {
        if self.tabs[t].page.is_none() {
            self.open(t)
        }
    }
    /// The part is written afresh.
    fn reset(&mut self, i: usize) {
        let p = &self.isles[i];
        let Some((realm, page)) = self.tabs[p.tab].page.clone() else { return };
        let html = p.want.1.clone();
        let root = p.root.clone().unwrap();
        let doc = page.borrow().doc.clone();
        let was = outside(&doc, Some(&root));
        let r = if p.sel.is_none() {
            enter(realm, || hotmeal_wasm::set_body_inner_html(&html)).map_err(|e| format!("{e:?}"))
        } else {
            let kids = dom::parse_fragment(&root.el().unwrap().local, &html);
            root.clear();
            for k in kids {
                root.put(None, &k)
            }
            Ok(())
        };
        if let Err(e) = r {
            return self.fail("reset-refused", format!("a page cannot be given the body {html:?}: {e}"));
        }
        if let Some(c) = first_change(&was, &outside(&doc, Some(&root))) {
            return self.fail("outside-changed", format!("setting the inner HTML changed the page outside the body: {c}"));
        }
        let p = &mut self.isles[i];
        p.have = p.want.clone();
        p.in_step = true;
        p.slots = hotmeal_wasm::Slots::new();
        p.last = vec![];
        count("parts written afresh");
        self.compare(i, "written afresh");
        if self.viol.is_none() && self.isles[i].sel.is_none() {
            self.read_back(i)
        }
    }
    /// What the page says it holds is what it holds, to the native parser too.
    fn read_back(&mut self, i: usize) {
        let p = &self.isles[i];
        let Some((realm, _)) = self.tabs[p.tab].page.clone() else { return };
        let root = p.root.clone().unwrap();
        let mut held = String::new();
        dom::inner_html(&root, &mut held);
        match enter(realm, hotmeal_wasm::get_body_inner_html) {
            Ok(h) if h == held => {}
            Ok(h) => return self.fail("read-back", format!("the body's inner HTML is said to be {h:?} and is {held:?}")),
            Err(e) => return self.fail("read-back", format!("the body's inner HTML {held:?} cannot be read: {e:?}")),
        }
        for text in [held, self.isles[i].have.1.clone()] {
            let t = StrTendril::from(text.as_str());
            let d = hotmeal::parse_body_fragment(&t);
            let got = Canon { interiors: true }.native(&d, d.root);
            let holder = dom::element("body", dom::HTML);
            for k in dom::parse_fragment("body", &text) {
                holder.put(None, &k)
            }
            let want = Canon { interiors: true }.kids(&holder);
            count("oracle.fragments_compared");
            if got != want {
                return self.fail("fragment-differs", format!("parse_body_fragment reads {text:?} as\n    {got}\n  and a browser as\n    {want}"));
            }
        }
    }
    // -------------------------------------------------------------- rendering
    fn next(&mut self, i: usize) {
        let p = &self.isles[i];
        if self.tabs[p.tab].page.is_none() {
            return;
        }
        if !p.in_step {
            self.reset(i);
            return;
        }
        if p.want.0 <= p.have.0 {
            return;
        }
        let (old, to) = (p.have.1.clone(), p.want.clone());
        let realm = self.tabs[p.tab].page.as_ref().unwrap().0;
        let way = [Way::Json, Way::Owned, Way::Blob][draw(S_MISC, 3) as usize];
        let (mut json, mut blob) = (String::new(), vec![]);
        let patches: Result<Vec<Patch<'static>>, String> = match way {
            Way::Json => enter(realm, || hotmeal_wasm::diff_html(&old, &to.1)).map_err(|e| format!("{e:?}")).and_then(|j| {
                json = j;
                facet_json::from_str(&json).map_err(|e| format!("{e:?}"))
            }),
            Way::Owned => enter(realm, || hotmeal_wasm::diff_html_patches(&old, &to.1)).map_err(|e| format!("{e:?}")),
            Way::Blob => {
                let mut srv = LiveReloadServer::new();
                srv.cache_html("/", &old);
                match srv.diff_route("/", &to.1) {
                    None => Ok(vec![]),
                    Some(LiveReloadEvent::Patches { patches_blob, .. }) => {
                        blob = patches_blob;
                        facet_postcard::from_slice(&blob).map_err(|e| format!("{e:?}"))
                    }
                    Some(e) => Err(format!("{e:?}")),
                }
            }
        };
        let patches = match patches {
            Ok(p) => p,
            Err(e) => return self.fail("no-patches", format!("from {old:?} to {:?} there are no patches ({way:?}): {e}", to.1)),
        };
        if way == Way::Blob && blob.is_empty() {
            // nothing was sent
            let p = &mut self.isles[i];
            p.have = to;
            self.compare(i, "no event");
            return self.soon(i);
        }
        if way != Way::Blob {
            blob = facet_postcard::to_vec(&patches).unwrap()
        }
        log(|| format!("part {i}: to revision {} {way:?}: {patches:?}", to.0));
        let whole = chance(S_MISC, 1, 3);
        let p = &mut self.isles[i];
        p.slots = hotmeal_wasm::Slots::new();
        p.round += 1;
        p.job = Some(Job { to, way, patches, json, blob, at: 0, whole });
        self.step_soon(i)
    }
    fn step_soon(&mut self, i: usize) {
        let round0 = self.isles[i].round;
        let d = range(S_SCHED, 0, if self.healed { self.cfg.pause.min(5) } else { self.cfg.pause });
        self.later(d, move |s| {
            if s.isles[i].round == round0 && s.isles[i].job.is_some() {
                s.step(i)
            }
        })
    }
    /// Call into the page on behalf of part `i`: whatever comes of it, nothing else may change.
    fn call<R>(&mut self, i: usize, what: &str, still: bool, f: impl FnOnce(&mut Isle) -> Result<R, String>) -> Option<Result<R, String>> {
        let (realm, page) = self.tabs[self.isles[i].tab].page.clone()?;
        let doc = page.borrow().doc.clone();
        let root = self.isles[i].root.clone()?;
        let (was, mine) = (outside(&doc, Some(&root)), if still { outside(&root, None) } else { vec![] });
        let p = &mut self.isles[i];
        let r = enter(realm, || f(p));
        count("oracle.surroundings_compared");
        if let Some(c) = first_change(&was, &outside(&doc, Some(&root))) {
            let sel = self.isles[i].sel.unwrap_or("body");
            self.fail("outside-changed", format!("{what} on {sel} changed the page outside of it: {c}"));
            return None;
        }
        if still && let Some(c) = first_change(&mine, &outside(&root, None)) {
            self.fail("still-changed", format!("{what}: cannot be carried out, and changed the part: {c}"));
            return None;
        }
        Some(r)
    }
    fn step(&mut self, i: usize) {
        // what else can happen to a page
        if self.fault(self.cfg.garbled) {
            self.garbled(i)
        }
        if self.viol.is_none() && self.isles[i].sel.is_some() && self.fault(self.cfg.unmounted) {
            self.unmounted(i)
        }
        if self.viol.is_some() {
            return;
        }
        if self.fault(self.cfg.abandoned) {
            count("fault.list_abandoned");
            return self.lost_step(i);
        }
        if self.fault(self.cfg.stale) && !self.isles[i].last.is_empty() {
            count("fault.stale_list_applied");
            let list = self.isles[i].last.clone();
            let sel = self.isles[i].sel;
            let r = self.call(i, "a stale list", false, move |_| match sel {
                None => hotmeal_wasm::apply_patches(&list),
                Some(s) => hotmeal_wasm::apply_patches_on(&list, s),
            }
            .map_err(|e| format!("{e:?}")));
            match r {
                Some(Err(_)) => count("stale lists refused"),
                Some(Ok(_)) => count("stale lists taken"),
                None => {}
            }
            return self.lost_step(i);
        }
        let sel = self.isles[i].sel;
        let job = self.isles[i].job.as_ref().unwrap();
        let (n, way) = (job.patches.len(), job.way);
        let k = if job.whole { n } else { (1 + draw(S_SCHED, 3) as usize).min(n - job.at.min(n)) };
        let whole = job.whole;
        let busy = self.isles.iter().enumerate().any(|(j, p)| j != i && p.tab == self.isles[i].tab && p.job.as_ref().is_some_and(|j| j.at > 0));
        if busy {
            self.beside += 1
        }
        let what = if whole { "a patch list" } else { "part of a patch list" };
        let r = self.call(i, what, false, move |p| {
            let j = p.job.as_ref().unwrap();
            let now_ = &j.patches[j.at..j.at + k];
            match (whole, sel, way) {
                (true, None, Way::Json) => hotmeal_wasm::apply_patches_json(&j.json),
                (true, None, Way::Owned) => hotmeal_wasm::apply_patches(now_),
                (true, None, Way::Blob) => hotmeal_wasm::apply_patches_postcard(&j.blob),
                (true, Some(s), Way::Blob | Way::Json) => hotmeal_wasm::apply_patches_postcard_on(&j.blob, s),
                (true, Some(s), Way::Owned) => hotmeal_wasm::apply_patches_on(now_, s),
                (false, None, _) => hotmeal_wasm::apply_patches_with_slots(now_, &mut p.slots),
                (false, Some(s), _) => hotmeal_wasm::apply_patches_with_slots_on(now_, &mut p.slots, s),
            }
            .map_err(|e| format!("{e:?}"))
        });
        let Some(r) = r else { return };
        let j = self.isles[i].job.as_mut().unwrap();
        match r {
            Ok(c) if c == k => {}
            Ok(c) => {
                return self.fail("count", format!("{c} of {k} patches are reported as dealt with"));
            }
            Err(e) => {
                let list = format!("{:?}", j.patches);
                return self.fail("refused", format!("a page cannot take the patches {list}: {e}"));
            }
        }
        j.at += k;
        simrt::sched(simcore::mix(i as u64, j.at as u64));
        if j.at < n {
            return self.step_soon(i);
        }
        let j = self.isles[i].job.take().unwrap();
        let p = &mut self.isles[i];
        let list = format!("{:?}", j.patches);
        p.have = j.to;
        p.last = j.patches;
        p.round += 1;
        self.done += 1;
        self.compare(i, &list);
        if self.viol.is_none() && self.isles[i].sel.is_none() && chance(S_MISC, 1, 4) {
            self.read_back(i)
        }
        self.soon(i)
    }
    fn lost_step(&mut self, i: usize) {
        let p = &mut self.isles[i];
        p.in_step = false;
        p.job = None;
        p.round += 1;
        self.soon(i)
    }
    /// A list that got damaged on its way. It comes again, whole.
    fn garbled(&mut self, i: usize) {
        let j = self.isles[i].job.as_ref().unwrap();
        let (json, blob, sel) = (j.json.clone(), j.blob.clone(), self.isles[i].sel);
        if sel.is_none() && !json.is_empty() {
            let mut k = draw(S_FAULT, json.len() as u64) as usize;
            while !json.is_char_boundary(k) {
                k -= 1
            }
            let cut = json[..k].to_string();
            if facet_json::from_str::<Vec<Patch<'static>>>(&cut).is_ok() {
                return;
            }
            count("fault.list_garbled");
            let r = self.call(i, "a garbled list", true, |_| hotmeal_wasm::apply_patches_json(&cut).map_err(|e| format!("{e:?}")));
            if let Some(Ok(n)) = r {
                self.fail("garbled-taken", format!("{n} patches of a list that cannot be decoded are reported as dealt with"))
            }
            return;
        }
        let k = draw(S_FAULT, blob.len() as u64) as usize;
        let cut = blob[..k].to_vec();
        if facet_postcard::from_slice::<Vec<Patch<'static>>>(&cut).is_ok() {
            return;
        }
        count("fault.list_garbled");
        let r = self.call(i, "a garbled list", true, |_| match sel {
            None => hotmeal_wasm::apply_patches_postcard(&cut),
            Some(s) => hotmeal_wasm::apply_patches_postcard_on(&cut, s),
        }
        .map_err(|e| format!("{e:?}")));
        if let Some(Ok(n)) = r {
            self.fail("garbled-taken", format!("{n} patches of a list that cannot be decoded are reported as dealt with"))
        }
    }
    /// The application takes the element out of the page for a moment.
    fn unmounted(&mut self, i: usize) {
        let root = self.isles[i].root.clone().unwrap();
        let j = self.isles[i].job.as_ref().unwrap();
        let (blob, list) = (j.blob.clone(), j.patches.clone());
        let nowhere = chance(S_FAULT, 1, 3);
        let sel = if nowhere { "!nonsense" } else { self.isles[i].sel.unwrap() };
        let up = root.parent().unwrap();
        let at = root.index();
        if !nowhere {
            root.detach()
        }
        count("fault.mount_point_missing");
        let r = self.call(i, "a list for a mount point that is not there", true, |_| {
            if draw(S_FAULT, 2) == 0 { hotmeal_wasm::apply_patches_postcard_on(&blob, sel) } else { hotmeal_wasm::apply_patches_on(&list, sel) }.map_err(|e| format!("{e:?}"))
        });
        if !nowhere {
            let before = at.and_then(|k| up.child(k));
            let _ = up.insert_before(&root, before.as_ref());
        }
        if let Some(Ok(n)) = r {
            self.fail("nowhere", format!("{n} patches are reported as dealt with, and there is no element {sel:?} in the page"))
        }
    }
    fn compare(&mut self, i: usize, how: &str) {
        let p = &self.isles[i];
        let Some(root) = &p.root else { return };
        let got = Canon { interiors: true }.kids(root);
        let want = shows(&p.have.1);
        count("oracle.parts_compared");
        if got != want {
            let (rev, html, sel) = (p.have.0, p.have.1.clone(), p.sel.unwrap_or("body"));
            self.fail("part-differs", format!("revision {rev} of the part {sel}, {html:?}, shows as\n    {got}\n  instead of\n    {want}\n  ({how})"))
        }
    }
}
impl Scenario for Isles {
    fn name(&self) -> &'static str {
        self.name
    }
    fn run(&self, ch: &mut Choices, obs: &mut Obs) -> Result<(), Violation> {
        let mut c = |n: u64, d: u64| ch.chance(S_CFG, n, d);
        let feat = Feat {
            svg: c(1, 4),
            exotic_attrs: c(1, 3),
            raw: c(1, 4),
            comments: c(1, 2),
            same_words: c(1, 2),
            unicode: c(1, 3),
            pre: c(1, 4),
            ..Feat::default()
        }
        .more(&mut c);
        let strict_names = c(1, 3);
        let feat = Feat { prologue: false, ..feat };
        let on = self.faults;
        let mut p = |xs: &[u64]| *ch.pick(S_CFG, xs);
        let mut cfg = Cfg {
            feat: Feat { max: p(&[6, 12, 30]) as usize, ..feat },
            tabs: p(&[1, 1, 2]) as usize,
            isles: p(&[2, 3, 1]) as usize,
            edits: p(&[4, 8, 16]) as usize,
            edits_per_rev: p(&[1, 2, 6]) as usize,
            span: 4000,
            latency: p(&[5, 50, 400]),
            pause: p(&[0, 20, 200]),
            loss: 0,
            dup: 0,
            abandoned: 0,
            stale: 0,
            garbled: 0,
            unmounted: 0,
            crashes: 0,
            strict_names,
            hash_seed: 0,
        };
        if on {
            cfg.loss = p(&[0, 5, 25]);
            cfg.dup = p(&[0, 10]);
            cfg.abandoned = p(&[0, 3, 10]);
            cfg.stale = p(&[0, 5]);
            cfg.garbled = p(&[0, 10]);
            cfg.unmounted = p(&[0, 10]);
            cfg.crashes = p(&[0, 0, 1, 3]) as usize
        }
        cfg.hash_seed = ch.draw(S_ENV, 1 << 20);
        simcore::hashseed::set_thread_seed(cfg.hash_seed);
        dom::reset_ids();
        dom::STRICT_NAMES.set(cfg.strict_names);
        sim::clear();
        let mut fresh = 0;
        let groups = cfg.isles.max(1);
        let mut docs = vec![];
        for _ in 0..groups {
            let mut d = Gen { ch, f: &cfg.feat, s: S_DOC, fresh: &mut fresh }.doc();
            tidy(&mut d);
            fragment(&mut d);
            let html = d.inner();
            docs.push((d, (0, html)))
        }
        let (v, done, beside) = simrt::with_runtime(ch, obs, || drive(cfg, docs, fresh));
        sim::clear();
        obs.nontrivial = done > 0;
        obs.add("lists dealt with", done);
        obs.add("calls while another part of the page was halfway", beside);
        match v {
            Some(v) => Err(v),
            None => Ok(()),
        }
    }
}
fn drive(cfg: Cfg, docs: Vec<(PageDoc, Rev)>, fresh: u32) -> (Option<Violation>, u64, u64) {
    log(|| format!("config: {cfg:?}"));
    let mut isles = vec![];
    for t in 0..cfg.tabs {
        let body = cfg.isles == 1 || chance(S_CFG, 1, 4);
        for k in 0..if body { 1 } else { cfg.isles } {
            isles.push(Isle {
                tab: t,
                sel: (!body).then(|| SPOTS[k].0),
                group: k,
                root: None,
                have: (0, String::new()),
                want: (0, String::new()),
                in_step: false,
                job: None,
                round: 0,
                slots: hotmeal_wasm::Slots::new(),
                last: vec![],
            })
        }
    }
    let (tabs, groups, span, edits, crashes) = (cfg.tabs, docs.len(), cfg.span, cfg.edits, cfg.crashes);
    let s = Rc::new_cyclic(|me| {
        RefCell::new(S { cfg, me: me.clone(), docs, tabs: (0..tabs).map(|_| Tab { page: None }).collect(), isles, fresh, next_realm: 1, healed: false, viol: None, done: 0, beside: 0 })
    });
    {
        let mut x = s.borrow_mut();
        for t in 0..tabs {
            x.open(t)
        }
        for _ in 0..edits {
            let g = draw(S_EDIT, groups as u64) as usize;
            x.later(range(S_EDIT, 0, span), move |s| s.edit(g))
        }
        for _ in 0..crashes {
            let t = draw(S_FAULT, tabs as u64) as usize;
            x.later(range(S_FAULT, 0, span), move |s| s.tab_dies(t))
        }
        x.later(span, |s| {
            log(|| "-- edits and faults are over".into());
            s.healed = true;
            for t in 0..s.tabs.len() {
                s.tab_starts(t)
            }
        });
        x.later(span + 500, |s| {
            for g in 0..s.docs.len() {
                s.edit(g)
            }
        });
    }
    // a call every 5 ms at worst, for lists of any length
    let end = span + 600_000;
    while now() < end && s.borrow().viol.is_none() && simrt::step() {}
    let mut x = s.borrow_mut();
    if x.viol.is_none() {
        for i in 0..x.isles.len() {
            let p = &x.isles[i];
            let (have, want) = (p.have.0, x.docs[p.group].1.0);
            if have != want || !p.in_step {
                x.fail("not-caught-up", format!("long after faults stopped part {i} is at revision {have} of {want}"))
            } else {
                x.compare(i, "in the end")
            }
        }
    }
    let mut digest = 0;
    for (_, (r, t)) in &x.docs {
        digest = simcore::mix(digest, simcore::mix(*r as u64, simcore::fnv(t.as_bytes())))
    }
    simrt::sched(digest);
    simrt::rt().obs.borrow_mut().sim_time += now();
    let (d, b) = (x.done, x.beside);
    (x.viol.take(), d, b)
}

//! One `LiveReloadServer` over a long life, without browsers: the embedding program calls it in
//! any order for any route, it crashes and starts over, and followers keep native documents up to
//! date from what it says.
use crate::page::*;
use crate::world::{Canon, expressible, native_attrs};
use hotmeal_server::{LiveReloadEvent, LiveReloadServer};
use simcore::choices::*;
use simcore::{Choices, Obs, Scenario, Violation};
use std::collections::{BTreeMap, VecDeque};

pub struct Server {
    pub name: &'static str,
    pub prop: &'static str,
    /// events are lost, repeated, reordered, sent to the wrong page
    pub misfit: bool,
}
const ROUTES: &[&str] = &["/", "/a", "/a/", "", "/\u{e9}?q=1#f"];
const HEADS: &[&str] = &["", "<link rel=\"stylesheet\" href=\"a.css\">", "<style>b{}</style>", " "];
const ODD: &[&str] = &["", " ", "x", "<p></p>", "<!-- c -->", "<html><head></head><body></body></html>", "<body class=\"a\">x</body>", "<!DOCTYPE html>", "a<!---->b", "<head><title>t</title></head>"];

fn opaque_body(html: &str) -> bool {
    web_sys::sim::body(&web_sys::dom::parse_document(html)).is_some_and(|b| b.get_attr("data-hotmeal-opaque").is_some())
}
fn body_of(html: &str, interiors: bool) -> String {
    let t = hotmeal::StrTendril::from(html);
    let d = hotmeal::parse(&t);
    show(&d, interiors)
}
/// The body: its attributes and content.
fn show(d: &hotmeal::Document, interiors: bool) -> String {
    let Some(b) = d.body() else { return "(no body)".into() };
    let mut at = d.get(b).kind.as_element().map(native_attrs).unwrap_or_default();
    at.sort();
    format!("{at:?}{}", Canon { interiors }.native(d, b))
}
/// Everything of a document: its doctype, the attributes of <html>, and all of its content.
fn all_of(d: &hotmeal::Document) -> String {
    let mut at = d.get(d.root).kind.as_element().map(native_attrs).unwrap_or_default();
    at.sort();
    format!("doctype {:?} {at:?}{}", d.doctype.as_ref().map(|s| s.as_ref().to_string()), Canon { interiors: true }.native(d, d.root))
}
/// Is what a browser's serialiser writes for this page read as the same page?
fn standard_writes(html: &str, body: &str) -> bool {
    use web_sys::dom;
    let doc = dom::parse_document(html);
    let mut o = "<!DOCTYPE html>".to_string();
    dom::inner_html(&doc, &mut o);
    body_of(&o, true) == body
}
trait AsEl<'a> {
    fn as_element(&self) -> Option<&hotmeal::ElementData<'a>>;
}
impl<'a> AsEl<'a> for hotmeal::NodeKind<'a> {
    fn as_element(&self) -> Option<&hotmeal::ElementData<'a>> {
        match self {
            hotmeal::NodeKind::Element(e) => Some(e),
            _ => None,
        }
    }
}
pub struct Held {
    pub doc: hotmeal::Document<'static>,
    _src: Box<hotmeal::StrTendril>,
}
impl Held {
    pub fn new(html: &str) -> Held {
        let src = Box::new(hotmeal::StrTendril::from(html));
        let r: &'static hotmeal::StrTendril = unsafe { &*(&*src as *const _) };
        Held { doc: hotmeal::parse(r), _src: src }
    }
}
struct Follower {
    route: usize,
    held: Held,
    /// what it will show once it has dealt with its queue; None: it missed something
    base: Option<String>,
    queue: VecDeque<(Vec<u8>, Option<String>)>,
    patched: u64,
}
/// What the documentation says the server remembers.
#[derive(Default)]
struct Model {
    html: BTreeMap<String, String>,
    head: BTreeMap<String, String>,
}
fn ev_text(e: &Option<LiveReloadEvent>) -> String {
    match e {
        None => "nothing".into(),
        Some(LiveReloadEvent::Reload) => "Reload".into(),
        Some(LiveReloadEvent::HeadChanged { route }) => format!("HeadChanged({route})"),
        Some(LiveReloadEvent::Patches { route, patches_blob }) => format!("Patches({route}, {} bytes, digest {:x})", patches_blob.len(), simcore::fnv(patches_blob)),
    }
}
struct Run<'c> {
    ch: &'c mut Choices,
    obs: &'c mut Obs,
    prop: &'static str,
    misfit: bool,
    feat: Feat,
    fresh: u32,
    server: LiveReloadServer,
    /// per route a server that is never asked about any other route
    solo: Vec<LiveReloadServer>,
    model: Model,
    routes: usize,
    docs: Vec<PageDoc>,
    texts: Vec<Vec<String>>,
    heads: Vec<usize>,
    followers: Vec<Follower>,
    edits: u64,
    torn: u64,
}
type R<T> = Result<T, Violation>;
macro_rules! ensure {
    ($c:expr, $class:expr, $($t:tt)*) => { if !$c { return Err(Violation::new($class, format!($($t)*))) } };
}
impl Run<'_> {
    fn current(&self, r: usize) -> &str {
        self.texts[r].last().unwrap()
    }
    fn edit(&mut self, r: usize) {
        let roll = self.ch.draw(S_EDIT, 12);
        let text = match roll {
            11 => ODD[self.ch.idx(S_EDIT, ODD.len())].to_string(),
            10 => {
                // back to an older revision, perhaps of another page
                let o = self.ch.idx(S_EDIT, self.routes);
                let i = self.ch.idx(S_EDIT, self.texts[o].len());
                self.texts[o][i].clone()
            }
            _ => {
                let n = self.ch.range(S_EDIT, 1, self.edits);
                let mut d = self.docs[r].clone();
                let opq = self.feat.opaque && roll % 3 == 1;
                let mut g = Gen { ch: self.ch, f: &self.feat, s: S_EDIT, fresh: &mut self.fresh };
                if !(opq && g.edit_opaque(&mut d)) {
                    for _ in 0..n {
                        g.edit(&mut d)
                    }
                }
                if d.count() > self.feat.max * 4 {
                    d = self.docs[r].clone();
                    d.body.kids.pop();
                    tidy(&mut d)
                }
                self.docs[r] = d;
                let part = if self.torn > 0 && self.ch.chance(S_FAULT, self.torn, 100) {
                    self.obs.count("fault.file_seen_half_written");
                    Some(self.ch.draw(S_FAULT, 1000))
                } else {
                    None
                };
                loop {
                    let d = &mut self.docs[r];
                    let text = match part {
                        Some(k) => d.torn(k),
                        None => d.html(),
                    };
                    if expressible(&text) {
                        break text;
                    }
                    self.obs.count("pages rewritten: opaque content no HTML text stands for");
                    d.plainer()
                }
            }
        };
        self.obs.log(|| format!("author: {:?} is now {text}", ROUTES[r]));
        self.texts[r].push(text)
    }
    /// A page is requested: what is served is what is remembered.
    fn serve(&mut self, r: usize, with_head: bool) -> R<()> {
        let (route, html) = (ROUTES[r], self.current(r).to_string());
        let was = self.server.cache_html(route, &html);
        let _ = self.solo[r].cache_html(route, &html);
        let want = self.model.html.insert(route.into(), html.clone());
        self.obs.log(|| format!("cache_html({route:?}) = {:?}", was.is_some()));
        ensure!(was == want, "previous-page", "cache_html({route:?}) returned {was:?}, the page cached before is {want:?}");
        if with_head {
            self.head(r)?;
        }
        // whoever shows anything else missed this change
        for f in &mut self.followers {
            if f.route == r && f.base.as_deref() != Some(&html) {
                f.base = None
            }
        }
        if self.followers.len() < 6 {
            self.followers.push(Follower { route: r, held: Held::new(&html), base: Some(html), queue: VecDeque::new(), patched: 0 })
        }
        Ok(())
    }
    fn head(&mut self, r: usize) -> R<bool> {
        let (route, head) = (ROUTES[r], HEADS[self.heads[r]]);
        let got = self.server.cache_head_injections(route, head);
        let _ = self.solo[r].cache_head_injections(route, head);
        let old = self.model.head.insert(route.into(), head.into());
        let want = old.as_deref().unwrap_or("") != head;
        self.obs.log(|| format!("cache_head_injections({route:?}, {head:?}) = {got}"));
        ensure!(got == want, "head-change", "cache_head_injections({route:?}, {head:?}) says changed={got}, and it was {old:?} before");
        Ok(got)
    }
    fn refresh(&mut self, r: usize, with_head: bool) -> R<()> {
        let (route, new) = (ROUTES[r], self.current(r).to_string());
        let (ev, solo) = if with_head {
            let h = HEADS[self.heads[r]];
            (self.server.diff_route_with_head(route, &new, h), self.solo[r].diff_route_with_head(route, &new, h))
        } else {
            (self.server.diff_route(route, &new), self.solo[r].diff_route(route, &new))
        };
        self.obs.log(|| format!("diff_route{}({route:?}) = {}", if with_head { "_with_head" } else { "" }, ev_text(&ev)));
        ensure!(ev_text(&ev) == ev_text(&solo), "routes-interfere", "{route:?}: the event is {}, and {} from a server that has only this route", ev_text(&ev), ev_text(&solo));
        let head_changed = with_head && {
            let h = HEADS[self.heads[r]];
            self.model.head.insert(route.into(), h.into()).as_deref().unwrap_or("") != h
        };
        let old = self.model.html.insert(route.into(), new.clone());
        let mut patched = None;
        match (&ev, head_changed, &old) {
            (Some(LiveReloadEvent::HeadChanged { route: x }), true, _) => {
                ensure!(x == route, "wrong-route", "HeadChanged names {x:?} and the route is {route:?}");
                self.obs.count("head changes announced")
            }
            (_, true, _) => ensure!(false, "head-change-missed", "{route:?}: the head injections changed and the event is {}", ev_text(&ev)),
            (Some(LiveReloadEvent::HeadChanged { .. }), false, _) => ensure!(false, "head-change-invented", "{route:?}: HeadChanged and the head injections are the same"),
            (Some(LiveReloadEvent::Reload), _, None) => self.obs.count("reloads of unknown pages"),
            (_, _, None) => ensure!(false, "no-reload", "{route:?} is not cached and the event is {}", ev_text(&ev)),
            (Some(LiveReloadEvent::Reload), _, Some(old)) if opaque_body(old) != opaque_body(&new) => self.obs.count("reloads of pages whose body became opaque or ceased to be"),
            (Some(LiveReloadEvent::Reload), _, Some(old)) => ensure!(false, "needless-reload", "{route:?} is cached and the event is Reload: from {old} to {new}"),
            (None, _, Some(old)) => {
                ensure!(body_of(old, true) == body_of(&new, true), "change-missed", "{route:?}: nothing to send, and the page changed from {old} to {new}");
                self.obs.count(if *old == new { "unchanged pages" } else { "pages changed in letter only" })
            }
            (Some(LiveReloadEvent::Patches { route: x, patches_blob }), _, Some(old)) => {
                ensure!(x == route, "wrong-route", "the patches name {x:?} and the route is {route:?}");
                ensure!(*old != new, "needless-patches", "{route:?}: patches for an unchanged page");
                let ps = facet_postcard::from_slice::<Vec<hotmeal::Patch<'static>>>(patches_blob);
                ensure!(ps.as_ref().is_ok_and(|p| !p.is_empty()), "bad-blob", "{route:?}: the patches decode to {}", if ps.is_ok() { "an empty list" } else { "an error" });
                self.obs.count("pages patched");
                patched = Some(())
            }
        }
        // tell the followers
        let Some(ev) = ev else {
            for f in self.followers.iter_mut().filter(|f| f.route == r && f.base.is_some()) {
                if f.base != old {
                    f.base = None
                } else {
                    f.base = Some(new.clone())
                }
            }
            return Ok(());
        };
        let bytes = ev.to_postcard();
        for f in self.followers.iter_mut().filter(|f| f.route == r) {
            let fits = f.base.is_some() && f.base == old;
            if patched.is_none() || fits {
                f.base = Some(new.clone());
                f.queue.push_back((bytes.clone(), f.base.clone()))
            } else {
                f.base = None;
                if self.misfit {
                    f.queue.push_back((bytes.clone(), None))
                }
            }
        }
        Ok(())
    }
    fn deliver(&mut self, i: usize) -> R<()> {
        let Some((bytes, want)) = self.followers[i].queue.pop_front() else { return Ok(()) };
        let misfit = self.misfit;
        let mut twice = false;
        if misfit && self.ch.chance(S_FAULT, 1, 4) {
            match self.ch.draw(S_FAULT, 3) {
                0 => {
                    self.obs.count("fault.event_lost");
                    self.taint(i);
                    return Ok(());
                }
                1 => {
                    self.obs.count("fault.event_repeated");
                    twice = true
                }
                _ => {
                    // to another follower's document
                    self.obs.count("fault.event_misdelivered");
                    let k = self.ch.idx(S_FAULT, self.followers.len());
                    self.apply(k, &bytes, None)?;
                    self.taint(k);
                    if k == i {
                        return Ok(());
                    }
                }
            }
        }
        self.apply(i, &bytes, want)?;
        if twice {
            self.apply(i, &bytes, None)?;
            self.taint(i)
        }
        if misfit && self.ch.chance(S_FAULT, 1, 6) {
            self.obs.count("fault.patches_of_other_pages_shuffled");
            self.shuffled(i)?;
            self.taint(i)
        }
        Ok(())
    }
    /// From here on the follower's document is not known.
    fn taint(&mut self, i: usize) {
        let f = &mut self.followers[i];
        f.base = None;
        // it shows a known page again once it loads one
        for q in &mut f.queue {
            let reload = !matches!(LiveReloadEvent::from_postcard(&q.0), Ok(LiveReloadEvent::Patches { .. }));
            if reload {
                break;
            }
            q.1 = None
        }
        if f.queue.iter().all(|q| q.1.is_none()) {
            return;
        }
        f.base = f.queue.back().and_then(|q| q.1.clone())
    }
    /// A patch list between any two pages, its items dropped, repeated and reordered.
    fn shuffled(&mut self, i: usize) -> R<()> {
        let mut text = || {
            let r = self.ch.idx(S_FAULT, self.routes);
            let k = self.ch.idx(S_FAULT, self.texts[r].len());
            self.texts[r][k].clone()
        };
        let (a, b) = (text(), text());
        let (ta, tb) = (hotmeal::StrTendril::from(a.as_str()), hotmeal::StrTendril::from(b.as_str()));
        let Ok(ps) = hotmeal::diff_html(&ta, &tb) else { return Ok(()) };
        let mut ps: Vec<hotmeal::Patch<'static>> = ps.into_iter().map(|p| p.into_owned()).collect();
        for _ in 0..self.ch.draw(S_FAULT, 4) {
            if ps.is_empty() {
                break;
            }
            let (x, y) = (self.ch.idx(S_FAULT, ps.len()), self.ch.idx(S_FAULT, ps.len()));
            match self.ch.draw(S_FAULT, 3) {
                0 => ps.swap(x, y),
                1 => {
                    let p = ps[x].clone();
                    ps.insert(y, p)
                }
                _ => drop(ps.remove(x)),
            }
        }
        let ev = LiveReloadEvent::Patches { route: ROUTES[self.followers[i].route].into(), patches_blob: facet_postcard::to_vec(&ps).unwrap() };
        self.apply(i, &ev.to_postcard(), None)
    }
    fn apply(&mut self, i: usize, bytes: &[u8], want: Option<String>) -> R<()> {
        let f = &mut self.followers[i];
        let route = ROUTES[f.route];
        let ev = LiveReloadEvent::from_postcard(bytes).map_err(|_| Violation::new("event-codec", format!("{route:?}: the event cannot be decoded")))?;
        let (html, what) = match ev {
            LiveReloadEvent::Reload | LiveReloadEvent::HeadChanged { .. } => {
                // it asks again and gets the newest page
                let Some(html) = want else { return Ok(()) };
                f.held = Held::new(&html);
                (Some(html), "reload")
            }
            LiveReloadEvent::Patches { patches_blob, .. } => {
                let ps = facet_postcard::from_slice::<Vec<hotmeal::Patch<'static>>>(&patches_blob).map_err(|_| Violation::new("bad-blob", "undecodable"))?;
                let text = if self.obs.trace_on { format!("{ps:?}") } else { String::new() };
                let doc = &mut f.held.doc;
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| doc.apply_patches(ps)));
                self.obs.log(|| format!("follower {i} of {route:?}: {text}"));
                match (r, &want) {
                    (Ok(Ok(())), Some(_)) => {
                        f.patched += 1;
                        self.obs.count("patch lists applied by followers in step")
                    }
                    (Ok(Err(e)), Some(_)) => ensure!(false, "native-error", "{route:?}: a follower in step cannot apply the patches: {e:?}"),
                    (Ok(x), None) => self.obs.count(if x.is_ok() { "misfits applied somehow" } else { "misfits refused" }),
                    (Err(p), _) => {
                        let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                        ensure!(false, "native-panic", "{route:?}: applying patches {} panics: {m}", if want.is_some() { "in step" } else { "that do not fit" })
                    }
                }
                (want, "patches")
            }
        };
        let f = &self.followers[i];
        if self.misfit {
            self.whole(&f.held.doc, route)?
        }
        if let (Some(html), "patches") = (html, what) {
            let (a, b) = (show(&f.held.doc, true), body_of(&html, true));
            ensure!(a == b, "follower-differs", "{route:?}: after the patches a follower shows\n    {a}\n  and the page is\n    {b}");
            let again = body_of(&f.held.doc.to_html(), true);
            // some trees cannot be written down: what a browser writes for them reads differently too
            let can = again == b || standard_writes(&html, &b);
            self.obs.count(if can { "documents written out and read again" } else { "documents that no markup stands for" });
            if again == b {
                let text = f.held.doc.to_html();
                let t = hotmeal::StrTendril::from(text.as_str());
                let (a, b) = (all_of(&hotmeal::parse(&t)), all_of(&f.held.doc));
                ensure!(a == b, "follower-page-differs", "{route:?}: a follower's whole document reads\n    {a}\n  when written out, and it is\n    {b}")
            }
            ensure!(again == b || !can, "follower-text-differs", "{route:?}: a follower's document reads\n    {again}\n  when written out, and the page is\n    {b}")
        }
        Ok(())
    }
    /// Still one tree, finite, and writable.
    fn whole(&self, d: &hotmeal::Document, route: &str) -> R<()> {
        let mut seen = std::collections::BTreeSet::new();
        let mut todo = vec![d.root];
        while let Some(n) = todo.pop() {
            ensure!(seen.insert(usize::from(n)), "not-a-tree", "{route:?}: a node of the document is reachable twice");
            for k in n.children(&d.arena) {
                ensure!(d.parent(k) == Some(n), "not-a-tree", "{route:?}: a node and its parent disagree");
                todo.push(k)
            }
            ensure!(seen.len() < 200_000, "not-a-tree", "{route:?}: the document has no end")
        }
        ensure!(d.body().is_some(), "no-body", "{route:?}: the document has no body");
        let _ = d.to_html();
        Ok(())
    }
}
impl Scenario for Server {
    fn name(&self) -> &'static str {
        self.name
    }
    fn run(&self, ch: &mut Choices, obs: &mut Obs) -> Result<(), Violation> {
        simcore::hashseed::set_thread_seed(ch.draw(S_ENV, 1 << 20));
        web_sys::dom::reset_ids();
        let mut c = |n: u64, d: u64| ch.chance(S_CFG, n, d);
        let feat = Feat {
            opaque: c(1, 3),
            opaque_rich: c(1, 4),
            svg: c(1, 4),
            exotic_attrs: c(1, 3),
            raw: c(1, 4),
            body_attrs: c(1, 3),
            comments: c(1, 2),
            same_words: c(1, 2),
            no_head_tag: c(1, 3),
            unicode: c(1, 3),
            pre: c(1, 4),
            max: 0,
            opaque_attr_edits: c(1, 2),
            opaque_toggle: c(1, 3),
            opaque_body: c(1, 3),
            ..Feat::default()
        }
        .more(&mut c);
        let torn = *ch.pick(S_CFG, &[0u64, 0, 10, 40]);
        let mut c = |n: u64, d: u64| ch.chance(S_CFG, n, d);
        let heads = c(1, 2);
        let feat = Feat { max: *ch.pick(S_CFG, &[6, 12, 30]), ..feat };
        let routes = *ch.pick(S_CFG, &[1usize, 2, 3, 5]);
        let steps = *ch.pick(S_CFG, &[10, 30, 60]);
        let edits = *ch.pick(S_CFG, &[1, 2, 6]);
        let loss = *ch.pick(S_CFG, &[0u64, 1, 2]);
        let mut fresh = 0;
        let mut docs: Vec<PageDoc> = (0..routes).map(|_| Gen { ch, f: &feat, s: S_DOC, fresh: &mut fresh }.doc()).collect();
        for d in &mut docs {
            while !expressible(&d.html()) {
                d.plainer()
            }
        }
        let mut r = Run {
            prop: self.prop,
            misfit: self.misfit,
            texts: docs.iter().map(|d| vec![d.html()]).collect(),
            docs,
            heads: vec![0; routes],
            solo: (0..routes).map(|_| LiveReloadServer::new()).collect(),
            server: LiveReloadServer::new(),
            model: Model::default(),
            followers: vec![],
            ch,
            obs,
            feat,
            fresh,
            routes,
            edits,
            torn,
        };
        let _ = r.prop;
        for step in 0..steps {
            let x = r.ch.idx(S_SCHED, r.routes);
            let op = r.ch.draw(S_SCHED, 24);
            r.obs.sim_time += 1;
            r.obs.sched(op * 8 + x as u64);
            match op {
                0..=1 => r.serve(x, heads)?,
                2..=6 => r.edit(x),
                7..=12 => {
                    r.edit(x);
                    r.refresh(x, heads)?
                }
                13..=14 => r.refresh(x, heads)?,
                15 => r.refresh(x, false)?,
                16..=19 => {
                    if !r.followers.is_empty() {
                        let i = r.ch.idx(S_SCHED, r.followers.len());
                        r.deliver(i)?
                    }
                }
                20 if heads => {
                    r.heads[x] = r.ch.idx(S_EDIT, HEADS.len());
                    if r.ch.chance(S_EDIT, 1, 3) {
                        r.head(x)?;
                    }
                }
                21 => {
                    let mut got = r.server.cached_routes();
                    got.sort();
                    let want: Vec<String> = r.model.html.keys().cloned().collect();
                    ensure!(got == want, "cached-routes", "cached_routes() is {got:?} and pages are cached for {want:?}")
                }
                22 if loss > 0 => {
                    let name = ROUTES[x];
                    let got = r.server.remove_route(name);
                    let _ = r.solo[x].remove_route(name);
                    let want = r.model.html.remove(name).is_some() | r.model.head.remove(name).is_some();
                    r.obs.log(|| format!("remove_route({name:?}) = {got}"));
                    r.obs.count("routes removed");
                    ensure!(got == want, "remove-route", "remove_route({name:?}) is {got} and something was cached: {want}");
                    for f in &mut r.followers {
                        if f.route == x && f.base.is_none() {
                            f.queue.clear()
                        }
                    }
                }
                23 if loss > 0 => {
                    let crash = loss > 1 && r.ch.chance(S_FAULT, 1, 2);
                    if crash {
                        r.obs.count("fault.server_crash");
                        r.server = LiveReloadServer::default();
                        r.solo = (0..routes).map(|_| LiveReloadServer::new()).collect()
                    } else {
                        r.obs.count("caches cleared");
                        r.server.clear();
                        r.solo.iter_mut().for_each(|s| s.clear())
                    }
                    r.obs.log(|| format!("{}", if crash { "the server crashes and starts over" } else { "clear()" }));
                    r.model = Model::default()
                }
                _ => {}
            }
            let _ = step;
        }
        // everybody catches up
        for i in 0..r.followers.len() {
            let mut left = 1000;
            while !r.followers[i].queue.is_empty() && left > 0 {
                r.deliver(i)?;
                left -= 1
            }
        }
        for x in 0..r.routes {
            let mut t = r.server.cached_routes();
            t.sort();
            r.obs.state(simcore::fnv(format!("{x}{t:?}{}", r.current(x)).as_bytes()));
        }
        let patched: u64 = r.followers.iter().map(|f| f.patched).sum();
        let known = r.obs.counts.get("pages patched").copied().unwrap_or(0);
        let mis = r.obs.counts.get("misfits applied somehow").copied().unwrap_or(0) + r.obs.counts.get("misfits refused").copied().unwrap_or(0);
        r.obs.nontrivial = if self.misfit { mis > 0 } else { known > 0 && patched + known > 0 };
        Ok(())
    }
}

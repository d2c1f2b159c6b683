//! One development server, its network, the browsers looking at it, and the author editing.
//!
//! Real code: `LiveReloadServer`, `loader_script`, `inject_into_head`, `diff_html`, the browser
//! client (`start_live_reload` and everything it calls), the native patch applier. Simulated: HTML
//! parser, DOM, sockets, RPC sessions, timers, the file watcher, the embedding server around
//! `LiveReloadServer`, and the people.
use crate::page::*;
use hotmeal_server::{LiveReloadBrowserClient, LiveReloadEvent, LiveReloadServer, LiveReloadService, LiveReloadServiceDispatcher};
use roam::Link;
use simcore::choices::*;
use simcore::{Choices, Obs, Violation};
use simrt::pipe::Pipe;
use simrt::{Realm, add, after, count, enter, kill, log, net, now, sleep, spawn};
use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::rc::Rc;
use web_sys::dom::{self, Kind, Ref};
use web_sys::sim::{self, Page, PageRef};

pub const HOST: Realm = 1;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Listener {
    /// nobody listens
    Nobody,
    /// the application shows the new content inside the element
    Show,
    /// a widget owns the inside of every opaque element
    Widget,
}
#[derive(Clone, Debug)]
pub struct Cfg {
    pub feat: Feat,
    pub routes: usize,
    pub tabs: usize,
    pub mount: bool,
    pub listener: Listener,
    /// pages are rendered when requested, else when the watcher reports
    pub render_on_request: bool,
    pub pipelined: bool,
    pub strict_names: bool,
    pub revisions: usize,
    pub edits_per_rev: usize,
    pub span: u64,
    pub head_edits: bool,
    pub opaque_edits: bool,
    pub hash_seed: u64,
    // faults
    pub latency: u64,
    pub stall: u64,
    pub cuts: usize,
    pub outages: usize,
    pub crashes: usize,
    pub reloads: usize,
    pub refuse: u64,
    pub lazy_watch: u64,
    pub foreign: usize,
    pub bad: usize,
    /// everything becomes unreachable this long before the end (0: not)
    pub long_outage: u64,
    /// per cent of the revisions that the watcher first sees half written
    pub torn: u64,
    /// follow every node of the pages
    pub identity: bool,
}

pub struct Rev {
    pub html: String,
    pub head: String,
    pub page: String,
    /// key, tag, what is inside, and the same to the letter (attribute order)
    opaques: Vec<(String, String, String, String)>,
}
struct Host {
    up: bool,
    server: LiveReloadServer,
    /// per route: how many events it caused, and the revision last noticed
    ver: BTreeMap<usize, u64>,
    seen: BTreeMap<usize, usize>,
    tokens: BTreeMap<u64, Token>,
    epoch: u64,
}
#[derive(Clone, Debug)]
struct Token {
    route: usize,
    ver: u64,
}
#[derive(Clone)]
struct Sent {
    ev: LiveReloadEvent,
    ver: u64,
    /// revision the page shows afterwards
    rev: usize,
    /// a faulty event: what the page does with it is not predicted
    bad: bool,
    /// a faulty event that means nothing: the page must ignore it
    noise: bool,
    reload: bool,
}
pub struct Conn {
    realm: Realm,
    epoch: u64,
    token: u64,
    to_host: Pipe,
    to_page: Pipe,
    open: bool,
    last: [u64; 2],
    client: Option<LiveReloadBrowserClient>,
    subscribed: bool,
    stale: bool,
    sent_ver: u64,
    queue: VecDeque<Sent>,
    busy: bool,
    sending: Option<Sent>,
    calls: BTreeMap<u64, Sent>,
    sub_reply: bool,
}
struct Attempt {
    start: u64,
    end: Option<u64>,
    ok: bool,
}
pub struct Replica {
    doc: hotmeal::Document<'static>,
    _src: Box<hotmeal::StrTendril>,
}
impl Replica {
    fn new(html: &str) -> Replica {
        let src = Box::new(hotmeal::StrTendril::from(html));
        // the box does not move and outlives the document
        let r: &'static hotmeal::StrTendril = unsafe { &*(&*src as *const _) };
        Replica { doc: hotmeal::parse(r), _src: src }
    }
}
struct Opq {
    el: Ref,
    src: Option<(String, String)>,
    dom: String,
    kids: Vec<Ref>,
}
struct Tab {
    route: usize,
    realm: Option<Realm>,
    page: Option<PageRef>,
    nav: u64,
    leaving: bool,
    /// when the page itself last asked to be loaded anew, since its last answered event
    asked: Option<u64>,
    rev: usize,
    tainted: bool,
    replica: Option<Replica>,
    opq: Vec<Opq>,
    seen: Option<crate::ident::Seen>,
    attempts: Vec<Attempt>,
    gap: u64,
    loads: u32,
    delivered: u64,
    answered: u64,
}
pub struct W {
    pub cfg: Cfg,
    docs: Vec<PageDoc>,
    fresh: u32,
    pub revs: Vec<Vec<Rev>>,
    host: Host,
    tabs: Vec<Tab>,
    conns: Vec<Conn>,
    next_realm: Realm,
    next_token: u64,
    reachable: bool,
    healed: bool,
    healed_at: u64,
    pub viol: Vec<(&'static str, Violation)>,
    notice: Vec<bool>,
    pub events: u64,
    pub compared: u64,
    pub opaque_checked: u64,
    pub kept: u64,
    pub gaps: u64,
    pub bad_done: u64,
}
thread_local! {
    static W_: RefCell<Option<W>> = const { RefCell::new(None) };
}
fn w<R>(f: impl FnOnce(&mut W) -> R) -> R {
    W_.with(|w| f(w.borrow_mut().as_mut().expect("a world")))
}
pub fn route_name(r: usize) -> String {
    ["/", "/a", "/a/"][r].to_string()
}

// ------------------------------------------------------------------ comparable form
/// What a page shows: no empty texts, no neighbouring texts, attributes in name order.
pub struct Canon {
    pub interiors: bool,
}
impl Canon {
    pub fn kids(&self, n: &Ref) -> String {
        if !self.interiors && n.get_attr("data-hotmeal-opaque").is_some() {
            return "(opaque)".into();
        }
        let mut o = String::new();
        let mut t = String::new();
        // what a template holds is not among its children
        if let Some(f) = n.el().and_then(|e| e.content.clone()) {
            o.push_str(&self.kids(&f));
            if !n.children.borrow().is_empty() {
                o.push_str("(and outside the template's content:)")
            }
        }
        for k in n.children.borrow().iter() {
            self.node(k, &mut o, &mut t)
        }
        flush(&mut o, &mut t);
        o
    }
    fn node(&self, n: &Ref, o: &mut String, t: &mut String) {
        match &n.kind {
            Kind::Text(s) => t.push_str(&s.borrow()),
            Kind::Comment(s) => {
                flush(o, t);
                o.push_str(&format!("<!{:?}>", s.borrow()))
            }
            Kind::Element(e) => {
                flush(o, t);
                let at: Vec<_> = e.attrs.borrow().iter().map(|a| (in_ns(&a.2, &a.0), a.1.clone())).collect();
                let opaque = at.iter().any(|a| a.0 == "data-hotmeal-opaque");
                self.el(ns_mark(&e.ns), &e.local, at, o);
                if opaque && !self.interiors {
                    o.push_str("(opaque)")
                } else {
                    o.push_str(&self.kids(n))
                }
                o.push_str("</>")
            }
            _ => {}
        }
    }
    fn el(&self, ns: &str, tag: &str, mut at: Vec<(String, String)>, o: &mut String) {
        at.sort();
        o.push_str(&format!("<{ns}{tag}"));
        for (k, v) in at {
            o.push_str(&format!(" {k}={v:?}"))
        }
        o.push('>')
    }
    pub fn native(&self, d: &hotmeal::Document, n: hotmeal::NodeId) -> String {
        if !self.interiors && matches!(&d.get(n).kind, hotmeal::NodeKind::Element(e) if native_attrs(e).iter().any(|a| a.0 == "data-hotmeal-opaque")) {
            return "(opaque)".into();
        }
        let mut o = String::new();
        let mut t = String::new();
        for k in n.children(&d.arena) {
            let x = d.get(k);
            match &x.kind {
                hotmeal::NodeKind::Text(s) => t.push_str(s.as_ref()),
                hotmeal::NodeKind::Comment(s) => {
                    flush(&mut o, &mut t);
                    o.push_str(&format!("<!{:?}>", s.as_ref() as &str))
                }
                hotmeal::NodeKind::Element(e) => {
                    flush(&mut o, &mut t);
                    let at = native_attrs(e);
                    let opaque = at.iter().any(|a| a.0 == "data-hotmeal-opaque");
                    let ns = match x.ns {
                        hotmeal::Namespace::Html => "",
                        hotmeal::Namespace::Svg => "svg:",
                        hotmeal::Namespace::MathMl => "math:",
                    };
                    self.el(ns, e.tag.as_ref(), at, &mut o);
                    if opaque && !self.interiors {
                        o.push_str("(opaque)")
                    } else {
                        o.push_str(&self.native(d, k))
                    }
                    o.push_str("</>")
                }
                _ => {}
            }
        }
        flush(&mut o, &mut t);
        o
    }
}
pub fn native_attrs(e: &hotmeal::ElementData) -> Vec<(String, String)> {
    e.attrs
        .iter()
        .map(|(q, v)| {
            let l: &str = q.local.as_ref();
            let name = match &q.prefix {
                Some(p) if !p.is_empty() => format!("{}:{l}", p as &str),
                _ => l.to_string(),
            };
            (in_ns(&q.ns, &name), v.as_ref().to_string())
        })
        .collect()
}
/// Attributes of one name in different namespaces are different attributes.
pub fn in_ns(ns: &str, name: &str) -> String {
    if ns.is_empty() { name.into() } else { format!("{{{ns}}}{name}") }
}
fn flush(o: &mut String, t: &mut String) {
    if !t.is_empty() {
        o.push_str(&format!("{t:?}"));
        t.clear()
    }
}
fn ns_mark(ns: &str) -> &'static str {
    match ns {
        dom::HTML => "",
        dom::SVG => "svg:",
        _ => "math:",
    }
}
fn attr_text(n: &Ref) -> String {
    let mut at: Vec<_> = n.el().map(|e| e.attrs.borrow().iter().map(|a| (in_ns(&a.2, &a.0), a.1.clone())).collect()).unwrap_or_default();
    at.sort();
    format!("{at:?}")
}
/// Opaque elements that lie in no other opaque element.
fn opaques(n: &Ref, out: &mut Vec<(Ref, String)>) {
    match n.get_attr("data-hotmeal-opaque") {
        Some(key) => out.push((n.clone(), key)),
        None => n.children.borrow().iter().for_each(|k| opaques(k, out)),
    }
}
/// Key, tag, what is inside, and the same to the letter.
fn opaque_content(root: &Ref) -> Vec<(String, String, String, String)> {
    let mut found = vec![];
    opaques(root, &mut found);
    found
        .into_iter()
        .map(|(el, key)| {
            let tag = el.el().unwrap().local.clone();
            let mut exact = String::new();
            dom::inner_html(&el, &mut exact);
            (key, tag, Canon { interiors: true }.kids(&el), exact)
        })
        .collect()
}
/// The one with this key; misnesting can make two of one.
fn only<'a>(os: &'a [(String, String, String, String)], key: &str) -> Option<&'a (String, String, String, String)> {
    let mut it = os.iter().filter(|o| o.0 == key);
    it.next().filter(|_| it.next().is_none())
}
/// Is the inside of every opaque element what its own innerHTML is read as?
fn all_expressible(os: &[(String, String, String, String)]) -> bool {
    os.iter().all(|(_, tag, inside, exact)| read_inside(tag, exact) == *inside)
}
pub fn expressible(html: &str) -> bool {
    sim::body(&dom::parse_document(html)).is_none_or(|b| all_expressible(&opaque_content(&b)))
}
fn read_inside(tag: &str, html: &str) -> String {
    let box_ = dom::element(tag, dom::HTML);
    for k in dom::parse_fragment(tag, html) {
        let _ = box_.append(&k);
    }
    Canon { interiors: true }.kids(&box_)
}
fn root_of(doc: &Ref, mount: bool) -> Option<Ref> {
    if mount {
        let b = sim::body(doc)?;
        b.children.borrow().iter().find(|c| c.get_attr("id").as_deref() == Some("mount")).cloned()
    } else {
        sim::body(doc)
    }
}
/// First difference, for messages.
fn differ(a: &str, b: &str) -> String {
    let i = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let cut = |s: &str| {
        let mut j = i.saturating_sub(60).min(s.len());
        while !s.is_char_boundary(j) {
            j -= 1
        }
        s[j..].chars().take(200).collect::<String>()
    };
    format!("\n    shows    …{}\n    expected …{}", cut(a), cut(b))
}

// ------------------------------------------------------------------ author
impl W {
    fn publish(&mut self, route: usize) {
        self.publish_part(route, u64::MAX)
    }
    /// The file as it stands when only its first `part` thousandths are written.
    fn publish_part(&mut self, route: usize, part: u64) {
        let rev = loop {
            let (rev, fit) = self.written(route, part);
            if fit {
                break rev;
            }
            count("pages rewritten: opaque content no HTML text stands for");
            self.docs[route].plainer()
        };
        log(|| format!("author: {} is now {}", route_name(route), rev.page));
        self.revs[route].push(rev)
    }
    /// The page as it is written, and whether HTML can write the inside of its opaque elements (the
    /// parser makes trees, like a link in a link, that no text stands for).
    fn written(&self, route: usize, part: u64) -> (Rev, bool) {
        let d = &self.docs[route];
        let mut rev = if self.cfg.mount {
            let inner = format!("<nav>site</nav><div id=\"mount\">{}</div><p>foot</p>", d.raw_inner());
            Rev { html: d.inner(), head: d.head(), page: d.around(&inner), opaques: vec![] }
        } else {
            let html = match part {
                u64::MAX => d.html(),
                k => d.torn(k),
            };
            let head = match (d.style, d.pro, part) {
                (Style::Full, 0, u64::MAX) => d.head(),
                (_, 0, u64::MAX) => String::new(),
                _ => head_text(&dom::parse_document(&html)),
            };
            Rev { head, page: html.clone(), html, opaques: vec![] }
        };
        let parsed = dom::parse_document(&rev.page);
        rev.opaques = root_of(&parsed, self.cfg.mount).map(|b| opaque_content(&b)).unwrap_or_default();
        let fit = all_expressible(&rev.opaques);
        (rev, fit)
    }
    fn latest(&self, route: usize) -> usize {
        self.revs[route].len() - 1
    }
    fn fail(&mut self, prop: &'static str, class: &str, text: String) {
        log(|| format!("!! {prop} {class}: {text}"));
        if self.viol.len() < 50 {
            self.viol.push((prop, Violation::new(class, text)))
        }
    }
}
fn edit_some(route: usize, part: u64) {
    // the generator needs the run's tape
    let (mut d, f, mut fresh, n) = w(|x| (x.docs[route].clone(), x.cfg.feat.clone(), x.fresh, x.cfg.edits_per_rev));
    let (head, opq) = w(|x| (x.cfg.head_edits, x.cfg.opaque_edits));
    let before = d.clone();
    let rt = simrt::rt();
    {
        let mut ch = rt.ch.borrow_mut();
        let n = ch.range(S_EDIT, 1, n as u64);
        let what = ch.draw(S_EDIT, 12);
        let k = if head && what >= 11 { 1 + ch.draw(S_EDIT, 3) as u8 } else { 0 };
        let mut g = Gen { ch: &mut ch, f: &f, s: S_EDIT, fresh: &mut fresh };
        let mut done = false;
        if opq && what % 3 == 1 {
            done = g.edit_opaque(&mut d)
        }
        if !done {
            for _ in 0..n {
                g.edit(&mut d)
            }
        }
        if k > 0 {
            match k {
                1 => d.title = format!("t{}x", g.fresh),
                2 => d.head_extra = (d.head_extra + 1) % 3,
                _ => d.title.push('y'),
            }
        }
        if d.count() > f.max * 4 {
            d = before;
            d.body.kids.pop();
            tidy(&mut d)
        }
    }
    w(|x| {
        x.docs[route] = d;
        x.fresh = fresh;
        x.publish_part(route, part)
    });
}
fn author_acts(route: usize) {
    let torn = w(|x| x.cfg.torn);
    if torn > 0 && simrt::fault(torn, 100) && !w(|x| x.healed) {
        // the watcher looks while the file is being written
        count("fault.file_seen_half_written");
        let part = simrt::draw(S_FAULT, 1000);
        edit_some(route, part);
        refresh(route);
        let d = net(0, 200);
        after(d, move || {
            w(|x| x.publish(route));
            if w(|x| x.healed) { refresh(route) } else { watched(route) }
        });
        return;
    }
    edit_some(route, u64::MAX);
    watched(route)
}
fn watched(route: usize) {
    count("revisions written");
    // the watcher reports later, and reports that come close together are one
    let wait = w(|x| {
        let lazy = x.cfg.lazy_watch;
        if x.notice[route] { None } else { Some(lazy) }
    });
    if let Some(lazy) = wait {
        w(|x| x.notice[route] = true);
        let d = if lazy == 0 { 0 } else { net(0, lazy) };
        after(d, move || {
            w(|x| x.notice[route] = false);
            refresh(route)
        });
    } else {
        count("watcher reports merged");
    }
}

// ------------------------------------------------------------------ the embedding server
/// Re-render one route and tell its subscribers.
fn refresh(route: usize) {
    let out = w(|x| {
        if !x.host.up {
            return None;
        }
        let rev = x.latest(route);
        if x.host.seen.get(&route) == Some(&rev) {
            return None;
        }
        let r = &x.revs[route][rev];
        let name = route_name(route);
        let ev = x.host.server.diff_route_with_head(&name, &r.html, &r.head);
        x.host.seen.insert(route, rev);
        log(|| format!("server: {name} revision {rev}: {}", ev.as_ref().map(ev_name).unwrap_or("nothing to send")));
        let ev = ev?;
        let v = x.host.ver.entry(route).or_insert(0);
        let before = *v;
        *v += 1;
        let v = *v;
        let reload = !matches!(ev, LiveReloadEvent::Patches { .. });
        let to: Vec<usize> = (0..x.conns.len())
            .filter(|c| {
                let c = &x.conns[*c];
                c.epoch == x.host.epoch && c.subscribed && !c.stale && c.sent_ver == before && x.host.tokens.get(&c.token).is_some_and(|t| t.route == route)
            })
            .collect();
        for c in &to {
            x.conns[*c].sent_ver = v
        }
        Some((to, Sent { ev, ver: v, rev, bad: false, noise: false, reload }))
    });
    if let Some((to, s)) = out {
        for c in to {
            push(c, s.clone())
        }
    }
}
fn ev_name(e: &LiveReloadEvent) -> &'static str {
    match e {
        LiveReloadEvent::Reload => "Reload",
        LiveReloadEvent::Patches { .. } => "Patches",
        LiveReloadEvent::HeadChanged { .. } => "HeadChanged",
    }
}
fn push(c: usize, s: Sent) {
    let go = w(|x| {
        let p = x.cfg.pipelined;
        let c = &mut x.conns[c];
        c.queue.push_back(s);
        if p || !c.busy {
            c.busy = true;
            true
        } else {
            false
        }
    });
    if go {
        spawn(HOST, pump(c))
    }
}
async fn pump(c: usize) {
    loop {
        let Some((client, ev, acked)) = w(|x| {
            let c = &mut x.conns[c];
            let client = c.client.clone()?;
            match c.queue.pop_front() {
                Some(s) => {
                    let (ev, acked) = (s.ev.clone(), (!s.bad && !s.reload).then_some(s.ver));
                    c.sending = Some(s);
                    Some((client, ev, acked))
                }
                None => {
                    c.busy = false;
                    None
                }
            }
        }) else {
            return;
        };
        let r = client.on_event(ev).await;
        if r.is_err() {
            count("fault.event_lost_with_its_connection");
            return;
        }
        // only an acknowledged event moves what the server believes the page shows
        if let Some(v) = acked {
            w(|x| {
                let t = x.conns[c].token;
                if let Some(t) = x.host.tokens.get_mut(&t) {
                    t.ver = v
                }
            })
        }
        if w(|x| x.cfg.pipelined) {
            return;
        }
    }
}
/// A browser asks for a page.
fn serve(route: usize) -> Option<(String, u64)> {
    if !w(|x| x.host.up) {
        return None;
    }
    let fresh = w(|x| x.cfg.render_on_request || !x.host.seen.contains_key(&route));
    if fresh {
        refresh(route)
    }
    w(|x| {
        let rev = x.host.seen[&route];
        let r = &x.revs[route][rev];
        let name = route_name(route);
        x.host.server.cache_html(&name, &r.html);
        x.host.server.cache_head_injections(&name, &r.head);
        let token = x.next_token;
        x.next_token += 1;
        let ver = *x.host.ver.entry(route).or_insert(0);
        x.host.tokens.insert(token, Token { route, ver });
        let sel = if x.cfg.mount { "#mount" } else { "body" };
        let script = hotmeal_server::loader_script("/hotmeal_wasm.js", "/hotmeal_wasm_bg.wasm", sel, &format!("ws://site.test/_lr?t={token}"));
        Some((hotmeal_server::inject_into_head(&r.page, &script), token))
    })
}
struct Svc {
    conn: usize,
}
impl LiveReloadService for Svc {
    async fn subscribe(&self, _cx: &roam::Context, route: String) {
        let c = self.conn;
        let stale = w(|x| {
            let r = (0..x.cfg.routes).find(|r| route_name(*r) == route);
            let t = x.host.tokens.get(&x.conns[c].token).cloned();
            let conn = &mut x.conns[c];
            conn.subscribed = true;
            match (r, t) {
                (Some(r), Some(t)) if t.route == r && x.host.ver.get(&r) == Some(&t.ver) => {
                    conn.sent_ver = t.ver;
                    None
                }
                (r, _) => {
                    conn.stale = true;
                    Some(r.map(|r| x.latest(r)).unwrap_or(0))
                }
            }
        });
        log(|| format!("server: connection {c} subscribes to {route}{}", if stale.is_some() { ", which it shows out of date" } else { "" }));
        if let Some(rev) = stale {
            count("stale subscriptions answered with Reload");
            push(c, Sent { ev: LiveReloadEvent::Reload, ver: 0, rev, bad: false, noise: false, reload: true })
        }
    }
}
struct HostSide(Link);
impl roam_session::Framed for HostSide {
    fn link(self) -> Link {
        self.0
    }
}
async fn serve_conn(c: usize, link: Link) {
    let d = LiveReloadServiceDispatcher::new(Svc { conn: c });
    let Ok((handle, _incoming, driver)) = roam_session::accept_framed(HostSide(link), Default::default(), d).await else {
        return;
    };
    w(|x| x.conns[c].client = Some(LiveReloadBrowserClient::new(handle)));
    let _ = driver.run().await;
    w(|x| {
        x.conns[c].subscribed = false;
        x.conns[c].client = None
    });
}
fn crash_host() {
    let cs = w(|x| {
        x.host.up = false;
        (0..x.conns.len()).filter(|c| x.conns[*c].open).collect::<Vec<_>>()
    });
    log(|| "server: crashed".into());
    kill(HOST);
    for c in cs {
        cut(c)
    }
}
fn start_host() {
    w(|x| {
        x.host = Host { up: true, server: LiveReloadServer::new(), ver: Default::default(), seen: Default::default(), tokens: Default::default(), epoch: x.host.epoch + 1 }
    });
    log(|| "server: started".into());
}

// ------------------------------------------------------------------ network
/// 0: page to server, 1: server to page
fn send(c: usize, dir: usize, m: Vec<u8>) {
    let (lat, stall, healed) = w(|x| (x.cfg.latency, x.cfg.stall, x.healed));
    let mut d = net(0, lat);
    if !healed && stall > 0 && simrt::chance(S_NET, stall, 100) {
        d += net(100, 3000);
        count("fault.message_stalled")
    }
    let wait = w(|x| {
        let c = &mut x.conns[c];
        if !c.open {
            return None;
        }
        let at = (now() + d).max(c.last[dir]);
        c.last[dir] = at;
        Some(at - now())
    });
    if let Some(d) = wait {
        after(d, move || deliver(c, dir, m))
    } else {
        count("messages sent into a dead connection")
    }
}
fn deliver(c: usize, dir: usize, m: Vec<u8>) {
    let p = w(|x| {
        let k = &mut x.conns[c];
        if !k.open {
            return None;
        }
        if dir == 1 {
            match roam::decode(&m) {
                Some((2, ..)) => k.sub_reply = true,
                Some((1, ..)) => {
                    let r = k.realm;
                    if let Some(t) = x.tabs.iter_mut().find(|t| t.realm == Some(r)) {
                        t.delivered += 1
                    }
                }
                _ => {}
            }
        }
        let k = &x.conns[c];
        Some(if dir == 0 { k.to_host.clone() } else { k.to_page.clone() })
    });
    match p {
        Some(p) => p.deliver(m),
        None => count("fault.message_lost_in_flight"),
    }
}
/// The connection breaks: what is under way is lost, each side learns of it in its own time.
fn cut(c: usize) {
    let was = w(|x| std::mem::replace(&mut x.conns[c].open, false));
    if !was {
        return;
    }
    log(|| format!("network: connection {c} is cut"));
    let late = w(|x| if x.healed { 20 } else { x.cfg.latency * 4 + 20 });
    let (a, b) = (net(0, late), net(0, late));
    // an orderly end on one side may well be an error on the other
    let (reset_a, reset_b) = (simrt::chance(S_NET, 1, 3), simrt::chance(S_NET, 1, 2));
    let end = |p: simrt::pipe::Pipe, reset: bool| {
        if reset {
            count("fault.connection_reset");
            p.reset()
        } else {
            p.close()
        }
    };
    after(a, move || {
        let p = w(|x| x.conns[c].to_host.clone());
        end(p, reset_a)
    });
    after(b, move || {
        let p = w(|x| {
            let k = &x.conns[c];
            let (realm, ok, p) = (k.realm, k.sub_reply, k.to_page.clone());
            x.attempt_ended(realm, ok);
            p
        });
        end(p, reset_b)
    });
}
impl W {
    fn tab_of(&mut self, realm: Realm) -> Option<&mut Tab> {
        self.tabs.iter_mut().find(|t| t.realm == Some(realm))
    }
    fn attempt_ended(&mut self, realm: Realm, ok: bool) {
        let t = now();
        if let Some(tab) = self.tab_of(realm)
            && let Some(a) = tab.attempts.last_mut()
            && a.end.is_none()
        {
            a.end = Some(t);
            a.ok = ok
        }
    }
    /// C14: how the client paces its connection attempts.
    fn attempt_started(&mut self, realm: Realm) {
        let t = now();
        let mut bad = None;
        let mut counted = false;
        if let Some(tab) = self.tab_of(realm) {
            if let Some(a) = tab.attempts.last() {
                match a.end {
                    None => bad = Some(("two-connections", format!("a page opens a connection at {t} ms while the one of {} ms is still open", a.start))),
                    Some(e) => {
                        let gap = t - e;
                        counted = true;
                        if gap < 100 {
                            bad = Some(("hot-reconnect", format!("a page reconnects {gap} ms after its connection ended at {e} ms")))
                        } else if gap > 5000 {
                            bad = Some(("slow-reconnect", format!("a page waits {gap} ms before it reconnects")))
                        } else if a.ok && gap > 100 {
                            bad = Some(("backoff-not-reset", format!("after a session that worked a page waits {gap} ms before it reconnects")))
                        } else if !a.ok && tab.gap > 0 && gap < (tab.gap * 2).min(5000) {
                            bad = Some(("backoff-not-growing", format!("after a failed attempt a page waits {gap} ms, before that attempt it had waited {} ms", tab.gap)))
                        } else if !a.ok && gap > (tab.gap * 2).max(100) {
                            bad = Some(("backoff-too-steep", format!("after a failed attempt a page waits {gap} ms, before that attempt it had waited {} ms", tab.gap)))
                        }
                        tab.gap = gap;
                    }
                }
            }
            tab.attempts.push(Attempt { start: t, end: None, ok: false })
        }
        if counted {
            self.gaps += 1
        }
        if let Some((c, m)) = bad {
            self.fail("C14", c, m)
        }
    }
}
async fn connect(url: String, realm: Realm) -> Result<Link, std::io::Error> {
    w(|x| x.attempt_started(realm));
    let (lat, refuse, healed) = w(|x| (x.cfg.latency, x.cfg.refuse, x.healed));
    sleep(net(1, lat.max(1))).await;
    let fault = !healed && refuse > 0 && simrt::fault(refuse, 100);
    let ok = w(|x| x.host.up && x.reachable) && !fault;
    let token = url.split("t=").nth(1).and_then(|t| t.parse().ok());
    let (true, Some(token)) = (ok, token) else {
        count("fault.connection_refused");
        w(|x| x.attempt_ended(realm, false));
        return Err(std::io::Error::new(std::io::ErrorKind::ConnectionRefused, "connection refused"));
    };
    let c = w(|x| {
        x.conns.push(Conn {
            realm,
            epoch: x.host.epoch,
            token,
            to_host: Pipe::default(),
            to_page: Pipe::default(),
            open: true,
            last: [0; 2],
            client: None,
            subscribed: false,
            stale: false,
            sent_ver: 0,
            queue: VecDeque::new(),
            busy: false,
            sending: None,
            calls: BTreeMap::new(),
            sub_reply: false,
        });
        x.conns.len() - 1
    });
    count("connections opened");
    log(|| format!("network: page {realm} has connection {c}"));
    let (ph, pp) = w(|x| (x.conns[c].to_host.clone(), x.conns[c].to_page.clone()));
    spawn(
        HOST,
        serve_conn(
            c,
            Link {
                rx: ph,
                tx: Rc::new(move |m| {
                    if let Some((1, id, ..)) = roam::decode(&m) {
                        w(|x| {
                            let k = &mut x.conns[c];
                            if let Some(s) = k.sending.take() {
                                k.calls.insert(id, s);
                            }
                        })
                    }
                    send(c, 1, m)
                }),
            },
        ),
    );
    Ok(Link {
        rx: pp,
        tx: Rc::new(move |m| {
            if let Some((2, id, ..)) = roam::decode(&m) {
                answered(c, id)
            }
            send(c, 0, m)
        }),
    })
}

// ------------------------------------------------------------------ browsers
fn load(tab: usize) {
    let nav = w(|x| {
        let t = &mut x.tabs[tab];
        t.nav += 1;
        t.nav
    });
    spawn(simrt::ENV, async move {
        loop {
            let lat = w(|x| x.cfg.latency);
            sleep(net(0, lat)).await;
            if w(|x| x.tabs[tab].nav) != nav {
                return;
            }
            let route = w(|x| x.tabs[tab].route);
            let got = if w(|x| x.reachable) { serve(route) } else { None };
            let Some((html, _token)) = got else {
                count("fault.page_load_refused");
                sleep(net(200, 800)).await;
                continue;
            };
            let rev = w(|x| x.host.seen[&route]);
            sleep(net(0, lat)).await;
            if w(|x| x.tabs[tab].nav) == nav {
                install(tab, &html, rev)
            }
            return;
        }
    });
}
fn leave(tab: usize) {
    let (realm, cs) = w(|x| {
        let t = &mut x.tabs[tab];
        let r = t.realm.take();
        t.page = None;
        t.replica = None;
        t.opq.clear();
        t.attempts.clear();
        t.gap = 0;
        t.delivered = 0;
        t.answered = 0;
        let cs: Vec<usize> = match r {
            Some(r) => (0..x.conns.len()).filter(|c| x.conns[*c].realm == r && x.conns[*c].open).collect(),
            None => vec![],
        };
        (r, cs)
    });
    if let Some(r) = realm {
        kill(r);
        sim::remove(r);
    }
    for c in cs {
        cut(c)
    }
}
/// The page asked for a reload, or the user did.
fn navigate(tab: usize) {
    let first = w(|x| !std::mem::replace(&mut x.tabs[tab].leaving, true));
    if !first {
        return;
    }
    count("page reloads");
    let d = net(1, 50);
    // until the new page arrives the old one goes on
    after(d, move || {
        leave(tab);
        load(tab)
    });
}
fn install(tab: usize, html: &str, rev: usize) {
    leave(tab);
    let realm = w(|x| {
        x.next_realm += 1;
        x.next_realm
    });
    let doc = dom::parse_document(html);
    let (route, mode) = w(|x| (x.tabs[tab].route, x.cfg.listener));
    let path = route_name(route);
    log(|| format!("browser: tab {tab} shows {path} revision {rev} as page {realm}"));
    let listener: Option<Rc<dyn Fn(&sim::Fired)>> = (mode == Listener::Show).then(|| {
        Rc::new(move |f: &sim::Fired| {
            if f.name == "hotmeal:opaque-changed"
                && let (Some(el), Some(c)) = (&f.element, &f.content)
            {
                set_inner(el, c)
            }
        }) as Rc<dyn Fn(&sim::Fired)>
    });
    let page = sim::install(realm, Page { doc: doc.clone(), path, on_reload: Rc::new(move || {
        w(|x| x.tabs[tab].asked = Some(now()));
        navigate(tab)
    }), events: vec![], console: vec![], listener });
    // what a browser finds in the page and runs
    let mut scripts = vec![];
    doc.each(&mut |n| {
        if n.is_el("script") && n.get_attr("type").as_deref() == Some("module") {
            scripts.push(n.text_content().unwrap_or_default())
        }
    });
    w(|x| {
        // the script comes first in the head, and nothing else of the page changes
        let src = dom::parse_document(&x.revs[route][rev].page);
        let (a, b) = (whole_page(&doc), whole_page(&src));
        if a != b {
            x.fail("C10", "script-changes-page", format!("with the loader script put in, revision {rev} of {} is no longer the same page:{}", route_name(route), differ(&a, &b)))
        } else if !starts_with_script(&doc) {
            x.fail("C10", "script-not-first", format!("the loader script does not come first in the head of revision {rev} of {}", route_name(route)))
        }
        count("loaded pages compared with their source");
        let mount = x.cfg.mount;
        let html = x.revs[route][rev].html.clone();
        let t = &mut x.tabs[tab];
        t.realm = Some(realm);
        t.page = Some(page);
        t.leaving = false;
        t.asked = None;
        t.tainted = false;
        t.rev = rev;
        t.loads += 1;
        t.replica = Some(if mount { Replica::new(&html) } else { Replica::new(&html) });
    });
    widgets(tab);
    snapshot(tab);
    for s in scripts {
        let Some(args) = s.split("start_live_reload(").nth(1).and_then(|a| a.split(");").next()) else { continue };
        let q: Vec<&str> = args.split('"').collect();
        if q.len() == 5 {
            let r = enter(realm, || hotmeal_wasm::start_live_reload(q[1], q[3]));
            if r.is_err() {
                w(|x| x.fail("C10", "client-start", "start_live_reload failed".into()))
            }
        }
    }
}
fn set_inner(el: &Ref, html: &str) {
    let tag = el.el().map(|e| e.local.clone()).unwrap_or_default();
    el.clear();
    for k in dom::parse_fragment(&tag, html) {
        let _ = el.append(&k);
    }
}
/// A widget takes over the inside of every opaque element it has not met before.
fn widgets(tab: usize) {
    w(|x| {
        if x.cfg.listener != Listener::Widget {
            return;
        }
        let t = &x.tabs[tab];
        let Some(p) = &t.page else { return };
        let Some(root) = root_of(&p.borrow().doc, x.cfg.mount) else { return };
        let mut found = vec![];
        opaques(&root, &mut found);
        for (el, key) in found {
            if !t.opq.iter().any(|o| Rc::ptr_eq(&o.el, &el)) {
                set_inner(&el, &format!("<i class=\"widget\">{key}</i>rendered<b>1</b><b>2</b>"));
                count("widgets mounted in opaque elements")
            }
        }
    })
}
fn snapshot(tab: usize) {
    w(|x| {
        let mount = x.cfg.mount;
        let t = &mut x.tabs[tab];
        let Some(p) = &t.page else { return };
        let Some(root) = root_of(&p.borrow().doc, mount) else { return };
        let mut found = vec![];
        opaques(&root, &mut found);
        t.seen = None;
        if x.cfg.identity && !t.tainted {
            let src = dom::parse_document(&x.revs[t.route][t.rev].page);
            t.seen = root_of(&src, mount).and_then(|s| crate::ident::Seen::of(&s, &root));
        }
        let src = &x.revs[t.route][t.rev].opaques;
        t.opq = found
            .into_iter()
            .map(|(el, key)| {
                let s = only(src, &key).map(|o| (o.2.clone(), o.3.clone()));
                let (dom, kids) = (Canon { interiors: true }.kids(&el), el.children.borrow().clone());
                Opq { el, src: s, dom, kids }
            })
            .collect();
    })
}
/// The page has dealt with one event; everything it did is visible.
fn answered(c: usize, id: u64) {
    let Some((tab, s, asked)) = w(|x| {
        let k = &mut x.conns[c];
        let s = k.calls.remove(&id)?;
        let realm = k.realm;
        let tab = x.tabs.iter().position(|t| t.realm == Some(realm))?;
        x.tabs[tab].answered += 1;
        x.events += 1;
        let asked = x.tabs[tab].asked.take() == Some(now());
        Some((tab, s, asked))
    }) else {
        return;
    };
    if s.bad {
        w(|x| {
            x.bad_done += 1;
            if !s.noise {
                x.tabs[tab].tainted = true;
                return;
            }
            if asked {
                x.fail("C15", "noise-reloads-page", format!("tab {tab} was loaded anew because of an event that cannot be decoded"));
                return;
            }
            let (mount, interiors) = (x.cfg.mount, x.cfg.listener == Listener::Show);
            let t = &x.tabs[tab];
            if t.tainted || t.leaving {
                return;
            }
            let Some(root) = t.page.as_ref().and_then(|p| root_of(&p.borrow().doc, mount)) else { return };
            let (rev, route) = (t.rev, t.route);
            let want = dom::parse_document(&x.revs[route][rev].page);
            let c = Canon { interiors };
            let (a, b) = (c.kids(&root), c.kids(&root_of(&want, mount).unwrap()));
            count("oracle.undecodable_event_ignored");
            if a != b {
                x.fail("C15", "noise-changed-page", format!("an event that cannot be decoded changed the page, which showed revision {rev}:{}", differ(&a, &b)))
            }
        });
        return;
    }
    if s.reload {
        return;
    }
    check_event(tab, &s)
}
fn check_event(tab: usize, s: &Sent) {
    let LiveReloadEvent::Patches { patches_blob, .. } = &s.ev else { return };
    w(|x| {
        let (mount, mode) = (x.cfg.mount, x.cfg.listener);
        let mut bad: Vec<(&'static str, &'static str, String)> = vec![];
        let t = &mut x.tabs[tab];
        // a page told to reload is about to be thrown away: what it does with later events is moot
        if t.tainted || t.leaving {
            return;
        }
        let route = t.route;
        let (from, to) = (t.rev, s.rev);
        t.rev = s.rev;
        let Some(p) = t.page.clone() else { return };
        let Some(root) = root_of(&p.borrow().doc, mount) else {
            bad.push(("C10", "mount-point-gone", "the element patches apply to is gone".into()));
            return;
        };
        let what = || format!("after the patches from revision {from} to revision {to} of {}", route_name(route));
        // ---- the two appliers agree
        if let Some(r) = &mut t.replica {
            match facet_postcard::from_slice::<Vec<hotmeal::Patch<'static>>>(patches_blob) {
                Ok(ps) => match r.doc.apply_patches(ps) {
                    Ok(()) => {
                        let c = Canon { interiors: false };
                        let a = c.kids(&root);
                        let b = r.doc.body().map(|b| c.native(&r.doc, b)).unwrap_or_default();
                        if a != b {
                            bad.push(("C11", "parity", format!("{} the browser's document and the native document differ:{}", what(), differ(&a, &b))))
                        }
                        if !mount && let Some(body) = r.doc.body() {
                            let mut at = match &r.doc.get(body).kind {
                                hotmeal::NodeKind::Element(e) => native_attrs(e),
                                _ => vec![],
                            };
                            at.sort();
                            let (a, b) = (attr_text(&root), format!("{at:?}"));
                            if a != b {
                                bad.push(("C11", "parity-root-attributes", format!("{} the body's attributes are {a} in the browser and {b} in the native document", what())))
                            }
                        }
                    }
                    Err(e) => bad.push(("C11", "native-error", format!("{} the native document reports {e:?}", what()))),
                },
                Err(_) => bad.push(("C11", "native-decode", "the patches cannot be decoded".into())),
            }
        }
        // ---- the page shows the revision
        let rev = &x.revs[route][to];
        let want = dom::parse_document(&rev.page);
        let want = root_of(&want, mount).unwrap();
        let c = Canon { interiors: mode == Listener::Show };
        let (a, b) = (c.kids(&root), c.kids(&want));
        if a != b {
            bad.push(("C10", "shows-wrong-content", format!("{} a page differs from that revision:{}", what(), differ(&a, &b))))
        } else if !mount && attr_text(&root) != attr_text(&want) {
            bad.push(("C10", "shows-wrong-body-attributes", format!("{} the body has {} and not {}", what(), attr_text(&root), attr_text(&want))))
        }
        x.compared += 1;
        // ---- what stays is the same node
        if x.cfg.identity {
            match (&x.tabs[tab].seen, crate::ident::Seen::of(&want, &root)) {
                (Some(old), Some(new)) => {
                    let (n, lost) = crate::ident::compare(old, &new);
                    for (k, n) in ["nodes kept: unchanged", "nodes kept: same position", "nodes kept: same content", "nodes kept: leaf", "nodes kept: same place", "nodes kept: only opaque"].iter().zip(n) {
                        x.kept += n;
                        add(k, n)
                    }
                    if let Some(l) = lost {
                        bad.push(("C18", "replaced", format!("{} {l}", what())))
                    }
                }
                _ => count("page not node for node its source"),
            }
        }
        // ---- opaque elements
        let events: Vec<sim::Fired> = std::mem::take(&mut p.borrow_mut().events);
        let mut found = vec![];
        opaques(&root, &mut found);
        let t = &x.tabs[tab];
        for (el, key) in &found {
            let src = only(&rev.opaques, key);
            let mine: Vec<&sim::Fired> = events.iter().filter(|f| Rc::ptr_eq(&f.target, el)).collect();
            let Some(src) = src else { continue };
            match t.opq.iter().find(|o| Rc::ptr_eq(&o.el, el)) {
                Some(old) => {
                    x.opaque_checked += 1;
                    let Some(old_src) = &old.src else { continue };
                    let changed = old_src.0 != src.2;
                    // the order of attributes is no content; an event for it is neither owed nor wrong
                    let respelt = old_src.1 != src.3;
                    if changed && mine.is_empty() {
                        bad.push(("C13", "change-not-announced", format!("{} the source inside opaque element {key} changed from {} to {} and no event was dispatched on it", what(), old_src.0, src.2)));
                    } else if changed && mine.len() > 1 {
                        bad.push(("C13", "change-announced-twice", format!("{} {} events for one change inside opaque element {key}", what(), mine.len())));
                    } else if !changed && !respelt && !mine.is_empty() {
                        bad.push(("C13", "announced-without-change", format!("{} the source inside opaque element {key} is the same and an event was dispatched on it", what())));
                    }
                    if changed {
                        count("opaque changes announced");
                    }
                    if let Some(f) = mine.first() {
                        let got = f.content.clone().unwrap_or_default();
                        let got = read_inside(&src.1, &got);
                        if got != src.2 {
                            bad.push(("C13", "wrong-content", format!("{} the event for opaque element {key} carries {got} and the source has {}", what(), src.2)));
                        }
                        if f.key.as_deref() != Some(key) || !f.element.as_ref().is_some_and(|e| Rc::ptr_eq(e, el)) || !f.bubbles || f.name != "hotmeal:opaque-changed" {
                            bad.push(("C13", "wrong-event", format!("{} the event for opaque element {key} has key {:?}", what(), f.key)));
                        }
                        if !f.connected {
                            bad.push(("C13", "event-out-of-page", format!("{} the event for opaque element {key} was dispatched while the element was not in the page", what())));
                        }
                    }
                    if mode != Listener::Show || !changed && !respelt {
                        let kids = el.children.borrow();
                        let same = kids.len() == old.kids.len() && kids.iter().zip(&old.kids).all(|(a, b)| Rc::ptr_eq(a, b));
                        if !same || (Canon { interiors: true }).kids(el) != old.dom {
                            bad.push(("C13", "interior-touched", format!("{} the inside of opaque element {key} was changed: it was {} and is {}", what(), old.dom, Canon { interiors: true }.kids(el))));
                        }
                    }
                }
                None => {
                    let now = Canon { interiors: true }.kids(el);
                    if now != src.2 {
                        bad.push(("C13", "new-element-incomplete", format!("{} the new opaque element {key} contains {now} and the source has {}", what(), src.2)));
                    }
                }
            }
        }
        for f in &events {
            if !found.iter().any(|(el, _)| Rc::ptr_eq(el, &f.target)) {
                bad.push(("C13", "event-on-wrong-element", format!("{} an event was dispatched on something that is not an opaque element of the page", what())));
            }
        }
        for (p, c, m) in bad {
            x.fail(p, c, m)
        }
    });
    widgets(tab);
    snapshot(tab);
}

// ------------------------------------------------------------------ faults
fn some_conn() -> Option<usize> {
    let open: Vec<usize> = w(|x| (0..x.conns.len()).filter(|c| x.conns[*c].open).collect());
    (!open.is_empty()).then(|| open[simrt::draw(S_FAULT, open.len() as u64) as usize])
}
fn fault(kind: u64) {
    if w(|x| x.healed) {
        return;
    }
    match kind {
        0 => {
            if let Some(c) = some_conn() {
                count("fault.connection_cut");
                cut(c)
            }
        }
        1 => {
            if w(|x| std::mem::replace(&mut x.reachable, false)) {
                count("fault.server_unreachable");
                let open: Vec<usize> = w(|x| (0..x.conns.len()).filter(|c| x.conns[*c].open).collect());
                for c in open {
                    cut(c)
                }
                let d = simrt::range(S_FAULT, 50, 9000);
                after(d, || w(|x| x.reachable = true));
            }
        }
        2 => {
            if w(|x| x.host.up) {
                count("fault.server_crash");
                crash_host();
                let d = simrt::range(S_FAULT, 10, 6000);
                after(d, || {
                    if !w(|x| x.host.up) {
                        start_host()
                    }
                });
            }
        }
        3 => {
            let n = w(|x| x.tabs.len()) as u64;
            let t = simrt::draw(S_FAULT, n) as usize;
            count("fault.user_reloads_the_page");
            navigate(t)
        }
        4 => {
            // something else in the page changes it behind the client's back
            let n = w(|x| x.tabs.len()) as u64;
            let t = simrt::draw(S_FAULT, n) as usize;
            let (how, at) = (simrt::draw(S_FAULT, 4), simrt::draw(S_FAULT, 1000) as usize);
            w(|x| {
                let mount = x.cfg.mount;
                let tab = &mut x.tabs[t];
                let Some(p) = &tab.page else { return };
                let Some(root) = root_of(&p.borrow().doc, mount) else { return };
                let mut all = vec![];
                root.each(&mut |n| all.push(n.clone()));
                count("fault.page_content_changed_from_outside");
                tab.tainted = true;
                match how {
                    0 => {
                        let _ = root.append(&dom::element("div", dom::HTML));
                    }
                    1 => {
                        let first = root.child(0);
                        let _ = root.insert_before(&dom::text("intruder"), first.as_ref());
                    }
                    2 => root.clear(),
                    _ => {
                        let n = all[at % all.len()].clone();
                        if !Rc::ptr_eq(&n, &root) {
                            n.detach()
                        }
                    }
                }
            })
        }
        _ => {
            // an event that does not fit: undecodable, of an older revision, of another route
            let Some(c) = some_conn() else { return };
            if w(|x| x.conns[c].client.is_none() || !x.conns[c].subscribed) {
                return;
            }
            let how = simrt::draw(S_FAULT, 4);
            let (a, b) = (simrt::draw(S_FAULT, 1000) as usize, simrt::draw(S_FAULT, 1000) as usize);
            let r = simrt::draw(S_FAULT, w(|x| x.cfg.routes) as u64) as usize;
            let blob = w(|x| {
                let n = x.revs[r].len();
                let (old, new) = (hotmeal::StrTendril::from(x.revs[r][a % n].html.as_str()), hotmeal::StrTendril::from(x.revs[r][b % n].html.as_str()));
                match hotmeal::diff_html(&old, &new) {
                    Ok(ps) => {
                        let ps: Vec<hotmeal::Patch<'static>> = ps.into_iter().map(|p| p.into_owned()).collect();
                        facet_postcard::to_vec(&ps).unwrap()
                    }
                    Err(_) => vec![],
                }
            });
            let blob = match how {
                0 => vec![0xff; a % 7],
                1 => {
                    let n = blob.len();
                    blob[..a % n.max(1)].to_vec()
                }
                _ => blob,
            };
            let noise = facet_postcard::from_slice::<Vec<hotmeal::Patch<'static>>>(&blob).is_err();
            count(if noise { "fault.undecodable_patches" } else { "fault.patches_for_another_state" });
            let route = route_name(r);
            push(c, Sent { ev: LiveReloadEvent::Patches { route, patches_blob: blob }, ver: 0, rev: 0, bad: true, noise, reload: false })
        }
    }
}

// ------------------------------------------------------------------ one run
pub struct Outcome {
    pub viol: Vec<(&'static str, Violation)>,
    pub compared: u64,
    pub opaque_checked: u64,
    pub kept: u64,
    pub gaps: u64,
    pub bad: u64,
}
const SETTLE: u64 = 30_000;

pub fn run(cfg: Cfg, ch: &mut Choices, obs: &mut Obs) -> Outcome {
    simcore::hashseed::set_thread_seed(cfg.hash_seed);
    dom::reset_ids();
    dom::STRICT_NAMES.set(cfg.strict_names);
    sim::clear();
    let mut docs = vec![];
    let mut fresh = 0;
    for _ in 0..cfg.routes {
        docs.push(Gen { ch, f: &cfg.feat, s: S_DOC, fresh: &mut fresh }.doc())
    }
    let out = simrt::with_runtime(ch, obs, || {
        let host = Host { up: false, server: LiveReloadServer::new(), ver: Default::default(), seen: Default::default(), tokens: Default::default(), epoch: 0 };
        let tabs = (0..cfg.tabs)
            .map(|i| Tab { route: i % cfg.routes, realm: None, page: None, nav: 0, leaving: false, asked: None, rev: 0, tainted: false, replica: None, opq: vec![], seen: None, attempts: vec![], gap: 0, loads: 0, delivered: 0, answered: 0 })
            .collect();
        let revs = (0..cfg.routes).map(|_| vec![]).collect();
        let notice = vec![false; cfg.routes];
        W_.with(|x| {
            *x.borrow_mut() = Some(W {
                cfg: cfg.clone(),
                docs,
                fresh,
                revs,
                host,
                tabs,
                conns: vec![],
                next_realm: 10,
                next_token: 1,
                reachable: true,
                healed: false,
                healed_at: 0,
                viol: vec![],
                notice,
                events: 0,
                compared: 0,
                opaque_checked: 0,
                kept: 0,
                gaps: 0,
                bad_done: 0,
            })
        });
        roam_websocket::set_network(Some(Rc::new(|url: &str| Box::pin(connect(url.to_string(), simrt::current())))));
        let out = drive(&cfg);
        roam_websocket::set_network(None);
        // pages hold futures that touch the world while they are dropped
        let tabs = w(|x| x.tabs.len());
        for t in 0..tabs {
            leave(t)
        }
        kill(HOST);
        out
    });
    W_.with(|x| *x.borrow_mut() = None);
    sim::clear();
    out
}
fn drive(cfg: &Cfg) -> Outcome {
    log(|| format!("config: {cfg:?}"));
    for r in 0..cfg.routes {
        w(|x| x.publish(r))
    }
    start_host();
    for t in 0..cfg.tabs {
        let d = net(0, 300);
        after(d, move || load(t))
    }
    for _ in 0..cfg.revisions {
        let (at, r) = (simrt::range(S_EDIT, 0, cfg.span), simrt::draw(S_EDIT, cfg.routes as u64) as usize);
        after(at, move || author_acts(r))
    }
    for (kind, n) in [(0, cfg.cuts), (1, cfg.outages), (2, cfg.crashes), (3, cfg.reloads), (4, cfg.foreign), (5, cfg.bad)] {
        for _ in 0..n {
            let at = simrt::range(S_FAULT, 0, cfg.span);
            after(at, move || fault(kind))
        }
    }
    if cfg.long_outage > 0 {
        let at = cfg.span.saturating_sub(cfg.long_outage);
        after(at, || {
            if !w(|x| x.healed) {
                count("fault.long_outage");
                w(|x| x.reachable = false);
                let open: Vec<usize> = w(|x| (0..x.conns.len()).filter(|c| x.conns[*c].open).collect());
                for c in open {
                    cut(c)
                }
            }
        })
    }
    let span = cfg.span;
    after(span, || {
        log(|| "-- faults and edits are over".into());
        w(|x| {
            x.healed = true;
            x.healed_at = now();
            x.reachable = true
        });
        if !w(|x| x.host.up) {
            start_host()
        }
        let (routes, dirty) = w(|x| (x.cfg.routes, x.cfg.foreign + x.cfg.bad > 0));
        for r in 0..routes {
            if dirty {
                // one change that makes every page load anew
                w(|x| {
                    x.docs[r].title.push('z');
                    x.docs[r].style = Style::Full;
                    x.publish(r)
                })
            }
            refresh(r)
        }
    });
    after(span + SETTLE, || {});
    let mut steps = 0u64;
    while now() < span + SETTLE {
        if !simrt::step() {
            break;
        }
        steps += 1;
        if steps > 400_000 {
            w(|x| x.fail("C10", "never-quiet", "the system is still busy after 400000 steps".into()));
            break;
        }
    }
    let panics = simrt::panics();
    let rt = simrt::rt();
    rt.obs.borrow_mut().sim_time += now();
    w(|x| {
        for (realm, p) in panics {
            let who = if realm == HOST { "server" } else { "page" };
            let class = if realm == HOST { "server-panic" } else { "page-panic" };
            for prop in ["C10", "C15"] {
                x.fail(prop, class, format!("the {who} panicked: {p}"))
            }
        }
        let mut bad = vec![];
        for (i, t) in x.tabs.iter().enumerate() {
            let rev = x.latest(t.route);
            let r = &x.revs[t.route][rev];
            let name = route_name(t.route);
            let Some(p) = &t.page else {
                bad.push(("no-page", format!("tab {i} shows nothing")));
                continue;
            };
            let doc = p.borrow().doc.clone();
            let conns = x.conns.iter().filter(|c| Some(c.realm) == t.realm && c.open && c.subscribed).count();
            if conns != 1 {
                bad.push(("not-subscribed", format!("{SETTLE} ms after the last fault tab {i} has {conns} live subscriptions")))
            }
            if t.delivered != t.answered && !t.leaving {
                bad.push(("event-unanswered", format!("tab {i} received {} events on its page and answered {}", t.delivered, t.answered)))
            }
            let want = dom::parse_document(&r.page);
            let c = Canon { interiors: x.cfg.listener == Listener::Show };
            match (root_of(&doc, x.cfg.mount), root_of(&want, x.cfg.mount)) {
                (Some(a), Some(b)) => {
                    let (ta, tb) = (c.kids(&a), c.kids(&b));
                    if ta != tb {
                        bad.push(("diverged", format!("{SETTLE} ms after the last edit and fault tab {i} does not show the latest revision of {name}:{}", differ(&ta, &tb))))
                    } else if attr_text(&a) != attr_text(&b) {
                        bad.push(("diverged-body-attributes", format!("tab {i}: {name}: the body has {} and not {}", attr_text(&a), attr_text(&b))))
                    }
                }
                _ => bad.push(("diverged", format!("tab {i} has no body"))),
            }
            let (ha, hb) = (head_text(&doc), head_text(&want));
            if ha != hb {
                bad.push(("diverged-head", format!("tab {i}: {name}: head is {ha} and not {hb}")))
            }
        }
        for (c, m) in bad {
            let dirty = x.cfg.foreign + x.cfg.bad > 0;
            let only14 = c == "not-subscribed";
            x.fail(if dirty { "C15" } else { "C10" }, c, m.clone());
            if only14 {
                x.fail("C14", c, m)
            }
        }
        let dig = x.tabs.iter().fold(0u64, |h, t| simcore::mix(h, simcore::fnv(format!("{}:{}:{}", t.rev, t.loads, t.delivered).as_bytes())));
        // what every tab shows in the end
        let shown = x.tabs.iter().fold(dig, |h, t| simcore::mix(h, simcore::fnv(x.revs[t.route][x.latest(t.route)].page.as_bytes())));
        rt.obs.borrow_mut().state(shown);
        rt.obs.borrow_mut().sched(simcore::mix(dig, steps));
        Outcome { viol: std::mem::take(&mut x.viol), compared: x.compared, opaque_checked: x.opaque_checked, kept: x.kept, gaps: x.gaps, bad: x.bad_done }
    })
}
/// The head without what the server put there.
fn head_text(doc: &Ref) -> String {
    let Some(html) = doc.children.borrow().iter().find(|c| c.is_el("html")).cloned() else { return String::new() };
    let Some(head) = html.children.borrow().iter().find(|c| c.is_el("head")).cloned() else { return String::new() };
    let copy = sim::clone_node(&head, true);
    // comments and spaces before <html> land in a head that the loader script opened
    let idle = |n: &Ref| match &n.kind {
        Kind::Comment(_) => true,
        Kind::Text(t) => t.borrow().trim().is_empty(),
        _ => n.is_el("script") && n.get_attr("type").as_deref() == Some("module"),
    };
    let gone: Vec<Ref> = copy.children.borrow().iter().filter(|n| idle(n)).cloned().collect();
    for g in gone {
        g.detach()
    }
    Canon { interiors: true }.kids(&copy)
}
fn part(doc: &Ref, name: &str) -> Option<Ref> {
    let html = doc.children.borrow().iter().find(|c| c.is_el("html")).cloned()?;
    if name == "html" {
        return Some(html);
    }
    let found = html.children.borrow().iter().find(|c| c.is_el(name)).cloned();
    found
}
/// Everything about a page but the loader script, and comments and spaces outside the body.
fn whole_page(doc: &Ref) -> String {
    let doctype = doc.children.borrow().iter().any(|c| matches!(c.kind, Kind::Doctype(_)));
    let at = |n: &str| part(doc, n).map(|e| attr_text(&e)).unwrap_or_default();
    let body = part(doc, "body").map(|b| Canon { interiors: true }.kids(&b)).unwrap_or_default();
    format!("doctype {doctype} html {} head {} {} body {} {body}", at("html"), at("head"), head_text(doc), at("body"))
}
fn starts_with_script(doc: &Ref) -> bool {
    let Some(head) = part(doc, "head") else { return false };
    let first = head.children.borrow().first().cloned();
    first.is_some_and(|n| n.is_el("script") && n.get_attr("type").as_deref() == Some("module"))
}

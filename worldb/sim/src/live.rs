//! A document that lives long: its owner edits it in place through the document API, publishes the
//! difference every now and then, and followers (native documents and browser pages) apply the
//! patches as they trickle in, one at a time or a few at once, over a bad network.
use crate::page::*;
use crate::server::Held;
use crate::world::{Canon, in_ns, native_attrs};
use hotmeal::{LocalName, NodeId, NodeKind, Patch, QualName, ns};
use simcore::choices::*;
use simcore::{Choices, Obs, Scenario, Violation};
use simrt::{after, chance, count, draw, enter, log, net, now, range};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use web_sys::dom::{self, Ref};
use web_sys::sim::{self, Page, PageRef};

pub struct Living {
    pub name: &'static str,
    pub faults: bool,
}

// ------------------------------------------------------------------ what the document should be
#[derive(Clone, PartialEq, Debug)]
enum Mk {
    El { tag: String, plain: bool, attrs: Vec<(String, String)> },
    Text(String),
    Comment(String),
    Other,
}
struct Mn {
    id: NodeId,
    kind: Mk,
    up: Option<usize>,
    kids: Vec<usize>,
}
/// The owner's document as it should be after each call.
#[derive(Default)]
struct Model {
    n: Vec<Mn>,
    loose: Vec<usize>,
}
const RAW: &[&str] = &["script", "style", "textarea", "title", "xmp", "iframe", "noembed", "noframes", "noscript", "plaintext", "template", "br", "img", "hr", "input", "head", "col", "wbr"];

fn kind_of(d: &hotmeal::Document, n: NodeId) -> Mk {
    let x = d.get(n);
    match &x.kind {
        NodeKind::Element(e) => {
            let tag: &str = e.tag.as_ref();
            let plain = x.ns == hotmeal::Namespace::Html && !RAW.contains(&tag);
            Mk::El { tag: tag.into(), plain, attrs: native_attrs(e) }
        }
        NodeKind::Text(t) => Mk::Text(t.as_ref().to_string()),
        NodeKind::Comment(t) => Mk::Comment(t.as_ref().to_string()),
        _ => Mk::Other,
    }
}
impl Model {
    fn of(d: &hotmeal::Document) -> Model {
        let mut m = Model::default();
        m.take(d, d.root, None);
        m
    }
    fn take(&mut self, d: &hotmeal::Document, id: NodeId, up: Option<usize>) -> usize {
        let i = self.new_node(id, kind_of(d, id));
        self.n[i].up = up;
        let kids: Vec<NodeId> = d.children(id).collect();
        for k in kids {
            let c = self.take(d, k, Some(i));
            self.n[i].kids.push(c)
        }
        i
    }
    fn new_node(&mut self, id: NodeId, kind: Mk) -> usize {
        self.n.push(Mn { id, kind, up: None, kids: vec![] });
        self.n.len() - 1
    }
    fn unlink(&mut self, i: usize) {
        if let Some(p) = self.n[i].up.take() {
            self.n[p].kids.retain(|k| *k != i)
        }
        self.loose.retain(|k| *k != i)
    }
    fn link(&mut self, p: usize, at: usize, i: usize) {
        self.n[p].kids.insert(at, i);
        self.n[i].up = Some(p)
    }
    fn under(&self, top: usize) -> Vec<usize> {
        let mut out = vec![];
        let mut todo = vec![top];
        while let Some(i) = todo.pop() {
            out.push(i);
            todo.extend(self.n[i].kids.iter().rev())
        }
        out
    }
    fn is_under(&self, mut i: usize, top: usize) -> bool {
        loop {
            if i == top {
                return true;
            }
            match self.n[i].up {
                Some(p) => i = p,
                None => return false,
            }
        }
    }
    fn body(&self) -> Option<usize> {
        self.n[0].kids.iter().copied().find(|k| matches!(&self.n[*k].kind, Mk::El { tag, .. } if tag == "body"))
    }
    /// Everything below the body, where elements can be put.
    fn plain(&self) -> Vec<usize> {
        let Some(b) = self.body() else { return vec![] };
        let mut out = vec![];
        let mut todo = vec![b];
        while let Some(i) = todo.pop() {
            if matches!(&self.n[i].kind, Mk::El { plain: true, .. }) {
                out.push(i);
                todo.extend(self.n[i].kids.iter().rev())
            }
        }
        out
    }
    /// Nodes that can be taken out or changed: all children of plain elements.
    fn movable(&self) -> Vec<usize> {
        self.plain().into_iter().flat_map(|p| self.n[p].kids.clone()).collect()
    }
    /// The first difference between the document and what it should be.
    fn differs(&self, d: &hotmeal::Document) -> Option<String> {
        let mut tops = vec![0];
        tops.extend(&self.loose);
        for t in tops {
            for i in self.under(t) {
                let m = &self.n[i];
                let id = m.id;
                let (got, want) = (kind_of(d, id), &m.kind);
                if &got != want {
                    return Some(format!("a node is {got:?} and should be {want:?}"));
                }
                let want: Vec<NodeId> = m.kids.iter().map(|k| self.n[*k].id).collect();
                let got: Vec<NodeId> = d.children(id).collect();
                if got != want {
                    return Some(format!("the children of {:?} are {got:?} and should be {want:?}", m.kind));
                }
                if d.child_count(id) != want.len() || d.first_child(id) != want.first().copied() || d.last_child(id) != want.last().copied() {
                    return Some(format!("{:?} disagrees with itself about its children", m.kind));
                }
                let up = m.up.map(|p| self.n[p].id);
                let up = if i == 0 { d.parent(id) } else { up };
                let (l, r) = match m.up {
                    Some(p) => {
                        let s = &self.n[p].kids;
                        let at = s.iter().position(|k| *k == i).unwrap();
                        (at.checked_sub(1).map(|x| self.n[s[x]].id), s.get(at + 1).map(|x| self.n[*x].id))
                    }
                    None if i == 0 => (d.prev_sibling(id), d.next_sibling(id)),
                    None => (None, None),
                };
                if d.parent(id) != up || d.prev_sibling(id) != l || d.next_sibling(id) != r {
                    return Some(format!("{:?} has parent {:?}, neighbours {:?} and {:?}; it should be {up:?}, {l:?} and {r:?}", m.kind, d.parent(id), d.prev_sibling(id), d.next_sibling(id)));
                }
            }
        }
        None
    }
}

// ------------------------------------------------------------------ the system
#[derive(Clone, Debug)]
struct Cfg {
    feat: Feat,
    followers: usize,
    edits: usize,
    publishes: usize,
    span: u64,
    latency: u64,
    loss: u64,
    dup: u64,
    chunk: usize,
    crashes: usize,
    author_crashes: usize,
    empty_start: bool,
    body_edits: bool,
    /// some followers hold the content in an element of a larger page: the body has no attributes then
    mounts: bool,
    hash_seed: u64,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum How {
    Native,
    Body,
    Mount,
}
#[derive(Clone)]
struct Msg {
    sess: u64,
    seq: u64,
    rev: usize,
    body: Part,
}
#[derive(Clone)]
enum Part {
    Blob(Vec<u8>, bool),
    Json(String, bool),
}
struct Session {
    follower: usize,
    nonce: u64,
    html: String,
    /// the follower's document as the owner knows it; patched one by one and all at once
    mirror: Held,
    whole: Held,
    json: bool,
    out: Vec<Msg>,
    acked: u64,
    /// what the follower has to look like after each patch of each revision
    steps: BTreeMap<usize, Vec<String>>,
}
struct Owner {
    up: bool,
    live: Held,
    model: Model,
    saved: String,
    rev: usize,
    sessions: BTreeMap<u64, Session>,
    /// a document that had no body at first
    twin: Held,
}
struct Follower {
    how: How,
    /// applies a revision in one go once it is complete
    whole: bool,
    up: bool,
    nonce: u64,
    sess: Option<u64>,
    doc: Option<Held>,
    page: Option<(u32, PageRef)>,
    nslots: HashMap<u32, NodeId>,
    bslots: hotmeal_wasm::Slots,
    next: u64,
    buf: BTreeMap<u64, Msg>,
    pending: Vec<Part>,
    rev: usize,
    at: usize,
    fresh: bool,
}
struct S {
    cfg: Cfg,
    me: std::rc::Weak<RefCell<S>>,
    fresh: u32,
    next_id: u64,
    owner: Owner,
    f: Vec<Follower>,
    healed: bool,
    viol: Option<Violation>,
    shows: BTreeMap<usize, String>,
    applied: u64,
    completed: u64,
}
fn put_doctype(html: String) -> String {
    if html.starts_with("<!DOCTYPE") { html } else { format!("<!DOCTYPE html>{html}") }
}
/// The body's attributes and content.
fn face(d: &hotmeal::Document) -> String {
    match d.body() {
        Some(b) => {
            let mut at = match &d.get(b).kind {
                NodeKind::Element(e) => native_attrs(e),
                _ => vec![],
            };
            at.sort();
            format!("{at:?}\n      {}", Canon { interiors: false }.native(d, b))
        }
        None => "(no body)\n      ".into(),
    }
}
/// A document without a body shows what any empty body shows.
fn same(got: &str, want: &str) -> bool {
    got == want || [got, want].iter().any(|x| x.starts_with("(no body)")) && got.split_once('\n').map(|x| x.1) == want.split_once('\n').map(|x| x.1)
}
fn page_face(how: How, p: &PageRef) -> Option<String> {
    let doc = p.borrow().doc.clone();
    let root = top(how, &doc)?;
    let mut at: Vec<_> = root.el().map(|e| e.attrs.borrow().iter().filter(|a| how == How::Body || a.0 != "id" || a.1 != "mount").map(|a| (a.0.clone(), a.1.clone())).collect()).unwrap_or_default();
    at.sort();
    Some(format!("{at:?}\n      {}", Canon { interiors: false }.kids(&root)))
}
fn top(how: How, doc: &Ref) -> Option<Ref> {
    let b = sim::body(doc)?;
    if how == How::Body {
        return Some(b);
    }
    let k = b.children.borrow().iter().find(|k| k.is_el("main")).cloned();
    k
}
impl S {
    fn fail(&mut self, class: &str, text: String) {
        log(|| format!("!! {class}: {text}"));
        if self.viol.is_none() {
            self.viol = Some(Violation::new(class, text))
        }
    }
    fn later(&self, d: u64, f: impl FnOnce(&mut S) + 'static) {
        let me = self.me.clone();
        after(d, move || {
            if let Some(s) = me.upgrade() {
                let mut s = s.borrow_mut();
                if s.viol.is_none() {
                    f(&mut s)
                }
            }
        })
    }
    fn id(&mut self) -> u64 {
        self.next_id += 1;
        self.next_id
    }
    // -------------------------------------------------------------- owner
    fn words(&mut self) -> String {
        let k = draw(S_EDIT, 14) as usize;
        match k {
            0..=5 => ["alpha", "beta", "a < b & c", "\u{1f980} \u{e9}", " ", "it's \"q\""][k].to_string(),
            6 if !self.cfg.feat.pre => String::new(),
            _ => {
                self.fresh += 1;
                format!("w{}", self.fresh)
            }
        }
    }
    fn pick(xs: &[usize]) -> Option<usize> {
        if xs.is_empty() { None } else { Some(xs[draw(S_EDIT, xs.len() as u64) as usize]) }
    }
    /// Put a node somewhere, unless it would end up inside itself.
    fn place(&mut self, i: usize) {
        let o = &mut self.owner;
        let spots: Vec<usize> = o.model.plain().into_iter().filter(|p| !o.model.is_under(*p, i)).collect();
        let Some(p) = S::pick(&spots) else {
            if o.model.n[i].up.is_none() && !o.model.loose.contains(&i) {
                o.model.loose.push(i)
            }
            return;
        };
        let id = o.model.n[i].id;
        let sibs: Vec<usize> = o.model.n[p].kids.iter().copied().filter(|k| *k != i).collect();
        let d = &mut o.live.doc;
        let how = draw(S_EDIT, 3);
        match (how, S::pick(&sibs)) {
            (1, Some(s)) => {
                d.insert_before(o.model.n[s].id, id);
                o.model.unlink(i);
                let at = o.model.n[p].kids.iter().position(|k| *k == s).unwrap();
                o.model.link(p, at, i)
            }
            (2, Some(s)) => {
                d.insert_after(o.model.n[s].id, id);
                o.model.unlink(i);
                let at = o.model.n[p].kids.iter().position(|k| *k == s).unwrap();
                o.model.link(p, at + 1, i)
            }
            _ => {
                d.append_child(o.model.n[p].id, id);
                o.model.unlink(i);
                let at = o.model.n[p].kids.len();
                o.model.link(p, at, i)
            }
        }
    }
    fn make(&mut self, depth: usize) -> usize {
        let roll = draw(S_EDIT, 6);
        let text = self.words();
        let o = &mut self.owner;
        match roll {
            0 | 1 => {
                let id = o.live.doc.create_text(text.clone());
                o.model.new_node(id, Mk::Text(text))
            }
            2 => {
                let id = o.live.doc.create_comment(text.clone());
                o.model.new_node(id, Mk::Comment(text))
            }
            _ => {
                let tag = ["div", "span", "b", "section", "p", "li", "br", "h2"][draw(S_EDIT, 8) as usize];
                let id = o.live.doc.create_element(tag);
                let i = o.model.new_node(id, Mk::El { tag: tag.into(), plain: tag != "br", attrs: vec![] });
                if chance(S_EDIT, 1, 3) {
                    self.attribute(i)
                }
                if depth < 3 && tag != "br" {
                    for _ in 0..draw(S_EDIT, 3) {
                        let k = self.make(depth + 1);
                        let o = &mut self.owner;
                        o.live.doc.append_child(o.model.n[i].id, o.model.n[k].id);
                        let at = o.model.n[i].kids.len();
                        o.model.link(i, at, k)
                    }
                }
                i
            }
        }
    }
    fn attribute(&mut self, i: usize) {
        let id = self.owner.model.n[i].id;
        // attributes of one local name, with and without a prefix
        let foreign = self.owner.live.doc.get(id).ns != hotmeal::Namespace::Html && chance(S_EDIT, 2, 3);
        let name = if foreign { ["href", "xlink:href", "xlink:title", "title"][draw(S_EDIT, 4) as usize] } else { ["class", "title", "data-x", "lang", "id", "@click"][draw(S_EDIT, 6) as usize] };
        let value = self.words();
        let o = &mut self.owner;
        let q = match name.strip_prefix("xlink:") {
            Some(local) => {
                count("prefixed attributes edited");
                QualName::new(Some("xlink".into()), ns!(xlink), LocalName::from(local))
            }
            None => QualName::new(None, ns!(), LocalName::from(name)),
        };
        let want = in_ns(&q.ns, name);
        let name = want.as_str();
        let Mk::El { attrs, .. } = &mut o.model.n[i].kind else { return };
        if chance(S_EDIT, 1, 4) {
            o.live.doc.remove_attr(id, &q);
            attrs.retain(|a| a.0 != name)
        } else {
            o.live.doc.set_attr(id, q, value.clone());
            match attrs.iter_mut().find(|a| a.0 == name) {
                Some(a) => a.1 = value,
                None => attrs.push((name.into(), value)),
            }
        }
    }
    fn edit(&mut self) {
        if !self.owner.up {
            return;
        }
        let roll = draw(S_EDIT, 24);
        let movable = self.owner.model.movable();
        let label = match roll {
            0..=5 => {
                let i = self.make(0);
                self.place(i);
                "insert"
            }
            6..=8 => {
                if let Some(i) = S::pick(&movable) {
                    let o = &mut self.owner;
                    o.live.doc.remove(o.model.n[i].id);
                    o.model.unlink(i);
                    o.model.loose.push(i)
                }
                "remove"
            }
            9..=10 => {
                let loose = self.owner.model.loose.clone();
                if let Some(i) = S::pick(&loose) {
                    self.place(i)
                }
                "put back"
            }
            11..=15 => {
                if let Some(i) = S::pick(&movable) {
                    self.place(i)
                }
                "move"
            }
            16..=18 => {
                // any element below the body, or the body itself
                let m = &self.owner.model;
                let els: Vec<usize> = m.body().map(|b| m.under(b).into_iter().filter(|i| *i != b || !self.cfg.mounts).collect()).unwrap_or_default();
                let els: Vec<usize> = els.into_iter().filter(|i| matches!(m.n[*i].kind, Mk::El { .. })).collect();
                if let Some(i) = S::pick(&els) {
                    self.attribute(i)
                }
                "attribute"
            }
            19..=22 => {
                let t = self.words();
                let texts: Vec<usize> = movable.iter().copied().filter(|i| matches!(self.owner.model.n[*i].kind, Mk::Text(_))).collect();
                if let Some(i) = S::pick(&texts) {
                    let o = &mut self.owner;
                    o.live.doc.set_text(o.model.n[i].id, t.clone());
                    o.model.n[i].kind = Mk::Text(t)
                }
                "text"
            }
            _ if self.cfg.body_edits => {
                let o = &mut self.owner;
                match o.model.body() {
                    Some(b) => {
                        o.live.doc.remove(o.model.n[b].id);
                        o.model.unlink(b);
                        o.model.loose.clear()
                    }
                    None => {
                        let id = o.live.doc.create_element("body");
                        let b = o.model.new_node(id, Mk::El { tag: "body".into(), plain: true, attrs: vec![] });
                        o.live.doc.append_child(o.model.n[0].id, id);
                        let at = o.model.n[0].kids.len();
                        o.model.link(0, at, b)
                    }
                }
                "body"
            }
            _ => "nothing",
        };
        count("edits in place");
        log(|| format!("owner: {label}: {}", face(&self.owner.live.doc)));
        if let Some(x) = self.owner.model.differs(&self.owner.live.doc) {
            self.fail("edit-wrong", format!("after {label} in place: {x}"))
        }
    }
    fn publish(&mut self) {
        if !self.owner.up {
            return;
        }
        let o = &mut self.owner;
        o.rev += 1;
        let rev = o.rev;
        let want = face(&o.live.doc);
        let text = o.live.doc.to_html();
        o.saved = put_doctype(text.clone());
        self.shows.insert(rev, want.clone());
        log(|| format!("owner: revision {rev} is {want}"));
        // the parts of the text fit together
        let (bare, inner) = (o.live.doc.to_html_without_doctype(), o.live.doc.to_body_html());
        let by_id = o.live.doc.body().map(|b| o.live.doc.serialize_inner_html(b)).unwrap_or_default();
        if !text.ends_with(&bare) || !bare.contains(&inner) || by_id != inner || o.live.doc.doctype.is_none() && bare != text {
            self.fail("texts-disagree", format!("a document is written {text:?} whole, {bare:?} without its doctype, {inner:?} its body"));
            return;
        }
        // a document that began without a body
        match hotmeal::diff(&o.twin.doc, &o.live.doc) {
            Ok(ps) => {
                let ps: Vec<Patch<'static>> = ps.into_iter().map(|p| p.into_owned()).collect();
                let shown = format!("{ps:?}");
                if let Err(e) = o.twin.doc.apply_patches(ps) {
                    self.fail("native-error", format!("revision {rev}: a document brought up to date natively cannot take the patches {shown}: {e:?}"));
                    return;
                }
                let got = face(&o.twin.doc);
                if !same(&got, &want) {
                    self.fail("twin-differs", format!("revision {rev}: a document that follows by diff and apply_patches shows\n    {got}\n  and the document is\n    {want}\n  patches {shown}"));
                    return;
                }
            }
            Err(e) => {
                self.fail("diff-error", format!("revision {rev}: two documents cannot be compared: {e:?}"));
                return;
            }
        }
        let ids: Vec<u64> = self.owner.sessions.keys().copied().collect();
        for sess in ids {
            self.publish_to(sess, rev, &want);
        }
    }
    fn publish_to(&mut self, sess: u64, rev: usize, want: &str) {
        let chunk = self.cfg.chunk;
        let o = &mut self.owner;
        let s = o.sessions.get_mut(&sess).unwrap();
        let ps: Vec<Patch<'static>> = match hotmeal::diff(&s.mirror.doc, &o.live.doc) {
            Ok(p) => p.into_iter().map(|p| p.into_owned()).collect(),
            Err(e) => return self.fail("diff-error", format!("revision {rev}: two documents cannot be compared: {e:?}")),
        };
        let mut steps = vec![face(&s.mirror.doc)];
        let mut slots = s.mirror.doc.init_patch_slots();
        for p in &ps {
            if let Err(e) = s.mirror.doc.apply_patch_with_slots(p.clone(), &mut slots) {
                return self.fail("native-error", format!("revision {rev}: a native document cannot take patch {p:?} of {ps:?}: {e:?}"));
            }
            steps.push(face(&s.mirror.doc))
        }
        if let Err(e) = s.whole.doc.apply_patches(ps.clone()) {
            return self.fail("native-error", format!("revision {rev}: a native document cannot take the patches {ps:?}: {e:?}"));
        }
        for (how, got) in [("one by one", face(&s.mirror.doc)), ("all at once", face(&s.whole.doc))] {
            if !same(&got, want) {
                self.fail("native-differs", format!("revision {rev}: the patches {ps:?} applied {how} give\n    {got}\n  and the document is\n    {want}"));
                return;
            }
        }
        s.steps.insert(rev, steps);
        let mut parts: Vec<Vec<Patch<'static>>> = ps.chunks(chunk.max(1)).map(|c| c.to_vec()).collect();
        if parts.is_empty() {
            parts.push(vec![])
        }
        let n = parts.len();
        let mut new = vec![];
        for (i, p) in parts.into_iter().enumerate() {
            let last = i + 1 == n;
            let body = if s.json { Part::Json(facet_json::to_string(&p).unwrap(), last) } else { Part::Blob(facet_postcard::to_vec(&p).unwrap(), last) };
            let m = Msg { sess, seq: s.out.len() as u64, rev, body };
            s.out.push(m.clone());
            new.push(m)
        }
        let to = s.follower;
        for m in new {
            self.send(to, m)
        }
    }
    fn delay(&self) -> u64 {
        if self.healed { net(1, 10) } else { net(1, self.cfg.latency) }
    }
    fn lost(&self) -> bool {
        let l = !self.healed && self.cfg.loss > 0 && chance(S_FAULT, self.cfg.loss, 100);
        if l {
            count("fault.message_lost")
        }
        l
    }
    fn send(&mut self, to: usize, m: Msg) {
        let mut copies = if self.lost() { 0 } else { 1 };
        if !self.healed && self.cfg.dup > 0 && chance(S_FAULT, self.cfg.dup, 100) {
            count("fault.message_duplicated");
            copies += 1
        }
        for _ in 0..copies {
            let d = self.delay();
            let m = m.clone();
            self.later(d, move |s| s.arrived(to, m))
        }
    }
    fn resend(&mut self) {
        let mut again = vec![];
        if self.owner.up {
            for s in self.owner.sessions.values() {
                for m in s.out.iter().skip(s.acked as usize).take(16) {
                    again.push((s.follower, m.clone()))
                }
            }
        }
        for (to, m) in again {
            self.send(to, m)
        }
        self.later(200, |s| s.resend())
    }
    /// A follower tells now and then how far it got.
    fn tell(&mut self, i: usize) {
        self.say(i);
        self.later(500, move |s| s.tell(i))
    }
    fn say(&mut self, i: usize) {
        let f = &self.f[i];
        if let Some(sess) = f.sess
            && f.up
            && !self.lost()
        {
            let (d, next) = (self.delay(), f.next);
            self.later(d, move |s| s.acked(sess, next, i))
        }
    }
    fn acked(&mut self, sess: u64, next: u64, from: usize) {
        if !self.owner.up {
            return;
        }
        match self.owner.sessions.get_mut(&sess) {
            Some(s) => s.acked = s.acked.max(next),
            None => {
                // told to start over
                if !self.lost() {
                    let d = self.delay();
                    self.later(d, move |s| {
                        let f = &mut s.f[from];
                        if f.up && f.sess == Some(sess) {
                            count("follower of a session nobody knows");
                            s.forget(from);
                            s.hello(from)
                        }
                    })
                }
            }
        }
    }
    fn greeted(&mut self, from: usize, nonce: u64) {
        if !self.owner.up {
            return;
        }
        let known = self.owner.sessions.iter().find(|(_, s)| s.follower == from && s.nonce == nonce).map(|(i, s)| (*i, s.html.clone(), s.json));
        let (sess, html, json) = match known {
            Some(k) => k,
            None => {
                let sess = self.id();
                let o = &mut self.owner;
                o.sessions.retain(|_, s| s.follower != from);
                let html = put_doctype(o.live.doc.to_html());
                let json = chance(S_MISC, 1, 3);
                let s = Session { follower: from, nonce, html: html.clone(), mirror: Held::new(&html), whole: Held::new(&html), json, out: vec![], acked: 0, steps: BTreeMap::new() };
                o.sessions.insert(sess, s);
                count("snapshots");
                // what the text could not say comes as patches
                let rev = o.rev;
                if rev > 0 && face(&o.live.doc) == self.shows[&rev] {
                    let want = self.shows[&rev].clone();
                    self.publish_to(sess, rev, &want)
                }
                (sess, html, json)
            }
        };
        let _ = json;
        if !self.lost() {
            let d = self.delay();
            self.later(d, move |s| s.welcomed(from, nonce, sess, html))
        }
    }
    fn owner_dies(&mut self) {
        if !self.owner.up || self.healed {
            return;
        }
        count("fault.owner_crash");
        log(|| "owner: crash".into());
        self.owner.up = false;
        self.owner.sessions.clear();
        let d = range(S_FAULT, 1, 800);
        self.later(d, |s| s.owner_starts())
    }
    fn owner_starts(&mut self) {
        if self.owner.up {
            return;
        }
        log(|| "owner: starts from what it saved".into());
        let html = self.owner.saved.clone();
        self.owner.twin = bodiless();
        self.owner.live = Held::new(&html);
        self.owner.model = Model::of(&self.owner.live.doc);
        self.owner.up = true
    }
    // -------------------------------------------------------------- followers
    fn forget(&mut self, i: usize) {
        let f = &mut self.f[i];
        f.sess = None;
        f.doc = None;
        if let Some((realm, _)) = f.page.take() {
            sim::remove(realm)
        }
        f.nslots.clear();
        f.bslots = hotmeal_wasm::Slots::new();
        f.next = 0;
        f.buf.clear();
        f.pending.clear();
        f.at = 0;
        f.fresh = true
    }
    fn hello(&mut self, i: usize) {
        let nonce = self.id();
        self.f[i].nonce = nonce;
        self.ask(i, nonce)
    }
    fn ask(&mut self, i: usize, nonce: u64) {
        let f = &self.f[i];
        if !f.up || f.sess.is_some() || f.nonce != nonce {
            return;
        }
        if !self.lost() {
            let d = self.delay();
            self.later(d, move |s| s.greeted(i, nonce))
        }
        self.later(300, move |s| s.ask(i, nonce))
    }
    fn welcomed(&mut self, i: usize, nonce: u64, sess: u64, html: String) {
        let f = &self.f[i];
        if !f.up || f.sess.is_some() || f.nonce != nonce {
            return;
        }
        let realm = 100 + self.id() as u32;
        let f = &mut self.f[i];
        f.sess = Some(sess);
        log(|| format!("follower {i} ({:?}) starts with {html}", f.how));
        match f.how {
            How::Native => {
                f.doc = Some(Held::new(&html));
            }
            how => {
                let mut doc = dom::parse_document(&html);
                if how == How::Mount {
                    // the content lives in an element of a larger page
                    let outer = dom::parse_document("<!DOCTYPE html><body><nav>site</nav><main id=\"mount\"></main><p>foot</p>");
                    let main = top(how, &outer).unwrap();
                    let b = sim::body(&doc).unwrap();
                    let kids = b.children.borrow().clone();
                    for k in kids {
                        main.put(None, &k)
                    }
                    for a in b.el().unwrap().attrs.borrow().iter() {
                        if a.0 != "id" {
                            main.el().unwrap().attrs.borrow_mut().push(a.clone())
                        }
                    }
                    doc = outer
                }
                let page = sim::install(realm, Page { doc, path: "/".into(), on_reload: Rc::new(|| ()), events: vec![], console: vec![], listener: None });
                f.page = Some((realm, page))
            }
        }
        self.look(i, None);
        self.drain(i)
    }
    fn arrived(&mut self, i: usize, m: Msg) {
        let f = &mut self.f[i];
        if !f.up {
            return;
        }
        if f.sess != Some(m.sess) {
            // early, or for a life that is over
            return;
        }
        if m.seq < f.next {
            count("duplicates discarded");
        } else {
            if m.seq > f.next {
                count("messages out of order")
            }
            f.buf.insert(m.seq, m);
        }
        self.drain(i)
    }
    fn drain(&mut self, i: usize) {
        loop {
            let f = &mut self.f[i];
            let next = f.next;
            let Some(m) = f.buf.remove(&next) else { break };
            f.next += 1;
            self.apply(i, m);
            if self.viol.is_some() {
                return;
            }
        }
        self.say(i)
    }
    fn face(&self, i: usize) -> Option<String> {
        let f = &self.f[i];
        match f.how {
            How::Native => f.doc.as_ref().map(|d| face(&d.doc)),
            how => f.page.as_ref().and_then(|p| page_face(how, &p.1)),
        }
    }
    /// Does the follower look as the owner thinks it does?
    fn look(&mut self, i: usize, done: Option<&str>) {
        let f = &self.f[i];
        let Some(s) = f.sess.and_then(|s| self.owner.sessions.get(&s)) else { return };
        let first = s.steps.values().next().and_then(|v| v.first().cloned()).unwrap_or_else(|| face(&s.mirror.doc));
        let want = match done {
            None => first,
            Some(_) => match s.steps.get(&f.rev).and_then(|v| v.get(f.at)) {
                Some(w) => w.clone(),
                None => return,
            },
        };
        let got = self.face(i).unwrap_or_else(|| "(nothing)".into());
        count("oracle.followers_compared_with_the_mirror");
        if got != want {
            let how = f.how;
            let at = f.at;
            let rev = f.rev;
            let what = done.unwrap_or("at the start").to_string();
            self.fail("step-differs", format!("revision {rev}, after {at} patches ({what}): a {how:?} follower shows\n    {got}\n  and the native document\n    {want}"))
        }
    }
    fn apply(&mut self, i: usize, m: Msg) {
        let last = match &m.body {
            Part::Blob(_, l) | Part::Json(_, l) => *l,
        };
        let whole = self.f[i].whole;
        {
            let f = &mut self.f[i];
            if f.fresh {
                f.fresh = false;
                f.rev = m.rev;
                f.at = 0;
                f.bslots = hotmeal_wasm::Slots::new();
                if let Some(d) = &mut f.doc {
                    f.nslots = d.doc.init_patch_slots()
                }
            }
            f.pending.push(m.body.clone());
        }
        if whole && !last {
            return;
        }
        let parts = std::mem::take(&mut self.f[i].pending);
        let decoded: Vec<Patch<'static>> = match parts
            .iter()
            .map(|p| match p {
                Part::Blob(b, _) => facet_postcard::from_slice::<Vec<Patch<'static>>>(b).ok(),
                Part::Json(j, _) => facet_json::from_str::<Vec<Patch<'static>>>(j).ok(),
            })
            .collect::<Option<Vec<_>>>()
        {
            Some(v) => v.into_iter().flatten().collect(),
            None => return self.fail("codec", "patches cannot be decoded".into()),
        };
        if whole {
            let n = decoded.len();
            let f = &mut self.f[i];
            let (how, rev) = (f.how, f.rev);
            let r: Result<(), String> = match f.how {
                How::Native => f.doc.as_mut().unwrap().doc.apply_patches(decoded.clone()).map_err(|e| format!("{e:?}")),
                how => {
                    let realm = f.page.as_ref().unwrap().0;
                    let blob = facet_postcard::to_vec(&decoded).unwrap();
                    enter(realm, || match (how, &parts[..]) {
                        (How::Body, [Part::Json(j, _)]) => hotmeal_wasm::apply_patches_json(j),
                        (How::Body, _) => hotmeal_wasm::apply_patches_postcard(&blob),
                        _ => hotmeal_wasm::apply_patches_postcard_on(&blob, "#mount"),
                    })
                    .map_err(|e| format!("{e:?}"))
                    .and_then(|k| if k == n { Ok(()) } else { Err(format!("{k} of {n} patches are reported as applied")) })
                }
            };
            self.applied += n as u64;
            if let Err(e) = r {
                return self.fail("refused", format!("revision {rev}: a {how:?} follower cannot take the patches {decoded:?}: {e}"));
            }
            self.f[i].at = n;
            self.look(i, Some("all at once"))
        } else {
            let mut rest = &decoded[..];
            while !rest.is_empty() {
                // singly, or several in one call
                let k = if chance(S_MISC, 3, 4) { 1 } else { rest.len().min(3) };
                let (now_, later) = rest.split_at(k);
                rest = later;
                let f = &mut self.f[i];
                let (how, rev) = (f.how, f.rev);
                let r: Result<(), String> = match f.how {
                    How::Native => now_.iter().try_for_each(|p| f.doc.as_mut().unwrap().doc.apply_patch_with_slots(p.clone(), &mut f.nslots)).map_err(|e| format!("{e:?}")),
                    how => {
                        let realm = f.page.as_ref().unwrap().0;
                        let slots = &mut f.bslots;
                        enter(realm, || match how {
                            How::Body => hotmeal_wasm::apply_patches_with_slots(now_, slots),
                            _ => hotmeal_wasm::apply_patches_with_slots_on(now_, slots, "#mount"),
                        })
                        .map_err(|e| format!("{e:?}"))
                        .and_then(|n| if n == k { Ok(()) } else { Err(format!("{n} of {k} patches are reported as applied")) })
                    }
                };
                self.applied += k as u64;
                if let Err(e) = r {
                    return self.fail("refused", format!("revision {rev}: a {how:?} follower cannot take the patches {now_:?}: {e}"));
                }
                self.f[i].at += k;
                let what = format!("{now_:?}");
                log(|| format!("follower {i}: revision {rev}: {what}"));
                self.look(i, Some(&what));
                if self.viol.is_some() {
                    return;
                }
            }
        }
        if last && self.viol.is_none() {
            let got = self.face(i).unwrap_or_default();
            self.completed += 1;
            let f = &mut self.f[i];
            f.fresh = true;
            let (rev, how) = (f.rev, f.how);
            let want = self.shows[&rev].clone();
            count("oracle.followers_compared_with_the_document");
            if !same(&got, &want) {
                self.fail("follower-differs", format!("revision {rev}: a {how:?} follower shows\n    {got}\n  and the document is\n    {want}"))
            }
        }
    }
    fn follower_dies(&mut self, i: usize) {
        if !self.f[i].up || self.healed {
            return;
        }
        count("fault.follower_crash");
        log(|| format!("follower {i}: crash"));
        if !self.f[i].fresh {
            count("crashes in the middle of a patch list")
        }
        self.forget(i);
        self.f[i].up = false;
        let d = range(S_FAULT, 1, 600);
        self.later(d, move |s| s.follower_starts(i))
    }
    fn follower_starts(&mut self, i: usize) {
        if !self.f[i].up {
            self.f[i].up = true;
            self.hello(i)
        }
    }
}
fn bodiless() -> Held {
    let mut h = Held::new("<!DOCTYPE html>");
    h.doc = hotmeal::Document::new();
    if let Some(b) = h.doc.body() {
        h.doc.remove(b)
    }
    h
}
impl Scenario for Living {
    fn name(&self) -> &'static str {
        self.name
    }
    fn run(&self, ch: &mut Choices, obs: &mut Obs) -> Result<(), Violation> {
        let mut c = |n: u64, d: u64| ch.chance(S_CFG, n, d);
        let feat = Feat {
            opaque: c(1, 3),
            opaque_rich: c(1, 6),
            svg: c(1, 4),
            exotic_attrs: c(1, 3),
            raw: c(1, 4),
            body_attrs: c(1, 2),
            comments: c(1, 2),
            same_words: c(1, 2),
            unicode: c(1, 3),
            pre: c(1, 4),
            max: 0,
            ..Feat::default()
        }
        .more(&mut c);
        let (empty_start, body_edits, mounts) = (c(1, 6), c(1, 6), c(1, 3));
        let feat = Feat { prologue: false, body_attrs: feat.body_attrs && !mounts, ..feat };
        let on = self.faults;
        let mut p = |xs: &[u64]| *ch.pick(S_CFG, xs);
        let mut cfg = Cfg {
            feat: Feat { max: p(&[6, 12, 30]) as usize, ..feat },
            followers: p(&[1, 2, 3]) as usize,
            edits: p(&[6, 20, 60]) as usize,
            publishes: p(&[3, 6, 12]) as usize,
            span: 4000,
            latency: p(&[5, 50, 400]),
            loss: 0,
            dup: 0,
            chunk: p(&[1, 1, 3, 1000]) as usize,
            crashes: 0,
            author_crashes: 0,
            empty_start,
            body_edits: body_edits && !mounts,
            mounts,
            hash_seed: 0,
        };
        if on {
            cfg.loss = p(&[0, 5, 25]);
            cfg.dup = p(&[0, 10]);
            cfg.crashes = p(&[0, 1, 4]) as usize;
            cfg.author_crashes = p(&[0, 0, 1, 2]) as usize
        }
        cfg.hash_seed = ch.draw(S_ENV, 1 << 20);
        simcore::hashseed::set_thread_seed(cfg.hash_seed);
        dom::reset_ids();
        dom::STRICT_NAMES.set(false);
        sim::clear();
        let mut fresh = 0;
        let mut first = Gen { ch, f: &cfg.feat, s: S_DOC, fresh: &mut fresh }.doc();
        tidy(&mut first);
        let html = if cfg.empty_start { "<!DOCTYPE html>".into() } else { first.html() };
        let (v, applied, completed) = simrt::with_runtime(ch, obs, || drive(cfg, html, fresh));
        sim::clear();
        obs.nontrivial = completed > 0 && applied > 0;
        obs.add("patches applied by followers", applied);
        obs.add("revisions completed by followers", completed);
        match v {
            Some(v) => Err(v),
            None => Ok(()),
        }
    }
}
fn drive(cfg: Cfg, html: String, fresh: u32) -> (Option<Violation>, u64, u64) {
    log(|| format!("config: {cfg:?}"));
    let mut live = Held::new(&html);
    if cfg.empty_start {
        live.doc = hotmeal::Document::new()
    }
    let model = Model::of(&live.doc);
    let saved = put_doctype(live.doc.to_html());
    let hows = [How::Native, How::Body, if cfg.mounts { How::Mount } else { How::Body }, How::Body];
    let f: Vec<Follower> = (0..cfg.followers)
        .map(|_| Follower {
            how: hows[draw(S_CFG, 4) as usize],
            whole: chance(S_CFG, 1, 4),
            up: true,
            nonce: 0,
            sess: None,
            doc: None,
            page: None,
            nslots: HashMap::new(),
            bslots: hotmeal_wasm::Slots::new(),
            next: 0,
            buf: BTreeMap::new(),
            pending: vec![],
            rev: 0,
            at: 0,
            fresh: true,
        })
        .collect();
    let n = f.len();
    let span = cfg.span;
    let (edits, publishes, crashes, owner_crashes) = (cfg.edits, cfg.publishes, cfg.crashes, cfg.author_crashes);
    let owner = Owner { up: true, live, model, saved, rev: 0, sessions: BTreeMap::new(), twin: bodiless() };
    let s = Rc::new_cyclic(|me| RefCell::new(S { cfg, me: me.clone(), fresh, next_id: 0, owner, f, healed: false, viol: None, shows: BTreeMap::new(), applied: 0, completed: 0 }));
    {
        let x = s.borrow_mut();
        x.later(200, |s| s.resend());
        for i in 0..n {
            x.later(net(0, 300), move |s| s.hello(i));
            x.later(500 + i as u64, move |s| s.tell(i))
        }
        for _ in 0..edits {
            x.later(range(S_EDIT, 0, span), |s| s.edit())
        }
        for _ in 0..publishes {
            x.later(range(S_EDIT, 0, span), |s| s.publish())
        }
        for _ in 0..crashes {
            let i = draw(S_FAULT, n as u64) as usize;
            x.later(range(S_FAULT, 0, span), move |s| s.follower_dies(i))
        }
        for _ in 0..owner_crashes {
            x.later(range(S_FAULT, 0, span), |s| s.owner_dies())
        }
        x.later(span, |s| {
            log(|| "-- edits and faults are over".into());
            s.healed = true;
            s.owner_starts();
            for i in 0..s.f.len() {
                s.follower_starts(i)
            }
        });
        x.later(span + 2000, |s| s.publish());
    }
    let end = span + 12_000;
    while now() < end && s.borrow().viol.is_none() && simrt::step() {}
    let mut x = s.borrow_mut();
    if x.viol.is_none() {
        let rev = x.owner.rev;
        let want = face(&x.owner.live.doc);
        for i in 0..n {
            let got = x.face(i).unwrap_or_default();
            if x.f[i].rev != rev || !same(&got, &want) {
                let at = x.f[i].rev;
                x.fail("not-caught-up", format!("10 s after faults stopped follower {i} is at revision {at} of {rev} and shows\n    {got}\n  and the document is\n    {want}"))
            }
        }
    }
    let mut digest = 0;
    for (r, t) in &x.shows {
        digest = simcore::mix(digest, simcore::mix(*r as u64, simcore::fnv(t.as_bytes())))
    }
    simrt::sched(digest);
    simrt::rt().obs.borrow_mut().sim_time += now();
    let out = (x.viol.take(), x.applied, x.completed);
    x.owner.sessions.clear();
    out
}

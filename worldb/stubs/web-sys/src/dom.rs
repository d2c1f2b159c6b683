//! The browser's DOM tree: nodes, mutation rules of the DOM standard, parsing and serialisation.
use html5ever::tree_builder::*;
use html5ever::{Attribute, LocalName, QualName, ns};
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::rc::{Rc, Weak};
use tendril::{StrTendril, TendrilSink};

pub const HTML: &str = "http://www.w3.org/1999/xhtml";
pub const SVG: &str = "http://www.w3.org/2000/svg";

pub struct El {
    pub local: String,
    pub ns: String,
    /// (qualified name, value, namespace), in order
    pub attrs: RefCell<Vec<(String, String, String)>>,
    pub content: Option<Rc<DomNode>>,
}
pub enum Kind {
    Document,
    Fragment,
    Doctype(String),
    Element(El),
    Text(RefCell<String>),
    Comment(RefCell<String>),
}
pub struct DomNode {
    pub id: u64,
    pub kind: Kind,
    pub parent: RefCell<Weak<DomNode>>,
    pub children: RefCell<Vec<Rc<DomNode>>>,
}
thread_local! {
    static NEXT: Cell<u64> = const { Cell::new(1) };
    /// old engines accept only XML names in setAttribute, new ones almost anything
    pub static STRICT_NAMES: Cell<bool> = const { Cell::new(false) };
    pub static MUTATIONS: Cell<u64> = const { Cell::new(0) };
}
pub fn reset_ids() {
    NEXT.set(1);
    MUTATIONS.set(0);
}
pub type Ref = Rc<DomNode>;
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum DomErr {
    Hierarchy,
    NotFound,
    InUse,
    InvalidCharacter,
    Namespace,
    Syntax,
}
impl DomErr {
    pub fn text(self) -> &'static str {
        match self {
            DomErr::Hierarchy => "HierarchyRequestError: The new child element contains the parent.",
            DomErr::NotFound => "NotFoundError: The node to be replaced is not a child of this node.",
            DomErr::InUse => "InUseAttributeError: The node provided is an attribute node that is already an attribute of another Element.",
            DomErr::InvalidCharacter => "InvalidCharacterError: The string contains invalid characters.",
            DomErr::Namespace => "NamespaceError: the name does not fit the namespace.",
            DomErr::Syntax => "SyntaxError: not a valid selector.",
        }
    }
}
pub fn node(kind: Kind) -> Ref {
    let id = NEXT.get();
    NEXT.set(id + 1);
    Rc::new(DomNode { id, kind, parent: RefCell::default(), children: RefCell::default() })
}
pub fn element(local: &str, ns: &str) -> Ref {
    let content = (local == "template" && ns == HTML).then(|| node(Kind::Fragment));
    node(Kind::Element(El { local: local.into(), ns: ns.into(), attrs: RefCell::default(), content }))
}
pub fn text(s: &str) -> Ref {
    node(Kind::Text(RefCell::new(s.into())))
}
pub fn comment(s: &str) -> Ref {
    node(Kind::Comment(RefCell::new(s.into())))
}
fn touched() {
    MUTATIONS.set(MUTATIONS.get() + 1)
}
/// Is it the attribute of this namespace and local name? Without a namespace the whole name is local.
pub fn is_attr(a: &(String, String, String), ns: &str, local: &str) -> bool {
    a.2 == ns && if ns.is_empty() { a.0 == local } else { a.0.rsplit(':').next() == Some(local) }
}
impl DomNode {
    /// Neighbouring texts become one, empty ones go.
    pub fn normalize(self: &Rc<Self>) {
        let all: Vec<Ref> = self.children.borrow().clone();
        let mut last: Option<Ref> = None;
        for k in all {
            match (&k.kind, last.as_ref().map(|l| &l.kind)) {
                (Kind::Text(t), _) if t.borrow().is_empty() => k.detach(),
                (Kind::Text(t), Some(Kind::Text(l))) => {
                    l.borrow_mut().push_str(&t.borrow());
                    k.detach()
                }
                _ => {
                    k.normalize();
                    last = Some(k)
                }
            }
        }
    }
    pub fn el(&self) -> Option<&El> {
        match &self.kind {
            Kind::Element(e) => Some(e),
            _ => None,
        }
    }
    pub fn is_el(&self, local: &str) -> bool {
        self.el().is_some_and(|e| e.local == local)
    }
    pub fn parent(&self) -> Option<Ref> {
        self.parent.borrow().upgrade()
    }
    pub fn index(self: &Rc<Self>) -> Option<usize> {
        let p = self.parent()?;
        let c = p.children.borrow();
        c.iter().position(|x| Rc::ptr_eq(x, self))
    }
    pub fn child(&self, i: usize) -> Option<Ref> {
        self.children.borrow().get(i).cloned()
    }
    pub fn detach(self: &Rc<Self>) {
        if let (Some(p), Some(i)) = (self.parent(), self.index()) {
            p.children.borrow_mut().remove(i);
            *self.parent.borrow_mut() = Weak::new();
            touched();
        }
    }
    fn contains(self: &Rc<Self>, other: &Ref) -> bool {
        let mut c = Some(other.clone());
        while let Some(n) = c {
            if Rc::ptr_eq(&n, self) {
                return true;
            }
            c = n.parent();
        }
        false
    }
    fn can_hold(&self) -> bool {
        matches!(self.kind, Kind::Document | Kind::Fragment | Kind::Element(_))
    }
    /// Insert before index `at` (or at the end), without validity checks.
    pub fn put(self: &Rc<Self>, at: Option<usize>, n: &Ref) {
        *n.parent.borrow_mut() = Rc::downgrade(self);
        let mut c = self.children.borrow_mut();
        match at {
            Some(i) => c.insert(i, n.clone()),
            None => c.push(n.clone()),
        }
        touched();
    }
    pub fn insert_before(self: &Rc<Self>, n: &Ref, before: Option<&Ref>) -> Result<(), DomErr> {
        if !self.can_hold() || n.contains(self) {
            return Err(DomErr::Hierarchy);
        }
        if let Some(b) = before
            && !b.parent().is_some_and(|p| Rc::ptr_eq(&p, self))
        {
            return Err(DomErr::NotFound);
        }
        if matches!(n.kind, Kind::Document) {
            return Err(DomErr::Hierarchy);
        }
        if matches!(n.kind, Kind::Fragment) {
            let all: Vec<Ref> = n.children.borrow().clone();
            for c in all {
                self.insert_before(&c, before)?
            }
            return Ok(());
        }
        // inserting a node before itself
        let before = match before {
            Some(b) if Rc::ptr_eq(b, n) => n.index().and_then(|i| self.child(i + 1)),
            b => b.cloned(),
        };
        n.detach();
        let at = before.and_then(|b| b.index());
        self.put(at, n);
        Ok(())
    }
    pub fn append(self: &Rc<Self>, n: &Ref) -> Result<(), DomErr> {
        self.insert_before(n, None)
    }
    pub fn replace_child(self: &Rc<Self>, n: &Ref, old: &Ref) -> Result<(), DomErr> {
        if !self.can_hold() || n.contains(self) || matches!(n.kind, Kind::Document) {
            return Err(DomErr::Hierarchy);
        }
        if !old.parent().is_some_and(|p| Rc::ptr_eq(&p, self)) {
            return Err(DomErr::NotFound);
        }
        if Rc::ptr_eq(n, old) {
            return Ok(());
        }
        let next = old.index().and_then(|i| self.child(i + 1)).filter(|x| !Rc::ptr_eq(x, n)).or_else(|| {
            old.index().and_then(|i| self.child(i + 2))
        });
        let next = match old.index().and_then(|i| self.child(i + 1)) {
            None => None,
            _ => next,
        };
        old.detach();
        self.insert_before(n, next.as_ref())
    }
    pub fn remove_child(self: &Rc<Self>, old: &Ref) -> Result<(), DomErr> {
        if !old.parent().is_some_and(|p| Rc::ptr_eq(&p, self)) {
            return Err(DomErr::NotFound);
        }
        old.detach();
        Ok(())
    }
    pub fn clear(self: &Rc<Self>) {
        let all: Vec<Ref> = self.children.borrow().clone();
        for c in all {
            c.detach()
        }
    }
    pub fn text_content(&self) -> Option<String> {
        match &self.kind {
            Kind::Text(t) | Kind::Comment(t) => Some(t.borrow().clone()),
            Kind::Document | Kind::Doctype(_) => None,
            _ => {
                let mut s = String::new();
                fn go(n: &DomNode, s: &mut String) {
                    for c in n.children.borrow().iter() {
                        match &c.kind {
                            Kind::Text(t) => s.push_str(&t.borrow()),
                            Kind::Element(_) => go(c, s),
                            _ => {}
                        }
                    }
                }
                go(self, &mut s);
                Some(s)
            }
        }
    }
    pub fn set_text_content(self: &Rc<Self>, v: &str) {
        match &self.kind {
            Kind::Text(t) | Kind::Comment(t) => {
                *t.borrow_mut() = v.into();
                touched()
            }
            Kind::Element(_) | Kind::Fragment => {
                self.clear();
                if !v.is_empty() {
                    self.put(None, &text(v));
                }
            }
            _ => {}
        }
    }
    pub fn get_attr(&self, name: &str) -> Option<String> {
        let e = self.el()?;
        let name = if e.ns == HTML { name.to_ascii_lowercase() } else { name.into() };
        e.attrs.borrow().iter().find(|a| a.0 == name).map(|a| a.1.clone())
    }
    pub fn set_attr(&self, name: &str, v: &str) -> Result<(), DomErr> {
        let Some(e) = self.el() else { return Ok(()) };
        if !valid_attr(name) {
            return Err(DomErr::InvalidCharacter);
        }
        let name = if e.ns == HTML { name.to_ascii_lowercase() } else { name.to_string() };
        let mut a = e.attrs.borrow_mut();
        match a.iter_mut().find(|a| a.0 == name) {
            Some(x) => x.1 = v.into(),
            None => a.push((name, v.into(), String::new())),
        }
        touched();
        Ok(())
    }
    /// `setAttributeNS`: the attribute is found by namespace and local name.
    pub fn set_attr_ns(&self, ns: &str, name: &str, v: &str) -> Result<(), DomErr> {
        let Some(e) = self.el() else { return Ok(()) };
        if !valid_attr(name) {
            return Err(DomErr::InvalidCharacter);
        }
        let (prefix, local) = match name.split_once(':') {
            Some((p, l)) => (Some(p), l),
            None => (None, name),
        };
        let xmlns = ns == "http://www.w3.org/2000/xmlns/";
        if prefix.is_some() && ns.is_empty()
            || prefix == Some("xml") && ns != "http://www.w3.org/XML/1998/namespace"
            || (name == "xmlns" || prefix == Some("xmlns")) != xmlns
        {
            return Err(DomErr::Namespace);
        }
        let mut a = e.attrs.borrow_mut();
        match a.iter_mut().find(|a| is_attr(a, ns, local)) {
            Some(x) => x.1 = v.into(),
            None => a.push((name.into(), v.into(), ns.into())),
        }
        touched();
        Ok(())
    }
    pub fn remove_attr(&self, name: &str) {
        if let Some(e) = self.el() {
            let name = if e.ns == HTML { name.to_ascii_lowercase() } else { name.to_string() };
            e.attrs.borrow_mut().retain(|a| a.0 != name);
            touched();
        }
    }
    pub fn find<'a>(self: &'a Rc<Self>, f: &dyn Fn(&Ref) -> bool) -> Option<Ref> {
        for c in self.children.borrow().iter() {
            if f(c) {
                return Some(c.clone());
            }
            if let Some(x) = c.find(f) {
                return Some(x);
            }
        }
        None
    }
    pub fn each(self: &Rc<Self>, f: &mut dyn FnMut(&Ref)) {
        f(self);
        let all: Vec<Ref> = self.children.borrow().clone();
        for c in all {
            c.each(f)
        }
    }
}
fn xml_name(s: &str) -> bool {
    let start = |c: char| c.is_ascii_alphabetic() || c == '_' || c == ':' || c as u32 >= 0xc0;
    let mut it = s.chars();
    it.next().is_some_and(start) && it.all(|c| start(c) || c.is_ascii_digit() || c == '-' || c == '.' || c == '\u{b7}')
}
fn valid_attr(s: &str) -> bool {
    if STRICT_NAMES.get() {
        xml_name(s)
    } else {
        !s.is_empty() && !s.chars().any(|c| c.is_ascii_whitespace() || matches!(c, '\0' | '/' | '=' | '>'))
    }
}
pub fn valid_tag(s: &str) -> bool {
    if STRICT_NAMES.get() {
        xml_name(s)
    } else {
        s.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_' || c == ':' || c as u32 >= 0x80) && !s.chars().any(|c| c.is_ascii_whitespace() || matches!(c, '\0' | '/' | '>'))
    }
}

// ---------------------------------------------------------------- serialisation (the standard's)
pub fn inner_html(n: &DomNode, out: &mut String) {
    let kids = match n.el().and_then(|e| e.content.clone()) {
        Some(f) => f.children.borrow().clone(),
        None => n.children.borrow().clone(),
    };
    let raw = n.el().is_some_and(|e| e.ns == HTML && matches!(e.local.as_str(), "style" | "script" | "xmp" | "iframe" | "noembed" | "noframes" | "plaintext" | "noscript"));
    for c in kids {
        outer_html(&c, raw, out)
    }
}
pub fn outer_html(n: &DomNode, raw: bool, out: &mut String) {
    match &n.kind {
        Kind::Document | Kind::Fragment => inner_html(n, out),
        Kind::Doctype(d) => {
            out.push_str("<!DOCTYPE ");
            out.push_str(d);
            out.push('>')
        }
        Kind::Comment(t) => {
            out.push_str("<!--");
            out.push_str(&t.borrow());
            out.push_str("-->")
        }
        Kind::Text(t) => {
            let t = t.borrow();
            if raw {
                out.push_str(&t)
            } else {
                for c in t.chars() {
                    match c {
                        '&' => out.push_str("&amp;"),
                        '\u{a0}' => out.push_str("&nbsp;"),
                        '<' => out.push_str("&lt;"),
                        '>' => out.push_str("&gt;"),
                        c => out.push(c),
                    }
                }
            }
        }
        Kind::Element(e) => {
            out.push('<');
            out.push_str(&e.local);
            for (k, v, _) in e.attrs.borrow().iter() {
                out.push(' ');
                out.push_str(k);
                out.push_str("=\"");
                for c in v.chars() {
                    match c {
                        '&' => out.push_str("&amp;"),
                        '\u{a0}' => out.push_str("&nbsp;"),
                        '"' => out.push_str("&quot;"),
                        '<' => out.push_str("&lt;"),
                        '>' => out.push_str("&gt;"),
                        c => out.push(c),
                    }
                }
                out.push('"');
            }
            out.push('>');
            if e.ns == HTML && matches!(e.local.as_str(), "area" | "base" | "br" | "col" | "embed" | "hr" | "img" | "input" | "link" | "meta" | "param" | "source" | "track" | "wbr") {
                return;
            }
            inner_html(n, out);
            out.push_str("</");
            out.push_str(&e.local);
            out.push('>')
        }
    }
}

// ---------------------------------------------------------------- parsing
struct Sink {
    doc: Ref,
}
#[derive(Debug)]
pub struct Name(QualName);
impl ElemName for Name {
    fn ns(&self) -> &html5ever::Namespace {
        &self.0.ns
    }
    fn local_name(&self) -> &LocalName {
        &self.0.local
    }
}
fn qualified(q: &QualName) -> String {
    match &q.prefix {
        Some(p) if !p.is_empty() => format!("{p}:{}", q.local),
        _ => q.local.to_string(),
    }
}
impl Sink {
    fn add(&self, parent: &Ref, before: Option<usize>, child: NodeOrText<Ref>) {
        match child {
            NodeOrText::AppendNode(n) => {
                n.detach();
                parent.put(before, &n)
            }
            NodeOrText::AppendText(t) => {
                let prev = match before {
                    Some(0) => None,
                    Some(i) => parent.child(i - 1),
                    None => parent.children.borrow().last().cloned(),
                };
                if let Some(p) = &prev
                    && let Kind::Text(x) = &p.kind
                {
                    x.borrow_mut().push_str(&t);
                    return;
                }
                parent.put(before, &text(&t))
            }
        }
    }
}
impl TreeSink for Sink {
    type Handle = Ref;
    type Output = Ref;
    type ElemName<'a> = Name;
    fn finish(self) -> Ref {
        self.doc
    }
    fn parse_error(&self, _: Cow<'static, str>) {}
    fn get_document(&self) -> Ref {
        self.doc.clone()
    }
    fn elem_name<'a>(&'a self, t: &'a Ref) -> Name {
        let e = t.el().unwrap();
        Name(QualName::new(None, e.ns.as_str().into(), e.local.as_str().into()))
    }
    fn create_element(&self, name: QualName, attrs: Vec<Attribute>, _: ElementFlags) -> Ref {
        let n = element(&name.local, &name.ns);
        n.el().unwrap().attrs.borrow_mut().extend(attrs.iter().map(|a| (qualified(&a.name), a.value.to_string(), a.name.ns.to_string())));
        n
    }
    fn create_comment(&self, t: StrTendril) -> Ref {
        comment(&t)
    }
    fn create_pi(&self, t: StrTendril, _: StrTendril) -> Ref {
        comment(&t)
    }
    fn append(&self, p: &Ref, c: NodeOrText<Ref>) {
        self.add(p, None, c)
    }
    fn append_based_on_parent_node(&self, e: &Ref, prev: &Ref, c: NodeOrText<Ref>) {
        if e.parent().is_some() { self.append_before_sibling(e, c) } else { self.append(prev, c) }
    }
    fn append_doctype_to_document(&self, n: StrTendril, _: StrTendril, _: StrTendril) {
        self.doc.put(None, &node(Kind::Doctype(n.to_string())))
    }
    fn get_template_contents(&self, t: &Ref) -> Ref {
        t.el().and_then(|e| e.content.clone()).unwrap_or(t.clone())
    }
    fn same_node(&self, x: &Ref, y: &Ref) -> bool {
        Rc::ptr_eq(x, y)
    }
    fn set_quirks_mode(&self, _: QuirksMode) {}
    fn append_before_sibling(&self, s: &Ref, c: NodeOrText<Ref>) {
        let p = s.parent().unwrap();
        self.add(&p, s.index(), c)
    }
    fn add_attrs_if_missing(&self, t: &Ref, attrs: Vec<Attribute>) {
        let mut a = t.el().unwrap().attrs.borrow_mut();
        for x in attrs {
            let q = qualified(&x.name);
            if !a.iter().any(|y| y.0 == q) {
                a.push((q, x.value.to_string(), x.name.ns.to_string()))
            }
        }
    }
    fn remove_from_parent(&self, t: &Ref) {
        t.detach()
    }
    fn reparent_children(&self, n: &Ref, p: &Ref) {
        let all: Vec<Ref> = n.children.borrow().clone();
        for c in all {
            c.detach();
            p.put(None, &c)
        }
    }
}
pub fn parse_document(html: &str) -> Ref {
    html5ever::parse_document(Sink { doc: node(Kind::Document) }, Default::default()).one(StrTendril::from(html))
}
/// Children of the fragment, as `context.innerHTML = html` would produce.
pub fn parse_fragment(context: &str, html: &str) -> Vec<Ref> {
    let name = QualName::new(None, ns!(html), LocalName::from(context));
    let doc = html5ever::parse_fragment(Sink { doc: node(Kind::Document) }, Default::default(), name, vec![], true).one(StrTendril::from(html));
    let root = doc.child(0);
    root.map(|r| r.children.borrow().clone()).unwrap_or_default()
}

// ---------------------------------------------------------------- selectors (compound only)
type Test = Box<dyn Fn(&Ref) -> bool>;
pub fn select(root: &Ref, sel: &str) -> Result<Option<Ref>, DomErr> {
    let t = test(sel)?;
    Ok(root.find(&|n| t(n)))
}
pub fn select_all(root: &Ref, sel: &str) -> Result<Vec<Ref>, DomErr> {
    let t = test(sel)?;
    let mut out = vec![];
    root.each(&mut |n| {
        if t(n) && !Rc::ptr_eq(n, root) {
            out.push(n.clone())
        }
    });
    Ok(out)
}
pub fn matches(n: &Ref, sel: &str) -> Result<bool, DomErr> {
    Ok(test(sel)?(n))
}
fn test(sel: &str) -> Result<Test, DomErr> {
    if sel.contains(',') {
        let all: Vec<Test> = sel.split(',').map(test).collect::<Result<_, _>>()?;
        return Ok(Box::new(move |n| all.iter().any(|t| t(n))));
    }
    #[derive(Debug)]
    enum Part {
        Tag(String),
        Id(String),
        Class(String),
        Attr(String, Option<String>),
    }
    let mut parts = vec![];
    let b: Vec<char> = sel.trim().chars().collect();
    let mut i = 0;
    let word = |i: &mut usize| {
        let s = *i;
        while *i < b.len() && (b[*i].is_alphanumeric() || b[*i] == '-' || b[*i] == '_') {
            *i += 1
        }
        b[s..*i].iter().collect::<String>()
    };
    while i < b.len() {
        let p = match b[i] {
            '#' => {
                i += 1;
                Part::Id(word(&mut i))
            }
            '.' => {
                i += 1;
                Part::Class(word(&mut i))
            }
            '[' => {
                i += 1;
                let k = word(&mut i);
                let mut v = None;
                if b.get(i) == Some(&'=') {
                    i += 1;
                    let q = b.get(i) == Some(&'"');
                    if q {
                        i += 1
                    }
                    v = Some(word(&mut i));
                    if q {
                        i += 1
                    }
                }
                if b.get(i) != Some(&']') {
                    return Err(DomErr::Syntax);
                }
                i += 1;
                Part::Attr(k, v)
            }
            '*' => {
                i += 1;
                continue;
            }
            c if c.is_alphabetic() => Part::Tag(word(&mut i)),
            _ => return Err(DomErr::Syntax),
        };
        parts.push(p);
    }
    if sel.trim().is_empty() {
        return Err(DomErr::Syntax);
    }
    Ok(Box::new(move |n| {
        n.el().is_some_and(|e| {
            parts.iter().all(|p| match p {
                Part::Tag(t) => e.local.eq_ignore_ascii_case(t),
                Part::Id(v) => n.get_attr("id").as_ref() == Some(v),
                Part::Class(v) => n.get_attr("class").is_some_and(|c| c.split_ascii_whitespace().any(|x| x == v)),
                Part::Attr(k, None) => n.get_attr(k).is_some(),
                Part::Attr(k, Some(v)) => n.get_attr(k).as_ref() == Some(v),
            })
        })
    }))
}

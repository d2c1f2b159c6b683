//! The simulator's side of the browser: which page is running, what it did.
use crate::dom::{self, Kind, Ref};
use crate::{Event, NodeHost};
use std::any::Any;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use wasm_bindgen::{Host, JsValue};

pub struct Fired {
    pub target: Ref,
    pub name: String,
    pub bubbles: bool,
    pub content: Option<String>,
    pub key: Option<String>,
    pub element: Option<Ref>,
    /// the target is in the page at that moment
    pub connected: bool,
}
pub struct Page {
    pub doc: Ref,
    pub path: String,
    pub on_reload: Rc<dyn Fn()>,
    pub events: Vec<Fired>,
    pub console: Vec<String>,
    /// the application's listener on the document
    pub listener: Option<Rc<dyn Fn(&Fired)>>,
}
pub type PageRef = Rc<RefCell<Page>>;
thread_local! {
    static PAGES: RefCell<BTreeMap<simrt::Realm, PageRef>> = const { RefCell::new(BTreeMap::new()) };
}
pub fn install(realm: simrt::Realm, p: Page) -> PageRef {
    let p = Rc::new(RefCell::new(p));
    PAGES.with(|m| m.borrow_mut().insert(realm, p.clone()));
    p
}
pub fn remove(realm: simrt::Realm) {
    PAGES.with(|m| m.borrow_mut().remove(&realm));
}
pub fn clear() {
    PAGES.with(|m| m.borrow_mut().clear());
}
pub(crate) fn page<R>(f: impl FnOnce(&PageRef) -> R) -> Option<R> {
    let p = PAGES.with(|m| m.borrow().get(&simrt::current()).cloned());
    p.map(|p| f(&p))
}
pub(crate) fn logged(s: &str) {
    page(|p| p.borrow_mut().console.push(s.to_string()));
    simrt::log(|| format!("page {}: {s}", simrt::current()));
}
pub(crate) fn dispatched(target: &JsValue, e: &Event) {
    let as_node = |v: &JsValue| v.host().and_then(|h| h.as_any().downcast_ref::<NodeHost>()).map(|h| h.node.clone());
    let Some(target) = as_node(target) else { return };
    let detail = e.prop("detail");
    let get = |k: &str| detail.host().map(|h| h.get(k)).unwrap_or_default();
    let mut connected = false;
    let mut c = Some(target.clone());
    while let Some(n) = c {
        connected = matches!(n.kind, Kind::Document);
        c = n.parent();
    }
    let f = Fired { target, name: e.type_(), bubbles: e.bubbles(), content: get("content").as_string(), key: get("key").as_string(), element: as_node(&get("element")), connected };
    page(|p| {
        let l = p.borrow().listener.clone();
        if let Some(l) = l
            && f.connected
            && f.bubbles
        {
            l(&f)
        }
        p.borrow_mut().events.push(f)
    });
}
pub struct WindowHost(pub PageRef);
impl Host for WindowHost {
    fn classes(&self) -> &'static [&'static str] {
        &["Window", "Location", "EventTarget", "Object"]
    }
    fn get(&self, _: &str) -> JsValue {
        JsValue::UNDEFINED
    }
    fn set(&self, _: &str, _: JsValue) -> bool {
        true
    }
    fn keys(&self) -> Vec<String> {
        vec![]
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
}
pub fn clone_node(n: &Ref, deep: bool) -> Ref {
    let c = match &n.kind {
        Kind::Document => dom::node(Kind::Document),
        Kind::Fragment => dom::node(Kind::Fragment),
        Kind::Doctype(d) => dom::node(Kind::Doctype(d.clone())),
        Kind::Text(t) => dom::text(&t.borrow()),
        Kind::Comment(t) => dom::comment(&t.borrow()),
        Kind::Element(e) => {
            let x = dom::element(&e.local, &e.ns);
            *x.el().unwrap().attrs.borrow_mut() = e.attrs.borrow().clone();
            x
        }
    };
    if let (true, Some(f), Some(g)) = (deep, n.el().and_then(|e| e.content.as_ref()), c.el().and_then(|e| e.content.as_ref())) {
        for k in f.children.borrow().iter() {
            g.put(None, &clone_node(k, true))
        }
    }
    if deep {
        for k in n.children.borrow().iter() {
            c.put(None, &clone_node(k, true))
        }
    }
    c
}
pub fn body(doc: &Ref) -> Option<Ref> {
    let h = doc.children.borrow().iter().find(|c| c.is_el("html")).cloned()?;
    let b = h.children.borrow().iter().find(|c| c.is_el("body")).cloned();
    b
}

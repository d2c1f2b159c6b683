//! Stand-in for web-sys: one in-memory DOM per browser page, the rules of the DOM standard.
pub mod dom;
mod more;
pub mod sim;
use dom::{DomErr, Kind, Ref};
use std::any::Any;
use std::cell::RefCell;
use std::rc::Rc;
use wasm_bindgen::{Host, JsCast, JsValue, wrap};

wrap! {
    EventTarget: js_sys::Object, [js_sys::Object];
    Window: EventTarget, [EventTarget, js_sys::Object];
    Location: js_sys::Object, [js_sys::Object];
    Node: EventTarget, [EventTarget, js_sys::Object];
    Document: Node, [Node, EventTarget, js_sys::Object];
    DocumentFragment: Node, [Node, EventTarget, js_sys::Object];
    CharacterData: Node, [Node, EventTarget, js_sys::Object];
    Text: CharacterData, [CharacterData, Node, EventTarget, js_sys::Object];
    Comment: CharacterData, [CharacterData, Node, EventTarget, js_sys::Object];
    Element: Node, [Node, EventTarget, js_sys::Object];
    HtmlElement: Element, [Element, Node, EventTarget, js_sys::Object];
    HtmlTemplateElement: HtmlElement, [HtmlElement, Element, Node, EventTarget, js_sys::Object];
    Event: js_sys::Object, [js_sys::Object];
    CustomEvent: Event, [Event, js_sys::Object];
    CustomEventInit: js_sys::Object, [js_sys::Object];
}

pub(crate) struct NodeHost {
    pub node: Ref,
    pub doc: Ref,
}
impl Host for NodeHost {
    fn classes(&self) -> &'static [&'static str] {
        match &self.node.kind {
            Kind::Document => &["Document", "Node", "EventTarget", "Object"],
            Kind::Fragment => &["DocumentFragment", "Node", "EventTarget", "Object"],
            Kind::Doctype(_) => &["DocumentType", "Node", "EventTarget", "Object"],
            Kind::Text(_) => &["Text", "CharacterData", "Node", "EventTarget", "Object"],
            Kind::Comment(_) => &["Comment", "CharacterData", "Node", "EventTarget", "Object"],
            Kind::Element(e) if e.ns == dom::HTML && e.local == "template" => &["HtmlTemplateElement", "HtmlElement", "Element", "Node", "EventTarget", "Object"],
            Kind::Element(e) if e.ns == dom::HTML => &["HtmlElement", "Element", "Node", "EventTarget", "Object"],
            Kind::Element(_) => &["Element", "Node", "EventTarget", "Object"],
        }
    }
    fn get(&self, _key: &str) -> JsValue {
        JsValue::UNDEFINED
    }
    fn set(&self, _key: &str, _v: JsValue) -> bool {
        true
    }
    fn keys(&self) -> Vec<String> {
        vec![]
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn identity(&self) -> *const () {
        Rc::as_ptr(&self.node) as *const ()
    }
}
/// The same node is always the same object to script: wrappers compare by node.
fn js(node: Ref, doc: &Ref) -> JsValue {
    JsValue::from_obj(Rc::new(NodeHost { node, doc: doc.clone() }))
}
fn host(v: &JsValue) -> &NodeHost {
    v.host().and_then(|h| h.as_any().downcast_ref::<NodeHost>()).expect("a DOM node")
}
pub fn raw(n: &Node) -> Ref {
    host(n.as_ref()).node.clone()
}
fn fail(e: DomErr) -> JsValue {
    js_sys::Error::new(e.text()).into()
}

impl Node {
    pub const ELEMENT_NODE: u16 = 1;
    pub const ATTRIBUTE_NODE: u16 = 2;
    pub const TEXT_NODE: u16 = 3;
    pub const CDATA_SECTION_NODE: u16 = 4;
    pub const PROCESSING_INSTRUCTION_NODE: u16 = 7;
    pub const COMMENT_NODE: u16 = 8;
    pub const DOCUMENT_NODE: u16 = 9;
    pub const DOCUMENT_TYPE_NODE: u16 = 10;
    pub const DOCUMENT_FRAGMENT_NODE: u16 = 11;
    fn h(&self) -> &NodeHost {
        host(self.as_ref())
    }
    fn wrap(&self, n: Ref) -> Node {
        js(n, &self.h().doc).into()
    }
    pub fn node_type(&self) -> u16 {
        match &self.h().node.kind {
            Kind::Document => 9,
            Kind::Fragment => 11,
            Kind::Doctype(_) => 10,
            Kind::Text(_) => 3,
            Kind::Comment(_) => 8,
            Kind::Element(_) => 1,
        }
    }
    pub fn node_name(&self) -> String {
        match &self.h().node.kind {
            Kind::Document => "#document".into(),
            Kind::Fragment => "#document-fragment".into(),
            Kind::Doctype(d) => d.clone(),
            Kind::Text(_) => "#text".into(),
            Kind::Comment(_) => "#comment".into(),
            Kind::Element(e) if e.ns == dom::HTML => e.local.to_ascii_uppercase(),
            Kind::Element(e) => e.local.clone(),
        }
    }
    pub fn node_value(&self) -> Option<String> {
        match &self.h().node.kind {
            Kind::Text(t) | Kind::Comment(t) => Some(t.borrow().clone()),
            _ => None,
        }
    }
    pub fn set_node_value(&self, v: Option<&str>) {
        if matches!(self.h().node.kind, Kind::Text(_) | Kind::Comment(_)) {
            self.h().node.set_text_content(v.unwrap_or(""))
        }
    }
    pub fn text_content(&self) -> Option<String> {
        self.h().node.text_content()
    }
    pub fn set_text_content(&self, v: Option<&str>) {
        self.h().node.set_text_content(v.unwrap_or(""))
    }
    pub fn parent_node(&self) -> Option<Node> {
        self.h().node.parent().map(|n| self.wrap(n))
    }
    pub fn parent_element(&self) -> Option<Element> {
        self.parent_node().and_then(|n| n.dyn_into().ok())
    }
    pub fn first_child(&self) -> Option<Node> {
        self.h().node.child(0).map(|n| self.wrap(n))
    }
    pub fn last_child(&self) -> Option<Node> {
        self.h().node.children.borrow().last().cloned().map(|n| self.wrap(n))
    }
    fn sibling(&self, d: isize) -> Option<Node> {
        let n = &self.h().node;
        let i = n.index()? as isize + d;
        if i < 0 {
            return None;
        }
        n.parent()?.child(i as usize).map(|n| self.wrap(n))
    }
    pub fn next_sibling(&self) -> Option<Node> {
        self.sibling(1)
    }
    pub fn previous_sibling(&self) -> Option<Node> {
        self.sibling(-1)
    }
    pub fn has_child_nodes(&self) -> bool {
        !self.h().node.children.borrow().is_empty()
    }
    pub fn child_nodes(&self) -> NodeList {
        NodeList { of: self.clone(), fixed: None }
    }
    pub fn owner_document(&self) -> Option<Document> {
        Some(js(self.h().doc.clone(), &self.h().doc).into())
    }
    pub fn is_connected(&self) -> bool {
        let mut c = Some(self.h().node.clone());
        while let Some(n) = c {
            if matches!(n.kind, Kind::Document) {
                return true;
            }
            c = n.parent();
        }
        false
    }
    pub fn is_same_node(&self, o: Option<&Node>) -> bool {
        o.is_some_and(|o| Rc::ptr_eq(&raw(o), &raw(self)))
    }
    pub fn contains(&self, o: Option<&Node>) -> bool {
        let Some(o) = o else { return false };
        let mut c = Some(raw(o));
        while let Some(n) = c {
            if Rc::ptr_eq(&n, &raw(self)) {
                return true;
            }
            c = n.parent();
        }
        false
    }
    pub fn append_child(&self, n: &Node) -> Result<Node, JsValue> {
        self.h().node.append(&raw(n)).map_err(fail)?;
        Ok(n.clone())
    }
    pub fn insert_before(&self, n: &Node, before: Option<&Node>) -> Result<Node, JsValue> {
        self.h().node.insert_before(&raw(n), before.map(raw).as_ref()).map_err(fail)?;
        Ok(n.clone())
    }
    pub fn replace_child(&self, n: &Node, old: &Node) -> Result<Node, JsValue> {
        self.h().node.replace_child(&raw(n), &raw(old)).map_err(fail)?;
        Ok(old.clone())
    }
    pub fn remove_child(&self, old: &Node) -> Result<Node, JsValue> {
        self.h().node.remove_child(&raw(old)).map_err(fail)?;
        Ok(old.clone())
    }
    pub fn clone_node_with_deep(&self, deep: bool) -> Result<Node, JsValue> {
        Ok(self.wrap(sim::clone_node(&self.h().node, deep)))
    }
    pub fn clone_node(&self) -> Result<Node, JsValue> {
        self.clone_node_with_deep(false)
    }
    pub fn normalize(&self) {
        self.h().node.normalize()
    }
}
/// A live list: it always reflects the current children.
#[derive(Clone)]
pub struct NodeList {
    of: Node,
    /// what a selector found: not live
    fixed: Option<Vec<Ref>>,
}
impl NodeList {
    pub fn length(&self) -> u32 {
        match &self.fixed {
            Some(v) => v.len() as u32,
            None => self.of.h().node.children.borrow().len() as u32,
        }
    }
    pub fn item(&self, i: u32) -> Option<Node> {
        match &self.fixed {
            Some(v) => v.get(i as usize).cloned(),
            None => self.of.h().node.child(i as usize),
        }
        .map(|n| self.of.wrap(n))
    }
    pub fn get(&self, i: u32) -> Option<Node> {
        self.item(i)
    }
}
#[derive(Clone)]
pub struct NamedNodeMap {
    of: Element,
}
#[derive(Clone)]
pub struct Attr {
    of: std::rc::Rc<std::cell::RefCell<Element>>,
    name: String,
    ns: String,
    /// value when it was last seen on its element
    kept: std::rc::Rc<std::cell::RefCell<String>>,
}
fn attr_of(e: &Element, name: &str, value: &str, ns: &str) -> Attr {
    Attr { of: std::rc::Rc::new(std::cell::RefCell::new(e.clone())), name: name.into(), ns: ns.into(), kept: std::rc::Rc::new(std::cell::RefCell::new(value.into())) }
}
impl NamedNodeMap {
    pub fn length(&self) -> u32 {
        self.of.el().attrs.borrow().len() as u32
    }
    pub fn item(&self, i: u32) -> Option<Attr> {
        self.of.el().attrs.borrow().get(i as usize).map(|a| attr_of(&self.of, &a.0, &a.1, &a.2))
    }
    pub fn get_with_index(&self, i: u32) -> Option<Attr> {
        self.item(i)
    }
    pub fn get_named_item(&self, n: &str) -> Option<Attr> {
        let n = if self.of.el().ns == dom::HTML { n.to_ascii_lowercase() } else { n.to_string() };
        self.of.el().attrs.borrow().iter().find(|a| a.0 == n).map(|a| attr_of(&self.of, &a.0, &a.1, &a.2))
    }
    pub fn set_named_item(&self, a: &Attr) -> Result<Option<Attr>, JsValue> {
        self.of.set_attribute_node(a)
    }
}
impl Attr {
    pub fn name(&self) -> String {
        self.name.clone()
    }
    pub fn local_name(&self) -> String {
        if self.ns.is_empty() { self.name.clone() } else { self.name.rsplit(':').next().unwrap_or("").to_string() }
    }
    pub fn prefix(&self) -> Option<String> {
        if self.ns.is_empty() { None } else { self.name.split_once(':').map(|p| p.0.to_string()) }
    }
    pub fn namespace_uri(&self) -> Option<String> {
        (!self.ns.is_empty()).then(|| self.ns.clone())
    }
    pub fn value(&self) -> String {
        self.on_element().unwrap_or_else(|| self.kept.borrow().clone())
    }
    fn on_element(&self) -> Option<String> {
        self.of.borrow().el().attrs.borrow().iter().find(|a| a.0 == self.name).map(|a| a.1.clone())
    }
    pub fn set_value(&self, v: &str) {
        *self.kept.borrow_mut() = v.into();
        if let Some(a) = self.of.borrow().el().attrs.borrow_mut().iter_mut().find(|a| a.0 == self.name) {
            a.1 = v.into()
        }
    }
    pub fn clone_node(&self) -> Result<Attr, JsValue> {
        Ok(self.clone())
    }
}
impl Element {
    fn el(&self) -> &dom::El {
        self.h().node.el().expect("an element")
    }
    pub fn tag_name(&self) -> String {
        self.node_name()
    }
    pub fn local_name(&self) -> String {
        self.el().local.clone()
    }
    pub fn namespace_uri(&self) -> Option<String> {
        Some(self.el().ns.clone())
    }
    pub fn id(&self) -> String {
        self.get_attribute("id").unwrap_or_default()
    }
    pub fn class_name(&self) -> String {
        self.get_attribute("class").unwrap_or_default()
    }
    pub fn attributes(&self) -> NamedNodeMap {
        NamedNodeMap { of: self.clone() }
    }
    pub fn get_attribute(&self, n: &str) -> Option<String> {
        self.h().node.get_attr(n)
    }
    pub fn get_attribute_node(&self, n: &str) -> Option<Attr> {
        self.attributes().get_named_item(n)
    }
    pub fn has_attribute(&self, n: &str) -> bool {
        self.get_attribute(n).is_some()
    }
    pub fn set_attribute(&self, n: &str, v: &str) -> Result<(), JsValue> {
        self.h().node.set_attr(n, v).map_err(fail)
    }
    pub fn set_attribute_ns(&self, ns: Option<&str>, n: &str, v: &str) -> Result<(), JsValue> {
        self.h().node.set_attr_ns(ns.unwrap_or(""), n, v).map_err(fail)
    }
    pub fn get_attribute_ns(&self, ns: Option<&str>, local: &str) -> Option<String> {
        let at = self.el().attrs.borrow();
        at.iter().find(|a| dom::is_attr(a, ns.unwrap_or(""), local)).map(|a| a.1.clone())
    }
    pub fn has_attribute_ns(&self, ns: Option<&str>, local: &str) -> bool {
        self.get_attribute_ns(ns, local).is_some()
    }
    pub fn set_attribute_node(&self, a: &Attr) -> Result<Option<Attr>, JsValue> {
        let same = std::rc::Rc::ptr_eq(&raw(&a.of.borrow()), &raw(self));
        if !same && a.on_element().is_some() {
            return Err(fail(dom::DomErr::InUse));
        }
        let v = a.value();
        *a.of.borrow_mut() = self.clone();
        *a.kept.borrow_mut() = v.clone();
        let mut at = self.el().attrs.borrow_mut();
        match at.iter_mut().find(|x| x.0 == a.name) {
            Some(x) => x.1 = v,
            None => at.push((a.name.clone(), v, a.ns.clone())),
        }
        Ok(None)
    }
    pub fn remove_attribute(&self, n: &str) -> Result<(), JsValue> {
        self.h().node.remove_attr(n);
        Ok(())
    }
    pub fn remove_attribute_node(&self, a: &Attr) -> Result<Attr, JsValue> {
        let mut at = self.el().attrs.borrow_mut();
        match at.iter().position(|x| x.0 == a.name) {
            Some(i) => *a.kept.borrow_mut() = at.remove(i).1,
            None => return Err(fail(dom::DomErr::NotFound)),
        }
        drop(at);
        Ok(a.clone())
    }
    pub fn remove_attribute_ns(&self, ns: Option<&str>, local: &str) -> Result<(), JsValue> {
        let mut at = self.el().attrs.borrow_mut();
        if let Some(i) = at.iter().position(|a| dom::is_attr(a, ns.unwrap_or(""), local)) {
            at.remove(i);
        }
        Ok(())
    }
    pub fn inner_html(&self) -> String {
        let mut s = String::new();
        dom::inner_html(&self.h().node, &mut s);
        s
    }
    pub fn outer_html(&self) -> String {
        let mut s = String::new();
        dom::outer_html(&self.h().node, false, &mut s);
        s
    }
    pub fn set_inner_html(&self, html: &str) {
        let e = self.el();
        let into = e.content.clone().unwrap_or_else(|| self.h().node.clone());
        into.clear();
        for c in dom::parse_fragment(&e.local, html) {
            c.detach();
            into.put(None, &c)
        }
    }
    pub fn remove(&self) {
        self.h().node.detach()
    }
    pub fn child_element_count(&self) -> u32 {
        self.h().node.children.borrow().iter().filter(|c| c.el().is_some()).count() as u32
    }
    pub fn replace_with_with_node_1(&self, n: &Node) -> Result<(), JsValue> {
        if let Some(p) = self.parent_node() {
            p.replace_child(n, self)?;
        }
        Ok(())
    }
    pub fn query_selector(&self, s: &str) -> Result<Option<Element>, JsValue> {
        Ok(dom::select(&self.h().node, s).map_err(fail)?.map(|n| js(n, &self.h().doc).into()))
    }
    pub fn closest(&self, s: &str) -> Result<Option<Element>, JsValue> {
        let mut n = Some(raw(self));
        while let Some(x) = n {
            if dom::matches(&x, s).map_err(fail)? {
                return Ok(Some(js(x, &self.h().doc).into()));
            }
            n = x.parent()
        }
        Ok(None)
    }
}
impl CharacterData {
    pub fn data(&self) -> String {
        self.text_content().unwrap_or_default()
    }
    pub fn set_data(&self, v: &str) {
        self.set_text_content(Some(v))
    }
    pub fn length(&self) -> u32 {
        self.data().encode_utf16().count() as u32
    }
    pub fn remove(&self) {
        self.h().node.detach()
    }
}
impl HtmlTemplateElement {
    pub fn content(&self) -> DocumentFragment {
        let h = host(self.as_ref());
        js(h.node.el().and_then(|e| e.content.clone()).expect("template content"), &h.doc).into()
    }
}
impl EventTarget {
    pub fn dispatch_event(&self, e: &Event) -> Result<bool, JsValue> {
        sim::dispatched(self.as_ref(), e);
        Ok(true)
    }
}
impl Event {
    fn prop(&self, k: &str) -> JsValue {
        let v: &JsValue = self.as_ref();
        v.host().map(|h| h.get(k)).unwrap_or_default()
    }
    pub fn type_(&self) -> String {
        self.prop("type").as_string().unwrap_or_default()
    }
    pub fn bubbles(&self) -> bool {
        self.prop("bubbles").as_bool().unwrap_or(false)
    }
}
impl CustomEvent {
    pub fn new(ty: &str) -> Result<CustomEvent, JsValue> {
        Self::new_with_event_init_dict(ty, &CustomEventInit::new())
    }
    pub fn new_with_event_init_dict(ty: &str, init: &CustomEventInit) -> Result<CustomEvent, JsValue> {
        let iv: &JsValue = init.as_ref();
        let h = iv.host().unwrap();
        let props = vec![("type".to_string(), JsValue::from_str(ty)), ("bubbles".into(), h.get("bubbles")), ("cancelable".into(), h.get("cancelable")), ("detail".into(), h.get("detail"))];
        Ok(JsValue::from_obj(Rc::new(js_sys::Plain { classes: &["CustomEvent", "Event", "Object"], props: RefCell::new(props) })).into())
    }
    pub fn detail(&self) -> JsValue {
        self.prop("detail")
    }
}
impl CustomEventInit {
    #[allow(clippy::new_without_default)]
    pub fn new() -> CustomEventInit {
        JsValue::from_obj(Rc::new(js_sys::Plain { classes: &["Object"], props: RefCell::default() })).into()
    }
    fn put(&self, k: &str, v: JsValue) {
        let iv: &JsValue = self.as_ref();
        iv.host().unwrap().set(k, v);
    }
    pub fn set_bubbles(&self, b: bool) {
        self.put("bubbles", b.into())
    }
    pub fn set_cancelable(&self, b: bool) {
        self.put("cancelable", b.into())
    }
    pub fn set_composed(&self, b: bool) {
        self.put("composed", b.into())
    }
    pub fn set_detail(&self, v: &JsValue) {
        self.put("detail", v.clone())
    }
    pub fn bubbles(&mut self, b: bool) -> &mut Self {
        self.set_bubbles(b);
        self
    }
    pub fn detail(&mut self, v: &JsValue) -> &mut Self {
        self.set_detail(v);
        self
    }
}
impl Document {
    fn html(&self) -> Option<Ref> {
        self.h().node.children.borrow().iter().find(|c| c.is_el("html")).cloned()
    }
    fn part(&self, tag: &str) -> Option<Ref> {
        self.html().and_then(|h| h.children.borrow().iter().find(|c| c.is_el(tag)).cloned())
    }
    pub fn body(&self) -> Option<HtmlElement> {
        self.part("body").map(|n| js(n, &self.h().doc).into())
    }
    pub fn head(&self) -> Option<HtmlElement> {
        self.part("head").map(|n| js(n, &self.h().doc).into())
    }
    pub fn document_element(&self) -> Option<Element> {
        self.html().map(|n| js(n, &self.h().doc).into())
    }
    pub fn create_element(&self, tag: &str) -> Result<Element, JsValue> {
        if !dom::valid_tag(tag) {
            return Err(fail(DomErr::InvalidCharacter));
        }
        Ok(js(dom::element(&tag.to_ascii_lowercase(), dom::HTML), &self.h().doc).into())
    }
    pub fn create_element_ns(&self, ns: Option<&str>, tag: &str) -> Result<Element, JsValue> {
        if !dom::valid_tag(tag) {
            return Err(fail(DomErr::InvalidCharacter));
        }
        Ok(js(dom::element(tag, ns.unwrap_or("")), &self.h().doc).into())
    }
    pub fn create_text_node(&self, s: &str) -> Text {
        js(dom::text(s), &self.h().doc).into()
    }
    pub fn create_comment(&self, s: &str) -> Comment {
        js(dom::comment(s), &self.h().doc).into()
    }
    pub fn create_document_fragment(&self) -> DocumentFragment {
        js(dom::node(Kind::Fragment), &self.h().doc).into()
    }
    pub fn query_selector(&self, s: &str) -> Result<Option<Element>, JsValue> {
        Ok(dom::select(&self.h().node, s).map_err(fail)?.map(|n| js(n, &self.h().doc).into()))
    }
    pub fn get_element_by_id(&self, id: &str) -> Option<Element> {
        self.h().node.find(&|n| n.get_attr("id").as_deref() == Some(id)).map(|n| js(n, &self.h().doc).into())
    }
    pub fn title(&self) -> String {
        self.h().node.find(&|n| n.is_el("title")).and_then(|n| n.text_content()).unwrap_or_default()
    }
    pub fn location(&self) -> Option<Location> {
        window().map(|w| w.location())
    }
}
pub fn window() -> Option<Window> {
    sim::page(|p| JsValue::from_obj(Rc::new(sim::WindowHost(p.clone()))).into())
}
impl Window {
    fn page(&self) -> sim::PageRef {
        let v: &JsValue = self.as_ref();
        v.host().unwrap().as_any().downcast_ref::<sim::WindowHost>().unwrap().0.clone()
    }
    pub fn document(&self) -> Option<Document> {
        let p = self.page();
        let d = p.borrow().doc.clone();
        Some(js(d.clone(), &d).into())
    }
    pub fn location(&self) -> Location {
        JsValue::from_obj(Rc::new(sim::WindowHost(self.page()))).into()
    }
}
impl Location {
    fn page(&self) -> sim::PageRef {
        let v: &JsValue = self.as_ref();
        v.host().unwrap().as_any().downcast_ref::<sim::WindowHost>().unwrap().0.clone()
    }
    pub fn pathname(&self) -> Result<String, JsValue> {
        Ok(self.page().borrow().path.clone())
    }
    pub fn href(&self) -> Result<String, JsValue> {
        Ok(format!("http://site.test{}", self.page().borrow().path))
    }
    pub fn search(&self) -> Result<String, JsValue> {
        Ok(String::new())
    }
    pub fn hash(&self) -> Result<String, JsValue> {
        Ok(String::new())
    }
    pub fn host(&self) -> Result<String, JsValue> {
        Ok("site.test".into())
    }
    pub fn origin(&self) -> Result<String, JsValue> {
        Ok("http://site.test".into())
    }
    pub fn reload(&self) -> Result<(), JsValue> {
        let f = self.page().borrow().on_reload.clone();
        f();
        Ok(())
    }
}
pub mod console {
    use wasm_bindgen::JsValue;
    fn out(v: &JsValue) {
        let s = v.as_string().unwrap_or_else(|| format!("{v:?}"));
        crate::sim::logged(&s)
    }
    pub fn log_1(v: &JsValue) {
        out(v)
    }
    pub fn log_2(a: &JsValue, b: &JsValue) {
        out(a);
        out(b)
    }
    pub fn warn_1(v: &JsValue) {
        out(v)
    }
    pub fn error_1(v: &JsValue) {
        out(v)
    }
    pub fn info_1(v: &JsValue) {
        out(v)
    }
    pub fn debug_1(v: &JsValue) {
        out(v)
    }
}

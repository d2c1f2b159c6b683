//! What the client does not call today and another way of writing it might.
use crate::dom::{self, DomErr, Kind, Ref};
use crate::*;

type Done = Result<(), JsValue>;
fn elements(n: &Ref) -> Vec<Ref> {
    n.children.borrow().iter().filter(|c| c.el().is_some()).cloned().collect()
}
fn root(n: &Ref) -> Ref {
    let mut n = n.clone();
    while let Some(p) = n.parent() {
        n = p
    }
    n
}
fn path(n: &Ref) -> Vec<usize> {
    let mut v = vec![];
    let mut n = n.clone();
    while let (Some(p), Some(i)) = (n.parent(), n.index()) {
        v.insert(0, i);
        n = p
    }
    v
}
fn equal(a: &Ref, b: &Ref) -> bool {
    let same = match (&a.kind, &b.kind) {
        (Kind::Text(x), Kind::Text(y)) | (Kind::Comment(x), Kind::Comment(y)) => *x.borrow() == *y.borrow(),
        (Kind::Element(x), Kind::Element(y)) => {
            let sorted = |e: &dom::El| {
                let mut v = e.attrs.borrow().clone();
                v.sort();
                v
            };
            x.local == y.local && x.ns == y.ns && sorted(x) == sorted(y)
        }
        (Kind::Document, Kind::Document) | (Kind::Fragment, Kind::Fragment) => true,
        (Kind::Doctype(x), Kind::Doctype(y)) => x == y,
        _ => false,
    };
    let (x, y) = (a.children.borrow(), b.children.borrow());
    same && x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| equal(p, q))
}
/// `node.before(new)` and its kind: at `at` in the parent, if there is one.
fn beside(n: &Ref, new: &Ref, after: bool) -> Done {
    let Some(p) = n.parent() else { return Ok(()) };
    let mut at = if after { n.index().and_then(|i| p.child(i + 1)) } else { Some(n.clone()) };
    if at.as_ref().is_some_and(|x| Rc::ptr_eq(x, new)) {
        at = new.index().and_then(|i| p.child(i + 1))
    }
    p.insert_before(new, at.as_ref()).map_err(fail)
}
impl Node {
    pub const DOCUMENT_POSITION_DISCONNECTED: u16 = 1;
    pub const DOCUMENT_POSITION_PRECEDING: u16 = 2;
    pub const DOCUMENT_POSITION_FOLLOWING: u16 = 4;
    pub const DOCUMENT_POSITION_CONTAINS: u16 = 8;
    pub const DOCUMENT_POSITION_CONTAINED_BY: u16 = 16;
    pub fn get_root_node(&self) -> Node {
        js(root(&raw(self)), &self.h().doc).into()
    }
    pub fn is_equal_node(&self, o: Option<&Node>) -> bool {
        o.is_some_and(|o| equal(&raw(self), &raw(o)))
    }
    pub fn compare_document_position(&self, o: &Node) -> u16 {
        let (a, b) = (raw(self), raw(o));
        if Rc::ptr_eq(&a, &b) {
            return 0;
        }
        if !Rc::ptr_eq(&root(&a), &root(&b)) {
            return 1 | 32 | 2;
        }
        let (p, q) = (path(&a), path(&b));
        if q.starts_with(&p) {
            20
        } else if p.starts_with(&q) {
            10
        } else if q < p {
            2
        } else {
            4
        }
    }
}
macro_rules! child_node {
    ($($t:ident)*) => {$(
        impl $t {
            pub fn before_with_node_1(&self, n: &Node) -> Done {
                beside(&raw(self), &raw(n), false)
            }
            pub fn after_with_node_1(&self, n: &Node) -> Done {
                beside(&raw(self), &raw(n), true)
            }
            pub fn before_with_str_1(&self, s: &str) -> Done {
                beside(&raw(self), &dom::text(s), false)
            }
            pub fn after_with_str_1(&self, s: &str) -> Done {
                beside(&raw(self), &dom::text(s), true)
            }
            pub fn next_element_sibling(&self) -> Option<Element> {
                let n = raw(self);
                let i = n.index()?;
                let p = n.parent()?;
                let c = p.children.borrow();
                c[i + 1..].iter().find(|c| c.el().is_some()).map(|c| js(c.clone(), &self.h().doc).into())
            }
            pub fn previous_element_sibling(&self) -> Option<Element> {
                let n = raw(self);
                let i = n.index()?;
                let p = n.parent()?;
                let c = p.children.borrow();
                c[..i].iter().rev().find(|c| c.el().is_some()).map(|c| js(c.clone(), &self.h().doc).into())
            }
            pub fn replace_with_with_str_1(&self, s: &str) -> Done {
                match raw(self).parent() {
                    Some(p) => p.replace_child(&dom::text(s), &raw(self)).map_err(fail),
                    None => Ok(()),
                }
            }
        }
    )*};
}
child_node!(Element CharacterData);
macro_rules! parent_node {
    ($($t:ident)*) => {$(
        impl $t {
            pub fn append_with_node_1(&self, n: &Node) -> Done {
                raw(self).append(&raw(n)).map_err(fail)
            }
            pub fn append_with_str_1(&self, s: &str) -> Done {
                raw(self).append(&dom::text(s)).map_err(fail)
            }
            pub fn prepend_with_node_1(&self, n: &Node) -> Done {
                let first = raw(self).child(0);
                raw(self).insert_before(&raw(n), first.as_ref()).map_err(fail)
            }
            pub fn prepend_with_str_1(&self, s: &str) -> Done {
                let first = raw(self).child(0);
                raw(self).insert_before(&dom::text(s), first.as_ref()).map_err(fail)
            }
            pub fn replace_children_with_node_0(&self) {
                raw(self).clear()
            }
            pub fn replace_children_with_node_1(&self, n: &Node) -> Done {
                raw(self).clear();
                raw(self).append(&raw(n)).map_err(fail)
            }
            pub fn first_element_child(&self) -> Option<Element> {
                elements(&raw(self)).first().map(|c| js(c.clone(), &self.h().doc).into())
            }
            pub fn last_element_child(&self) -> Option<Element> {
                elements(&raw(self)).last().map(|c| js(c.clone(), &self.h().doc).into())
            }
            pub fn query_selector_all(&self, s: &str) -> Result<NodeList, JsValue> {
                let fixed = Some(dom::select_all(&raw(self), s).map_err(fail)?);
                Ok(NodeList { of: js(raw(self), &self.h().doc).into(), fixed })
            }
        }
    )*};
}
parent_node!(Element Document DocumentFragment);
impl DocumentFragment {
    pub fn child_element_count(&self) -> u32 {
        elements(&raw(self)).len() as u32
    }
    pub fn query_selector(&self, s: &str) -> Result<Option<Element>, JsValue> {
        Ok(dom::select(&raw(self), s).map_err(fail)?.map(|n| js(n, &self.h().doc).into()))
    }
}
impl Element {
    pub fn prefix(&self) -> Option<String> {
        None
    }
    pub fn set_id(&self, v: &str) {
        let _ = self.set_attribute("id", v);
    }
    pub fn set_class_name(&self, v: &str) {
        let _ = self.set_attribute("class", v);
    }
    pub fn has_attributes(&self) -> bool {
        self.attributes().length() > 0
    }
    pub fn get_attribute_node_ns(&self, ns: Option<&str>, local: &str) -> Option<Attr> {
        self.attributes().get_named_item_ns(ns, local)
    }
    pub fn set_attribute_node_ns(&self, a: &Attr) -> Result<Option<Attr>, JsValue> {
        self.set_attribute_node(a)
    }
    pub fn toggle_attribute(&self, n: &str) -> Result<bool, JsValue> {
        self.toggle_attribute_with_force(n, !self.has_attribute(n))
    }
    pub fn toggle_attribute_with_force(&self, n: &str, on: bool) -> Result<bool, JsValue> {
        match (on, self.has_attribute(n)) {
            (true, false) => self.set_attribute(n, "")?,
            (false, true) => self.remove_attribute(n)?,
            _ => {}
        }
        Ok(on)
    }
    pub fn matches(&self, s: &str) -> Result<bool, JsValue> {
        dom::matches(&raw(self), s).map_err(fail)
    }
    pub fn set_outer_html(&self, html: &str) {
        let n = raw(self);
        let Some(p) = n.parent() else { return };
        let context = p.el().map(|e| e.local.clone()).unwrap_or("body".into());
        for c in dom::parse_fragment(&context, html) {
            c.detach();
            let _ = beside(&n, &c, false);
        }
        n.detach()
    }
    fn place(&self, place: &str, n: &Ref) -> Result<bool, JsValue> {
        let me = raw(self);
        match place.to_ascii_lowercase().as_str() {
            "beforebegin" | "afterend" if me.parent().is_none() => return Ok(false),
            "beforebegin" => beside(&me, n, false)?,
            "afterend" => beside(&me, n, true)?,
            "afterbegin" => me.insert_before(n, me.child(0).as_ref()).map_err(fail)?,
            "beforeend" => me.append(n).map_err(fail)?,
            _ => return Err(fail(DomErr::Syntax)),
        }
        Ok(true)
    }
    pub fn insert_adjacent_element(&self, place: &str, e: &Element) -> Result<Option<Element>, JsValue> {
        Ok(self.place(place, &raw(e))?.then(|| e.clone()))
    }
    pub fn insert_adjacent_text(&self, place: &str, s: &str) -> Done {
        self.place(place, &dom::text(s)).map(|_| ())
    }
    pub fn insert_adjacent_html(&self, place: &str, html: &str) -> Done {
        let e = if matches!(place, "beforebegin" | "afterend") { self.parent_element() } else { Some(self.clone()) };
        let context = e.map(|e| e.local_name()).unwrap_or("body".into());
        let f = dom::node(Kind::Fragment);
        for c in dom::parse_fragment(&context, html) {
            c.detach();
            f.put(None, &c)
        }
        self.place(place, &f).map(|_| ())
    }
}
impl CharacterData {
    pub fn append_data(&self, s: &str) -> Done {
        self.set_data(&format!("{}{s}", self.data()));
        Ok(())
    }
    pub fn replace_with_with_node_1(&self, n: &Node) -> Done {
        match raw(self).parent() {
            Some(p) => p.replace_child(&raw(n), &raw(self)).map_err(fail),
            None => Ok(()),
        }
    }
}
impl Text {
    pub fn new() -> Result<Text, JsValue> {
        Self::new_with_data("")
    }
    pub fn new_with_data(s: &str) -> Result<Text, JsValue> {
        let d = window().and_then(|w| w.document()).ok_or(JsValue::NULL)?;
        Ok(d.create_text_node(s))
    }
    pub fn split_text(&self, at: u32) -> Result<Text, JsValue> {
        let all: Vec<u16> = self.data().encode_utf16().collect();
        if at as usize > all.len() {
            return Err(JsValue::from_str("IndexSizeError"));
        }
        let (a, b) = all.split_at(at as usize);
        let rest = dom::text(&String::from_utf16_lossy(b));
        self.set_data(&String::from_utf16_lossy(a));
        beside(&raw(self), &rest, true)?;
        Ok(js(rest, &self.h().doc).into())
    }
    pub fn whole_text(&self) -> Result<String, JsValue> {
        Ok(self.data())
    }
}
impl Comment {
    pub fn new() -> Result<Comment, JsValue> {
        Self::new_with_data("")
    }
    pub fn new_with_data(s: &str) -> Result<Comment, JsValue> {
        let d = window().and_then(|w| w.document()).ok_or(JsValue::NULL)?;
        Ok(d.create_comment(s))
    }
}
impl DocumentFragment {
    pub fn new() -> Result<DocumentFragment, JsValue> {
        let d = window().and_then(|w| w.document()).ok_or(JsValue::NULL)?;
        Ok(d.create_document_fragment())
    }
}
impl NamedNodeMap {
    pub fn get_with_name(&self, n: &str) -> Option<Attr> {
        self.get_named_item(n)
    }
    pub fn get_named_item_ns(&self, ns: Option<&str>, local: &str) -> Option<Attr> {
        self.of.el().attrs.borrow().iter().find(|a| dom::is_attr(a, ns.unwrap_or(""), local)).map(|a| attr_of(&self.of, &a.0, &a.1, &a.2))
    }
    pub fn set_named_item_ns(&self, a: &Attr) -> Result<Option<Attr>, JsValue> {
        self.of.set_attribute_node(a)
    }
    pub fn remove_named_item(&self, n: &str) -> Result<Attr, JsValue> {
        let a = self.get_named_item(n).ok_or_else(|| fail(DomErr::NotFound))?;
        self.of.remove_attribute_node(&a)
    }
    pub fn remove_named_item_ns(&self, ns: Option<&str>, local: &str) -> Result<Attr, JsValue> {
        let a = self.get_named_item_ns(ns, local).ok_or_else(|| fail(DomErr::NotFound))?;
        self.of.remove_attribute_node(&a)
    }
}
impl Attr {
    pub fn owner_element(&self) -> Option<Element> {
        self.on_element().map(|_| self.of.borrow().clone())
    }
    pub fn node_name(&self) -> String {
        self.name()
    }
    pub fn node_value(&self) -> Option<String> {
        Some(self.value())
    }
    pub fn specified(&self) -> bool {
        true
    }
}
impl Document {
    pub fn import_node(&self, n: &Node) -> Result<Node, JsValue> {
        n.clone_node_with_deep(false)
    }
    pub fn import_node_with_deep(&self, n: &Node, deep: bool) -> Result<Node, JsValue> {
        n.clone_node_with_deep(deep)
    }
    pub fn adopt_node(&self, n: &Node) -> Result<Node, JsValue> {
        raw(n).detach();
        Ok(n.clone())
    }
    pub fn ready_state(&self) -> String {
        "complete".into()
    }
    pub fn default_view(&self) -> Option<Window> {
        window()
    }
    pub fn compat_mode(&self) -> String {
        "CSS1Compat".into()
    }
    pub fn url(&self) -> Result<String, JsValue> {
        self.location().map(|l| l.href()).unwrap_or(Ok("about:blank".into()))
    }
}
impl Location {
    pub fn protocol(&self) -> Result<String, JsValue> {
        Ok("http:".into())
    }
    pub fn hostname(&self) -> Result<String, JsValue> {
        Ok("site.test".into())
    }
    pub fn port(&self) -> Result<String, JsValue> {
        Ok(String::new())
    }
}
impl CustomEvent {
    pub fn init_custom_event(&self, _ty: &str) {}
}
impl Event {
    pub fn cancelable(&self) -> bool {
        self.prop("cancelable").as_bool().unwrap_or(false)
    }
}

//! Stand-in for js-sys: plain objects, Reflect, JSON.stringify.
use std::any::Any;
use std::cell::RefCell;
use std::rc::Rc;
use wasm_bindgen::{Host, JsValue, Repr, wrap};

pub struct Plain {
    pub classes: &'static [&'static str],
    pub props: RefCell<Vec<(String, JsValue)>>,
}
impl Host for Plain {
    fn classes(&self) -> &'static [&'static str] {
        self.classes
    }
    fn get(&self, key: &str) -> JsValue {
        self.props.borrow().iter().find(|p| p.0 == key).map(|p| p.1.clone()).unwrap_or_default()
    }
    fn set(&self, key: &str, v: JsValue) -> bool {
        let mut p = self.props.borrow_mut();
        match p.iter_mut().find(|p| p.0 == key) {
            Some(e) => e.1 = v,
            None => p.push((key.into(), v)),
        }
        true
    }
    fn keys(&self) -> Vec<String> {
        self.props.borrow().iter().map(|p| p.0.clone()).collect()
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
}
wrap! { Object: JsValue, []; JsString: JsValue, []; Error: Object, [Object]; }
fn plain(classes: &'static [&'static str], props: Vec<(String, JsValue)>) -> JsValue {
    JsValue::from_obj(Rc::new(Plain { classes, props: RefCell::new(props) }))
}
impl Object {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Object {
        plain(&["Object"], vec![]).into()
    }
}
impl Error {
    pub fn name(&self) -> JsString {
        JsValue::from_str("Error").into()
    }
    pub fn to_string(&self) -> JsString {
        let m = self.message().as_string().unwrap_or_default();
        JsValue::from_str(&format!("Error: {m}")).into()
    }
    pub fn new(message: &str) -> Error {
        plain(&["Error", "Object"], vec![("message".into(), JsValue::from_str(message))]).into()
    }
    pub fn message(&self) -> JsString {
        let v: &JsValue = self.as_ref();
        v.host().map(|h| h.get("message")).unwrap_or_default().into()
    }
}
#[allow(non_snake_case)]
pub mod Reflect {
    use super::*;
    pub fn get(target: &JsValue, key: &JsValue) -> Result<JsValue, JsValue> {
        match target.host() {
            Some(h) => Ok(h.get(&key.as_string().unwrap_or_default())),
            None => Err(Error::new("Reflect.get called on non-object").into()),
        }
    }
    pub fn set(target: &JsValue, key: &JsValue, value: &JsValue) -> Result<bool, JsValue> {
        match target.host() {
            Some(h) => Ok(h.set(&key.as_string().unwrap_or_default(), value.clone())),
            None => Err(Error::new("Reflect.set called on non-object").into()),
        }
    }
    pub fn has(target: &JsValue, key: &JsValue) -> Result<bool, JsValue> {
        match target.host() {
            Some(h) => Ok(h.keys().contains(&key.as_string().unwrap_or_default())),
            None => Err(Error::new("Reflect.has called on non-object").into()),
        }
    }
}
impl From<&str> for JsString {
    fn from(s: &str) -> JsString {
        JsValue::from_str(s).into()
    }
}
impl From<String> for JsString {
    fn from(s: String) -> JsString {
        JsValue::from_str(&s).into()
    }
}
impl From<&JsString> for String {
    fn from(s: &JsString) -> String {
        let v: &JsValue = s.as_ref();
        v.as_string().unwrap_or_default()
    }
}
impl From<JsString> for String {
    fn from(s: JsString) -> String {
        (&s).into()
    }
}
impl std::fmt::Display for JsString {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&String::from(self))
    }
}
#[allow(non_snake_case)]
pub mod JSON {
    use super::*;
    pub fn stringify(v: &JsValue) -> Result<JsString, JsValue> {
        fn go(v: &JsValue, d: usize) -> String {
            match &v.repr {
                Repr::Undefined | Repr::Null => "null".into(),
                Repr::Bool(b) => b.to_string(),
                Repr::Num(n) => n.to_string(),
                Repr::Str(s) => format!("{s:?}"),
                Repr::Obj(o) if d < 8 => {
                    let f: Vec<String> = o.keys().iter().map(|k| format!("{k:?}:{}", go(&o.get(k), d + 1))).collect();
                    format!("{{{}}}", f.join(","))
                }
                Repr::Obj(_) => "{}".into(),
            }
        }
        Ok(JsValue::from_str(&go(v, 0)).into())
    }
}

//! Stand-in for wasm-bindgen: JavaScript values as reference-counted host objects.
use std::any::Any;
use std::fmt;
use std::rc::Rc;
pub use wasm_bindgen_macro::wasm_bindgen;

pub mod prelude {
    pub use crate::{JsCast, JsError, JsValue, UnwrapThrowExt, wasm_bindgen};
}
/// An object of the host environment.
pub trait Host: Any {
    /// Most derived class first.
    fn classes(&self) -> &'static [&'static str];
    fn get(&self, key: &str) -> JsValue;
    fn set(&self, key: &str, v: JsValue) -> bool;
    fn keys(&self) -> Vec<String>;
    fn as_any(&self) -> &dyn Any;
    /// Two hosts of one identity are one object to script.
    fn identity(&self) -> *const () {
        self as *const Self as *const ()
    }
}
#[derive(Clone)]
pub enum Repr {
    Undefined,
    Null,
    Bool(bool),
    Num(f64),
    Str(Rc<str>),
    Obj(Rc<dyn Host>),
}
#[derive(Clone)]
pub struct JsValue {
    pub repr: Repr,
}
impl JsValue {
    pub const UNDEFINED: JsValue = JsValue { repr: Repr::Undefined };
    pub const NULL: JsValue = JsValue { repr: Repr::Null };
    pub const TRUE: JsValue = JsValue { repr: Repr::Bool(true) };
    pub const FALSE: JsValue = JsValue { repr: Repr::Bool(false) };
    pub fn from_str(s: &str) -> JsValue {
        JsValue { repr: Repr::Str(Rc::from(s)) }
    }
    pub fn from_f64(n: f64) -> JsValue {
        JsValue { repr: Repr::Num(n) }
    }
    pub fn from_bool(b: bool) -> JsValue {
        JsValue { repr: Repr::Bool(b) }
    }
    pub fn from_obj(o: Rc<dyn Host>) -> JsValue {
        JsValue { repr: Repr::Obj(o) }
    }
    pub fn undefined() -> JsValue {
        Self::UNDEFINED
    }
    pub fn null() -> JsValue {
        Self::NULL
    }
    pub fn as_string(&self) -> Option<String> {
        match &self.repr {
            Repr::Str(s) => Some(s.to_string()),
            _ => None,
        }
    }
    pub fn as_f64(&self) -> Option<f64> {
        match &self.repr {
            Repr::Num(n) => Some(*n),
            _ => None,
        }
    }
    pub fn as_bool(&self) -> Option<bool> {
        match &self.repr {
            Repr::Bool(n) => Some(*n),
            _ => None,
        }
    }
    pub fn is_undefined(&self) -> bool {
        matches!(self.repr, Repr::Undefined)
    }
    pub fn is_null(&self) -> bool {
        matches!(self.repr, Repr::Null)
    }
    pub fn is_string(&self) -> bool {
        matches!(self.repr, Repr::Str(_))
    }
    pub fn is_object(&self) -> bool {
        matches!(self.repr, Repr::Obj(_))
    }
    pub fn is_truthy(&self) -> bool {
        match &self.repr {
            Repr::Undefined | Repr::Null => false,
            Repr::Bool(b) => *b,
            Repr::Num(n) => *n != 0.0 && !n.is_nan(),
            Repr::Str(s) => !s.is_empty(),
            Repr::Obj(_) => true,
        }
    }
    pub fn is_falsy(&self) -> bool {
        !self.is_truthy()
    }
    pub fn is_null_or_undefined(&self) -> bool {
        self.is_null() || self.is_undefined()
    }
    pub fn is_function(&self) -> bool {
        false
    }
    pub fn is_array(&self) -> bool {
        self.has_class("Array")
    }
    pub fn host(&self) -> Option<&Rc<dyn Host>> {
        match &self.repr {
            Repr::Obj(o) => Some(o),
            _ => None,
        }
    }
    pub fn has_class(&self, c: &str) -> bool {
        self.host().is_some_and(|o| o.classes().contains(&c))
    }
}
impl PartialEq for JsValue {
    fn eq(&self, o: &JsValue) -> bool {
        match (&self.repr, &o.repr) {
            (Repr::Undefined, Repr::Undefined) | (Repr::Null, Repr::Null) => true,
            (Repr::Bool(a), Repr::Bool(b)) => a == b,
            (Repr::Num(a), Repr::Num(b)) => a == b,
            (Repr::Str(a), Repr::Str(b)) => a == b,
            (Repr::Obj(a), Repr::Obj(b)) => a.identity() == b.identity(),
            _ => false,
        }
    }
}
impl fmt::Debug for JsValue {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match &self.repr {
            Repr::Undefined => write!(f, "JsValue(undefined)"),
            Repr::Null => write!(f, "JsValue(null)"),
            Repr::Bool(b) => write!(f, "JsValue({b})"),
            Repr::Num(n) => write!(f, "JsValue({n})"),
            Repr::Str(s) => write!(f, "JsValue({s:?})"),
            Repr::Obj(o) => write!(f, "JsValue({})", o.classes().first().unwrap_or(&"Object")),
        }
    }
}
impl From<&str> for JsValue {
    fn from(s: &str) -> Self {
        Self::from_str(s)
    }
}
impl From<String> for JsValue {
    fn from(s: String) -> Self {
        Self::from_str(&s)
    }
}
impl From<&String> for JsValue {
    fn from(s: &String) -> Self {
        Self::from_str(s)
    }
}
impl From<bool> for JsValue {
    fn from(s: bool) -> Self {
        Self::from_bool(s)
    }
}
macro_rules! nums { ($($t:ty)*) => {$( impl From<$t> for JsValue { fn from(n: $t) -> Self { Self::from_f64(n as f64) } } )*}; }
nums!(u8 u16 u32 i32 i64 u64 usize f32 f64);
impl<T: Into<JsValue>> From<Option<T>> for JsValue {
    fn from(v: Option<T>) -> Self {
        v.map(Into::into).unwrap_or_default()
    }
}
impl PartialEq<str> for JsValue {
    fn eq(&self, o: &str) -> bool {
        matches!(&self.repr, Repr::Str(s) if &**s == o)
    }
}
impl PartialEq<&str> for JsValue {
    fn eq(&self, o: &&str) -> bool {
        *self == **o
    }
}
impl PartialEq<bool> for JsValue {
    fn eq(&self, o: &bool) -> bool {
        self.as_bool() == Some(*o)
    }
}
impl AsRef<JsValue> for JsValue {
    fn as_ref(&self) -> &JsValue {
        self
    }
}
impl Default for JsValue {
    fn default() -> Self {
        Self::UNDEFINED
    }
}

/// Casts between host classes. Implementors are transparent wrappers around `JsValue`.
pub trait JsCast
where
    Self: AsRef<JsValue> + Into<JsValue>,
{
    fn instanceof(val: &JsValue) -> bool;
    fn unchecked_from_js(val: JsValue) -> Self;
    fn unchecked_from_js_ref(val: &JsValue) -> &Self;
    fn is_type_of(val: &JsValue) -> bool {
        Self::instanceof(val)
    }
    fn has_type<T: JsCast>(&self) -> bool {
        T::is_type_of(self.as_ref())
    }
    fn is_instance_of<T: JsCast>(&self) -> bool {
        T::instanceof(self.as_ref())
    }
    fn dyn_into<T: JsCast>(self) -> Result<T, Self> {
        if self.has_type::<T>() { Ok(self.unchecked_into()) } else { Err(self) }
    }
    fn dyn_ref<T: JsCast>(&self) -> Option<&T> {
        if self.has_type::<T>() { Some(self.unchecked_ref()) } else { None }
    }
    fn unchecked_into<T: JsCast>(self) -> T {
        T::unchecked_from_js(self.into())
    }
    fn unchecked_ref<T: JsCast>(&self) -> &T {
        T::unchecked_from_js_ref(self.as_ref())
    }
}
impl JsCast for JsValue {
    fn instanceof(_: &JsValue) -> bool {
        true
    }
    fn unchecked_from_js(val: JsValue) -> Self {
        val
    }
    fn unchecked_from_js_ref(val: &JsValue) -> &Self {
        val
    }
}
pub fn throw_str(s: &str) -> ! {
    panic!("{s}")
}
pub fn throw_val(v: JsValue) -> ! {
    panic!("{v:?}")
}
pub struct JsError(String);
impl JsError {
    pub fn new(s: &str) -> JsError {
        JsError(s.into())
    }
}
impl<E: std::error::Error> From<E> for JsError {
    fn from(e: E) -> Self {
        JsError(e.to_string())
    }
}
impl From<JsError> for JsValue {
    fn from(e: JsError) -> Self {
        JsValue::from_str(&e.0)
    }
}
pub trait UnwrapThrowExt<T>: Sized {
    fn unwrap_throw(self) -> T;
    fn expect_throw(self, message: &str) -> T;
}
impl<T> UnwrapThrowExt<T> for Option<T> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }
    fn expect_throw(self, m: &str) -> T {
        self.expect(m)
    }
}
impl<T, E: fmt::Debug> UnwrapThrowExt<T> for Result<T, E> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }
    fn expect_throw(self, m: &str) -> T {
        self.expect(m)
    }
}

/// Declares a chain of wrappers: `wrap!(Element: Node);`
#[macro_export]
macro_rules! wrap {
    ($($name:ident : $base:ty, [$($up:ty),*];)*) => {$(
        #[derive(Clone, PartialEq)]
        #[repr(transparent)]
        pub struct $name { obj: $base }
        impl ::std::ops::Deref for $name { type Target = $base; fn deref(&self) -> &$base { &self.obj } }
        impl ::std::convert::AsRef<$crate::JsValue> for $name { fn as_ref(&self) -> &$crate::JsValue { self.obj.as_ref() } }
        impl ::std::convert::AsRef<$name> for $name { fn as_ref(&self) -> &$name { self } }
        impl ::std::convert::From<$name> for $crate::JsValue { fn from(v: $name) -> $crate::JsValue { v.obj.into() } }
        impl ::std::convert::From<&$name> for $crate::JsValue { fn from(v: &$name) -> $crate::JsValue { v.clone().into() } }
        impl ::std::convert::From<$crate::JsValue> for $name { fn from(v: $crate::JsValue) -> $name { <$name as $crate::JsCast>::unchecked_from_js(v) } }
        impl ::std::fmt::Debug for $name { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { write!(f, "{}({:?})", stringify!($name), ::std::convert::AsRef::<$crate::JsValue>::as_ref(self)) } }
        impl $crate::JsCast for $name {
            fn instanceof(v: &$crate::JsValue) -> bool { v.has_class(stringify!($name)) }
            fn unchecked_from_js(v: $crate::JsValue) -> Self { $name { obj: <$base as $crate::JsCast>::unchecked_from_js(v) } }
            fn unchecked_from_js_ref(v: &$crate::JsValue) -> &Self {
                // every wrapper is `repr(transparent)` down to `JsValue`
                unsafe { &*(v as *const $crate::JsValue as *const $name) }
            }
        }
        $(
            impl ::std::convert::From<$name> for $up { fn from(v: $name) -> $up { $crate::JsCast::unchecked_into(v) } }
            impl ::std::convert::From<&$name> for $up { fn from(v: &$name) -> $up { $crate::JsCast::unchecked_into(v.clone()) } }
            impl ::std::convert::AsRef<$up> for $name { fn as_ref(&self) -> &$up { $crate::JsCast::unchecked_ref(self) } }
        )*
    )*};
}

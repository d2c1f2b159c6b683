use std::borrow::{Borrow, Cow};
use std::fmt;
use std::ops::Deref;
use std::sync::Arc;
use tendril::StrTendril;

macro_rules! atom {
    ($($name:ident)*) => {$(
        #[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
        pub struct $name(Arc<str>);
        impl Deref for $name { type Target = str; fn deref(&self) -> &str { &self.0 } }
        impl AsRef<str> for $name { fn as_ref(&self) -> &str { &self.0 } }
        impl Borrow<str> for $name { fn borrow(&self) -> &str { &self.0 } }
        impl From<&str> for $name { fn from(s: &str) -> Self { Self(Arc::from(s)) } }
        impl From<String> for $name { fn from(s: String) -> Self { Self(Arc::from(s)) } }
        impl From<&String> for $name { fn from(s: &String) -> Self { Self(Arc::from(s.as_str())) } }
        impl From<Cow<'_, str>> for $name { fn from(s: Cow<'_, str>) -> Self { Self(Arc::from(&*s)) } }
        impl From<StrTendril> for $name { fn from(s: StrTendril) -> Self { Self(Arc::from(&*s)) } }
        impl Default for $name { fn default() -> Self { Self::from("") } }
        impl fmt::Display for $name { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&*self.0, f) } }
        impl fmt::Debug for $name { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&*self.0, f) } }
        impl PartialEq<str> for $name { fn eq(&self, o: &str) -> bool { &*self.0 == o } }
        impl PartialEq<String> for $name { fn eq(&self, o: &String) -> bool { *self.0 == **o } }
        impl PartialEq<$name> for str { fn eq(&self, o: &$name) -> bool { self == &*o.0 } }
        impl $name {
            pub fn to_ascii_lowercase(&self) -> Self { Self::from(self.0.to_ascii_lowercase()) }
            pub fn to_ascii_uppercase(&self) -> Self { Self::from(self.0.to_ascii_uppercase()) }
            pub fn eq_str_ignore_ascii_case(&self, o: &str) -> bool { self.0.eq_ignore_ascii_case(o) }
            pub fn eq_ignore_ascii_case(&self, o: &Self) -> bool { self.0.eq_ignore_ascii_case(&o.0) }
        }
        impl PartialEq<&str> for $name { fn eq(&self, o: &&str) -> bool { &*self.0 == *o } }
    )*};
}
atom!(LocalName Namespace Prefix);

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct QualName {
    pub prefix: Option<Prefix>,
    pub ns: Namespace,
    pub local: LocalName,
}
impl QualName {
    pub fn expanded(&self) -> ExpandedName<'_> {
        ExpandedName { ns: &self.ns, local: &self.local }
    }
    pub fn new(prefix: Option<Prefix>, ns: Namespace, local: LocalName) -> Self {
        Self { prefix, ns, local }
    }
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Attribute {
    pub name: QualName,
    pub value: StrTendril,
}
#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
pub struct ExpandedName<'a> {
    pub ns: &'a Namespace,
    pub local: &'a LocalName,
}

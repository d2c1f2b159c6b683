//! Stand-in for compact_str: a plain `String` inside.
use std::borrow::{Borrow, Cow};
use std::fmt;
use std::ops::Deref;
#[derive(Clone, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct CompactString(String);
impl CompactString {
    pub fn new(s: impl AsRef<str>) -> Self {
        Self(s.as_ref().to_string())
    }
    /// Not `const` here: a `String` made of a text is none.
    pub fn const_new(s: &'static str) -> Self {
        Self(s.to_string())
    }
    pub fn from_string_buffer(s: String) -> Self {
        Self(s)
    }
    pub fn as_mut_string(&mut self) -> &mut String {
        &mut self.0
    }
    pub fn is_heap_allocated(&self) -> bool {
        self.0.len() > 24
    }
    pub fn truncate(&mut self, n: usize) {
        self.0.truncate(n)
    }
    pub fn pop(&mut self) -> Option<char> {
        self.0.pop()
    }
    pub fn insert_str(&mut self, i: usize, s: &str) {
        self.0.insert_str(i, s)
    }
    pub fn reserve(&mut self, n: usize) {
        self.0.reserve(n)
    }
    pub fn from_utf8(b: impl AsRef<[u8]>) -> Result<Self, std::str::Utf8Error> {
        std::str::from_utf8(b.as_ref()).map(|s| Self(s.into()))
    }
    pub fn from_utf8_lossy(b: &[u8]) -> Self {
        Self(String::from_utf8_lossy(b).into_owned())
    }
    pub fn with_capacity(n: usize) -> Self {
        Self(String::with_capacity(n))
    }
    pub fn as_str(&self) -> &str {
        &self.0
    }
    pub fn push_str(&mut self, s: &str) {
        self.0.push_str(s)
    }
    pub fn push(&mut self, c: char) {
        self.0.push(c)
    }
    pub fn clear(&mut self) {
        self.0.clear()
    }
    pub fn into_string(self) -> String {
        self.0
    }
}
impl Deref for CompactString {
    type Target = str;
    fn deref(&self) -> &str {
        &self.0
    }
}
impl AsRef<str> for CompactString {
    fn as_ref(&self) -> &str {
        &self.0
    }
}
impl Borrow<str> for CompactString {
    fn borrow(&self) -> &str {
        &self.0
    }
}
impl From<String> for CompactString {
    fn from(s: String) -> Self {
        Self(s)
    }
}
impl From<&str> for CompactString {
    fn from(s: &str) -> Self {
        Self(s.into())
    }
}
impl From<&String> for CompactString {
    fn from(s: &String) -> Self {
        Self(s.clone())
    }
}
impl From<Cow<'_, str>> for CompactString {
    fn from(s: Cow<'_, str>) -> Self {
        Self(s.into_owned())
    }
}
impl From<CompactString> for String {
    fn from(s: CompactString) -> Self {
        s.0
    }
}
impl PartialEq<str> for CompactString {
    fn eq(&self, o: &str) -> bool {
        self.0 == o
    }
}
impl PartialEq<&str> for CompactString {
    fn eq(&self, o: &&str) -> bool {
        self.0 == *o
    }
}
impl PartialEq<String> for CompactString {
    fn eq(&self, o: &String) -> bool {
        self.0 == *o
    }
}
impl PartialEq<CompactString> for str {
    fn eq(&self, o: &CompactString) -> bool {
        *self == o.0
    }
}
impl PartialEq<CompactString> for &str {
    fn eq(&self, o: &CompactString) -> bool {
        **self == o.0
    }
}
impl PartialEq<CompactString> for String {
    fn eq(&self, o: &CompactString) -> bool {
        *self == o.0
    }
}
impl From<&CompactString> for String {
    fn from(s: &CompactString) -> String {
        s.0.clone()
    }
}
impl From<Box<str>> for CompactString {
    fn from(s: Box<str>) -> Self {
        Self(s.into())
    }
}
impl From<char> for CompactString {
    fn from(c: char) -> Self {
        Self(c.to_string())
    }
}
impl<'a> From<CompactString> for Cow<'a, str> {
    fn from(s: CompactString) -> Self {
        Cow::Owned(s.0)
    }
}
impl std::str::FromStr for CompactString {
    type Err = std::convert::Infallible;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        Ok(Self(s.into()))
    }
}
impl std::ops::DerefMut for CompactString {
    fn deref_mut(&mut self) -> &mut str {
        &mut self.0
    }
}
impl std::ops::Add<&str> for CompactString {
    type Output = CompactString;
    fn add(mut self, s: &str) -> CompactString {
        self.0.push_str(s);
        self
    }
}
impl std::ops::AddAssign<&str> for CompactString {
    fn add_assign(&mut self, s: &str) {
        self.0.push_str(s)
    }
}
impl Extend<char> for CompactString {
    fn extend<I: IntoIterator<Item = char>>(&mut self, i: I) {
        self.0.extend(i)
    }
}
impl<'a> Extend<&'a str> for CompactString {
    fn extend<I: IntoIterator<Item = &'a str>>(&mut self, i: I) {
        self.0.extend(i)
    }
}
impl<'a> FromIterator<&'a str> for CompactString {
    fn from_iter<I: IntoIterator<Item = &'a str>>(i: I) -> Self {
        Self(i.into_iter().collect())
    }
}
impl FromIterator<String> for CompactString {
    fn from_iter<I: IntoIterator<Item = String>>(i: I) -> Self {
        Self(i.into_iter().collect())
    }
}
impl AsRef<[u8]> for CompactString {
    fn as_ref(&self) -> &[u8] {
        self.0.as_bytes()
    }
}
impl fmt::Write for CompactString {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0.push_str(s);
        Ok(())
    }
}
impl FromIterator<char> for CompactString {
    fn from_iter<I: IntoIterator<Item = char>>(i: I) -> Self {
        Self(i.into_iter().collect())
    }
}
impl fmt::Debug for CompactString {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&self.0, f)
    }
}
impl fmt::Display for CompactString {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(&self.0, f)
    }
}
pub trait ToCompactString {
    fn to_compact_string(&self) -> CompactString;
}
impl<T: fmt::Display + ?Sized> ToCompactString for T {
    fn to_compact_string(&self) -> CompactString {
        CompactString(self.to_string())
    }
}
#[macro_export]
macro_rules! format_compact {
    ($($t:tt)*) => { $crate::CompactString::from(::std::format!($($t)*)) };
}
pub trait CompactStringExt {
    fn concat_compact(self) -> CompactString;
    fn join_compact(self, sep: &str) -> CompactString;
}
impl<I, S> CompactStringExt for I
where
    I: IntoIterator<Item = S>,
    S: AsRef<str>,
{
    fn concat_compact(self) -> CompactString {
        CompactString(self.into_iter().map(|s| s.as_ref().to_string()).collect())
    }
    fn join_compact(self, sep: &str) -> CompactString {
        CompactString(self.into_iter().map(|s| s.as_ref().to_string()).collect::<Vec<_>>().join(sep))
    }
}

//! Stand-in for tendril: a shared immutable buffer with a window; appending makes a new buffer.
use std::fmt;
use std::ops::Deref;
use std::sync::Arc;
#[derive(Clone)]
pub struct StrTendril {
    buf: Arc<str>,
    from: usize,
    to: usize,
}
impl StrTendril {
    pub fn new() -> Self {
        Self::from("")
    }
    pub fn push_slice(&mut self, s: &str) {
        *self = Self::from(format!("{}{}", &**self, s))
    }
    pub fn push_tendril(&mut self, s: &StrTendril) {
        self.push_slice(s)
    }
    pub fn push_char(&mut self, c: char) {
        self.push_slice(c.encode_utf8(&mut [0; 4]))
    }
    /// A window into the same buffer.
    pub fn subtendril(&self, offset: u32, len: u32) -> Self {
        let (o, l) = (offset as usize, len as usize);
        let _ = &self[o..o + l];
        Self { buf: self.buf.clone(), from: self.from + o, to: self.from + o + l }
    }
    pub fn with_capacity(_: u32) -> Self {
        Self::new()
    }
    pub fn from_slice(s: &str) -> Self {
        Self::from(s)
    }
    pub fn from_char(c: char) -> Self {
        Self::from(c.encode_utf8(&mut [0; 4]) as &str)
    }
    pub fn clear(&mut self) {
        *self = Self::new()
    }
    pub fn pop_front(&mut self, n: u32) {
        let _ = &self[n as usize..];
        self.from += n as usize
    }
    pub fn pop_back(&mut self, n: u32) {
        let _ = &self[..self.len() - n as usize];
        self.to -= n as usize
    }
    pub fn len32(&self) -> u32 {
        self.len() as u32
    }
}
impl Default for StrTendril {
    fn default() -> Self {
        Self::new()
    }
}
impl Deref for StrTendril {
    type Target = str;
    fn deref(&self) -> &str {
        &self.buf[self.from..self.to]
    }
}
impl AsRef<str> for StrTendril {
    fn as_ref(&self) -> &str {
        self
    }
}
impl From<&str> for StrTendril {
    fn from(s: &str) -> Self {
        Self { buf: Arc::from(s), from: 0, to: s.len() }
    }
}
impl From<String> for StrTendril {
    fn from(s: String) -> Self {
        Self::from(s.as_str())
    }
}
impl From<&String> for StrTendril {
    fn from(s: &String) -> Self {
        Self::from(s.as_str())
    }
}
impl From<StrTendril> for String {
    fn from(s: StrTendril) -> String {
        s.to_string()
    }
}
impl From<&StrTendril> for String {
    fn from(s: &StrTendril) -> String {
        s.to_string()
    }
}
impl From<char> for StrTendril {
    fn from(c: char) -> Self {
        Self::from_char(c)
    }
}
impl fmt::Write for StrTendril {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.push_slice(s);
        Ok(())
    }
}
impl std::str::FromStr for StrTendril {
    type Err = ();
    fn from_str(s: &str) -> Result<Self, ()> {
        Ok(Self::from(s))
    }
}
impl Extend<char> for StrTendril {
    fn extend<I: IntoIterator<Item = char>>(&mut self, i: I) {
        let s: String = i.into_iter().collect();
        self.push_slice(&s)
    }
}
impl FromIterator<char> for StrTendril {
    fn from_iter<I: IntoIterator<Item = char>>(i: I) -> Self {
        Self::from(i.into_iter().collect::<String>())
    }
}
impl std::borrow::Borrow<str> for StrTendril {
    fn borrow(&self) -> &str {
        self
    }
}
impl PartialEq for StrTendril {
    fn eq(&self, o: &Self) -> bool {
        **self == **o
    }
}
impl Eq for StrTendril {}
impl fmt::Debug for StrTendril {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&**self, f)
    }
}
impl fmt::Display for StrTendril {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(&**self, f)
    }
}
pub trait TendrilSink: Sized {
    type Output;
    fn one<T: Into<StrTendril>>(self, t: T) -> Self::Output;
}
pub trait SliceExt {
    fn to_tendril(&self) -> StrTendril;
}
impl SliceExt for str {
    fn to_tendril(&self) -> StrTendril {
        StrTendril::from(self)
    }
}
impl PartialOrd for StrTendril {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for StrTendril {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (**self).cmp(&**o)
    }
}
impl std::hash::Hash for StrTendril {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        (**self).hash(h)
    }
}

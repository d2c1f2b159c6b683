//! Stand-in for facet: values that can be turned into a small tree and back.
pub use facet_derive::Facet;

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    U(u64),
    Str(String),
    Bytes(Vec<u8>),
    Seq(Vec<Val>),
    Variant(u32, Vec<Val>),
    None,
    Some(Box<Val>),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Error(pub String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
fn err<T>(s: &str) -> Result<T, Error> {
    Err(Error(s.into()))
}
pub trait Facet: Sized {
    fn to_val(&self) -> Val;
    fn from_val(v: &Val) -> Result<Self, Error>;
}
pub fn arity(items: &[Val], n: usize) -> Result<(), Error> {
    if items.len() == n { Ok(()) } else { err("wrong number of fields") }
}
pub fn seq(v: &Val) -> Result<&[Val], Error> {
    match v {
        Val::Seq(s) => Ok(s),
        _ => err("expected a sequence"),
    }
}
pub fn variant(v: &Val) -> Result<(u32, &[Val]), Error> {
    match v {
        Val::Variant(k, s) => Ok((*k, s)),
        _ => err("expected a variant"),
    }
}
impl Facet for String {
    fn to_val(&self) -> Val {
        Val::Str(self.clone())
    }
    fn from_val(v: &Val) -> Result<Self, Error> {
        match v {
            Val::Str(s) => Ok(s.clone()),
            _ => err("expected a string"),
        }
    }
}
macro_rules! ints {
    ($($t:ty)*) => {$(
        impl Facet for $t {
            fn to_val(&self) -> Val { Val::U(*self as u64) }
            fn from_val(v: &Val) -> Result<Self, Error> {
                match v {
                    Val::U(n) => <$t>::try_from(*n).map_err(|_| Error("out of range".into())),
                    _ => err("expected a number"),
                }
            }
        }
    )*};
}
ints!(u16 u32 u64 usize);
impl Facet for bool {
    fn to_val(&self) -> Val {
        Val::U(*self as u64)
    }
    fn from_val(v: &Val) -> Result<Self, Error> {
        match v {
            Val::U(0) => Ok(false),
            Val::U(1) => Ok(true),
            _ => err("expected a bool"),
        }
    }
}
/// `u8` only occurs as an element of byte vectors.
impl Facet for u8 {
    fn to_val(&self) -> Val {
        Val::U(*self as u64)
    }
    fn from_val(v: &Val) -> Result<Self, Error> {
        match v {
            Val::U(n) => u8::try_from(*n).map_err(|_| Error("out of range".into())),
            _ => err("expected a byte"),
        }
    }
}
impl<T: Facet> Facet for Vec<T> {
    fn to_val(&self) -> Val {
        Val::Seq(self.iter().map(T::to_val).collect())
    }
    fn from_val(v: &Val) -> Result<Self, Error> {
        seq(v)?.iter().map(T::from_val).collect()
    }
}
impl<T: Facet, const N: usize> Facet for smallvec::SmallVec<[T; N]>
where
    [T; N]: smallvec::Array<Item = T>,
{
    fn to_val(&self) -> Val {
        Val::Seq(self.iter().map(T::to_val).collect())
    }
    fn from_val(v: &Val) -> Result<Self, Error> {
        seq(v)?.iter().map(T::from_val).collect()
    }
}
impl<T: Facet> Facet for Option<T> {
    fn to_val(&self) -> Val {
        match self {
            None => Val::None,
            Some(v) => Val::Some(Box::new(v.to_val())),
        }
    }
    fn from_val(v: &Val) -> Result<Self, Error> {
        match v {
            Val::None => Ok(None),
            Val::Some(v) => Ok(Some(T::from_val(v)?)),
            _ => err("expected an option"),
        }
    }
}
impl<T: Facet> Facet for Box<T> {
    fn to_val(&self) -> Val {
        (**self).to_val()
    }
    fn from_val(v: &Val) -> Result<Self, Error> {
        Ok(Box::new(T::from_val(v)?))
    }
}

fn varint(mut n: u64, out: &mut Vec<u8>) {
    while n >= 0x80 {
        out.push(n as u8 | 0x80);
        n >>= 7;
    }
    out.push(n as u8)
}
pub fn write(v: &Val, out: &mut Vec<u8>) {
    let list = |tag: u8, s: &[Val], out: &mut Vec<u8>| {
        out.push(tag);
        varint(s.len() as u64, out);
        for v in s {
            write(v, out)
        }
    };
    match v {
        Val::U(n) => {
            out.push(0);
            varint(*n, out)
        }
        Val::Str(s) => {
            out.push(1);
            varint(s.len() as u64, out);
            out.extend_from_slice(s.as_bytes())
        }
        Val::Bytes(s) => {
            out.push(2);
            varint(s.len() as u64, out);
            out.extend_from_slice(s)
        }
        Val::Seq(s) => list(3, s, out),
        Val::Variant(k, s) => {
            out.push(4);
            varint(*k as u64, out);
            list(3, s, out)
        }
        Val::None => out.push(5),
        Val::Some(v) => {
            out.push(6);
            write(v, out)
        }
    }
}
fn read_varint(b: &mut &[u8]) -> Result<u64, Error> {
    let mut n = 0u64;
    for shift in (0..64).step_by(7) {
        let Some((x, rest)) = b.split_first() else { return err("unexpected end of input") };
        *b = rest;
        n |= ((x & 0x7f) as u64) << shift;
        if x & 0x80 == 0 {
            return Ok(n);
        }
    }
    err("number too long")
}
fn take<'a>(b: &mut &'a [u8], n: u64) -> Result<&'a [u8], Error> {
    if n > b.len() as u64 {
        return err("unexpected end of input");
    }
    let (x, rest) = b.split_at(n as usize);
    *b = rest;
    Ok(x)
}
pub fn read(b: &mut &[u8], depth: usize) -> Result<Val, Error> {
    if depth > 600 {
        return err("nested too deeply");
    }
    let tag = take(b, 1)?[0];
    Ok(match tag {
        0 => Val::U(read_varint(b)?),
        1 => {
            let n = read_varint(b)?;
            match std::str::from_utf8(take(b, n)?) {
                Ok(s) => Val::Str(s.to_string()),
                Err(_) => return err("not UTF-8"),
            }
        }
        2 => {
            let n = read_varint(b)?;
            Val::Bytes(take(b, n)?.to_vec())
        }
        3 => {
            let n = read_varint(b)?;
            if n > b.len() as u64 {
                return err("unexpected end of input");
            }
            let mut s = Vec::new();
            for _ in 0..n {
                s.push(read(b, depth + 1)?)
            }
            Val::Seq(s)
        }
        4 => {
            let k = read_varint(b)?;
            match read(b, depth + 1)? {
                Val::Seq(s) => Val::Variant(u32::try_from(k).map_err(|_| Error("no such variant".into()))?, s),
                _ => return err("malformed variant"),
            }
        }
        5 => Val::None,
        6 => Val::Some(Box::new(read(b, depth + 1)?)),
        _ => return err("unknown tag"),
    })
}

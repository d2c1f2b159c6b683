//! Stand-in for facet-postcard: same functions, another byte format.
pub use facet::Error as DeserializeError;
pub use facet::Error as SerializeError;
pub fn to_vec<T: facet::Facet>(v: &T) -> Result<Vec<u8>, SerializeError> {
    let mut out = vec![];
    facet::write(&v.to_val(), &mut out);
    Ok(out)
}
pub fn from_slice<T: facet::Facet>(b: &[u8]) -> Result<T, DeserializeError> {
    let mut b = b;
    let v = facet::read(&mut b, 0)?;
    if !b.is_empty() {
        return Err(facet::Error("trailing bytes".into()));
    }
    T::from_val(&v)
}

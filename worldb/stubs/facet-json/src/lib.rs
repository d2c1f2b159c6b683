//! Stand-in for facet-json: text carrier for the same values (hex of the binary form).
pub use facet::Error as DeserializeError;
pub use facet::Error as SerializeError;
pub fn to_string<T: facet::Facet>(v: &T) -> Result<String, SerializeError> {
    let mut out = vec![];
    facet::write(&v.to_val(), &mut out);
    Ok(out.iter().map(|b| format!("{b:02x}")).collect())
}
pub fn from_str<T: facet::Facet>(s: &str) -> Result<T, DeserializeError> {
    let bad = || facet::Error("malformed".into());
    if s.len() % 2 != 0 || !s.is_ascii() {
        return Err(bad());
    }
    let bytes: Result<Vec<u8>, _> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).map_err(|_| bad())).collect();
    let bytes = bytes?;
    let mut b = &bytes[..];
    let v = facet::read(&mut b, 0)?;
    T::from_val(&v)
}

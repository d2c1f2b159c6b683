//! A minimal JSON value: enough for replay files, known findings and evidence.
use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum Json {
    Null,
    Bool(bool),
    Int(i128),
    Num(f64),
    Str(String),
    Arr(Vec<Json>),
    Obj(BTreeMap<String, Json>),
}
impl Json {
    pub fn obj() -> Json {
        Json::Obj(BTreeMap::new())
    }
    pub fn set(mut self, k: &str, v: impl Into<Json>) -> Json {
        if let Json::Obj(m) = &mut self {
            m.insert(k.to_string(), v.into());
        }
        self
    }
    pub fn get(&self, k: &str) -> Option<&Json> {
        match self {
            Json::Obj(m) => m.get(k),
            _ => None,
        }
    }
    pub fn as_str(&self) -> Option<&str> {
        match self {
            Json::Str(s) => Some(s),
            _ => None,
        }
    }
    pub fn as_u64(&self) -> Option<u64> {
        match self {
            Json::Int(i) => Some(*i as u64),
            Json::Num(f) => Some(*f as u64),
            _ => None,
        }
    }
    pub fn as_arr(&self) -> Option<&[Json]> {
        match self {
            Json::Arr(a) => Some(a),
            _ => None,
        }
    }
    pub fn dump(&self) -> String {
        let mut s = String::new();
        self.w(&mut s, 0, true);
        s.push('\n');
        s
    }
    pub fn compact(&self) -> String {
        let mut s = String::new();
        self.w(&mut s, 0, false);
        s
    }
    fn w(&self, o: &mut String, ind: usize, pretty: bool) {
        match self {
            Json::Null => o.push_str("null"),
            Json::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            Json::Int(i) => {
                let _ = write!(o, "{i}");
            }
            Json::Num(f) => {
                if f.is_finite() {
                    let _ = write!(o, "{f:.4}");
                } else {
                    o.push('0');
                }
            }
            Json::Str(s) => esc(o, s),
            Json::Arr(a) => {
                let flat = a.iter().all(|x| !matches!(x, Json::Arr(_) | Json::Obj(_) | Json::Str(_)));
                o.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    if pretty && !flat {
                        nl(o, ind + 1);
                    }
                    x.w(o, ind + 1, pretty);
                }
                if pretty && !flat && !a.is_empty() {
                    nl(o, ind);
                }
                o.push(']');
            }
            Json::Obj(m) => {
                o.push('{');
                for (i, (k, x)) in m.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    if pretty {
                        nl(o, ind + 1);
                    }
                    esc(o, k);
                    o.push(':');
                    if pretty {
                        o.push(' ');
                    }
                    x.w(o, ind + 1, pretty);
                }
                if pretty && !m.is_empty() {
                    nl(o, ind);
                }
                o.push('}');
            }
        }
    }
    pub fn parse(s: &str) -> Result<Json, String> {
        let b: Vec<char> = s.chars().collect();
        let mut i = 0;
        let v = p(&b, &mut i)?;
        ws(&b, &mut i);
        if i != b.len() {
            return Err(format!("trailing input at {i}"));
        }
        Ok(v)
    }
}
fn nl(o: &mut String, ind: usize) {
    o.push('\n');
    for _ in 0..ind {
        o.push(' ');
    }
}
fn esc(o: &mut String, s: &str) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}
fn ws(b: &[char], i: &mut usize) {
    while *i < b.len() && b[*i].is_whitespace() {
        *i += 1;
    }
}
fn p(b: &[char], i: &mut usize) -> Result<Json, String> {
    ws(b, i);
    let Some(&c) = b.get(*i) else { return Err("eof".into()) };
    match c {
        '{' => {
            *i += 1;
            let mut m = BTreeMap::new();
            ws(b, i);
            if b.get(*i) == Some(&'}') {
                *i += 1;
                return Ok(Json::Obj(m));
            }
            loop {
                ws(b, i);
                let Json::Str(k) = p(b, i)? else { return Err("key".into()) };
                ws(b, i);
                if b.get(*i) != Some(&':') {
                    return Err("colon".into());
                }
                *i += 1;
                let v = p(b, i)?;
                m.insert(k, v);
                ws(b, i);
                match b.get(*i) {
                    Some(',') => *i += 1,
                    Some('}') => {
                        *i += 1;
                        return Ok(Json::Obj(m));
                    }
                    _ => return Err("obj".into()),
                }
            }
        }
        '[' => {
            *i += 1;
            let mut a = vec![];
            ws(b, i);
            if b.get(*i) == Some(&']') {
                *i += 1;
                return Ok(Json::Arr(a));
            }
            loop {
                a.push(p(b, i)?);
                ws(b, i);
                match b.get(*i) {
                    Some(',') => *i += 1,
                    Some(']') => {
                        *i += 1;
                        return Ok(Json::Arr(a));
                    }
                    _ => return Err("arr".into()),
                }
            }
        }
        '"' => {
            *i += 1;
            let mut s = String::new();
            while let Some(&c) = b.get(*i) {
                *i += 1;
                match c {
                    '"' => return Ok(Json::Str(s)),
                    '\\' => {
                        let e = *b.get(*i).ok_or("esc")?;
                        *i += 1;
                        match e {
                            'n' => s.push('\n'),
                            'r' => s.push('\r'),
                            't' => s.push('\t'),
                            'b' => s.push('\u{8}'),
                            'f' => s.push('\u{c}'),
                            'u' => {
                                let h: String = b.get(*i..*i + 4).ok_or("u")?.iter().collect();
                                *i += 4;
                                s.push(char::from_u32(u32::from_str_radix(&h, 16).map_err(|e| e.to_string())?).unwrap_or('\u{fffd}'));
                            }
                            c => s.push(c),
                        }
                    }
                    c => s.push(c),
                }
            }
            Err("str".into())
        }
        't' => {
            *i += 4;
            Ok(Json::Bool(true))
        }
        'f' => {
            *i += 5;
            Ok(Json::Bool(false))
        }
        'n' => {
            *i += 4;
            Ok(Json::Null)
        }
        _ => {
            let st = *i;
            while *i < b.len() && "+-0123456789.eE".contains(b[*i]) {
                *i += 1;
            }
            let t: String = b[st..*i].iter().collect();
            if let Ok(v) = t.parse::<i128>() {
                Ok(Json::Int(v))
            } else {
                t.parse::<f64>().map(Json::Num).map_err(|e| format!("num {t:?}: {e}"))
            }
        }
    }
}
impl From<&str> for Json {
    fn from(s: &str) -> Json {
        Json::Str(s.to_string())
    }
}
impl From<String> for Json {
    fn from(s: String) -> Json {
        Json::Str(s)
    }
}
impl From<bool> for Json {
    fn from(s: bool) -> Json {
        Json::Bool(s)
    }
}
impl From<u64> for Json {
    fn from(s: u64) -> Json {
        Json::Int(s as i128)
    }
}
impl From<usize> for Json {
    fn from(s: usize) -> Json {
        Json::Int(s as i128)
    }
}
impl From<f64> for Json {
    fn from(s: f64) -> Json {
        Json::Num(s)
    }
}
impl<T: Into<Json>> From<Vec<T>> for Json {
    fn from(s: Vec<T>) -> Json {
        Json::Arr(s.into_iter().map(|x| x.into()).collect())
    }
}

//! Just enough JSON for plans, replay files and evidence.
use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J { Null, Bool(bool), Int(i64), Num(f64), Str(String), Arr(Vec<J>), Obj(BTreeMap<String, J>) }

#[macro_export]
macro_rules! obj {
    ( $( $k:expr => $v:expr ),* $(,)? ) => {{
        #[allow(unused_mut)]
        let mut m = std::collections::BTreeMap::new();
        $( m.insert($k.to_string(), $crate::json::J::from($v)); )*
        $crate::json::J::Obj(m)
    }};
}

impl From<bool> for J { fn from(x: bool) -> J { J::Bool(x) } }
impl From<i64> for J { fn from(x: i64) -> J { J::Int(x) } }
impl From<i32> for J { fn from(x: i32) -> J { J::Int(x as i64) } }
impl From<u32> for J { fn from(x: u32) -> J { J::Int(x as i64) } }
impl From<u64> for J { fn from(x: u64) -> J { J::Int(x as i64) } }
impl From<usize> for J { fn from(x: usize) -> J { J::Int(x as i64) } }
impl From<f64> for J { fn from(x: f64) -> J { J::Num(x) } }
impl From<f32> for J { fn from(x: f32) -> J { J::Num(x as f64) } }
impl From<&str> for J { fn from(x: &str) -> J { J::Str(x.to_string()) } }
impl From<String> for J { fn from(x: String) -> J { J::Str(x) } }
impl From<&String> for J { fn from(x: &String) -> J { J::Str(x.clone()) } }
impl<T: Into<J>> From<Vec<T>> for J { fn from(x: Vec<T>) -> J { J::Arr(x.into_iter().map(|v| v.into()).collect()) } }

static NULL: J = J::Null;

impl J {
    pub fn get(&self, k: &str) -> &J { if let J::Obj(m) = self { m.get(k).unwrap_or(&NULL) } else { &NULL } }
    pub fn has(&self, k: &str) -> bool { if let J::Obj(m) = self { m.contains_key(k) } else { false } }
    pub fn set(&mut self, k: &str, v: impl Into<J>) { if let J::Obj(m) = self { m.insert(k.to_string(), v.into()); } }
    pub fn del(&mut self, k: &str) { if let J::Obj(m) = self { m.remove(k); } }
    pub fn i(&self, k: &str) -> i64 { self.get(k).int() }
    pub fn us(&self, k: &str) -> usize { self.get(k).int().max(0) as usize }
    pub fn f(&self, k: &str) -> f64 { self.get(k).num() }
    pub fn b(&self, k: &str) -> bool { matches!(self.get(k), J::Bool(true)) }
    pub fn s(&self, k: &str) -> &str { self.get(k).str() }
    pub fn a(&self, k: &str) -> &[J] { self.get(k).arr() }
    pub fn int(&self) -> i64 { match self { J::Int(i) => *i, J::Num(f) => *f as i64, J::Bool(b) => *b as i64, _ => 0 } }
    pub fn num(&self) -> f64 { match self { J::Int(i) => *i as f64, J::Num(f) => *f, _ => 0.0 } }
    pub fn str(&self) -> &str { if let J::Str(s) = self { s } else { "" } }
    pub fn arr(&self) -> &[J] { if let J::Arr(a) = self { a } else { &[] } }
    pub fn arr_mut(&mut self) -> Option<&mut Vec<J>> { if let J::Arr(a) = self { Some(a) } else { None } }

    pub fn dump(&self) -> String { let mut s = String::new(); self.w(&mut s); s }
    fn w(&self, s: &mut String) {
        match self {
            J::Null => s.push_str("null"),
            J::Bool(b) => s.push_str(if *b { "true" } else { "false" }),
            J::Int(i) => { let _ = write!(s, "{}", i); }
            J::Num(f) => if f.is_finite() {
                if *f == f.trunc() && f.abs() < 1e15 { let _ = write!(s, "{:.1}", f); } else { let _ = write!(s, "{:e}", f); }
            } else { s.push_str("null") },
            J::Str(t) => wstr(t, s),
            J::Arr(a) => { s.push('['); for (i, x) in a.iter().enumerate() { if i > 0 { s.push(','); } x.w(s); } s.push(']'); }
            J::Obj(m) => { s.push('{'); for (i, (k, v)) in m.iter().enumerate() { if i > 0 { s.push(','); } wstr(k, s); s.push(':'); v.w(s); } s.push('}'); }
        }
    }
    pub fn parse(t: &str) -> Result<J, String> {
        let b = t.as_bytes();
        let mut p = 0;
        let v = val(b, &mut p)?;
        ws(b, &mut p);
        if p != b.len() { return Err(format!("trailing text at {}", p)); }
        Ok(v)
    }
}

fn wstr(t: &str, s: &mut String) {
    s.push('"');
    for c in t.chars() {
        match c {
            '"' => s.push_str("\\\""), '\\' => s.push_str("\\\\"), '\n' => s.push_str("\\n"),
            '\r' => s.push_str("\\r"), '\t' => s.push_str("\\t"),
            c if (c as u32) < 32 => { let _ = write!(s, "\\u{:04x}", c as u32); }
            c => s.push(c),
        }
    }
    s.push('"');
}
fn ws(b: &[u8], p: &mut usize) { while *p < b.len() && b[*p].is_ascii_whitespace() { *p += 1; } }
fn val(b: &[u8], p: &mut usize) -> Result<J, String> {
    ws(b, p);
    match b.get(*p) {
        None => Err("unexpected end".into()),
        Some(b'{') => {
            *p += 1;
            let mut m = BTreeMap::new();
            ws(b, p);
            if b.get(*p) == Some(&b'}') { *p += 1; return Ok(J::Obj(m)); }
            loop {
                ws(b, p);
                let k = string(b, p)?;
                ws(b, p);
                if b.get(*p) != Some(&b':') { return Err(format!("expected : at {}", p)); }
                *p += 1;
                let v = val(b, p)?;
                m.insert(k, v);
                ws(b, p);
                match b.get(*p) { Some(b',') => *p += 1, Some(b'}') => { *p += 1; return Ok(J::Obj(m)); } _ => return Err(format!("expected , or }} at {}", p)) }
            }
        }
        Some(b'[') => {
            *p += 1;
            let mut a = Vec::new();
            ws(b, p);
            if b.get(*p) == Some(&b']') { *p += 1; return Ok(J::Arr(a)); }
            loop {
                a.push(val(b, p)?);
                ws(b, p);
                match b.get(*p) { Some(b',') => *p += 1, Some(b']') => { *p += 1; return Ok(J::Arr(a)); } _ => return Err(format!("expected , or ] at {}", p)) }
            }
        }
        Some(b'"') => Ok(J::Str(string(b, p)?)),
        Some(b't') if b[*p..].starts_with(b"true") => { *p += 4; Ok(J::Bool(true)) }
        Some(b'f') if b[*p..].starts_with(b"false") => { *p += 5; Ok(J::Bool(false)) }
        Some(b'n') if b[*p..].starts_with(b"null") => { *p += 4; Ok(J::Null) }
        _ => {
            let s = *p;
            while *p < b.len() && (b[*p].is_ascii_digit() || b"+-.eE".contains(&b[*p])) { *p += 1; }
            let t = std::str::from_utf8(&b[s..*p]).unwrap();
            if let Ok(i) = t.parse::<i64>() { return Ok(J::Int(i)); }
            t.parse::<f64>().map(J::Num).map_err(|_| format!("bad value at {}", s))
        }
    }
}
fn string(b: &[u8], p: &mut usize) -> Result<String, String> {
    if b.get(*p) != Some(&b'"') { return Err(format!("expected string at {}", p)); }
    *p += 1;
    let mut out = Vec::new();
    while *p < b.len() {
        match b[*p] {
            b'"' => { *p += 1; return String::from_utf8(out).map_err(|e| e.to_string()); }
            b'\\' => {
                *p += 1;
                match b.get(*p) {
                    Some(b'n') => out.push(b'\n'), Some(b'r') => out.push(b'\r'), Some(b't') => out.push(b'\t'),
                    Some(b'u') => {
                        let h = std::str::from_utf8(b.get(*p + 1..*p + 5).ok_or("bad \\u")?).map_err(|e| e.to_string())?;
                        let c = char::from_u32(u32::from_str_radix(h, 16).map_err(|e| e.to_string())?).unwrap_or('?');
                        let mut buf = [0; 4];
                        out.extend_from_slice(c.encode_utf8(&mut buf).as_bytes());
                        *p += 4;
                    }
                    Some(&c) => out.push(c),
                    None => return Err("bad escape".into()),
                }
                *p += 1;
            }
            c => { out.push(c); *p += 1; }
        }
    }
    Err("unterminated string".into())
}

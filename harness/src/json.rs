//! Minimal JSON: enough for ndjson traces and TLC-emitted scripts.
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J { Null, Bool(bool), Int(i64), Str(String), Arr(Vec<J>), Obj(Vec<(String, J)>) }

impl J {
    pub fn get(&self, k: &str) -> &J {
        static NULL: J = J::Null;
        match self { J::Obj(o) => o.iter().find(|x| x.0 == k).map(|x| &x.1).unwrap_or(&NULL), _ => &NULL }
    }
    pub fn int(&self) -> i64 { match self { J::Int(i) => *i, J::Bool(b) => *b as i64, _ => panic!("not an int: {self:?}") } }
    pub fn us(&self) -> usize { self.int() as usize }
    pub fn arr(&self) -> &[J] { match self { J::Arr(a) => a, J::Null => &[], _ => panic!("not an array: {self:?}") } }
    pub fn str(&self) -> &str { match self { J::Str(s) => s, _ => "" } }
    pub fn ints(&self) -> Vec<usize> { self.arr().iter().map(|x| x.us()).collect() }
    pub fn parse(s: &str) -> J { let b = s.as_bytes(); let mut i = 0; val(b, &mut i) }
}
fn ws(b: &[u8], i: &mut usize) { while *i < b.len() && (b[*i] as char).is_whitespace() { *i += 1 } }
fn val(b: &[u8], i: &mut usize) -> J {
    ws(b, i);
    match b[*i] {
        b'{' => {
            *i += 1; let mut o = vec![];
            loop { ws(b, i);
                if b[*i] == b'}' { *i += 1; return J::Obj(o) }
                if b[*i] == b',' { *i += 1; continue }
                let k = match val(b, i) { J::Str(s) => s, _ => panic!("key") };
                ws(b, i); assert_eq!(b[*i], b':'); *i += 1;
                o.push((k, val(b, i)));
            }
        }
        b'[' => {
            *i += 1; let mut a = vec![];
            loop { ws(b, i);
                if b[*i] == b']' { *i += 1; return J::Arr(a) }
                if b[*i] == b',' { *i += 1; continue }
                a.push(val(b, i));
            }
        }
        b'"' => {
            *i += 1; let mut s = String::new();
            while b[*i] != b'"' { if b[*i] == b'\\' { *i += 1; } s.push(b[*i] as char); *i += 1 }
            *i += 1; J::Str(s)
        }
        b't' => { *i += 4; J::Bool(true) }
        b'f' => { *i += 5; J::Bool(false) }
        b'n' => { *i += 4; J::Null }
        _ => {
            let st = *i; *i += 1;
            while *i < b.len() && (b[*i] == b'-' || b[*i].is_ascii_digit()) { *i += 1 }
            J::Int(std::str::from_utf8(&b[st..*i]).unwrap().parse().unwrap())
        }
    }
}

/// TLC integers are 32 bit; anything else is garbage anyway.
pub fn clamp(v: u64) -> i64 { if v > 2_000_000_000 { 2_000_000_000 } else { v as i64 } }

/// Anything that can be written as JSON.
pub trait W { fn w(&self, s: &mut String); }
macro_rules! ints { ($($t:ty),*) => { $(impl W for $t { fn w(&self, s: &mut String) { write!(s, "{}", self).unwrap() } })* } }
ints!(i32, i64, u32, u8, usize);
impl W for u64 { fn w(&self, s: &mut String) { clamp(*self).w(s) } }
impl W for bool { fn w(&self, s: &mut String) { s.push(if *self { '1' } else { '0' }) } }
impl W for str { fn w(&self, s: &mut String) { s.push('"'); s.push_str(self); s.push('"') } }
impl W for String { fn w(&self, s: &mut String) { self.as_str().w(s) } }
impl W for Raw { fn w(&self, s: &mut String) { s.push_str(&self.0) } }
pub struct Raw(pub String);
impl<T: W + ?Sized> W for &T { fn w(&self, s: &mut String) { (**self).w(s) } }
impl<T: W> W for Vec<T> { fn w(&self, s: &mut String) { self.as_slice().w(s) } }
impl<T: W> W for [T] {
    fn w(&self, s: &mut String) {
        s.push('[');
        for (i, x) in self.iter().enumerate() { if i > 0 { s.push(',') } x.w(s) }
        s.push(']')
    }
}
impl<A: W, B: W> W for (A, B) { fn w(&self, s: &mut String) { s.push('['); self.0.w(s); s.push(','); self.1.w(s); s.push(']') } }
impl<A: W, B: W, C: W> W for (A, B, C) { fn w(&self, s: &mut String) { s.push('['); self.0.w(s); s.push(','); self.1.w(s); s.push(','); self.2.w(s); s.push(']') } }
/// none = 0
impl<T: W> W for Option<T> { fn w(&self, s: &mut String) { match self { Some(x) => x.w(s), None => s.push('0') } } }

#[macro_export]
macro_rules! obj {
    ($($k:ident : $v:expr),* $(,)?) => {{
        let mut s = String::from("{");
        $( if s.len() > 1 { s.push(',') } s.push('"'); s.push_str(stringify!($k)); s.push_str("\":"); $crate::json::W::w(&$v, &mut s); )*
        s.push('}'); s
    }};
}

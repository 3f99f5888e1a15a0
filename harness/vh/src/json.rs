use std::collections::BTreeMap;
use std::fmt;

/// A JSON value with integer numbers only.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum J {
    Null,
    B(bool),
    N(i64),
    S(String),
    A(Vec<J>),
    O(BTreeMap<String, J>),
}
impl fmt::Display for J {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            J::Null => write!(f, "null"),
            J::B(b) => write!(f, "{b}"),
            J::N(n) => write!(f, "{n}"),
            J::S(s) => esc(f, s),
            J::A(v) => {
                write!(f, "[")?;
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        write!(f, ",")?;
                    }
                    write!(f, "{x}")?;
                }
                write!(f, "]")
            }
            J::O(m) => {
                write!(f, "{{")?;
                for (i, (k, x)) in m.iter().enumerate() {
                    if i > 0 {
                        write!(f, ",")?;
                    }
                    esc(f, k)?;
                    write!(f, ":{x}")?;
                }
                write!(f, "}}")
            }
        }
    }
}
fn esc(f: &mut fmt::Formatter<'_>, s: &str) -> fmt::Result {
    write!(f, "\"")?;
    for c in s.chars() {
        match c {
            '"' => write!(f, "\\\"")?,
            '\\' => write!(f, "\\\\")?,
            '\n' => write!(f, "\\n")?,
            c if (c as u32) < 32 || (c as u32) > 126 => write!(f, "?")?,
            c => write!(f, "{c}")?,
        }
    }
    write!(f, "\"")
}
impl J {
    pub fn parse(s: &str) -> Result<J, String> {
        let b = s.as_bytes();
        let mut i = 0;
        let v = val(b, &mut i)?;
        Ok(v)
    }
    pub fn get(&self, k: &str) -> &J {
        match self {
            J::O(m) => m.get(k).unwrap_or(&J::Null),
            _ => &J::Null,
        }
    }
    pub fn has(&self, k: &str) -> bool {
        matches!(self, J::O(m) if m.contains_key(k))
    }
    pub fn n(&self) -> i64 {
        match self {
            J::N(n) => *n,
            J::B(b) => *b as i64,
            x => panic!("not a number: {x}"),
        }
    }
    pub fn u(&self) -> usize {
        self.n() as usize
    }
    pub fn b(&self) -> bool {
        match self {
            J::B(b) => *b,
            J::N(n) => *n != 0,
            x => panic!("not a boolean: {x}"),
        }
    }
    pub fn s(&self) -> &str {
        match self {
            J::S(s) => s,
            x => panic!("not a string: {x}"),
        }
    }
    pub fn a(&self) -> &[J] {
        match self {
            J::A(v) => v,
            J::O(m) if m.is_empty() => &[],
            x => panic!("not an array: {x}"),
        }
    }
    pub fn set(&mut self, k: &str, v: impl Into<J>) {
        if let J::O(m) = self {
            m.insert(k.into(), v.into());
        }
    }
}
fn ws(b: &[u8], i: &mut usize) {
    while *i < b.len() && b[*i].is_ascii_whitespace() {
        *i += 1;
    }
}
fn val(b: &[u8], i: &mut usize) -> Result<J, String> {
    ws(b, i);
    match b.get(*i) {
        None => Err("eof".into()),
        Some(b'{') => {
            *i += 1;
            let mut m = BTreeMap::new();
            ws(b, i);
            if b.get(*i) == Some(&b'}') {
                *i += 1;
                return Ok(J::O(m));
            }
            loop {
                ws(b, i);
                let k = match val(b, i)? {
                    J::S(s) => s,
                    _ => return Err("key".into()),
                };
                ws(b, i);
                if b.get(*i) != Some(&b':') {
                    return Err(format!("colon at {i}"));
                }
                *i += 1;
                m.insert(k, val(b, i)?);
                ws(b, i);
                match b.get(*i) {
                    Some(b',') => *i += 1,
                    Some(b'}') => {
                        *i += 1;
                        return Ok(J::O(m));
                    }
                    _ => return Err(format!("object at {i}")),
                }
            }
        }
        Some(b'[') => {
            *i += 1;
            let mut v = vec![];
            ws(b, i);
            if b.get(*i) == Some(&b']') {
                *i += 1;
                return Ok(J::A(v));
            }
            loop {
                v.push(val(b, i)?);
                ws(b, i);
                match b.get(*i) {
                    Some(b',') => *i += 1,
                    Some(b']') => {
                        *i += 1;
                        return Ok(J::A(v));
                    }
                    _ => return Err(format!("array at {i}")),
                }
            }
        }
        Some(b'"') => {
            *i += 1;
            let mut s = Vec::new();
            loop {
                match b.get(*i) {
                    None => return Err("string".into()),
                    Some(b'"') => {
                        *i += 1;
                        return Ok(J::S(String::from_utf8_lossy(&s).into_owned()));
                    }
                    Some(b'\\') => {
                        *i += 1;
                        match b.get(*i) {
                            Some(b'n') => s.push(b'\n'),
                            Some(b't') => s.push(b'\t'),
                            Some(&c) => s.push(c),
                            None => return Err("escape".into()),
                        }
                        *i += 1;
                    }
                    Some(&c) => {
                        s.push(c);
                        *i += 1;
                    }
                }
            }
        }
        Some(_) => {
            let st = *i;
            while *i < b.len() && !b",]} \t\r\n".contains(&b[*i]) {
                *i += 1;
            }
            let t = std::str::from_utf8(&b[st..*i]).unwrap();
            match t {
                "true" => Ok(J::B(true)),
                "false" => Ok(J::B(false)),
                "null" => Ok(J::Null),
                t => t.parse::<i64>().map(J::N).map_err(|e| format!("{t}: {e}")),
            }
        }
    }
}
macro_rules! from_int {
    ($($t:ty),*) => {$(impl From<$t> for J { fn from(v: $t) -> J { J::N(v as i64) } })*};
}
from_int!(u8, u16, u32, u64, usize, i32, i64);
impl From<bool> for J {
    fn from(v: bool) -> J {
        J::B(v)
    }
}
impl From<&str> for J {
    fn from(v: &str) -> J {
        J::S(v.into())
    }
}
impl From<String> for J {
    fn from(v: String) -> J {
        J::S(v)
    }
}
impl<T: Into<J>> From<Vec<T>> for J {
    fn from(v: Vec<T>) -> J {
        J::A(v.into_iter().map(Into::into).collect())
    }
}
impl<T: Into<J> + Clone> From<&[T]> for J {
    fn from(v: &[T]) -> J {
        J::A(v.iter().cloned().map(Into::into).collect())
    }
}
impl<T: Into<J> + Clone> From<&Vec<T>> for J {
    fn from(v: &Vec<T>) -> J {
        J::A(v.iter().cloned().map(Into::into).collect())
    }
}
impl<T: Into<J>, const N: usize> From<[T; N]> for J {
    fn from(v: [T; N]) -> J {
        J::A(v.into_iter().map(Into::into).collect())
    }
}
impl From<&J> for J {
    fn from(v: &J) -> J {
        v.clone()
    }
}

/// `jo!{"k" => v, ...}`
#[macro_export]
macro_rules! jo {
    ($($k:expr => $v:expr),* $(,)?) => {{
        #[allow(unused_mut)]
        let mut m = std::collections::BTreeMap::new();
        $(m.insert(String::from($k), $crate::J::from($v));)*
        $crate::J::O(m)
    }};
}

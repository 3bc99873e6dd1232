//! A minimal JSON value, writer and reader.
use std::fmt;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    S(String),
    N(i64),
    B(bool),
    A(Vec<J>),
    O(Vec<(String, J)>),
}

pub fn s<T: Into<String>>(t: T) -> J {
    J::S(t.into())
}
pub fn n(v: usize) -> J {
    J::N(v as i64)
}
pub fn opt(v: Option<J>) -> J {
    J::A(v.into_iter().collect())
}

#[macro_export]
macro_rules! arr { ($($e:expr),* $(,)?) => { $crate::json::J::A(vec![$($e),*]) } }

impl J {
    pub fn arr(&self) -> &[J] {
        match self {
            J::A(v) => v,
            _ => panic!("array expected: {}", self),
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::S(v) => v,
            _ => panic!("string expected: {}", self),
        }
    }
    pub fn num(&self) -> i64 {
        match self {
            J::N(v) => *v,
            _ => panic!("number expected: {}", self),
        }
    }
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::O(v) => v.iter().find(|e| e.0 == k).map(|e| &e.1),
            _ => None,
        }
    }
}

fn wstr(f: &mut fmt::Formatter<'_>, t: &str) -> fmt::Result {
    f.write_str("\"")?;
    for c in t.chars() {
        match c {
            '"' => f.write_str("\\\"")?,
            '\\' => f.write_str("\\\\")?,
            '\n' => f.write_str("\\n")?,
            '\t' => f.write_str("\\t")?,
            c if (c as u32) < 32 => write!(f, "\\u{:04x}", c as u32)?,
            c => write!(f, "{}", c)?,
        }
    }
    f.write_str("\"")
}

impl fmt::Display for J {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            J::S(t) => wstr(f, t),
            J::N(v) => write!(f, "{}", v),
            J::B(v) => write!(f, "{}", v),
            J::A(v) => {
                f.write_str("[")?;
                for (i, e) in v.iter().enumerate() {
                    if i > 0 {
                        f.write_str(",")?;
                    }
                    write!(f, "{}", e)?;
                }
                f.write_str("]")
            }
            J::O(v) => {
                f.write_str("{")?;
                for (i, (k, e)) in v.iter().enumerate() {
                    if i > 0 {
                        f.write_str(",")?;
                    }
                    wstr(f, k)?;
                    write!(f, ":{}", e)?;
                }
                f.write_str("}")
            }
        }
    }
}

pub fn parse(t: &str) -> J {
    let c: Vec<char> = t.chars().collect();
    let mut i = 0;
    val(&c, &mut i)
}

fn ws(c: &[char], i: &mut usize) {
    while *i < c.len() && c[*i].is_whitespace() {
        *i += 1;
    }
}

fn string(c: &[char], i: &mut usize) -> String {
    let mut o = String::new();
    *i += 1;
    while c[*i] != '"' {
        if c[*i] == '\\' {
            *i += 1;
            match c[*i] {
                'n' => o.push('\n'),
                't' => o.push('\t'),
                'r' => o.push('\r'),
                'b' => o.push('\u{8}'),
                'f' => o.push('\u{c}'),
                'u' => {
                    let h: String = c[*i + 1..*i + 5].iter().collect();
                    o.push(std::char::from_u32(u32::from_str_radix(&h, 16).unwrap()).unwrap());
                    *i += 4;
                }
                x => o.push(x),
            }
        } else {
            o.push(c[*i]);
        }
        *i += 1;
    }
    *i += 1;
    o
}

fn val(c: &[char], i: &mut usize) -> J {
    ws(c, i);
    match c[*i] {
        '"' => J::S(string(c, i)),
        '[' => {
            let mut v = Vec::new();
            *i += 1;
            ws(c, i);
            while c[*i] != ']' {
                v.push(val(c, i));
                ws(c, i);
                if c[*i] == ',' {
                    *i += 1;
                    ws(c, i);
                }
            }
            *i += 1;
            J::A(v)
        }
        '{' => {
            let mut v = Vec::new();
            *i += 1;
            ws(c, i);
            while c[*i] != '}' {
                ws(c, i);
                let k = string(c, i);
                ws(c, i);
                *i += 1;
                v.push((k, val(c, i)));
                ws(c, i);
                if c[*i] == ',' {
                    *i += 1;
                    ws(c, i);
                }
            }
            *i += 1;
            J::O(v)
        }
        't' => {
            *i += 4;
            J::B(true)
        }
        'f' => {
            *i += 5;
            J::B(false)
        }
        _ => {
            let b = *i;
            while *i < c.len() && (c[*i] == '-' || c[*i].is_ascii_digit()) {
                *i += 1;
            }
            let t: String = c[b..*i].iter().collect();
            J::N(t.parse().unwrap_or_else(|_| panic!("bad JSON at {}", b)))
        }
    }
}

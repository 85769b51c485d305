//! Minimal JSON value and writer (no dependencies available inside the driver).
use std::fmt::Write;

pub enum J {
    Null,
    Bool(bool),
    Int(i128),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(&'static str, J)>),
}

pub fn s<S: Into<String>>(x: S) -> J {
    J::Str(x.into())
}
pub fn i<N: TryInto<i128>>(x: N) -> J {
    J::Int(x.try_into().ok().unwrap_or(-1))
}

impl J {
    pub fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Int(n) => write!(o, "{}", n).unwrap(),
            J::Str(t) => {
                o.push('"');
                for c in t.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 0x20 => write!(o, "\\u{:04x}", c as u32).unwrap(),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::Arr(v) => {
                o.push('[');
                for (k, x) in v.iter().enumerate() {
                    if k > 0 {
                        o.push(',');
                    }
                    x.write(o);
                }
                o.push(']');
            }
            J::Obj(v) => {
                o.push('{');
                for (k, (n, x)) in v.iter().enumerate() {
                    if k > 0 {
                        o.push(',');
                    }
                    write!(o, "\"{}\":", n).unwrap();
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
}

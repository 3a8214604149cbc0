//! Minimal JSON writer (no dependencies).
use std::fmt::Write;

#[derive(Clone, Debug)]
pub enum J {
    Null,
    Bool(bool),
    Int(i128),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(&'static str, J)>),
}

impl J {
    pub fn s(s: impl Into<String>) -> J {
        J::Str(s.into())
    }
    pub fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Int(i) => write!(o, "{i}").unwrap(),
            J::Str(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 0x20 => write!(o, "\\u{:04x}", c as u32).unwrap(),
                        c => o.push(c),
                    }
                }
                o.push('"');
            },
            J::Arr(v) => {
                o.push('[');
                for (i, e) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    e.write(o);
                }
                o.push(']');
            },
            J::Obj(v) => {
                o.push('{');
                for (i, (k, e)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    J::s(*k).write(o);
                    o.push(':');
                    e.write(o);
                }
                o.push('}');
            },
        }
    }
}

use std::fmt::Write;

#[derive(Clone, Debug)]
pub enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(&'static str, J)>),
}

impl From<&str> for J { fn from(s: &str) -> J { J::Str(s.to_string()) } }
impl From<String> for J { fn from(s: String) -> J { J::Str(s) } }
impl From<usize> for J { fn from(s: usize) -> J { J::Num(s.to_string()) } }
impl From<u32> for J { fn from(s: u32) -> J { J::Num(s.to_string()) } }
impl From<u64> for J { fn from(s: u64) -> J { J::Num(s.to_string()) } }
impl From<u128> for J { fn from(s: u128) -> J { J::Num(s.to_string()) } }
impl From<i128> for J { fn from(s: i128) -> J { J::Num(s.to_string()) } }
impl From<bool> for J { fn from(s: bool) -> J { J::Bool(s) } }
impl From<Vec<J>> for J { fn from(s: Vec<J>) -> J { J::Arr(s) } }
impl<T: Into<J>> From<Option<T>> for J {
    fn from(s: Option<T>) -> J { match s { Some(v) => v.into(), None => J::Null } }
}

impl J {
    pub fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Num(n) => o.push_str(n),
            J::Str(s) => esc(s, o),
            J::Arr(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 { o.push(','); }
                    x.write(o);
                }
                o.push(']');
            }
            J::Obj(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 { o.push(','); }
                    esc(k, o);
                    o.push(':');
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
}

fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
}

#[macro_export]
macro_rules! obj {
    ($($k:literal : $v:expr),* $(,)?) => { $crate::json::J::Obj(vec![$(($k, $crate::json::J::from($v))),*]) };
}
#[macro_export]
macro_rules! arr {
    ($($v:expr),* $(,)?) => { $crate::json::J::Arr(vec![$($crate::json::J::from($v)),*]) };
}

//! A minimal JSON writer.
pub enum J {
    Null,
    B(bool),
    N(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
}

impl J {
    pub fn obj() -> J {
        J::O(vec![])
    }
    pub fn s(s: &str) -> J {
        J::S(s.to_string())
    }
    pub fn n(n: i128) -> J {
        J::N(n)
    }
    pub fn set(&mut self, k: &str, v: J) {
        if let J::O(o) = self {
            if let Some(e) = o.iter_mut().find(|e| e.0 == k) {
                e.1 = v;
            } else {
                o.push((k.to_string(), v));
            }
        }
    }
    pub fn get(&self, k: &str) -> Option<J> {
        if let J::O(o) = self {
            for (a, v) in o {
                if a == k {
                    return match v {
                        J::N(n) => Some(J::N(*n)),
                        J::S(s) => Some(J::S(s.clone())),
                        J::B(b) => Some(J::B(*b)),
                        _ => Some(J::Null),
                    };
                }
            }
        }
        None
    }
    pub fn write(&self, w: &mut String) {
        match self {
            J::Null => w.push_str("null"),
            J::B(b) => w.push_str(if *b { "true" } else { "false" }),
            J::N(n) => w.push_str(&n.to_string()),
            J::S(s) => esc(s, w),
            J::A(a) => {
                w.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        w.push(',');
                    }
                    x.write(w);
                }
                w.push(']');
            }
            J::O(o) => {
                w.push('{');
                for (i, (k, x)) in o.iter().enumerate() {
                    if i > 0 {
                        w.push(',');
                    }
                    esc(k, w);
                    w.push(':');
                    x.write(w);
                }
                w.push('}');
            }
        }
    }
}

fn esc(s: &str, w: &mut String) {
    w.push('"');
    for c in s.chars() {
        match c {
            '"' => w.push_str("\\\""),
            '\\' => w.push_str("\\\\"),
            '\n' => w.push_str("\\n"),
            '\r' => w.push_str("\\r"),
            '\t' => w.push_str("\\t"),
            c if (c as u32) < 0x20 => w.push_str(&format!("\\u{:04x}", c as u32)),
            c => w.push(c),
        }
    }
    w.push('"');
}

//! Trace writer (one JSON object per line) and a small JSON reader for scenarios.
use std::fmt::Write as _;
use std::io::Write;

pub struct Out {
    w: std::io::BufWriter<std::fs::File>,
    pub n: u64,
}
impl Out {
    pub fn create(path: &str) -> Self {
        Out { w: std::io::BufWriter::new(std::fs::File::create(path).unwrap()), n: 0 }
    }
    pub fn emit(&mut self, e: Ev) {
        let mut s = e.0;
        s.push('}');
        s.push('\n');
        self.w.write_all(s.as_bytes()).unwrap();
        self.n += 1;
    }
    pub fn close(mut self) -> u64 {
        self.w.flush().unwrap();
        self.n
    }
}

#[derive(Clone)]
pub struct Ev(String);
impl Ev {
    pub fn new(e: &str) -> Self {
        Ev(format!("{{\"e\":\"{}\"", e))
    }
    /// an object without the event tag (use with `sub`)
    pub fn o() -> Self {
        Ev("{".to_string())
    }
    fn comma(&mut self) {
        if !self.0.ends_with('{') {
            self.0.push(',');
        }
    }
    pub fn sub(self, k: &str, v: Ev) -> Self {
        let t = format!("{}}}", v.0);
        self.raw(k, &t)
    }
    pub fn s(mut self, k: &str, v: &str) -> Self {
        self.comma();
        write!(self.0, "\"{}\":\"{}\"", k, v).unwrap();
        self
    }
    pub fn i(mut self, k: &str, v: i64) -> Self {
        self.comma();
        write!(self.0, "\"{}\":{}", k, v).unwrap();
        self
    }
    pub fn b(mut self, k: &str, v: bool) -> Self {
        self.comma();
        write!(self.0, "\"{}\":{}", k, v).unwrap();
        self
    }
    /// raw JSON value
    pub fn raw(mut self, k: &str, v: &str) -> Self {
        self.comma();
        write!(self.0, "\"{}\":{}", k, v).unwrap();
        self
    }
    pub fn f<T: crate::rng::F>(self, k: &str, v: T) -> Self {
        let e = v.enc();
        self.raw(k, &e)
    }
    pub fn fs<T: crate::rng::F>(self, k: &str, v: &[T]) -> Self {
        let e = list(v.iter().map(|x| x.enc()));
        self.raw(k, &e)
    }
}
pub fn list<I: Iterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.collect();
    format!("[{}]", v.join(","))
}

/// Runs library code; a panic is an outcome, not a failure of the harness.
pub fn guard<R, G: FnOnce() -> R>(g: G) -> Option<R> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(g)).ok()
}

// ------------------------------------------------------------------ JSON in
#[derive(Debug, Clone)]
pub enum J {
    N(i64),
    S(String),
    B(bool),
    A(Vec<J>),
    O(Vec<(String, J)>),
}
impl J {
    pub fn get(&self, k: &str) -> &J {
        if let J::O(v) = self {
            for (n, x) in v {
                if n == k {
                    return x;
                }
            }
        }
        panic!("scenario: no field {} in {:?}", k, self)
    }
    pub fn has(&self, k: &str) -> bool {
        matches!(self, J::O(v) if v.iter().any(|(n, _)| n == k))
    }
    pub fn int(&self) -> i64 {
        match self {
            J::N(n) => *n,
            _ => panic!("scenario: not an int: {:?}", self),
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::S(n) => n,
            _ => panic!("scenario: not a string: {:?}", self),
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::A(n) => n,
            _ => panic!("scenario: not an array: {:?}", self),
        }
    }
    pub fn ints(&self) -> Vec<i64> {
        self.arr().iter().map(|x| x.int()).collect()
    }
}
pub fn parse(s: &str) -> J {
    let b = s.as_bytes();
    let mut i = 0;
    val(b, &mut i)
}
fn ws(b: &[u8], i: &mut usize) {
    while *i < b.len() && (b[*i] as char).is_whitespace() {
        *i += 1;
    }
}
fn val(b: &[u8], i: &mut usize) -> J {
    ws(b, i);
    match b[*i] {
        b'{' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(b, i);
                if b[*i] == b'}' {
                    *i += 1;
                    return J::O(v);
                }
                if b[*i] == b',' {
                    *i += 1;
                    continue;
                }
                let k = match val(b, i) {
                    J::S(s) => s,
                    x => panic!("{:?}", x),
                };
                ws(b, i);
                assert_eq!(b[*i], b':');
                *i += 1;
                v.push((k, val(b, i)));
            }
        }
        b'[' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(b, i);
                if b[*i] == b']' {
                    *i += 1;
                    return J::A(v);
                }
                if b[*i] == b',' {
                    *i += 1;
                    continue;
                }
                v.push(val(b, i));
            }
        }
        b'"' => {
            let st = *i + 1;
            *i = st;
            while b[*i] != b'"' {
                *i += 1;
            }
            *i += 1;
            J::S(String::from_utf8(b[st..*i - 1].to_vec()).unwrap())
        }
        b't' => {
            *i += 4;
            J::B(true)
        }
        b'f' => {
            *i += 5;
            J::B(false)
        }
        _ => {
            let st = *i;
            while *i < b.len() && (b[*i] == b'-' || b[*i].is_ascii_digit()) {
                *i += 1;
            }
            J::N(std::str::from_utf8(&b[st..*i]).unwrap().parse().unwrap())
        }
    }
}

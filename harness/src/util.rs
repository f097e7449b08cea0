//! JSON output, random numbers, exact floats, panic capture.
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    I(i64),
    S(String),
    B(bool),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}

impl J {
    pub fn put(&self, out: &mut String) {
        match self {
            J::I(i) => {
                // TLC integers have 32 bits
                assert!(i64::from(i32::MIN) <= *i && *i <= i64::from(i32::MAX), "integer {i} too large for TLC");
                write!(out, "{i}").unwrap();
            }
            J::S(s) => {
                out.push('"');
                for c in s.chars() {
                    match c {
                        '"' => out.push_str("\\\""),
                        '\\' => out.push_str("\\\\"),
                        '\n' => out.push_str("\\n"),
                        c if (c as u32) < 32 => write!(out, "\\u{:04x}", c as u32).unwrap(),
                        c => out.push(c),
                    }
                }
                out.push('"');
            }
            J::B(b) => out.push_str(if *b { "true" } else { "false" }),
            J::A(v) => {
                out.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    x.put(out);
                }
                out.push(']');
            }
            J::O(v) => {
                out.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    write!(out, "\"{k}\":").unwrap();
                    x.put(out);
                }
                out.push('}');
            }
        }
    }
}

impl From<i64> for J {
    fn from(v: i64) -> J {
        J::I(v)
    }
}
impl From<i32> for J {
    fn from(v: i32) -> J {
        J::I(v.into())
    }
}
impl From<u32> for J {
    fn from(v: u32) -> J {
        J::I(v.into())
    }
}
impl From<usize> for J {
    fn from(v: usize) -> J {
        J::I(v as i64)
    }
}
impl From<bool> for J {
    fn from(v: bool) -> J {
        J::B(v)
    }
}
impl From<&str> for J {
    fn from(v: &str) -> J {
        J::S(v.into())
    }
}
impl From<String> for J {
    fn from(v: String) -> J {
        J::S(v)
    }
}
impl<T: Into<J>> From<Vec<T>> for J {
    fn from(v: Vec<T>) -> J {
        J::A(v.into_iter().map(Into::into).collect())
    }
}

#[macro_export]
macro_rules! arr {
    ($($x:expr),* $(,)?) => { $crate::util::J::A(vec![$($crate::util::J::from($x)),*]) };
}
#[macro_export]
macro_rules! obj {
    ($($k:literal : $x:expr),* $(,)?) => { $crate::util::J::O(vec![$(($k, $crate::util::J::from($x))),*]) };
}

/// Output file: one history per line; counts what it wrote.
pub struct Out {
    w: std::io::BufWriter<std::fs::File>,
    pub histories: u64,
    pub events: u64,
    buf: String,
}

impl Out {
    pub fn new(path: &str) -> Self {
        let f = std::fs::File::create(path).expect("trace file");
        Out { w: std::io::BufWriter::new(f), histories: 0, events: 0, buf: String::new() }
    }
    /// Writes the history `{<head>..., "ev": [...]}`.
    pub fn history(&mut self, head: J, ev: Vec<J>) {
        if ev.is_empty() {
            return;
        }
        self.histories += 1;
        self.events += ev.len() as u64;
        let J::O(mut o) = head else { panic!("history head must be an object") };
        o.push(("ev", J::A(ev)));
        self.buf.clear();
        J::O(o).put(&mut self.buf);
        self.buf.push('\n');
        self.w.write_all(self.buf.as_bytes()).unwrap();
    }
    pub fn finish(mut self) {
        self.w.flush().unwrap();
        println!("histories {} events {}", self.histories, self.events);
    }
}

/// splitmix64
#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn new(stream: &str) -> Self {
        let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let mut h = 0xcbf2_9ce4_8422_2325u64 ^ seed.wrapping_mul(0x9E37_79B9_7F4A_7C15);
        for b in stream.bytes() {
            h = (h ^ u64::from(b)).wrapping_mul(0x0000_0100_0000_01B3);
        }
        let mut r = Rng(h);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    /// lo..=hi, or lo if there is nothing between
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.next() % (hi - lo + 1).max(1) as u64) as i64
    }
    pub fn coin(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    /// uniform in [0,1)
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
}

pub fn quick() -> bool {
    std::env::var("VERIF_TIER").map_or(true, |t| t != "thorough")
}

static LAST: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

/// Panics of the code under test are recorded outcomes, not noise on stderr.
pub fn silence_panics() {
    std::panic::set_hook(Box::new(|info| {
        if let Ok(mut l) = LAST.lock() {
            *l = info.to_string();
        }
    }));
}

pub fn last_panic() -> String {
    LAST.lock().map(|l| l.clone()).unwrap_or_default()
}

/// None = the call panicked.
pub fn guard<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

/// A float as the exact dyadic rational "mpe" = m * 2^e, or "nan", "inf", "-inf".
pub fn dyadic(v: f64) -> String {
    if v.is_nan() {
        return "nan".into();
    }
    if v.is_infinite() {
        return if v > 0.0 { "inf".into() } else { "-inf".into() };
    }
    let bits = v.to_bits();
    let neg = bits >> 63 == 1;
    let e = ((bits >> 52) & 0x7ff) as i32;
    let m = bits & ((1u64 << 52) - 1);
    let (mut m, mut e) = if e == 0 { (m, -1074) } else { (m | (1u64 << 52), e - 1075) };
    if m == 0 {
        return "0p0".into();
    }
    while m & 1 == 0 {
        m >>= 1;
        e += 1;
    }
    format!("{}{}p{}", if neg { "-" } else { "" }, m, e)
}

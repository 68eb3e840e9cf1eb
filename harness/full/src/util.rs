//! Recording of sessions, seeded randomness and guarded calls. No oracle lives here.
use serde_json::{json, Value};
use std::fs::File;
use std::io::{BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// Uniform in lo..=hi
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.next() % ((hi - lo + 1) as u64)) as i64
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.next() % den < num
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn float(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.unit()
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

pub const NAN: i64 = 2_000_000_001;
pub const INF: i64 = 2_000_000_002;
pub const BIG: i64 = 2_000_000_000;

/// Fixed point: a float as a 32 bit integer number of 1/scale; NaN, infinities and anything too
/// large are given the reserved codes above.
pub fn fx(v: f64, scale: f64) -> i64 {
    if v.is_nan() {
        return NAN;
    }
    if v.is_infinite() {
        return if v > 0.0 { INF } else { -INF };
    }
    let r = (v * scale).round();
    if r.abs() >= BIG as f64 {
        return if r > 0.0 { BIG } else { -BIG };
    }
    r as i64
}

pub fn fxs(v: &[f64], scale: f64) -> Vec<i64> {
    v.iter().map(|x| fx(*x, scale)).collect()
}

/// Optional values are written as sequences of none or one element
pub fn opt<T: serde::Serialize>(v: Option<T>) -> Value {
    match v {
        Some(x) => json!([x]),
        None => json!([]),
    }
}

pub fn ofx(v: Option<f64>, scale: f64) -> Value {
    opt(v.map(|x| fx(x, scale)))
}

/// The exact identity of a float
pub fn bits(v: f64) -> String {
    if v == 0.0 {
        return "0".to_string();
    }
    format!("{:016x}", v.to_bits())
}

/// Calls the code under test; a panic is a result
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else {
            "panic".to_string()
        }
    })
}

pub struct Log {
    out: BufWriter<File>,
    current: File,
    pub tier: String,
    pub thorough: bool,
    pub sessions: usize,
    pub events: usize,
    id: String,
    init: Value,
    pending: Vec<Value>,
    open: bool,
    scen: String,
}

impl Log {
    pub fn new(dir: &str, tier: &str) -> Self {
        Log {
            out: BufWriter::new(File::create(format!("{dir}/trace.ndjson")).unwrap()),
            current: File::create(format!("{dir}/current.json")).unwrap(),
            tier: tier.to_string(),
            thorough: tier == "thorough",
            sessions: 0,
            events: 0,
            id: String::new(),
            init: Value::Null,
            pending: vec![],
            open: false,
            scen: format!("{dir}/scenarios.ndjson"),
        }
    }

    /// Quick or thorough amount
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }

    /// The behaviours TLC exported from the design model
    pub fn scenarios(&self) -> Vec<Value> {
        std::fs::read_to_string(&self.scen)
            .unwrap_or_default()
            .lines()
            .filter_map(|l| serde_json::from_str(l).ok())
            .collect()
    }

    pub fn begin(&mut self, id: impl Into<String>, init: Value) {
        self.finish();
        self.id = id.into();
        self.init = init;
        self.open = true;
        // What is being run, for the report should the code under test never come back
        use std::io::Seek;
        let _ = self.current.set_len(0);
        let _ = self.current.rewind();
        let _ = self
            .current
            .write_all(json!({"id": self.id, "init": self.init}).to_string().as_bytes());
    }

    pub fn event(&mut self, e: Value) {
        self.pending.push(e);
    }

    pub fn finish(&mut self) {
        if self.open {
            let mut events = std::mem::take(&mut self.pending);
            events.iter_mut().for_each(no_nulls);
            self.events += events.len();
            self.sessions += 1;
            let line = json!({"id": self.id, "init": self.init, "events": events});
            writeln!(self.out, "{line}").unwrap();
            self.open = false;
        }
    }

    pub fn close(mut self) {
        self.finish();
        self.out.flush().unwrap();
        println!("{}", json!({"sessions": self.sessions, "events": self.events}));
    }
}

/// TLC reads no JSON null: a thing that is not there is a string no specification expects
fn no_nulls(v: &mut Value) {
    match v {
        Value::Null => *v = json!("(null)"),
        Value::Array(a) => a.iter_mut().for_each(no_nulls),
        Value::Object(o) => o.values_mut().for_each(no_nulls),
        _ => {}
    }
}

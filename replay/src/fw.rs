#![allow(dead_code)]
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

/// xorshift/splitmix generator: every random choice derives from VERIF_SEED.
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    pub fn us(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    /// inclusive range
    pub fn range(&mut self, a: i64, b: i64) -> i64 { a + self.below((b - a + 1) as u64) as i64 }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.us(v.len())] }
    pub fn f(&mut self) -> f64 { (self.next() >> 11) as f64 / (1u64 << 53) as f64 }
    pub fn string(&mut self, alphabet: &[&str], max: usize) -> String {
        let n = self.us(max + 1);
        (0..n).map(|_| *self.pick(alphabet)).collect()
    }
}

thread_local! { static LAST: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let at = i.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
        LAST.with(|c| *c.borrow_mut() = at);
    }));
}

pub struct Violation { pub contract: String, pub input: String, pub what: String }

pub struct Cx {
    pub prop: String,
    pub rng: Rng,
    pub thorough: bool,
    pub evals: u64,
    distinct: HashSet<u64>,
    pub per: BTreeMap<String, (u64, u64, bool)>, // evals, failures, exhaustive
    pub samples: Vec<String>,
    pub viol: Vec<Violation>,
    start: Instant,
    pub notes: Vec<String>,
    pub trace: Option<String>,
    hang: std::sync::Arc<std::sync::Mutex<(Option<Instant>, String, String)>>,
}

/// A single evaluation that takes longer than this is reported as a call that does not return.
const HANG: Duration = Duration::from_secs(60);

fn h<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut s = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}

impl Cx {
    pub fn new(prop: &str, seed: u64, thorough: bool) -> Self {
        Cx {
            prop: prop.into(),
            rng: Rng(seed.wrapping_mul(0x1234_5678_9ABC_DEF1) ^ h(prop)),
            thorough,
            evals: 0,
            distinct: HashSet::new(),
            per: BTreeMap::new(),
            samples: vec![],
            viol: vec![],
            start: Instant::now(),
            notes: vec![],
            trace: None,
            hang: Default::default(),
        }
    }
    /// `.last` next to the report names the evaluation in progress if the process must be ended.
    pub fn watch(&mut self, out: &str, trace: bool) {
        let last = format!("{out}.last");
        let _ = std::fs::remove_file(&last);
        if trace { self.trace = Some(last.clone()); }
        let hang = self.hang.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_secs(2));
            let g = hang.lock().unwrap();
            if let Some(t) = g.0 {
                if t.elapsed() > HANG {
                    let _ = std::fs::write(&last, format!("{{\"contract\":{},\"input\":{}}}", q(&g.1), q(&g.2)));
                    std::process::exit(4);
                }
            }
        });
    }
    pub fn n(&self, quick: usize) -> usize { if self.thorough { quick * 12 } else { quick } }
    pub fn elapsed(&self) -> Duration { self.start.elapsed() }
    /// Evaluate one contract on one input. `input` is only rendered when needed.
    pub fn check(&mut self, contract: &str, input: impl Fn() -> String, f: impl FnOnce() -> Result<(), String>) -> bool {
        self.evals += 1;
        let e = self.per.entry(contract.to_string()).or_insert((0, 0, false));
        e.0 += 1;
        let first = e.0 <= 2;
        let hang = self.hang.clone();
        if self.distinct.len() < 2_000_000 || first || self.trace.is_some() {
            let s = input();
            if let Some(p) = &self.trace { let _ = std::fs::write(p, format!("{{\"contract\":{},\"input\":{}}}", q(contract), q(&s))); }
            *hang.lock().unwrap() = (Some(Instant::now()), contract.to_string(), s.clone());
            self.distinct.insert(h(&(contract, &s)));
            if first && self.samples.len() < 40 {
                let mut t = s; if t.len() > 300 { let mut k = 300; while !t.is_char_boundary(k) { k -= 1 } t.truncate(k); }
                self.samples.push(format!("{contract}: {t}"));
            }
        }
        let r0 = catch_unwind(AssertUnwindSafe(f));
        hang.lock().unwrap().0 = None;
        let r = match r0 {
            Ok(r) => r,
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                Err(format!("panic at {}: {m}", LAST.with(|c| c.borrow().clone())))
            }
        };
        if let Err(what) = r {
            let e = self.per.get_mut(contract).unwrap();
            e.1 += 1;
            if e.1 <= 3 {
                let inp = input();
                self.viol.push(Violation { contract: contract.into(), input: inp, what });
            }
            return false;
        }
        true
    }
    pub fn exhaustive(&mut self, contract: &str) {
        if let Some(e) = self.per.get_mut(contract) { e.2 = true }
    }
    pub fn to_json(&self) -> String {
        let mut s = String::from("{");
        s += &format!("\"property\":{},\"evaluations\":{},\"distinct\":{},\"wall_s\":{:.2},", q(&self.prop), self.evals, self.distinct.len(), self.start.elapsed().as_secs_f64());
        s += "\"contracts\":{";
        s += &self.per.iter().map(|(k, v)| format!("{}:{{\"evaluations\":{},\"failures\":{},\"exhaustive\":{}}}", q(k), v.0, v.1, v.2)).collect::<Vec<_>>().join(",");
        s += "},\"samples\":[";
        s += &self.samples.iter().map(|x| q(x)).collect::<Vec<_>>().join(",");
        s += "],\"violations\":[";
        s += &self.viol.iter().map(|v| format!("{{\"contract\":{},\"input\":{},\"what\":{}}}", q(&v.contract), q(&v.input), q(&v.what))).collect::<Vec<_>>().join(",");
        s += "]}";
        s
    }
}

pub fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\r' => o += "\\r",
            '\t' => o += "\\t",
            c if (c as u32) < 32 || c as u32 == 0x7f => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

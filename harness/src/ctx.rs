//! Bookkeeping of a run: units of work, what was observed, violations.
use std::collections::{BTreeMap, HashSet};
use std::fs::File;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

use crate::rng::Rng;

/// Ends a unit after a violation.
pub struct Stop;
pub type R = Result<(), Stop>;

pub struct Violation {
    pub unit: u64,
    pub what: String,
    pub case: String,
}

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    /// tiny workload (interpreters)
    pub small: bool,
    pub shard: u64,
    pub shards: u64,
    /// run only this unit
    pub only: Option<u64>,
    /// keep the case being run in `cur` (for crashes)
    pub trace: bool,
    pub quiet_panics: bool,
    /// only what runs in several threads (race detectors)
    pub threads_only: bool,
    next_unit: u64,
    unit: u64,
    pub cur: String,
    pub evaluations: u64,
    pub units: u64,
    pub panics: u64,
    pub counts: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub digests: Vec<(u64, u64)>,
    pub cases: Vec<(u64, String)>,
    status: Option<File>,
    /// inputs are written here, for other programs
    pub record: Option<std::io::BufWriter<File>>,
    /// inputs that others wrote
    pub corpus: Vec<u8>,
}

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

pub fn hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if let Ok(mut l) = LAST_PANIC.lock() {
            *l = format!("{msg} at {at}");
        }
        if msg.starts_with("unsafe precondition") || at.contains("core/src/panicking") {
            eprintln!("ABORTING PANIC {msg} at {at}");
        }
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.lock().map(|l| l.clone()).unwrap_or_default()
}

pub fn fnv(data: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in data {
        h = (h ^ *b as u64).wrapping_mul(0x100_0000_01b3);
    }
    h
}

impl Ctx {
    pub fn new(prop: &str) -> Ctx {
        Ctx {
            prop: prop.into(),
            seed: 1,
            thorough: false,
            small: false,
            shard: 0,
            shards: 1,
            only: None,
            trace: false,
            quiet_panics: false,
            threads_only: false,
            next_unit: 0,
            unit: 0,
            cur: String::new(),
            evaluations: 0,
            units: 0,
            panics: 0,
            counts: BTreeMap::new(),
            maxima: BTreeMap::new(),
            distinct: HashSet::new(),
            samples: Vec::new(),
            violations: Vec::new(),
            digests: Vec::new(),
            cases: Vec::new(),
            status: None,
            record: None,
            corpus: Vec::new(),
        }
    }
    pub fn status(&mut self, path: &str) {
        self.status = File::create(path).ok();
    }
    pub fn pick3(&self, small: usize, quick: usize, thorough: usize) -> usize {
        if self.small {
            small
        } else if self.thorough {
            thorough
        } else {
            quick
        }
    }
    pub fn unit_no(&self) -> u64 {
        self.unit
    }
    pub fn full(&self) -> bool {
        self.violations.len() >= 5
    }

    /// A unit of work: runs if it is this shard's, with random numbers of its own.
    pub fn unit(&mut self, f: impl FnOnce(&mut Ctx, &mut Rng) -> R) {
        let n = self.next_unit;
        self.next_unit += 1;
        match self.only {
            Some(o) if o != n => return,
            None if n % self.shards != self.shard || self.full() => return,
            _ => {}
        }
        self.unit = n;
        self.units += 1;
        if let Some(s) = &self.status {
            let _ = s.write_at(&n.to_le_bytes(), 0);
        }
        let mut r = Rng::new(self.seed ^ fnv(self.prop.as_bytes()), n);
        self.cur.clear();
        let out = catch_unwind(AssertUnwindSafe(|| f(self, &mut r)));
        if out.is_err() {
            self.panics += 1;
            if !self.quiet_panics {
                let what = format!("panic: {}", last_panic());
                let case = self.cur.clone();
                self.violations.push(Violation { unit: n, what, case });
            }
        }
    }

    pub fn count(&mut self, name: &str) {
        self.add(name, 1);
    }
    pub fn add(&mut self, name: &str, n: u64) {
        if let Some(c) = self.counts.get_mut(name) {
            *c += n;
        } else {
            self.counts.insert(name.into(), n);
        }
    }
    pub fn max(&mut self, name: &str, n: u64) {
        let m = self.maxima.entry(name.into()).or_default();
        *m = (*m).max(n);
    }
    /// One evaluation of the oracle, with a signature of what was seen (0: nothing new by itself).
    pub fn eval(&mut self, sig: u64) {
        self.evaluations += 1;
        if sig != 0 && self.distinct.len() < 400_000 {
            self.distinct.insert(sig);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let mut s = f();
            if s.len() > 600 {
                let mut n = 600;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push_str("...");
            }
            self.samples.push(s);
        }
    }
    pub fn case(&mut self, f: impl FnOnce() -> String) {
        if self.trace {
            self.cur = f();
            if let Some(s) = &mut self.status {
                // after the unit number, for a run that will not come back
                let _ = s.set_len(8);
                let _ = s.write_at(self.cur.as_bytes(), 8);
                let _ = s.flush();
            }
        }
    }
    pub fn fail(&mut self, what: String, case: String) -> Stop {
        let unit = self.unit;
        self.violations.push(Violation { unit, what, case });
        Stop
    }

    pub fn json(&self) -> String {
        let map = |m: &BTreeMap<String, u64>| {
            let v: Vec<String> = m.iter().map(|(k, n)| format!("{}:{}", jstr(k), n)).collect();
            format!("{{{}}}", v.join(","))
        };
        let vio: Vec<String> = self
            .violations
            .iter()
            .map(|v| format!("{{\"unit\":{},\"what\":{},\"case\":{}}}", v.unit, jstr(&v.what), jstr(&v.case)))
            .collect();
        let samples: Vec<String> = self.samples.iter().map(|s| jstr(s)).collect();
        let cases: Vec<String> = self.cases.iter().map(|(d, t)| format!("[\"{d:016x}\",{}]", jstr(t))).collect();
        let digests: Vec<String> = self.digests.iter().map(|(u, d)| format!("[{u},\"{d:016x}\"]")).collect();
        format!(
            "{{\"prop\":{},\"units\":{},\"evaluations\":{},\"panics\":{},\"counts\":{},\"maxima\":{},\"samples\":[{}],\"violations\":[{}],\"digests\":[{}],\"cases\":[{}]}}",
            jstr(&self.prop),
            self.units,
            self.evaluations,
            self.panics,
            map(&self.counts),
            map(&self.maxima),
            samples.join(","),
            vio.join(","),
            digests.join(","),
            cases.join(",")
        )
    }
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7F => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

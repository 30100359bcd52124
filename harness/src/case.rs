use std::collections::{BTreeMap, BTreeSet, HashSet};

use crate::rng::{fnv, Rng, FNV0};

pub type Res = Result<(), String>;

#[derive(Default)]
pub struct Cov {
    pub evals: u64,
    pub counts: BTreeMap<String, u64>,
    pub sets: BTreeMap<String, BTreeSet<u64>>,
    pub digests: HashSet<u64>,
    pub samples: Vec<String>,
    pub known: BTreeMap<String, u64>,
}

pub struct Case<'a> {
    pub r: Rng,
    pub idx: u64,
    pub n: u64,
    pub thorough: bool,
    pub cov: &'a mut Cov,
    /// what to put into a replay file if this case fails
    pub attach: Vec<(String, Vec<u8>)>,
    pub notes: Vec<String>,
}

impl<'a> Case<'a> {
    pub fn eval(&mut self) {
        self.cov.evals += 1;
    }
    pub fn hit(&mut self, k: &str) {
        self.hits(k, 1)
    }
    pub fn hits(&mut self, k: &str, n: u64) {
        match self.cov.counts.get_mut(k) {
            Some(v) => *v += n,
            None => {
                self.cov.counts.insert(k.to_string(), n);
            }
        }
    }
    /// a value of some small space was exercised
    pub fn point(&mut self, k: &str, v: u64) {
        match self.cov.sets.get_mut(k) {
            Some(s) => {
                s.insert(v);
            }
            None => {
                self.cov
                    .sets
                    .insert(k.to_string(), [v].into_iter().collect());
            }
        }
    }
    /// a non-trivial case with this identity was judged
    pub fn seen(&mut self, parts: &[&[u8]]) {
        let mut h = FNV0;
        for p in parts {
            h = fnv(p, h);
            h = fnv(&(p.len() as u64).to_le_bytes(), h);
        }
        self.cov.digests.insert(h);
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.cov.samples.len() < 3 {
            let mut t = s();
            if t.len() > 400 {
                let mut k = 400;
                while !t.is_char_boundary(k) {
                    k -= 1;
                }
                t.truncate(k);
                t.push_str("...");
            }
            self.cov.samples.push(t);
        }
    }
    pub fn known(&mut self, s: &str) {
        *self.cov.known.entry(s.to_string()).or_insert(0) += 1;
    }
    pub fn attach(&mut self, name: &str, b: &[u8]) {
        self.attach.retain(|(n, _)| n != name);
        self.attach.push((name.to_string(), b.to_vec()));
    }
    pub fn note(&mut self, s: String) {
        if self.notes.len() < 20 {
            self.notes.push(s);
        }
    }
}

pub struct Family {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Case) -> Res,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub families: Vec<Family>,
    /// counters (or sizes of value sets) a complete run must reach
    pub required: Vec<(&'static str, u64)>,
}

pub fn fam(name: &'static str, quick: u64, thorough: u64, run: fn(&mut Case) -> Res) -> Family {
    Family {
        name,
        quick,
        thorough,
        run,
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

pub fn hex_head(b: &[u8]) -> String {
    if b.len() > 48 {
        format!("{}.. ({} bytes)", hex(&b[..48]), b.len())
    } else {
        hex(b)
    }
}

#[macro_export]
macro_rules! want {
    ($cond:expr, $($arg:tt)*) => {
        if !$cond {
            return Err(format!($($arg)*));
        }
    };
}

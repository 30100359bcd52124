mod case;
mod gen;
mod mon;
mod props;
mod refl;
mod rng;
mod sut;
mod zlib;

use std::collections::BTreeMap;
use std::fs;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic;
use std::time::Instant;

use case::{hex, Case, Cov, Prop};
use rng::Rng;

#[global_allocator]
static ALLOC: mon::Alloc = mon::Alloc;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn js_map(m: &BTreeMap<String, u64>) -> String {
    let v: Vec<String> = m.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    format!("{{{}}}", v.join(","))
}

fn case_seed(seed: u64, prop: &str, fam: &str, idx: u64) -> u64 {
    let mut h = rng::fnv(prop.as_bytes(), rng::FNV0 ^ seed.wrapping_mul(0x9e37_79b9_7f4a_7c15));
    h = rng::fnv(fam.as_bytes(), h);
    rng::fnv(&idx.to_le_bytes(), h)
}

#[cfg(not(miri))]
fn cpu_budget(secs: i64) {
    unsafe {
        let t = libc::itimerval {
            it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
            it_value: libc::timeval { tv_sec: secs, tv_usec: 0 },
        };
        libc::setitimer(libc::ITIMER_VIRTUAL, &t, std::ptr::null_mut());
    }
}
#[cfg(miri)]
fn cpu_budget(_: i64) {}

struct Args(BTreeMap<String, String>);

impl Args {
    fn get(&self, k: &str) -> Option<&str> {
        self.0.get(k).map(|s| s.as_str())
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k).map_or(d, |s| s.parse().expect("number"))
    }
}

fn run_one(p: &Prop, f: usize, idx: u64, n: u64, seed: u64, thorough: bool, cov: &mut Cov) -> Result<(), (String, Vec<(String, Vec<u8>)>, Vec<String>)> {
    let fam = &p.families[f];
    let mut c = Case {
        r: Rng::new(case_seed(seed, p.id, fam.name, idx)),
        idx,
        n,
        thorough,
        cov,
        attach: vec![],
        notes: vec![],
    };
    let r = mon::guarded(|| (fam.run)(&mut c));
    let (a, n) = (std::mem::take(&mut c.attach), std::mem::take(&mut c.notes));
    r.map_err(|e| (e, a, n))
}

fn main() {
    let mut it = std::env::args().skip(1);
    let cmd = it.next().unwrap_or_default();
    let mut m = BTreeMap::new();
    while let Some(k) = it.next() {
        let v = it.next().unwrap_or_default();
        m.insert(k.trim_start_matches("--").to_string(), v);
    }
    let a = Args(m);
    mon::install_hook();
    match cmd.as_str() {
        "run" => worker(&a),
        "gen" => props::misc::gen_corpus(
            a.get("dir").expect("--dir"),
            a.num("seed", 1),
            a.num("n", 100),
            a.num("from", 0),
        ),
        "broken" => props::misc::gen_broken(a.get("dir").expect("--dir"), a.num("seed", 1), a.num("n", 100)),
        "print-bits" => props::parts::print_bits_main(),
        "alone" => props::misc::alone_main(),
        "threads" => props::misc::threads_main(a.num("seed", 1), a.num("n", 3) as usize, a.num("light", 0) == 1),
        "list" => {
            for p in props::all() {
                for f in &p.families {
                    println!("{} {} {} {}", p.id, f.name, f.quick, f.thorough);
                }
            }
        }
        _ => {
            eprintln!("unknown command");
            std::process::exit(2);
        }
    }
}

fn worker(a: &Args) {
    let id = a.get("prop").expect("--prop");
    let seed = a.num("seed", 1);
    let thorough = a.get("tier") == Some("thorough");
    let scale = a.num("scale", 100);
    let all = props::all();
    let p = all.iter().find(|p| p.id == id).expect("property");
    let deadline = a.num("deadline", 600);
    let budget = a.num("cpu", 60) as i64;
    let start = Instant::now();
    mon::set_cap(a.num("mem", 2 << 30) as usize);

    // (fraction done, family, index): every family advances evenly
    let mut todo: Vec<(u64, usize, u64, u64)> = vec![];
    let only = a.get("family");
    let (shard, shards) = (a.num("shard", 0), a.num("shards", 1));
    let mut serial = 0;
    for (k, f) in p.families.iter().enumerate() {
        if only.map_or(false, |o| o != f.name) {
            continue;
        }
        let full = if thorough { f.thorough } else { f.quick };
        let n = (full * scale / 100).max(1).min(f.thorough);
        for idx in 0..n {
            serial += 1;
            if serial % shards == shard {
                todo.push((idx * 1_000_000 / n, k, idx, full));
            }
        }
    }
    todo.sort();
    if let Some(i) = a.get("index") {
        let i: u64 = i.parse().expect("index");
        let k = p.families.iter().position(|f| Some(f.name) == only).expect("--family");
        let full = if thorough { p.families[k].thorough } else { p.families[k].quick };
        todo = vec![(0, k, i, full)];
    }

    let mut cov = Cov::default();
    let progress = a.get("progress").map(|f| fs::File::create(f).expect("progress file"));
    let mut done: BTreeMap<String, u64> = BTreeMap::new();
    let mut failed = None;
    let mut skipped = 0;
    let mut worst = (0.0, String::new());
    for (_, k, idx, n) in todo {
        if start.elapsed().as_secs() >= deadline {
            skipped += 1;
            continue;
        }
        let fam = &p.families[k];
        if let Some(f) = &progress {
            let line = format!("{:<30} {:>20}\n", fam.name, idx);
            let _ = f.write_at(line.as_bytes(), 0);
        }
        cpu_budget(budget);
        let t = Instant::now();
        let r = run_one(p, k, idx, n, seed, thorough, &mut cov);
        cpu_budget(0);
        let t = t.elapsed().as_secs_f64();
        if t > worst.0 {
            worst = (t, format!("{}/{}", fam.name, idx));
        }
        *done.entry(fam.name.to_string()).or_insert(0) += 1;
        if let Err(e) = r {
            failed = Some((fam.name, idx, e));
            break;
        }
    }

    let mut o = String::new();
    o.push_str("{\n");
    if let Some((f, i, (msg, att, notes))) = &failed {
        let att: Vec<String> = att
            .iter()
            .map(|(n, b)| format!("{}:{}", js(n), js(&hex(b))))
            .collect();
        let notes: Vec<String> = notes.iter().map(|s| js(s)).collect();
        o.push_str(&format!(
            "\"failure\":{{\"family\":{},\"index\":{},\"message\":{},\"attach\":{{{}}},\"notes\":[{}]}},\n",
            js(f),
            i,
            js(msg),
            att.join(","),
            notes.join(",")
        ));
    }
    let sets: Vec<String> = cov
        .sets
        .iter()
        .map(|(k, v)| {
            let v: Vec<String> = v.iter().map(|x| x.to_string()).collect();
            format!("{}:[{}]", js(k), v.join(","))
        })
        .collect();
    let samples: Vec<String> = cov.samples.iter().map(|s| js(s)).collect();
    let req: Vec<String> = p.required.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    o.push_str(&format!(
        "\"rule\":{},\"required\":{{{}}},\"evals\":{},\"skipped\":{},\"done\":{},\"counts\":{},\"sets\":{{{}}},\"known\":{},\"samples\":[{}],\"worst\":[{:.3},{}],\"wall\":{:.2}\n}}\n",
        js(p.rule),
        req.join(","),
        cov.evals,
        skipped,
        js_map(&done),
        js_map(&cov.counts),
        sets.join(","),
        js_map(&cov.known),
        samples.join(","),
        worst.0,
        js(&worst.1),
        start.elapsed().as_secs_f64()
    ));
    match a.get("out") {
        Some(f) => {
            let mut d = Vec::with_capacity(cov.digests.len() * 8);
            for h in &cov.digests {
                d.extend(h.to_le_bytes());
            }
            fs::write(format!("{}.dig", f), d).expect("digests");
            fs::write(f, o).expect("result file");
        }
        None => {
            let _ = std::io::stdout().write_all(o.as_bytes());
        }
    }
    let _ = panic::take_hook();
    std::process::exit(if failed.is_some() { 1 } else { 0 });
}

//! Predictions, corrections, their storage and the match finder:
//! C07 to C12, C21, C23.

use std::collections::HashMap;
use std::io;

use librezip::all_refs::AllRefs;
use librezip::serialise_trace;
use librezip::trace as tr;
use librezip::verif_hooks::{make_ref, BitWriter, Lookahead, Picker, CONFIGURATIONS};
use librezip::{Block, CircularBuffer, Code, Config, DataLen, Guesser, Looker, Technique, Trace};

use super::stream::{v_random, v_zlib, Valid};
use crate::case::*;
use crate::gen;
use crate::gen::WINDOW;
use crate::mon::*;
use crate::refl::*;
use crate::rng::Rng;
use crate::sut::*;
use crate::want;

// ---- contexts and configurations ----

pub struct Ctx {
    pub pre: Vec<u8>,
    pub data: Vec<u8>,
}

impl Ctx {
    pub fn all(&self) -> Vec<u8> {
        self.pre.iter().chain(&self.data).cloned().collect()
    }
}

fn biased(r: &mut Rng, n: usize) -> Vec<u8> {
    let k = r.range(2, 3);
    let alpha = r.bytes(k);
    let p = r.range(2, 6);
    (0..n)
        .map(|_| if r.chance(p - 1, p) { alpha[0] } else { alpha[r.range(1, k - 1)] })
        .collect()
}

pub use crate::gen::dense;

pub fn ctx(r: &mut Rng, size: usize) -> Ctx {
    let n = match size {
        0 => r.log(60),
        1 => r.range(0, 1500),
        2 => r.range(500, 6000),
        3 => r.range(33_000, 48_000),
        4 => r.range(66_000, 80_000),
        _ => return long_ctx(r),
    };
    let all = if size >= 2 && r.chance(1, 6) {
        biased(r, n)
    } else {
        gen::payload_n(r, n)
    };
    let cut = match r.below(6) {
        0 | 1 => 0,
        2 => r.log(n),
        3 if n > WINDOW => *r.pick(&[WINDOW, WINDOW - 1, WINDOW + 1, WINDOW / 2]),
        3 => n - r.log(n).min(n),
        4 => n.saturating_sub(r.range(0, 10)),
        _ => r.range(0, n),
    };
    // mostly keep the long part in the context, always so if it is repetitive:
    // the searches are quadratic then
    let most = if dense(&all) > 1000 { 700 } else { 6000 };
    let cut = if n > 20_000 && n - cut > most && (most < 6000 || !r.chance(1, 4)) {
        n - r.range(100, most)
    } else {
        cut
    };
    Ctx {
        pre: all[..cut].to_vec(),
        data: all[cut..].to_vec(),
    }
}

/// More data than 16 bits can number, after no, some or a full window of context
pub fn long_ctx(r: &mut Rng) -> Ctx {
    let n = *r.pick(&[66_000usize, 70_000, 100_000, 132_000]) + r.below(3000);
    let all = gen::long_data(r, n);
    let cut = *r.pick(&[0, 0, 1, 500, WINDOW, WINDOW]);
    Ctx {
        pre: all[..cut].to_vec(),
        data: all[cut..].to_vec(),
    }
}

fn size_of_case(c: &mut Case) -> usize {
    match c.idx % 40 {
        0..=9 => 0,
        10..=29 => 1,
        30..=36 => 2,
        37 | 38 => 3,
        _ if c.idx % 80 < 40 => 4,
        _ => {
            c.hit("long data");
            5
        }
    }
}

/// (configuration, limit for the match finder, name)
pub fn config(r: &mut Rng, which: usize) -> (Config, u16, String) {
    let (cfg, name) = match which {
        0..=8 => (Config::gzip(which as u8 + 1), format!("gzip({})", which + 1)),
        9 => (Config::spicy(), "spicy".into()),
        _ => {
            let look = *r.pick(&[Lookahead::Greedy, Lookahead::Gzip, Lookahead::ThreeZip]);
            let w = r.below(9);
            let cfg = Config {
                first_byte_bug: r.chance(1, 2),
                lookahead: look,
                picker: *r.pick(&[Picker::Longest, Picker::DropFarThrees]),
                wams: CONFIGURATIONS[w],
            };
            let name = format!("{:?}/{:?}/wams {}", look, cfg.picker, w + 1);
            (cfg, name)
        }
    };
    let limit = match r.below(if which <= 9 { 8 } else { 3 }) {
        0 => *r.pick(&[1u16, 2, 3, 10, 1000, 65_535]),
        _ => cfg.wams.insert_only_below_length.unwrap_or(u16::MAX),
    };
    (cfg, limit, name)
}

const CONFIGS: u64 = 14;

fn attach_ctx(c: &mut Case, x: &Ctx, codes: Option<&[Tok]>) {
    c.attach("preroll", &x.pre);
    c.attach("data", &x.data);
    if let Some(t) = codes {
        let s: String = t.iter().map(|t| format!("{:?}\n", t)).collect();
        c.attach("codes", s.as_bytes());
    }
}

fn note_ctx(c: &mut Case, x: &Ctx) {
    c.hit(match x.pre.len() {
        0 => "no context",
        1..=32_767 => "some context",
        32_768 => "a full window of context",
        _ => "more than a window of context",
    });
    if x.data.len() < 3 {
        c.hit("fewer than three bytes of data");
    }
    if x.pre.len() + x.data.len() > WINDOW + 300 {
        c.hit("data beyond the reach of references");
    }
}

// ---- C07 ----

fn c07_case(c: &mut Case, x: &Ctx, toks: &[Tok]) -> Res {
    attach_ctx(c, x, Some(toks));
    note_ctx(c, x);
    let codes = lib_codes(toks);
    let which = (c.idx % CONFIGS) as usize;
    let (cfg, limit, name) = config(&mut c.r, which);
    c.note(format!("configuration {}, limit {}", name, limit));
    c.eval();
    c.seen(&[&x.pre, &x.data, format!("{:?}{}{}", toks, name, limit).as_bytes()]);
    let trace = {
        let refs = sut("indexing", || AllRefs::with_sixteen(&x.pre, &x.data, limit))?;
        let t = Technique::new(cfg, &refs);
        sut("recording", || tr::trace(&codes, &t))?
    };
    want!(
        trace.len() == codes.len(),
        "{} corrections for {} codes under {}",
        trace.len(),
        codes.len(),
        name
    );
    // from the corrections and the data alone
    let back = {
        let pre = x.pre.clone();
        let data = x.data.clone();
        let refs = sut("indexing", || AllRefs::with_sixteen(&pre, &data, limit))?;
        let t = Technique::new(cfg, &refs);
        sut("restoring", || tr::restore(&trace, &t))?
    };
    if back != codes {
        let at = back.iter().zip(&codes).position(|(a, b)| a != b);
        return Err(format!(
            "restored {} codes of {} under {}, first difference at {:?}",
            back.len(),
            codes.len(),
            name,
            at
        ));
    }
    for t in &trace {
        c.hit(match t {
            Trace::Correct => "corrections: none needed",
            Trace::ActuallyLiteral => "corrections: literal",
            Trace::Actually(_) => "corrections: reference",
        });
    }
    if which < 9 {
        let level = which as u8 + 1;
        let t = sut("try_gzip", || librezip::tracer::try_gzip(level, &x.pre, &x.data, &codes))?;
        want!(t.len() == codes.len(), "try_gzip: {} corrections for {} codes", t.len(), codes.len());
        let refs = AllRefs::with_sixteen(
            &x.pre,
            &x.data,
            Config::gzip(level).wams.insert_only_below_length.unwrap_or(u16::MAX),
        );
        let tech = Technique::new(Config::gzip(level), &refs);
        let back = sut("restoring", || tr::restore(&t, &tech))?;
        want!(back == codes, "restoring what try_gzip({}) recorded gives other codes", level);
        let v = sut("validate", || tr::validate(&codes, &tech))?;
        want!(v == t, "validate and try_gzip({}) differ", level);
        c.hit("through try_gzip");
    } else {
        let refs = AllRefs::with_sixteen(&x.pre, &x.data, limit);
        let tech = Technique::new(cfg, &refs);
        let v = sut("validate", || tr::validate(&codes, &tech))?;
        want!(v == trace, "validate and trace differ");
    }
    c.point("configurations", which as u64);
    c.sample(|| format!("{} bytes of context, {} of data as {} codes, {}", x.pre.len(), x.data.len(), toks.len(), name));
    Ok(())
}

fn c07_tokenised(c: &mut Case) -> Res {
    let s = size_of_case(c);
    let x = ctx(&mut c.r, s);
    let t = gen::tokenise(&mut c.r, &x.pre, &x.data);
    c07_case(c, &x, &t)
}

/// references first, data from them
fn c07_random(c: &mut Case) -> Res {
    let big = c.idx % 10 == 0;
    let n = if big { *c.r.pick(&[WINDOW, WINDOW + 5, 300]) } else { c.r.log(400) };
    let pre = gen::payload_n(&mut c.r, n);
    let style = gen::tok_style(&mut c.r);
    let k = c.r.log(300);
    let t = gen::tokens(&mut c.r, k, pre.len(), style, 6000);
    let mut all = pre.clone();
    assert!(expand(&mut all, 0, &t));
    let x = Ctx {
        data: all[pre.len()..].to_vec(),
        pre,
    };
    c07_case(c, &x, &t)
}

/// mostly what the predictor says, to get through long agreements
fn c07_guided(c: &mut Case) -> Res {
    let s = size_of_case(c).max(1);
    let x = ctx(&mut c.r, s);
    let which = (c.idx % CONFIGS) as usize;
    // the case itself picks another random limit; only the shape matters here
    let (cfg, limit, _) = config(&mut c.r.clone(), which);
    let t = follow(c, &x, cfg, limit, 30)?.0;
    c07_case(c, &x, &t)
}

/// Another valid way to code what comes at `pos`.
fn other_code(r: &mut Rng, all: &[u8], pos: usize, guess: &Tok) -> Option<Tok> {
    let lit = Tok::Lit(all[pos]);
    let mut cand = vec![];
    if *guess != lit {
        cand.push(lit);
    }
    if let Tok::Mat { len, dist, .. } = *guess {
        if len > 3 {
            cand.push(Tok::mat(r.range(3, usize::from(len) - 1) as u16, dist));
        }
    }
    if pos > 0 && pos + 3 <= all.len() {
        for _ in 0..6 {
            let d = match r.below(3) {
                0 => r.range(1, pos.min(WINDOW)),
                1 => r.log(pos.min(WINDOW)).max(1),
                _ => pos.min(WINDOW) - r.below(3).min(pos.min(WINDOW) - 1),
            };
            let l = gen::match_len(all, pos, d);
            if l >= 3 {
                let l = if r.chance(1, 2) { l } else { r.range(3, l) };
                let t = Tok::mat(l as u16, d as u16);
                if t != *guess {
                    cand.push(t);
                }
            }
        }
    }
    if cand.is_empty() {
        None
    } else {
        Some(*r.pick(&cand))
    }
}

/// Walk along the predictions, leaving them now and then (per 1000): the codes
/// and the corrections that belong to them.
fn follow(c: &mut Case, x: &Ctx, cfg: Config, limit: u16, leave: usize) -> Result<(Vec<Tok>, Vec<Trace>), String> {
    let all = x.all();
    let refs = sut("indexing", || AllRefs::with_sixteen(&x.pre, &x.data, limit))?;
    let tech = Technique::new(cfg, &refs);
    let mut s = tech.scanner();
    let (mut toks, mut exp) = (vec![], vec![]);
    let mut pos = x.pre.len();
    while pos < all.len() {
        let g = sut("predicting", || s.codes())?;
        want!(!g.is_empty(), "nothing predicted at {} of {}", pos, all.len());
        for g in g {
            let gt = tok(&g);
            let mut t = gt;
            if c.r.below(1000) < leave {
                if let Some(o) = other_code(&mut c.r, &all, pos, &gt) {
                    t = o;
                }
            }
            exp.push(if t == gt {
                Trace::Correct
            } else {
                match code(&t) {
                    Code::Literal(_) => Trace::ActuallyLiteral,
                    Code::Reference(r) => Trace::Actually(r),
                }
            });
            sut("feedback", || s.feedback(code(&t)))?;
            toks.push(t);
            pos += t.size();
            want!(pos <= all.len(), "prediction runs past the end of the data");
            if t != gt {
                break;
            }
        }
    }
    Ok((toks, exp))
}

// ---- C12 ----

fn c12(c: &mut Case) -> Res {
    let s = size_of_case(c);
    let mut x = ctx(&mut c.r, s);
    if c.idx % 50 == 49 {
        // more codes than one record holds
        let n = c.r.range(33_000, 70_000);
        x = Ctx { pre: vec![], data: c.r.bytes(n) };
        c.hit("more than 32767 codes");
    }
    let which = (c.idx % CONFIGS) as usize;
    let (cfg, limit, name) = config(&mut c.r, which);
    attach_ctx(c, &x, None);
    note_ctx(c, &x);
    c.note(format!("configuration {}, limit {}", name, limit));
    let leave = *c.r.pick(&[0usize, 0, 3, 50, 400]);
    let (toks, exp) = follow(c, &x, cfg, limit, leave)?;
    attach_ctx(c, &x, Some(&toks));
    // the walk itself must make sense
    let mut all = x.pre.clone();
    want!(
        expand(&mut all, 0, &toks) && all[x.pre.len()..] == x.data,
        "predictions do not code the data under {}",
        name
    );
    c.eval();
    c.seen(&[&x.pre, &x.data, format!("{:?}{}", toks, name).as_bytes()]);
    let codes = lib_codes(&toks);
    let refs = AllRefs::with_sixteen(&x.pre, &x.data, limit);
    let tech = Technique::new(cfg, &refs);
    let got = sut("recording", || tr::trace(&codes, &tech))?;
    if got != exp {
        let at = got.iter().zip(&exp).position(|(a, b)| a != b);
        return Err(format!(
            "corrections differ from the predictions left, first at {:?} (got {:?}, should be {:?}) of {} under {}",
            at,
            at.map(|i| got[i]),
            at.map(|i| exp[i]),
            codes.len(),
            name
        ));
    }
    let left = exp.iter().filter(|t| **t != Trace::Correct).count();
    if left == 0 {
        let b = sut("writing metadata", || serialise_trace::write(&got))?;
        want!(
            b.len() == 2 * codes.len().div_ceil(32_767),
            "{} codes all predicted, metadata of {} bytes",
            codes.len(),
            b.len()
        );
        c.hit("coded just as predicted");
        if which < 9 && limit == cfg.wams.insert_only_below_length.unwrap_or(u16::MAX) {
            let t = sut("try_gzip", || librezip::tracer::try_gzip(which as u8 + 1, &x.pre, &x.data, &codes))?;
            want!(
                t.iter().all(|t| *t == Trace::Correct) && t.len() == codes.len(),
                "try_gzip({}) records corrections for its own predictions",
                which + 1
            );
        }
    } else {
        c.hit("left the predictions");
        c.hits("codes not as predicted", left as u64);
    }
    c.hits("codes", codes.len() as u64);
    c.point("configurations", which as u64);
    c.sample(|| format!("{} bytes in {} codes, {} not as predicted, {}", x.data.len(), codes.len(), left, name));
    Ok(())
}

// ---- C11 ----

fn c11(c: &mut Case) -> Res {
    let s = size_of_case(c);
    let x = ctx(&mut c.r, s);
    let all = x.all();
    let which = (c.idx % CONFIGS) as usize;
    let (cfg, limit, name) = config(&mut c.r, which);
    let toks = if c.r.chance(1, 2) {
        follow(c, &x, cfg, limit, 60)?.0
    } else {
        gen::tokenise(&mut c.r, &x.pre, &x.data)
    };
    attach_ctx(c, &x, Some(&toks));
    note_ctx(c, &x);
    c.note(format!("configuration {}, limit {}", name, limit));
    let refs = sut("indexing", || AllRefs::with_sixteen(&x.pre, &x.data, limit))?;
    let tech = Technique::new(cfg, &refs);
    let mut sc = sut("scanner", || tech.scanner())?;
    let mut pos = x.pre.len();
    for (i, t) in toks.iter().enumerate() {
        want!(sc.more_data(), "says there is no more data at {} of {}", pos, all.len());
        want!(sc.pos == pos, "believes to be at {}, is at {}", sc.pos, pos);
        let b = sut("byte_at", || tech.byte_at(pos))?;
        want!(b == all[pos], "byte_at({}) is {}, should be {} ({} bytes of context)", pos, b, all[pos], x.pre.len());
        let g = sut("predicting", || sc.codes())?;
        c.eval();
        want!(!g.is_empty(), "nothing predicted at {} of {}", pos, all.len());
        // they must code the next bytes
        let mut p = pos;
        for k in &g {
            match tok(k) {
                Tok::Lit(b) => {
                    want!(
                        p < all.len() && all[p] == b,
                        "predicts literal {} at {} of {}, where that byte is not ({})",
                        b,
                        p,
                        all.len(),
                        name
                    );
                    p += 1;
                }
                Tok::Mat { len, dist, .. } => {
                    let (l, d) = (usize::from(len), usize::from(dist));
                    want!(
                        p + l <= all.len() && d <= p && d >= 1 && d <= WINDOW && (0..l).all(|i| all[p + i] == all[p + i - d]),
                        "predicts {:?} at {} of {}, where the data differs ({})",
                        k,
                        p,
                        all.len(),
                        name
                    );
                    c.hit("references predicted");
                    p += l;
                }
            }
        }
        if g.len() > 1 {
            c.hit("several codes predicted at once");
        }
        if i % 3 == 0 {
            let again = sut("predicting again", || sc.codes())?;
            want!(again == g, "two predictions at {} differ: {:?}, {:?}", pos, g, again);
            c.hit("asked twice");
        }
        if all.len() - pos < 4 {
            c.hit("predictions within three bytes of the end");
        }
        sut("feedback", || sc.feedback(code(t)))?;
        pos += t.size();
    }
    want!(!sc.more_data(), "says there is more data at the end");
    c.seen(&[&x.pre, &x.data, format!("{:?}{}", toks, name).as_bytes()]);
    c.point("configurations", which as u64);
    c.sample(|| format!("{} predictions over {} bytes (context {}), {}", toks.len(), x.data.len(), x.pre.len(), name));
    Ok(())
}

// ---- C10 ----

fn c10(c: &mut Case) -> Res {
    let s = size_of_case(c);
    let x = ctx(&mut c.r, s);
    let all = x.all();
    let n = all.len();
    attach_ctx(c, &x, None);
    note_ctx(c, &x);
    let limit = *c.r.pick(&[65_535u16, 65_535, 65_535, 4, 5, 6, 1, 2, 40]);
    let refs = sut("indexing", || AllRefs::with_sixteen(&x.pre, &x.data, limit))?;
    c.seen(&[&x.pre, &x.data, &limit.to_le_bytes()]);
    // positions of each three-byte string
    let mut idx: HashMap<[u8; 3], Vec<usize>> = HashMap::new();
    for p in 0..n.saturating_sub(2) {
        idx.entry([all[p], all[p + 1], all[p + 2]]).or_default().push(p);
    }
    let mut places: Vec<usize> = if n <= 200 {
        (0..n).collect()
    } else {
        let k = if n > 30_000 { 25 } else { 120 };
        let mut v: Vec<usize> = (0..k).map(|_| c.r.below(n)).collect();
        v.extend([0, 1, 2, n - 1, n - 2, n - 3, n - 4]);
        for d in [32_767, 32_768, 32_769, 32_770, 65_535, 65_536, 65_537] {
            if d + 3 < n {
                v.push(d);
                v.push(c.r.range(d, n - 1));
            }
        }
        v
    };
    if n == 0 {
        places = vec![];
    }
    for pos in places {
        let mut hidden: Vec<(usize, u16)> = vec![];
        if pos > 0 && c.r.chance(1, 2) {
            for _ in 0..c.r.range(1, 12) {
                let near = c.r.chance(1, 2);
                let st = if near { pos - c.r.log(pos) } else { c.r.below(pos) };
                hidden.push((st, gen::pick_len(&mut c.r, 4)));
            }
            // ranges right around real matches
            if n >= pos + 3 {
                if let Some(v) = idx.get(&[all[pos], all[pos + 1], all[pos + 2]]) {
                    for _ in 0..3 {
                        let m = *c.r.pick(v);
                        let l = c.r.range(3, 10);
                        match c.r.below(4) {
                            0 => hidden.push((m, l as u16)),
                            1 if m >= l => hidden.push((m - l, l as u16)),
                            2 if m >= l - 1 => hidden.push((m + 1 - l, l as u16)),
                            _ if m > 0 => hidden.push((m - 1, l as u16)),
                            _ => {}
                        }
                    }
                }
            }
        }
        let is_hidden = |p: usize| hidden.iter().any(|(s, l)| p > *s && p < *s + usize::from(*l));
        let got: Vec<(usize, usize)> = sut("finding matches", || {
            refs.at(pos, &hidden)
                .map(|it| it.map(|r| (usize::from(r.dist), usize::from(r.run()))).collect())
                .unwrap_or_default()
        })?;
        if got.len() < 300 && c.r.chance(1, 8) {
            let of = |r: librezip::Ref| (usize::from(r.dist), usize::from(r.run()));
            let found = |p: usize| refs.at(p, &hidden).into_iter().flatten().map(of);
            if !got.is_empty() {
                iterates(&mut c.r, &got, || refs.at(pos, &hidden).expect("matches as before"), of)?;
            }
            // another search while this one is going on
            let other = c.r.below(n);
            let k = c.r.below(got.len() + 1);
            let (both, alone) = sut("finding matches", || {
                let mut it = found(pos);
                let mut both: Vec<_> = it.by_ref().take(k).collect();
                let mut second = found(other);
                let mut there: Vec<_> = second.by_ref().take(k).collect();
                both.extend(it);
                there.extend(second);
                (both, there == found(other).collect::<Vec<_>>())
            })?;
            want!(both == got && alone, "two searches at once, at {} and {}, disturb each other", pos, other);
            c.hit("searches at once");
        }
        c.eval();
        let say = || format!("position {} of {} (context {}), limit {}, {} hidden ranges", pos, n, x.pre.len(), limit, hidden.len());
        if n - pos < 3 {
            want!(got.is_empty(), "matches offered with {} bytes left: {}", n - pos, say());
            c.hit("fewer than three bytes left");
            continue;
        }
        want!(got.len() <= usize::from(limit), "{} matches offered: {}", got.len(), say());
        let mut prev = 0;
        for (d, l) in &got {
            want!(*d >= 1 && *d <= pos && *d <= WINDOW, "distance {} offered: {}", d, say());
            want!(*d > prev, "distance {} after {}: {}", d, prev, say());
            prev = *d;
            let m = gen::match_len(&all, pos, *d);
            want!(*l == m && m >= 3, "run of {} at distance {}, really {}: {}", l, d, m, say());
            want!(!is_hidden(pos - d), "match at hidden place {} offered: {}", pos - d, say());
            if *l == 258 {
                c.hit("runs of 258");
            }
            if *l > *d {
                c.hit("runs overlapping their source");
            }
            if *l == n - pos {
                c.hit("runs to the end of the data");
            }
            if pos - d < x.pre.len() && pos - d + l > x.pre.len() {
                c.hit("sources across the end of the context");
            }
        }
        c.hits("matches judged", got.len() as u64);
        // every one, nearest first; the first byte may or may not count
        let key = [all[pos], all[pos + 1], all[pos + 2]];
        let full: Vec<usize> = idx[&key]
            .iter()
            .rev()
            .filter(|p| **p < pos && **p > 0 && pos - **p <= WINDOW && !is_hidden(**p))
            .map(|p| pos - p)
            .collect();
        let offered: Vec<usize> = got.iter().map(|g| g.0).filter(|d| *d != pos).collect();
        if limit == 65_535 {
            if offered != full {
                let at = offered.iter().zip(&full).position(|(a, b)| a != b).unwrap_or(offered.len().min(full.len()));
                return Err(format!("match at distance {:?} not offered: {}", full.get(at), say()));
            }
            c.hit("complete lists");
            if full.contains(&WINDOW) {
                c.hit("matches at the full distance");
            }
            if idx[&key].iter().any(|p| *p < pos && pos - *p > WINDOW) {
                c.hit("matches too far away");
            }
            if idx[&key].iter().any(|p| *p < pos && *p > 0 && is_hidden(*p)) {
                c.hit("matches hidden");
            }
        } else {
            want!(
                offered.len() <= full.len() && offered[..] == full[..offered.len()],
                "not the nearest matches: {}",
                say()
            );
            c.hit("limited lists");
        }
    }
    c.sample(|| format!("{} bytes (context {}), limit {}", n, x.pre.len(), limit));
    Ok(())
}

// ---- C23 ----

// the tenth is the spicy predictor
const SPICY: usize = 10;
const MATCHES: [usize; SPICY] = [4, 8, 32, 16, 32, 128, 256, 1024, 4096, 4096];
const GOOD: [usize; SPICY] = [8, 16, 32, 16, 32, 128, 128, 258, 258, 258];
const INSERT: [usize; 3] = [4, 5, 6];

fn hash3(b: &[u8]) -> u16 {
    ((u32::from(b[0]) << 10 ^ u32::from(b[1]) << 5 ^ u32::from(b[2])) & 0x7fff) as u16
}

/// The rules of one level, written down independently
pub struct Rules<'a> {
    level: usize,
    all: &'a [u8],
    chain: Vec<Vec<u32>>,
    hidden: Vec<bool>,
}

/// Leave one rule out, to learn whether it decides
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Less {
    Nothing,
    MatchLimit,
    PosLimit,
    Good,
    FarThree,
    Hidden,
    Nearest,
    FirstByte,
    Window,
    Hash,
}

const LESS: [Less; 9] = [
    Less::MatchLimit,
    Less::PosLimit,
    Less::Good,
    Less::FarThree,
    Less::Hidden,
    Less::Nearest,
    Less::FirstByte,
    Less::Window,
    Less::Hash,
];

impl<'a> Rules<'a> {
    pub fn new(level: usize, all: &'a [u8]) -> Rules<'a> {
        let mut chain = vec![vec![]; 32_768];
        for p in 0..all.len().saturating_sub(2) {
            chain[usize::from(hash3(&all[p..]))].push(p as u32);
        }
        Rules {
            level,
            all,
            chain,
            hidden: vec![false; all.len()],
        }
    }

    pub fn feed(&mut self, pos: usize, t: &Tok) {
        if let Tok::Mat { len, .. } = *t {
            let l = usize::from(len);
            if self.level <= 3 && l > INSERT[self.level - 1] {
                for h in &mut self.hidden[pos + 1..pos + l] {
                    *h = true;
                }
            }
        }
    }

    pub fn predict(&self, pos: usize, less: Less) -> Tok {
        let lit = Tok::Lit(self.all[pos]);
        if pos + 3 > self.all.len() {
            return lit;
        }
        let k = self.level - 1;
        let cur = &self.all[pos..pos + 3];
        let chain = &self.chain[usize::from(hash3(cur))];
        let upto = chain.partition_point(|p| (*p as usize) < pos);
        let mut positions = 0;
        let mut matches = 0;
        let mut best: Option<(usize, usize)> = None;
        for p in chain[..upto].iter().rev() {
            let p = *p as usize;
            if p == 0 && less != Less::FirstByte {
                break;
            }
            if self.hidden[p] && less != Less::Hidden {
                continue;
            }
            let same = self.all[p..p + 3] == *cur;
            if less == Less::Hash && !same {
                continue;
            }
            if k < 3 && positions == INSERT[k] && less != Less::PosLimit {
                break;
            }
            positions += 1;
            if pos - p > WINDOW && less != Less::Window {
                break;
            }
            if pos - p > WINDOW + 200 {
                break;
            }
            if !same {
                continue;
            }
            if matches == MATCHES[k] && less != Less::MatchLimit {
                break;
            }
            matches += 1;
            let l = gen::match_len(self.all, pos, pos - p);
            let better = match best {
                None => true,
                Some((b, _)) if less == Less::Nearest => l >= b,
                Some((b, _)) => l > b,
            };
            if better {
                best = Some((l, pos - p));
                if l >= GOOD[k] && less != Less::Good {
                    break;
                }
            }
        }
        match best {
            None => lit,
            Some((3, d)) if self.level >= 4 && d > 4096 && less != Less::FarThree => lit,
            Some((l, d)) if d <= WINDOW => Tok::mat(l as u16, d as u16),
            Some(_) => Tok::Lit(!self.all[pos]),
        }
    }

    /// All the codes proposed at once
    pub fn codes(&self, pos: usize, less: Less) -> Vec<Tok> {
        let first = self.predict(pos, less);
        if self.level < SPICY || first.size() != 3 {
            return vec![first];
        }
        let lit = |k: usize| Tok::Lit(self.all[pos + k]);
        let second = self.predict(pos + 1, less);
        let third = self.predict(pos + 2, less);
        let second_len = if second.size() > 3 { second.size() } else { 0 };
        if third.size() > 4 && third.size() > second_len {
            vec![lit(0), lit(1), third]
        } else if second_len > 0 {
            vec![lit(0), second]
        } else {
            vec![first]
        }
    }
}

fn c23_case(c: &mut Case, x: &Ctx, level: usize, toks: Vec<Tok>, probe: usize) -> Res {
    let all = x.all();
    attach_ctx(c, x, Some(&toks));
    note_ctx(c, x);
    c.note(format!("level {}", level));
    let mut rules = Rules::new(level, &all);
    let cfg = match level {
        SPICY => Config::spicy(),
        // what there is a name for
        6 if all.len() % 2 == 0 => {
            c.hit("the default level");
            Config::gzip_16_default()
        }
        _ => Config::gzip(level as u8),
    };
    let limit = cfg.wams.insert_only_below_length.unwrap_or(u16::MAX);
    let refs = sut("indexing", || AllRefs::with_sixteen(&x.pre, &x.data, limit))?;
    let tech = Technique::new(cfg, &refs);
    let mut sc = tech.scanner();
    let mut pos = x.pre.len();
    let mut exp = vec![];
    let mut toks_left = &toks[..];
    while !toks_left.is_empty() {
        let want_t = rules.codes(pos, Less::Nothing);
        let g = sut("predicting", || sc.codes())?;
        c.eval();
        want!(
            g == lib_codes(&want_t),
            "level {}: predicts {:?} at {} of {} (context {}), the rules say {:?}",
            level,
            g,
            pos,
            all.len(),
            x.pre.len(),
            lib_codes(&want_t)
        );
        if c.r.below(100) < 15 {
            // the same rules hold wherever else one asks
            let p = match c.r.below(4) {
                0 => c.r.below(all.len()),
                1 => all.len() - 1 - c.r.below(6.min(all.len())),
                2 => (pos + 1 + c.r.below(300)).min(all.len() - 1),
                _ => pos - c.r.below(300).min(pos),
            };
            let best = |t: &Tok| match *t {
                Tok::Lit(_) => None,
                Tok::Mat { .. } => Some(code(t)),
            };
            let want_b = rules.predict(p, Less::Nothing);
            let (byte, b) = sut("best_candidate", || sc.best_candidate(p))?;
            want!(
                byte == all[p] && b.map(Code::Reference) == best(&want_b),
                "level {}: the best at {} (asked at {} of {}, context {}) is {:?}, the rules say {:?}",
                level,
                p,
                pos,
                all.len(),
                x.pre.len(),
                b,
                want_b
            );
            want!(
                sut("byte_at", || tech.byte_at(p) == all[p] && refs.get(p) == all[p])?,
                "another byte at {} of {} (context {})",
                p,
                all.len(),
                x.pre.len()
            );
            want!(
                sc.data_len() == all.len() && sc.pos == pos && sc.more_data(),
                "at {} of {} bytes, more: {}; should be {} of {}",
                sc.pos,
                sc.data_len(),
                sc.more_data(),
                pos,
                all.len()
            );
            c.hit("asked elsewhere");
        }
        if want_t.len() > 1 {
            c.point("codes proposed at once", want_t.len() as u64);
        }
        if c.r.below(100) < probe {
            for (i, l) in LESS.iter().enumerate() {
                if rules.codes(pos, *l) != want_t {
                    c.point("level x rule that decided", (level * 16 + i) as u64);
                    c.hit(&format!("decided by: {:?}", l));
                }
            }
        }
        for w in &want_t {
            let t = match toks_left.split_first() {
                Some((t, rest)) => {
                    toks_left = rest;
                    t
                }
                None => break,
            };
            exp.push(if t == w {
                Trace::Correct
            } else {
                match code(t) {
                    Code::Literal(_) => Trace::ActuallyLiteral,
                    Code::Reference(r) => Trace::Actually(r),
                }
            });
            sut("feedback", || sc.feedback(code(t)))?;
            rules.feed(pos, t);
            pos += t.size();
            if t != w {
                break;
            }
        }
    }
    want!(!sc.more_data(), "more data after the last code");
    // the same through the public recording, and back from the model's metadata
    let codes = lib_codes(&toks);
    let got = if level == SPICY {
        sut("validate", || tr::validate(&codes, &tech))?
    } else {
        sut("try_gzip", || librezip::tracer::try_gzip(level as u8, &x.pre, &x.data, &codes))?
    };
    if got != exp {
        let at = got.iter().zip(&exp).position(|(a, b)| a != b);
        return Err(format!(
            "level {}: recorded {:?} at code {:?}, by the rules it is {:?}",
            level,
            at.map(|i| got[i]),
            at,
            at.map(|i| exp[i])
        ));
    }
    let back = sut("restoring", || tr::restore(&exp, &tech))?;
    want!(back == codes, "metadata made by the rules of level {} restores other codes", level);
    c.hits("recorded traces compared", 1);
    c.seen(&[&x.pre, &x.data, format!("{:?}{}", toks, level).as_bytes()]);
    c.point("levels", level as u64);
    c.sample(|| format!("level {}: {} predictions over {} bytes (context {})", level, toks.len(), x.data.len(), x.pre.len()));
    Ok(())
}

/// what the rules predict, left now and then
fn by_rules(r: &mut Rng, x: &Ctx, level: usize, leave: usize) -> Vec<Tok> {
    let all = x.all();
    let mut rules = Rules::new(level, &all);
    let mut pos = x.pre.len();
    let mut out = vec![];
    while pos < all.len() {
        for mut t in rules.codes(pos, Less::Nothing) {
            let mut left = false;
            if r.below(1000) < leave {
                if let Some(o) = other_code(r, &all, pos, &t) {
                    left = o != t;
                    t = o;
                }
            }
            rules.feed(pos, &t);
            pos += t.size();
            out.push(t);
            if left {
                break;
            }
        }
    }
    out
}

fn c23(c: &mut Case) -> Res {
    let level = (c.idx % SPICY as u64) as usize + 1;
    let s = size_of_case(c);
    let x = ctx(&mut c.r, s);
    let leave = *c.r.pick(&[0usize, 10, 200]);
    let t = if c.r.chance(1, 3) {
        gen::tokenise(&mut c.r, &x.pre, &x.data)
    } else {
        by_rules(&mut c.r, &x, level, leave)
    };
    c23_case(c, &x, level, t, 30)
}

/// deep chains, far matches, collisions
fn c23_deep(c: &mut Case) -> Res {
    let level = (c.idx % SPICY as u64) as usize + 1;
    let r = &mut c.r;
    let x = match c.idx / SPICY as u64 % 4 {
        0 => {
            let n = r.range(200, 1500);
            Ctx { pre: biased(r, WINDOW), data: biased(r, n) }
        }
        1 => {
            let a = biased(r, 36_000);
            let cut = a.len() - r.range(200, 2500);
            Ctx { pre: a[..cut].to_vec(), data: a[cut..].to_vec() }
        }
        2 => {
            // rare three-byte strings, far apart: at, below and beyond the limits
            let mut a = r.bytes(40_000);
            for _ in 0..3000 {
                let gap = *r.pick(&[4095usize, 4096, 4097, 4098, 32_766, 32_767, 32_768, 32_769, 32_770, 5000, 20_000]);
                let p = r.range(gap, a.len() - 300);
                let l = *r.pick(&[3usize, 3, 3, 4, 5, 20]);
                for i in 0..l {
                    a[p + i] = a[p + i - gap];
                }
            }
            let cut = r.range(33_000, 36_000);
            Ctx { pre: a[..cut].to_vec(), data: a[cut..39_000].to_vec() }
        }
        _ => {
            // different strings of the same hash
            let any = r.below(32);
            let low = *r.pick(&[0, 31, 31, 1, any]) as u8;
            let near = (0..8).map(|k| low | k << 5).filter(|_| r.chance(1, 2)).collect::<Vec<u8>>();
            let pair = [low, low | 224];
            let alpha: &[u8] = *r.pick(&[&b"Oo/1Qq"[..], &pair[..], &near[..], &near[..]]);
            let alpha = if alpha.is_empty() { &[255][..] } else { alpha };
            let n = r.range(2000, 9000);
            let a: Vec<u8> = (0..n).map(|_| *r.pick(alpha)).collect();
            let cut = n / 2;
            Ctx { pre: a[..cut].to_vec(), data: a[cut..].to_vec() }
        }
    };
    let leave = *c.r.pick(&[0usize, 30, 300]);
    let t = by_rules(&mut c.r, &x, level, leave);
    c23_case(c, &x, level, t, 25)
}

/// A long history of references, and what they hid asked for again, near and as far
/// back as can be.
fn c23_history(c: &mut Case) -> Res {
    // only the lower levels hide
    let level = if c.idx % 5 == 4 { c.r.range(4, SPICY) } else { (c.idx % 5 % 3) as usize + 1 };
    let r = &mut c.r;
    // some have next to nothing but references just long enough to hide something
    let dense = level <= 3 && r.chance(1, 3);
    let n = r.range(36_000, 75_000);
    let pre = if dense { r.range(20_000, 33_000) } else { r.below(300) };
    let mut all = r.bytes(pre + 10);
    let n = if dense { pre + r.range(36_000, 45_000) } else { n };
    let mut toks: Vec<Tok> = all[pre..].iter().map(|b| Tok::Lit(*b)).collect();
    let mut refs: Vec<(usize, usize)> = vec![];
    let busy = if dense { 6 } else { r.range(1, 6) };
    let most = *r.pick(&[2, 2, 4]);
    while all.len() < n {
        let pos = all.len();
        if r.below(6) >= busy {
            let b = r.u8();
            all.push(b);
            toks.push(Tok::Lit(b));
            continue;
        }
        let from = match r.below(5) {
            0 | 3 if dense && all.len() > pre + 30_000 => {
                // into what has long been hidden
                let at = pos - r.range(26_000, WINDOW);
                let (p, l) = refs[refs.partition_point(|(p, _)| *p < at).min(refs.len() - 1)];
                p + r.below(l)
            }
            0 => pos.saturating_sub(WINDOW - r.below(300)),
            1 => pos.saturating_sub(WINDOW - r.below(20)),
            2 if !refs.is_empty() => {
                let (p, l) = *r.pick(&refs);
                p + r.below(l)
            }
            3 => pos - 1 - r.below(pos.min(200)),
            _ => pos - 1 - r.below(pos.min(WINDOW)),
        };
        let dist = (pos - from).min(WINDOW);
        let len = match r.below(most) {
            _ if dense => level + 4 + usize::from(r.chance(1, 20)),
            0 => r.range(3, 7),
            1 => r.range(3, 20),
            2 => 3,
            _ => *r.pick(&[3usize, 10, 30, 100, 258]),
        };
        for _ in 0..len {
            all.push(all[all.len() - dist]);
        }
        if r.chance(1, if dense { 100 } else { 3 }) {
            toks.extend(all[pos..].iter().map(|b| Tok::Lit(*b)));
        } else {
            toks.push(Tok::mat(len as u16, dist as u16));
            refs.push((pos, len));
        }
    }
    if refs.windows(4400).any(|w| w[4399].0 - w[0].0 <= WINDOW) {
        c.hit("more than 4400 references in a window");
    }
    if refs.len() > 2000 {
        c.hit("more than 2000 references in the history");
    }
    let x = Ctx { data: all.split_off(pre), pre: all };
    c23_case(c, &x, level, toks, 1)
}

/// What `spicy` weighs against each other, of any three lengths: the longest matches
/// here, one on and two on.
fn c23_three(c: &mut Case) -> Res {
    let r = &mut c.r;
    let level = if r.chance(7, 8) { SPICY } else { r.range(4, 9) };
    let mut all = vec![];
    let mut data = vec![];
    for _ in 0..r.range(1, 12) {
        let what = r.bytes(263);
        let one = r.range(3, 260);
        let one = *r.pick(&[one, 3, 4, 5, 256, 257, 258, 259]);
        let two = match r.below(4) {
            0 => r.range(3, 260),
            1 => *r.pick(&[3, 4, 5, 6, 256, 257, 258, 259]),
            _ => (one + r.below(4)).saturating_sub(1).max(3),
        };
        let mut from = vec![(2, two), (1, one), (0, 3)];
        if r.chance(1, 4) {
            // all too near, or one of them missing
            let k = r.below(3);
            from.swap(k, 0);
            if r.chance(1, 2) {
                from.pop();
            }
        }
        for (at, n) in from {
            if at == 0 && r.chance(1, 4) {
                // as far as a three may be, or farther
                all.extend(r.bytes(16));
            }
            all.push(r.u8());
            let end = (at + n).min(what.len());
            all.extend(&what[at..end]);
            if end < what.len() {
                all.push(what[end] ^ 0x80);
            }
            let k = r.log(60);
            all.extend(r.bytes(k));
        }
        data.extend(&what);
        data.push(r.u8());
    }
    let x = Ctx { pre: all, data };
    let leave = *c.r.pick(&[0usize, 0, 30]);
    let t = by_rules(&mut c.r, &x, level, leave);
    c23_case(c, &x, level, t, 2)
}

/// Data of more than a megabyte.
fn far(r: &mut Rng) -> (Ctx, Vec<Tok>) {
    let period = *r.pick(&[WINDOW, WINDOW - 1, 30_000, 20_000]);
    let n = (1 << 20) + r.range(30_000, 400_000);
    let mut all = r.bytes(period);
    let mut toks = vec![];
    while all.len() < period + n {
        if r.chance(1, 4) {
            // something new, or what a reference could have brought
            let b = if r.chance(1, 2) { r.u8() } else { all[all.len() - period] };
            all.push(b);
            toks.push(Tok::Lit(b));
            continue;
        }
        let len = if r.chance(1, 3) { r.range(3, 258) } else { 258 };
        for _ in 0..len {
            all.push(all[all.len() - period]);
        }
        toks.push(Tok::mat(len as u16, period as u16));
    }
    let data = all.split_off(period);
    (Ctx { pre: all, data }, toks)
}

fn c23_far(c: &mut Case) -> Res {
    let level = (c.idx % SPICY as u64) as usize + 1;
    let (x, toks) = far(&mut c.r);
    c.hit("data of more than a megabyte");
    c23_case(c, &x, level, toks, 0)
}

fn c07_far(c: &mut Case) -> Res {
    let (x, toks) = far(&mut c.r);
    c.hit("data of more than a megabyte");
    c07_case(c, &x, &toks)
}

fn c21_far(c: &mut Case) -> Res {
    let (x, mut toks) = far(&mut c.r);
    c.hit("blocks of more than a megabyte");
    let mut blks: Vec<Blk> = x.pre.chunks(20_000).map(|d| Blk::Stored(d.to_vec())).collect();
    if c.r.chance(1, 3) {
        // the same in two blocks
        let k = c.r.below(toks.len());
        let rest = toks.split_off(k);
        let h = gen::gen_hdr(&mut c.r, &rest);
        blks.push(Blk::Fixed(toks));
        blks.push(Blk::Dyn(h, rest));
    } else {
        blks.push(Blk::Fixed(toks));
    }
    let e = encode(&blks);
    c21_file(c, Valid { bytes: e.bits.bytes, blks, hdrs: e.hdrs })
}

// ---- C08, C09 ----

/// Independent reader of the storage format: entries, whether the input ends
/// between records, and the sizes of the runs of correct guesses.
fn read_meta(b: &[u8]) -> (Vec<Trace>, bool, Vec<usize>) {
    let mut out = vec![];
    let mut runs = vec![];
    let mut p = 0;
    loop {
        if p == b.len() {
            return (out, true, runs);
        }
        if p + 2 > b.len() {
            return (out, false, runs);
        }
        let v = usize::from(b[p]) | usize::from(b[p + 1]) << 8;
        p += 2;
        if v == 0 {
            out.push(Trace::ActuallyLiteral);
        } else if v <= 32_768 {
            if p == b.len() {
                return (out, false, runs);
            }
            out.push(Trace::Actually(make_ref(v as u16, u16::from(b[p]) + 3)));
            p += 1;
        } else {
            let n = v - 32_768;
            runs.push(n);
            out.extend(vec![Trace::Correct; n]);
        }
    }
}

fn corrections(r: &mut Rng) -> Vec<Trace> {
    let mut v = vec![];
    let n = r.log(60);
    for _ in 0..n {
        match r.below(4) {
            0 => v.push(Trace::ActuallyLiteral),
            1 | 2 => v.push(Trace::Actually(make_ref(gen::pick_dist(r, 6, WINDOW), gen::pick_len(r, 4)))),
            _ => {
                let k = match r.below(8) {
                    0 => *r.pick(&[32_766usize, 32_767, 32_768, 32_769]),
                    1 => *r.pick(&[65_533usize, 65_534, 65_535, 65_536, 65_537]),
                    2 => *r.pick(&[98_301usize, 98_302, 131_068]),
                    3 => r.log(3000),
                    _ => r.range(1, 3),
                };
                if v.len() + k < 300_000 {
                    v.extend(vec![Trace::Correct; k]);
                }
            }
        }
    }
    v
}

fn dump_trace(c: &mut Case, t: &[Trace]) {
    let mut s = String::new();
    let mut i = 0;
    while i < t.len() {
        let n = t[i..].iter().take_while(|x| **x == t[i]).count();
        s.push_str(&format!("{} x {:?}\n", n, t[i]));
        i += n;
    }
    c.attach("corrections", s.as_bytes());
}

fn c08_case(c: &mut Case, t: &[Trace]) -> Res {
    dump_trace(c, t);
    c.eval();
    let b = sut("writing metadata", || serialise_trace::write(t))?;
    c.attach("metadata", &b);
    c.seen(&[&b]);
    let (mine, whole, runs) = read_meta(&b);
    want!(whole, "metadata written ends inside a record");
    want!(mine == t, "metadata written stands for {} corrections, {} were given, or differs in them", mine.len(), t.len());
    // as few records as possible
    let mut need = 0;
    let mut i = 0;
    while i < t.len() {
        let n = t[i..].iter().take_while(|x| **x == Trace::Correct).count();
        need += n.div_ceil(32_767);
        i += n.max(1);
    }
    want!(runs.len() == need, "{} records of correct guesses, {} suffice", runs.len(), need);
    if runs.iter().any(|n| *n == 32_767) {
        c.hit("full records of correct guesses");
    }
    let back = sut("reading metadata", || serialise_trace::read(&b[..]).map_err(|e| format!("{:#}", e)))?;
    let back = back.map_err(|e| format!("metadata written cannot be read: {}", e))?;
    want!(back == t, "{} corrections read back, {} written, or they differ", back.len(), t.len());
    let v = sut("verify", || serialise_trace::verify(t))?;
    want!(v == b, "verify and write differ");
    for x in t {
        if let Trace::Actually(r) = x {
            c.point("runs stored", r.run().into());
            if r.dist >= 32_767 {
                c.hit("distances of 32767 or more stored");
            }
        }
    }
    c.hits("corrections stored", t.len() as u64);
    Ok(())
}

fn c08(c: &mut Case) -> Res {
    let t = corrections(&mut c.r);
    c08_case(c, &t)?;
    c.sample(|| format!("{} corrections", t.len()));
    Ok(())
}

fn c08_runs(c: &mut Case) -> Res {
    // runs of every small size and around the multiples of a record
    let k = c.idx as usize;
    let n = if k < 40 {
        k
    } else {
        let m = (k - 40) / 9 + 1;
        32_767 * m + (k - 40) % 9 - 4
    };
    let mut t = vec![Trace::Correct; n];
    c.point("run lengths", n as u64);
    c08_case(c, &t)?;
    let b = serialise_trace::write(&t);
    want!(b.len() == 2 * n.div_ceil(32_767), "{} correct guesses take {} bytes", n, b.len());
    t.push(Trace::ActuallyLiteral);
    t.push(Trace::Correct);
    t.insert(0, Trace::Actually(make_ref(32_768, 258)));
    c08_case(c, &t)
}

fn c08_refs(c: &mut Case) -> Res {
    // every distance, every run
    let from = c.idx as usize * 1024 + 1;
    let mut t = vec![];
    for d in from..from + 1024 {
        let run = 3 + ((d + c.idx as usize * 7) % 256) as u16;
        t.push(Trace::Actually(make_ref(d as u16, run)));
        c.point("distances stored", d as u64);
    }
    c08_case(c, &t)
}

fn c09_bytes(c: &mut Case, b: &[u8]) -> Res {
    c.eval();
    c.attach("metadata", b);
    let (exp, whole, _) = read_meta(b);
    for k in 0..2 {
        let plan = if k == 0 { IoPlan::plain() } else { IoPlan::random(&mut c.r) };
        let mut rd = MonReader::with(b, plan, c.idx);
        let got = sut("reading metadata", || serialise_trace::read(&mut rd).map_err(|e| format!("{:#}", e)))?;
        match got {
            Ok(t) => {
                want!(whole, "metadata of {} bytes ends inside a record, but {} corrections were returned under {:?}", b.len(), t.len(), plan);
                want!(t == exp, "{} corrections read, {} stored, or they differ, under {:?}", t.len(), exp.len(), plan);
                want!(rd.pos == b.len(), "{} bytes of {} looked at", rd.pos, b.len());
                c.hit("whole");
            }
            Err(e) => {
                want!(!whole, "whole metadata refused under {:?}: {}", plan, e);
                c.hit("cut inside a record");
            }
        }
        c.hits("interrupted reads", rd.log.interrupted as u64);
        c.hits("short reads", rd.log.short as u64);
    }
    Ok(())
}

fn short_corrections(r: &mut Rng) -> Vec<Trace> {
    loop {
        let mut t = corrections(r);
        t.truncate(2000);
        let b = serialise_trace::write(&t);
        if b.len() <= 150 {
            return t;
        }
    }
}

fn c09_cut(c: &mut Case) -> Res {
    let t = short_corrections(&mut c.r);
    let b = sut("writing metadata", || serialise_trace::write(&t))?;
    c.seen(&[&b]);
    for k in 0..=b.len() {
        c09_bytes(c, &b[..k])?;
    }
    c.hits("cuts", b.len() as u64 + 1);
    c.sample(|| format!("{} corrections in {} bytes, cut everywhere", t.len(), b.len()));
    Ok(())
}

fn c09_any(c: &mut Case) -> Res {
    let n = c.r.log(40);
    let mut b = c.r.bytes(n);
    for x in b.iter_mut().skip(1).step_by(2) {
        // fewer long runs
        if *x > 0x80 && c.r.chance(3, 4) {
            *x = 0x80;
        }
        if c.r.chance(1, 5) {
            *x = 0;
        }
    }
    c.seen(&[&b]);
    c09_bytes(c, &b)
}

fn c09_fault(c: &mut Case) -> Res {
    let t = short_corrections(&mut c.r);
    let b = sut("writing metadata", || serialise_trace::write(&t))?;
    c.attach("metadata", &b);
    c.seen(&[&b]);
    for at in 0..=b.len() {
        let plan = IoPlan::fault(at, &mut c.r);
        c.eval();
        let mut rd = MonReader::with(&b, plan, c.idx);
        let got = sut("reading metadata", || serialise_trace::read(&mut rd).map_err(|e| format!("{:#}", e)))?;
        want!(rd.log.faults > 0, "stopped reading before {:?}", plan);
        want!(got.is_err(), "read in spite of {:?}", plan);
        c.hit("faults reported");
    }
    Ok(())
}

// ---- C21 ----

fn c21(c: &mut Case, v: Valid) -> Res {
    let payload = expand_blks(&v.blks);
    // the searches are quadratic in repetitive data
    let d = dense(&payload);
    if d > 500 && payload.len() > 20_000 && (payload.len() > 70_000 || !c.r.chance(1, 4)) {
        return Ok(());
    }
    c21_file(c, v)
}

fn c21_file(c: &mut Case, v: Valid) -> Res {
    let flags = c.r.below(32) as u8;
    let mut file = gen::gz_header(&mut c.r, flags, false);
    let hl = file.len();
    let payload = expand_blks(&v.blks);
    file.extend(&v.bytes);
    file.extend(gen::crc32(&payload).to_le_bytes());
    file.extend((payload.len() as u32).to_le_bytes());
    if c.r.chance(1, 5) {
        file.extend(c.r.bytes(9));
    }
    let mut level = (c.idx % 9) as u8 + 1;
    // the searches are quadratic in repetitive data
    let d = dense(&payload);
    if d > 500 && payload.len() > 20_000 {
        level = level % 3 + 4;
    }
    c.attach("file", &file);
    c.note(format!("level {}", level));
    c.eval();
    c.seen(&[&file, &[level]]);

    // split
    struct Part {
        /// the block without its contents
        frame: Block,
        len: usize,
        meta: Vec<u8>,
    }
    let mut parts = vec![];
    let mut rd = MonReader::new(&file);
    let header = sut("reading the header", || librezip::gzip::discard_header(&mut rd).map_err(|e| format!("{:#}", e)))?
        .map_err(|e| format!("header refused: {}", e))?;
    want!(header.len() == hl, "header of {} bytes, should be {}", header.len(), hl);
    let mut text = vec![];
    {
        let mut it = librezip::parse_deflate(&mut rd);
        let mut dict = CircularBuffer::new();
        while let Some(b) = sut("parsing", || it.next())? {
            let b = b.map_err(|e| format!("stream refused: {:#}", e))?;
            let pre = dict.vec();
            let mut out = vec![];
            sut("decoding", || librezip::decompressed_block(&mut out, &mut dict, &b))?.map_err(|e| format!("decoding: {:#}", e))?;
            let (frame, codes) = match &b {
                Block::Uncompressed(_) => (Block::Uncompressed(vec![]), None),
                Block::FixedHuffman(k) => (Block::FixedHuffman(vec![]), Some(k)),
                Block::DynamicHuffman { trees, codes } => (
                    Block::DynamicHuffman {
                        trees: trees.clone(),
                        codes: vec![],
                    },
                    Some(codes),
                ),
            };
            let meta = match codes {
                Some(k) => {
                    let t = sut("try_gzip", || librezip::tracer::try_gzip(level, &pre, &out, k))?;
                    c.hits("corrections", t.iter().filter(|t| **t != Trace::Correct).count() as u64);
                    sut("writing metadata", || serialise_trace::write(&t))?
                }
                None => vec![],
            };
            c.hits("metadata bytes", meta.len() as u64);
            parts.push(Part { frame, len: out.len(), meta });
            text.extend(&out);
        }
    }
    want!(text == payload, "payload differs");
    let trailer = file[rd.pos..].to_vec();

    // rebuild
    let mut out = header;
    let mut w = BitWriter::new(vec![]);
    let cfg = Config::gzip(level);
    let limit = cfg.wams.insert_only_below_length.unwrap_or(u16::MAX);
    let mut at = 0;
    for (i, p) in parts.iter().enumerate() {
        let data = &text[at..at + p.len];
        let pre = &text[at.saturating_sub(WINDOW)..at];
        let b = if matches!(p.frame, Block::Uncompressed(_)) {
            Block::Uncompressed(data.to_vec())
        } else {
            let t = sut("reading metadata", || serialise_trace::read(io::Cursor::new(&p.meta)))?.map_err(|e| format!("metadata refused: {:#}", e))?;
            let refs = sut("indexing", || AllRefs::with_sixteen(pre, data, limit))?;
            let tech = Technique::new(cfg, &refs);
            let codes = sut("restoring", || tr::restore(&t, &tech))?;
            match &p.frame {
                Block::DynamicHuffman { trees, .. } => Block::DynamicHuffman {
                    trees: trees.clone(),
                    codes,
                },
                _ => Block::FixedHuffman(codes),
            }
        };
        sut("re-serialising", || -> Result<(), String> {
            w.write_bit(i + 1 == parts.len()).map_err(|e| e.to_string())?;
            librezip::compressed_block(&mut w, &b).map_err(|e| e.to_string())
        })?
        .map_err(|e| format!("re-serialising block {}: {}", i, e))?;
        at += p.len;
    }
    sut("aligning", || w.align().map_err(|e| e.to_string()))?.map_err(|e| e.to_string())?;
    out.extend(sut("finishing", || w.into_inner())?);
    out.extend(&trailer);
    if out != file {
        let d = out.iter().zip(&file).position(|(a, b)| a != b);
        return Err(format!(
            "rebuilt file of {} bytes at level {}, the original has {}, first difference at {:?}",
            out.len(),
            level,
            file.len(),
            d
        ));
    }
    c.hit("files rebuilt");
    if parts.len() > 1 {
        c.hit("files of several blocks rebuilt");
    }
    if text.len() > WINDOW {
        c.hit("files longer than the window rebuilt");
    }
    c.hits("blocks", parts.len() as u64);
    c.point("levels", level.into());
    c.sample(|| format!("{} bytes, {} blocks, payload {}, level {}", file.len(), parts.len(), text.len(), level));
    Ok(())
}

/// several blocks made from one text
fn v_text(c: &mut Case) -> Valid {
    let r = &mut c.r;
    let n = *r.pick(&[200usize, 2000, 9000, 45_000]);
    let text = gen::payload(r, n);
    let mut cuts: Vec<usize> = (0..r.below(5)).map(|_| r.below(text.len() + 1)).collect();
    cuts.push(text.len());
    cuts.sort();
    let mut at = 0;
    let mut blks = vec![];
    for k in cuts {
        let part = &text[at..k];
        let pre = &text[at.saturating_sub(WINDOW)..at];
        match r.below(5) {
            0 => {
                for d in part.chunks(65_535) {
                    blks.push(Blk::Stored(d.to_vec()));
                }
            }
            1 => blks.push(Blk::Fixed(gen::tokenise(r, pre, part))),
            _ => {
                let t = gen::tokenise(r, pre, part);
                blks.push(Blk::Dyn(gen::gen_hdr(r, &t), t));
            }
        }
        at = k;
    }
    if blks.is_empty() {
        blks.push(Blk::Fixed(vec![]));
    }
    let e = encode(&blks);
    Valid {
        bytes: e.bits.bytes,
        blks,
        hdrs: e.hdrs,
    }
}

/// blocks that end exactly where the window is full, once or again
fn v_wrap(c: &mut Case) -> Valid {
    let r = &mut c.r;
    let to = WINDOW * r.range(1, 2) + *r.pick(&[0usize, 0, 0, 1, WINDOW - 1]);
    let n = to + r.range(50, 3000);
    let mut text = match r.below(3) {
        0 => gen::long_data(r, n),
        _ => {
            // often a zero, never dense
            let mut v = r.bytes(n);
            for _ in 0..n / 6 {
                let p = r.below(n);
                v[p] = 0;
            }
            v
        }
    };
    if r.chance(2, 3) {
        // what starts the window, for an empty look
        let p = to - WINDOW;
        text[p] = 0;
        if r.chance(1, 2) {
            text[0] = 0;
        }
    }
    // something to refer back to
    for _ in 0..r.range(5, 40) {
        let p = r.range(to, n - 20);
        let q = p - r.range(20, WINDOW - 20);
        let l = r.range(3, 20);
        for i in 0..l {
            text[p + i] = text[q + i];
        }
    }
    // right at the start of the block, from the very end of the reach
    for _ in 0..r.below(3) {
        let p = to + r.below(4);
        let d = WINDOW - r.below(3);
        for i in 0..r.range(4, 12) {
            text[p + i] = text[p + i - d];
        }
    }
    let mut blks = vec![];
    let first = r.below(to);
    let mut at = 0;
    for k in [first, to, n] {
        let part = &text[at..k];
        let pre = &text[at.saturating_sub(WINDOW)..at];
        let stored = k != n && r.chance(2, 3);
        if stored {
            for d in part.chunks(65_535) {
                blks.push(Blk::Stored(d.to_vec()));
            }
        } else {
            let t = gen::tokenise(r, pre, part);
            blks.push(if r.chance(1, 2) { Blk::Fixed(t) } else { Blk::Dyn(gen::gen_hdr(r, &t), t) });
        }
        at = k;
    }
    if to % WINDOW == 0 {
        c.hit("blocks ending with the window exactly full");
    }
    let e = encode(&blks);
    Valid {
        bytes: e.bits.bytes,
        blks,
        hdrs: e.hdrs,
    }
}

/// one block of more codes and bytes than 16 bits count
fn v_long_text(c: &mut Case) -> Valid {
    let x = long_ctx(&mut c.r);
    let mut blks: Vec<Blk> = if x.pre.is_empty() { vec![] } else { vec![Blk::Stored(x.pre.clone())] };
    let t = gen::tokenise(&mut c.r, &x.pre, &x.data);
    blks.push(if c.r.chance(1, 2) { Blk::Fixed(t) } else { Blk::Dyn(gen::gen_hdr(&mut c.r, &t), t) });
    c.hit("blocks of more than 65536 bytes");
    let e = encode(&blks);
    Valid {
        bytes: e.bits.bytes,
        blks,
        hdrs: e.hdrs,
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C07",
            rule: "a context, data, a code sequence for it and a configuration, recorded and restored",
            families: vec![
                fam("tokenised", 2400, 60_000, c07_tokenised),
                fam("random", 1500, 40_000, c07_random),
                fam("guided", 1000, 30_000, c07_guided),
                fam("far", 20, 600, c07_far),
            ],
            required: vec![
                ("data of more than a megabyte", 10),
                ("long data", 20),
                ("configurations", 14),
                ("no context", 100),
                ("some context", 100),
                ("a full window of context", 5),
                ("more than a window of context", 5),
                ("fewer than three bytes of data", 20),
                ("data beyond the reach of references", 50),
                ("corrections: literal", 1000),
                ("corrections: reference", 1000),
                ("corrections: none needed", 1000),
            ],
        },
        Prop {
            id: "C08",
            rule: "a sequence of corrections, written, read by an independent reader and read back",
            families: vec![
                fam("random", 3000, 60_000, c08),
                fam("runs", 100, 400, c08_runs),
                fam("refs", 32, 32, c08_refs),
            ],
            required: vec![
                ("runs stored", 256),
                ("distances stored", 32_768),
                ("full records of correct guesses", 100),
                ("run lengths", 90),
            ],
        },
        Prop {
            id: "C09",
            rule: "stored metadata cut at one byte, damaged, or read through a faulty or choppy reader",
            families: vec![
                fam("cut", 800, 30_000, c09_cut),
                fam("any", 20_000, 1_000_000, c09_any),
                fam("fault", 800, 30_000, c09_fault),
            ],
            required: vec![
                ("whole", 5000),
                ("cut inside a record", 5000),
                ("faults reported", 5000),
                ("interrupted reads", 1000),
            ],
        },
        Prop {
            id: "C10",
            rule: "a position in some data, its offered matches compared with an exhaustive search",
            families: vec![fam("random", 4000, 100_000, c10)],
            required: vec![
                ("long data", 20),
                ("matches judged", 50_000),
                ("complete lists", 10_000),
                ("searches at once", 1000),
                ("limited lists", 5000),
                ("matches at the full distance", 20),
                ("matches too far away", 100),
                ("matches hidden", 1000),
                ("runs of 258", 100),
                ("runs overlapping their source", 100),
                ("runs to the end of the data", 100),
                ("fewer than three bytes left", 500),
                ("sources across the end of the context", 50),
            ],
        },
        Prop {
            id: "C11",
            rule: "a prediction at one point of one encoding history, compared with the data",
            families: vec![fam("random", 3000, 80_000, c11)],
            required: vec![
                ("long data", 20),
                ("configurations", 14),
                ("references predicted", 10_000),
                ("several codes predicted at once", 100),
                ("asked twice", 10_000),
                ("predictions within three bytes of the end", 500),
            ],
        },
        Prop {
            id: "C12",
            rule: "a walk along the predictions, left at known codes, compared with what is recorded",
            families: vec![fam("random", 3000, 80_000, c12)],
            required: vec![
                ("long data", 20),
                ("configurations", 14),
                ("coded just as predicted", 300),
                ("left the predictions", 300),
                ("codes not as predicted", 5000),
                ("more than 32767 codes", 20),
            ],
        },
        Prop {
            id: "C21",
            rule: "a gzip file taken apart and rebuilt from payload and metadata",
            families: vec![
                fam("text", 900, 30_000, |c| {
                    let v = v_text(c);
                    c21(c, v)
                }),
                fam("random", 500, 20_000, |c| {
                    let v = v_random(c);
                    c21(c, v)
                }),
                fam("zlib", 200, 5000, |c| {
                    let v = v_zlib(c);
                    c21(c, v)
                }),
                fam("wrap", 150, 4000, |c| {
                    let v = v_wrap(c);
                    c21(c, v)
                }),
                fam("long", 30, 1000, |c| {
                    let v = v_long_text(c);
                    c21(c, v)
                }),
                fam("far", 9, 300, c21_far),
            ],
            required: vec![
                ("blocks ending with the window exactly full", 30),
                ("blocks of more than 65536 bytes", 10),
                ("blocks of more than a megabyte", 5),
                ("files rebuilt", 500),
                ("files of several blocks rebuilt", 200),
                ("files longer than the window rebuilt", 30),
                ("levels", 9),
                ("corrections", 1000),
            ],
        },
        Prop {
            id: "C23",
            rule: "a prediction at one point of one encoding history, compared with the written rules of its level",
            families: vec![fam("random", 2500, 60_000, c23), fam("deep", 180, 6000, c23_deep), fam("history", 40, 1500, c23_history), fam("three", 400, 20_000, c23_three), fam("far", 10, 400, c23_far)],
            required: vec![
                ("long data", 20),
                ("the default level", 50),
                ("asked elsewhere", 50_000),
                ("levels", SPICY as u64),
                ("codes proposed at once", 2),
                ("recorded traces compared", 500),
                ("level x rule that decided", 60),
                ("decided by: MatchLimit", 20),
                ("decided by: PosLimit", 20),
                ("decided by: Good", 20),
                ("decided by: FarThree", 20),
                ("decided by: Hidden", 20),
                ("decided by: Nearest", 20),
                ("decided by: FirstByte", 20),
                ("decided by: Window", 20),
                ("decided by: Hash", 20),
                ("data of more than a megabyte", 8),
                ("more than 2000 references in the history", 10),
                ("more than 4400 references in a window", 5),
            ],
        },
    ]
}

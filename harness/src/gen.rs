//! Workload generators.

use crate::refl::*;
use crate::rng::Rng;

pub const WINDOW: usize = 32_768;

/// Bytes of one of several families; about `max` long at most.
pub fn payload(r: &mut Rng, max: usize) -> Vec<u8> {
    let n = match r.below(10) {
        0 => r.below(6).min(max),
        1 => max,
        2 | 3 => r.log(max),
        _ => r.range(0, max),
    };
    payload_n(r, n)
}

pub fn payload_n(r: &mut Rng, n: usize) -> Vec<u8> {
    let fam = r.below(11);
    payload_fam(r, n, fam)
}

pub fn payload_fam(r: &mut Rng, n: usize, fam: usize) -> Vec<u8> {
    let mut v: Vec<u8> = Vec::with_capacity(n + 300);
    match fam {
        0 => v = r.bytes(n),
        1 => {
            let k = r.range(1, 8);
            let alpha = r.bytes(k);
            while v.len() < n {
                v.push(*r.pick(&alpha));
            }
        }
        2 => {
            // words
            let k = r.range(3, 60);
            let words: Vec<Vec<u8>> = (0..k)
                .map(|_| {
                    let l = r.range(1, 12);
                    (0..l).map(|_| b'a' + r.below(26) as u8).collect()
                })
                .collect();
            while v.len() < n {
                v.extend(r.pick(&words[..]).clone());
                v.push(*r.pick(b"   ,.\n"));
            }
        }
        3 => {
            // runs
            while v.len() < n {
                let b = r.u8();
                let l = match r.below(4) {
                    0 => r.range(1, 5),
                    1 => r.range(255, 262),
                    _ => r.log(600) + 1,
                };
                v.extend(vec![b; l]);
            }
        }
        4 => {
            // periodic with noise
            let p = r.log(3000) + 1;
            let base = r.bytes(p);
            let noise = r.range(20, 2000);
            while v.len() < n {
                let b = base[v.len() % p];
                v.push(if r.chance(1, noise) { r.u8() } else { b });
            }
        }
        5 => {
            // bytes whose three-byte hashes collide
            let alpha: &[u8] = match r.below(4) {
                0 => b"aA!\x01\x81\xa1",
                1 => b"1QqoO/",
                2 => &[0, 32, 64, 96, 128, 160, 192, 224],
                _ => b"Ooowg_1a",
            };
            while v.len() < n {
                v.push(*r.pick(alpha));
            }
        }
        6 | 7 => {
            // copies from further back, then a break
            let noise = r.range(1, 40);
            let alpha = if r.chance(1, 2) { 256 } else { r.range(2, 40) };
            while v.len() < n {
                if v.len() < 4 || r.chance(1, 3) {
                    for _ in 0..r.range(1, noise) {
                        v.push(r.below(alpha) as u8);
                    }
                } else {
                    let d = match r.below(4) {
                        0 => r.range(1, v.len().min(8)),
                        1 => r.log(v.len() - 1) + 1,
                        2 => v.len().min(WINDOW + 1 - r.below(4).min(WINDOW)),
                        _ => r.range(1, v.len()),
                    }
                    .clamp(1, v.len());
                    let l = match r.below(4) {
                        0 => r.range(256, 262),
                        1 => r.range(3, 6),
                        _ => r.log(400) + 3,
                    };
                    for _ in 0..l {
                        v.push(v[v.len() - d]);
                    }
                }
            }
        }
        8 => v = vec![r.u8(); n],
        9 => {
            // counter-like records
            let mut i = r.below(1000);
            while v.len() < n {
                v.extend(format!("{}\n", i).as_bytes());
                i += 1;
            }
        }
        _ => {
            // concatenation of families
            while v.len() < n {
                let k = r.log(n) + 1;
                let fam = r.below(10);
                v.extend(payload_fam(r, k, fam));
            }
        }
    }
    v.truncate(n);
    v
}

#[derive(Clone, Copy, Debug)]
pub struct TokStyle {
    /// of 256
    pub p_match: usize,
    pub len_mode: usize,
    pub dist_mode: usize,
}

pub fn tok_style(r: &mut Rng) -> TokStyle {
    TokStyle {
        p_match: *r.pick(&[0, 10, 60, 128, 200, 255]),
        len_mode: r.below(5),
        dist_mode: r.below(7),
    }
}

pub fn pick_len(r: &mut Rng, mode: usize) -> u16 {
    match mode {
        0 => r.range(3, 258) as u16,
        1 => r.range(3, 11) as u16,
        2 => {
            let k = r.below(29);
            let top = if k == 28 {
                258
            } else {
                (LEN_BASE[k] + (1 << LEN_EXTRA[k]) - 1).min(257)
            };
            *r.pick(&[LEN_BASE[k], top])
        }
        3 => 258,
        _ => {
            let m = r.below(4);
            pick_len(r, m)
        }
    }
}

pub fn pick_dist(r: &mut Rng, mode: usize, avail: usize) -> u16 {
    let avail = avail.min(WINDOW);
    assert!(avail > 0);
    let d = match mode {
        0 => r.range(1, avail),
        1 => r.log(avail).max(1),
        2 => {
            let k = r.below(30);
            let base = DIST_BASE[k] as usize;
            let top = base + (1 << DIST_EXTRA[k]) - 1;
            let mid = base + r.below(1 << DIST_EXTRA[k]);
            *r.pick(&[base, top, mid])
        }
        3 => avail - r.below(3).min(avail - 1),
        4 => r.range(1, 4),
        5 => *r.pick(&[1, 2, 3, 4, 5, 8, 16, 255, 256, 257, 258, 259, 32767, 32768]),
        _ => {
            let m = r.below(6);
            pick_dist(r, m, avail) as usize
        }
    };
    d.clamp(1, avail) as u16
}

/// Random tokens; `have` bytes of output exist before them.
pub fn tokens(r: &mut Rng, n: usize, have: usize, style: TokStyle, budget: usize) -> Vec<Tok> {
    let mut out = Vec::with_capacity(n);
    let mut len = 0;
    let pal = match r.below(4) {
        0 => r.bytes(1),
        1 => {
            let k = r.range(2, 5);
            r.bytes(k)
        }
        2 => (0..=255).collect(),
        _ => {
            let k = r.range(6, 80);
            r.bytes(k)
        }
    };
    // few distinct lengths and distances make for small, lopsided codes
    let few = r.chance(1, 4);
    let fl: Vec<u16> = (0..2).map(|_| pick_len(r, style.len_mode)).collect();
    let mut fd: Vec<u16> = vec![];
    for _ in 0..n {
        if have + len > 0 && r.below(256) < style.p_match {
            let l;
            let d;
            if few {
                l = *r.pick(&fl);
                if fd.is_empty() {
                    let k = r.range(1, 2);
                    fd = (0..k)
                        .map(|_| pick_dist(r, style.dist_mode, have + len))
                        .collect();
                }
                d = *r.pick(&fd);
            } else {
                l = pick_len(r, style.len_mode);
                d = pick_dist(r, style.dist_mode, have + len);
            }
            out.push(Tok::mat(l, d));
            len += usize::from(l);
        } else {
            out.push(Tok::Lit(*r.pick(&pal)));
            len += 1;
        }
        if len > budget {
            break;
        }
    }
    out
}

/// Depths of the leaves of a random full binary tree.
pub fn tree_depths(r: &mut Rng, k: usize, max: u8) -> Vec<u8> {
    assert!(k >= 2 && k <= 1 << max);
    let mode = r.below(4);
    let mut d: Vec<u8> = vec![1, 1];
    while d.len() < k {
        // keep enough room for the leaves still needed
        let i = match mode {
            0 => r.below(d.len()),
            1 => d.len() - 1,
            2 => (0..d.len()).min_by_key(|i| d[*i]).unwrap(),
            _ => {
                if r.chance(3, 4) {
                    d.len() - 1
                } else {
                    r.below(d.len())
                }
            }
        };
        let i = if d[i] < max {
            i
        } else {
            (0..d.len()).min_by_key(|i| d[*i]).unwrap()
        };
        d[i] += 1;
        let v = d[i];
        d.push(v);
    }
    d
}

/// A complete code over at least the used symbols, length `n`
pub fn gen_lens(r: &mut Rng, used: &[bool], n: usize, max: u8, extra: usize) -> Vec<u8> {
    let mut sel: Vec<usize> = (0..used.len()).filter(|s| used[*s]).collect();
    let mut rest: Vec<usize> = (0..n).filter(|s| *s >= used.len() || !used[*s]).collect();
    r.shuffle(&mut rest);
    let want = extra.max(2usize.saturating_sub(sel.len()));
    sel.extend(rest.into_iter().take(want));
    r.shuffle(&mut sel);
    let d = tree_depths(r, sel.len(), max);
    let mut lens = vec![0; n];
    for (s, l) in sel.into_iter().zip(d) {
        lens[s] = l;
    }
    lens
}

/// Code lengths as symbols of the code length code, with random use of repeats
pub fn rle(r: &mut Rng, lens: &[u8]) -> Vec<(u8, u8)> {
    let style = r.below(4);
    let mut out = vec![];
    let mut i = 0;
    while i < lens.len() {
        let v = lens[i];
        let run = lens[i..].iter().take_while(|x| **x == v).count();
        let use_it = match style {
            0 => false,
            1 => true,
            _ => r.chance(1, 2),
        };
        // zeroes can be repeated like anything else, even right after a run of zeroes
        let again = i > 0 && lens[i - 1] == 0 && r.chance(1, 3);
        if use_it && v == 0 && run >= 3 && !again {
            let n = if style == 1 {
                run.min(138)
            } else {
                r.range(3, run.min(138))
            };
            if n >= 11 {
                out.push((18, (n - 11) as u8));
            } else {
                out.push((17, (n - 3) as u8));
            }
            i += n;
            continue;
        }
        let rep = lens[i..]
            .iter()
            .take_while(|x| i > 0 && **x == lens[i - 1])
            .count();
        if use_it && rep >= 3 {
            let n = if style == 1 { rep.min(6) } else { r.range(3, rep.min(6)) };
            out.push((16, (n - 3) as u8));
            i += n;
            continue;
        }
        out.push((v, 0));
        i += 1;
    }
    out
}

pub fn gen_hdr(r: &mut Rng, toks: &[Tok]) -> DynHdr {
    let mut ul = vec![false; 286];
    let mut ud = vec![false; 30];
    ul[256] = true;
    for t in toks {
        match *t {
            Tok::Lit(b) => ul[usize::from(b)] = true,
            Tok::Mat { len, dist, alt } => {
                ul[len_sym(len, alt).0] = true;
                ud[dist_sym(dist).0] = true;
            }
        }
    }
    hdr_for(r, &ul, &ud)
}

pub fn hdr_for(r: &mut Rng, ul: &[bool], ud: &[bool]) -> DynHdr {
    let nl_min = 257.max(ul.iter().rposition(|x| *x).unwrap() + 1);
    let nl = match r.below(3) {
        0 => nl_min,
        1 => 286,
        _ => r.range(nl_min, 286),
    };
    let extra = match r.below(3) {
        0 => 0,
        1 => r.below(4),
        _ => r.log(286),
    };
    let ll = gen_lens(r, &ul[..nl_min.min(ul.len())], nl, 15, extra);
    let used = ud.iter().filter(|x| **x).count();
    let nd_min = ud.iter().rposition(|x| *x).map_or(1, |p| p + 1);
    let dmax = if r.chance(1, 6) { 32 } else { 30 };
    let nd = match r.below(3) {
        0 => nd_min,
        1 => dmax,
        _ => r.range(nd_min, dmax),
    };
    let dd = match used {
        0 => match r.below(4) {
            0 | 1 => vec![0; 1],
            2 => vec![0; nd],
            _ => {
                let nd = nd.max(2);
                let e = r.range(2, nd);
                gen_lens(r, &[], nd, 15, e)
            }
        },
        1 if r.chance(2, 3) || nd < 2 => {
            let mut d = vec![0; nd];
            d[ud.iter().position(|x| *x).unwrap()] = 1;
            d
        }
        _ => {
            let extra = r.below(nd - used + 1);
            gen_lens(r, &ud[..nd_min], nd, 15, extra)
        }
    };
    finish_hdr(r, ll, dd)
}

/// Code the lengths of both codes somehow.
pub fn finish_hdr(r: &mut Rng, ll: Vec<u8>, dd: Vec<u8>) -> DynHdr {
    let mut all = ll.clone();
    all.extend(&dd);
    let syms = rle(r, &all);
    hdr_with(r, ll, dd, syms)
}

/// Every length for itself, without repeats.
pub fn explicit_hdr(r: &mut Rng, h: DynHdr) -> DynHdr {
    let syms = h.ll.iter().chain(&h.dd).map(|l| (*l, 0)).collect();
    hdr_with(r, h.ll, h.dd, syms)
}

/// The longest description there is: each of the 316 lengths in seven bits.
pub fn longest_hdr(r: &mut Rng) -> DynHdr {
    let mut ll: Vec<u8> = (0..286).map(|i| if i < 226 { 8 } else { 9 }).collect();
    let mut dd: Vec<u8> = (0..30).map(|i| if i < 2 { 4 } else { 5 }).collect();
    r.shuffle(&mut ll);
    r.shuffle(&mut dd);
    let mut cl = [0u8; 19];
    for s in [4, 5, 8, 9] {
        cl[s] = 7;
    }
    let mut others: Vec<usize> = (0..19).filter(|s| cl[*s] == 0).collect();
    r.shuffle(&mut others);
    for k in 1..=5 {
        cl[others[k]] = k as u8;
    }
    let syms = ll.iter().chain(&dd).map(|l| (*l, 0)).collect();
    DynHdr { ll, dd, syms, cl, hclen: 19 }
}

/// A block of more than 2^20, or 2^24, codes.
pub fn huge_blocks(r: &mut Rng, idx: u64) -> Vec<Blk> {
    let (a, b) = (r.u8(), r.u8());
    let b = if a == b { !b } else { b };
    if idx % 8 != 1 {
        let n = (1 << 20) + r.below(200_000);
        let t = (0..n).map(|i| if i > 0 && r.chance(1, 50) { Tok::mat(3, 1) } else { Tok::Lit(if r.chance(1, 9) { b } else { a }) }).collect();
        vec![Blk::Fixed(t), Blk::Stored(r.bytes(10))]
    } else {
        let n = (1 << 24) + r.below(2000);
        let mut t = vec![Tok::Lit(a); n];
        for _ in 0..3000 {
            let k = r.below(n);
            t[k] = Tok::Lit(b);
        }
        let mut ll = vec![0; 257];
        ll[256] = 2;
        ll[usize::from(a)] = 1;
        ll[usize::from(b)] = 2;
        let h = finish_hdr(r, ll, vec![0]);
        vec![Blk::Dyn(h, t), Blk::Fixed(vec![Tok::Lit(a)])]
    }
}

fn hdr_with(r: &mut Rng, ll: Vec<u8>, dd: Vec<u8>, syms: Vec<(u8, u8)>) -> DynHdr {
    let mut uc = vec![false; 19];
    for (s, _) in &syms {
        uc[usize::from(*s)] = true;
    }
    let extra = if r.chance(1, 2) { 0 } else { r.below(8) };
    let c = gen_lens(r, &uc, 19, 7, extra);
    let mut cl = [0u8; 19];
    cl.copy_from_slice(&c);
    let hc_min = CL_ORDER.iter().rposition(|s| cl[*s] > 0).unwrap() + 1;
    let hc_min = hc_min.max(4);
    let hclen = if r.chance(1, 2) {
        hc_min
    } else {
        r.range(hc_min, 19)
    };
    DynHdr {
        ll,
        dd,
        syms,
        cl,
        hclen,
    }
}

/// Random blocks of every kind.
pub fn blocks(r: &mut Rng, budget: usize) -> Vec<Blk> {
    let n = match r.below(4) {
        0 => 1,
        1 => 2,
        _ => r.range(1, 7),
    };
    let mut out: Vec<Blk> = vec![];
    let mut have = 0;
    // sometimes start with enough data for the furthest distances
    if budget > 40_000 && r.chance(1, 3) {
        let k = *r.pick(&[32_766usize, 32_767, 32_768, 32_769, 33_100, 65_535]);
        let d = if r.chance(1, 4) {
            r.bytes(k)
        } else {
            payload_n(r, k)
        };
        have += d.len();
        out.push(Blk::Stored(d));
    }
    for _ in 0..n {
        let room = budget.saturating_sub(have) / n + 1;
        let b = match r.below(6) {
            0 => {
                let k = match r.below(4) {
                    0 => 0,
                    1 => r.below(10),
                    _ => r.log(room.min(65_535)),
                };
                Blk::Stored(payload_n(r, k))
            }
            1 | 2 => {
                let style = tok_style(r);
                let k = r.log(room.min(3000));
                Blk::Fixed(tokens(r, k, have, style, room))
            }
            _ => {
                let style = tok_style(r);
                let k = r.log(room.min(3000));
                let t = tokens(r, k, have, style, room);
                let h = if r.chance(1, 30) { longest_hdr(r) } else { gen_hdr(r, &t) };
                Blk::Dyn(h, t)
            }
        };
        have += b.size();
        out.push(b);
    }
    out
}

/// Blocks beyond what 16 bits count: codes, blocks, bytes.
pub fn long_blocks(r: &mut Rng, kind: usize) -> Vec<Blk> {
    let style = TokStyle { p_match: *r.pick(&[0, 3, 60, 255]), len_mode: 1, dist_mode: r.below(7) };
    match kind {
        0..=2 => {
            let n = match r.below(3) {
                0 => 65_534 + r.below(5),
                1 => 131_070 + r.below(5),
                _ => r.range(65_536, 180_000),
            };
            let pre = r.bytes(40);
            let mut t: Vec<Tok> = vec![];
            let mut have = pre.len();
            while t.len() < n {
                // in pieces, for different alphabets
                let more = tokens(r, (n - t.len()).min(20_000), have, style, usize::MAX);
                have += more.iter().map(|t| t.size()).sum::<usize>();
                t.extend(more);
            }
            let mut out = vec![Blk::Stored(pre)];
            if kind == 0 {
                out.push(Blk::Fixed(t));
            } else {
                out.push(Blk::Dyn(gen_hdr(r, &t), t));
            }
            if r.chance(1, 2) {
                let t = tokens(r, 50, have, style, 500);
                out.push(Blk::Fixed(t));
            }
            out
        }
        3 => {
            // many small blocks
            let n = *r.pick(&[255usize, 256, 257, 300, 1100]);
            let mut out: Vec<Blk> = vec![];
            let mut have = 0;
            while out.len() < n {
                let k = r.below(12);
                let t = tokens(r, k, have, style, 100);
                let b = match r.below(8) {
                    0..=2 => Blk::Stored(r.bytes(k)),
                    3..=6 => Blk::Fixed(t),
                    _ => Blk::Dyn(gen_hdr(r, &t), t),
                };
                have += b.size();
                out.push(b);
            }
            out
        }
        4 => {
            // very many next to nothing
            let n = 65_530 + r.below(3000);
            (0..n).map(|i| if r.chance(1, 20) { Blk::Stored(vec![i as u8; r.below(3)]) } else { Blk::Fixed(vec![]) }).collect()
        }
        5 => {
            // a lot of data from few bits
            let n = r.range(2000, 20_000);
            let mut t = vec![Tok::Lit(r.u8()), Tok::Lit(r.u8())];
            for _ in 0..n {
                t.push(Tok::mat(258, 1 + r.below(2) as u16));
            }
            if r.chance(1, 2) {
                vec![Blk::Fixed(t)]
            } else {
                vec![Blk::Dyn(gen_hdr(r, &t), t)]
            }
        }
        _ => {
            let n = r.range(3, 20);
            (0..n)
                .map(|_| {
                    let k = *r.pick(&[65_535usize, 65_535, 32_768, 65_534]);
                    Blk::Stored(payload_n(r, k))
                })
                .collect()
        }
    }
}

pub const LONG_KINDS: u64 = 7;

/// Data of `n` bytes in which no three-byte string is too frequent.
pub fn long_data(r: &mut Rng, n: usize) -> Vec<u8> {
    loop {
        let fam = *r.pick(&[0usize, 2, 6, 7, 9]);
        let v = payload_fam(r, n, fam);
        if dense(&v) <= 600 {
            return v;
        }
    }
}

/// Occurrences of the most frequent three-byte hash
pub fn dense(all: &[u8]) -> usize {
    let mut n = vec![0u32; 32_768];
    for w in all.windows(3) {
        n[((u32::from(w[0]) << 10 ^ u32::from(w[1]) << 5 ^ u32::from(w[2])) & 0x7fff) as usize] += 1;
    }
    n.into_iter().max().unwrap() as usize
}

/// The same blocks with the literals `a` and `b` exchanged throughout, of exactly the
/// same size (for descriptions without repeats, and both below or both from 144 on).
pub fn twin(blks: &[Blk], a: u8, b: u8) -> Vec<Blk> {
    let p = |x: u8| if x == a { b } else if x == b { a } else { x };
    let toks = |t: &[Tok]| t.iter().map(|t| if let Tok::Lit(x) = *t { Tok::Lit(p(x)) } else { *t }).collect::<Vec<Tok>>();
    blks.iter()
        .map(|k| match k {
            Blk::Stored(d) => Blk::Stored(d.iter().map(|x| p(*x)).collect()),
            Blk::Fixed(t) => Blk::Fixed(toks(t)),
            Blk::Dyn(h, t) => {
                let mut h = h.clone();
                h.ll.swap(usize::from(a), usize::from(b));
                h.syms.swap(usize::from(a), usize::from(b));
                Blk::Dyn(h, toks(t))
            }
        })
        .collect()
}

/// Length of the match at `pos` against `pos - dist`, at most 258
pub fn match_len(all: &[u8], pos: usize, dist: usize) -> usize {
    (0..258.min(all.len() - pos))
        .take_while(|i| all[pos + i] == all[pos - dist + i])
        .count()
}

/// Some encoding of `data` given preceding `ctx`; not necessarily a sensible one.
pub fn tokenise(r: &mut Rng, ctx: &[u8], data: &[u8]) -> Vec<Tok> {
    use std::collections::HashMap;
    let all: Vec<u8> = ctx.iter().chain(data).cloned().collect();
    let mut idx: HashMap<[u8; 3], Vec<usize>> = HashMap::new();
    let p_match = *r.pick(&[20usize, 128, 230, 256]);
    let style = r.below(5);
    let p_cut = *r.pick(&[0usize, 0, 30, 200]);
    let mut out = vec![];
    let mut pos = ctx.len();
    let mut seen = 0;
    while pos < all.len() {
        while seen < pos {
            if seen + 3 <= all.len() {
                idx.entry([all[seen], all[seen + 1], all[seen + 2]])
                    .or_default()
                    .push(seen);
            }
            seen += 1;
        }
        let mut best = None;
        if pos + 3 <= all.len() && r.below(256) < p_match {
            if let Some(c) = idx.get(&[all[pos], all[pos + 1], all[pos + 2]]) {
                let lo = c.partition_point(|p| pos - p > WINDOW);
                let c = &c[lo..];
                if !c.is_empty() {
                    let cand: Vec<usize> = match style {
                        0 => vec![*c.last().unwrap()],
                        1 => vec![c[0]],
                        2 => vec![*r.pick(c)],
                        _ => {
                            let mut v: Vec<usize> = c.iter().rev().take(8).cloned().collect();
                            v.push(c[0]);
                            v
                        }
                    };
                    for p in cand {
                        let l = match_len(&all, pos, pos - p);
                        if best.map_or(true, |(bl, _)| l > bl) {
                            best = Some((l, pos - p));
                        }
                    }
                }
            }
        }
        match best {
            Some((l, d)) => {
                let l = if r.below(256) < p_cut { r.range(3, l) } else { l };
                out.push(Tok::mat(l as u16, d as u16));
                pos += l;
            }
            None => {
                out.push(Tok::Lit(all[pos]));
                pos += 1;
            }
        }
    }
    out
}

/// Damage a byte string.
pub fn mutate(r: &mut Rng, v: &mut Vec<u8>) {
    let k = match r.below(3) {
        0 => 1,
        _ => r.range(1, 6),
    };
    for _ in 0..k {
        if v.is_empty() {
            v.push(r.u8());
            continue;
        }
        // the interesting bits are near the front
        let p = if r.chance(1, 2) {
            r.below(v.len().min(80))
        } else {
            r.below(v.len())
        };
        match r.below(6) {
            0 | 1 | 2 => v[p] ^= 1 << r.below(8),
            3 => v[p] = r.u8(),
            4 => {
                let b = r.u8();
                v.insert(p, b)
            }
            _ => {
                v.remove(p);
            }
        }
    }
}

/// A legal gzip header and a description of its parts.
pub fn gz_header(r: &mut Rng, flags: u8, big: bool) -> Vec<u8> {
    let mut h = vec![0x1f, 0x8b, 8, flags];
    h.extend(r.bytes(6));
    if flags & 4 != 0 {
        let n = if big {
            *r.pick(&[65_535usize, 65_280, 256, 255, 257, 4660])
        } else {
            *r.pick(&[0, 1, 2, 5, 30, 300])
        };
        h.push((n & 255) as u8);
        h.push((n >> 8) as u8);
        if r.chance(1, 2) {
            h.extend(vec![0; n]);
        } else {
            h.extend(r.bytes(n));
        }
    }
    for bit in [8, 16] {
        if flags & bit != 0 {
            let n = if big && r.chance(1, 2) {
                r.range(200, 5000)
            } else {
                *r.pick(&[0, 1, 2, 7, 40])
            };
            for _ in 0..n {
                let b = r.u8();
                h.push(if b == 0 { 1 } else { b });
            }
            h.push(0);
        }
    }
    if flags & 2 != 0 {
        let c = crc32(&h) & 0xffff;
        // the check value is not this code's business; also use wrong ones
        let c = if r.chance(1, 3) { r.u64() as u32 & 0xffff } else { c };
        h.push((c & 255) as u8);
        h.push((c >> 8) as u8);
    }
    h
}

pub fn crc32(d: &[u8]) -> u32 {
    let mut c = !0u32;
    for b in d {
        c ^= u32::from(*b);
        for _ in 0..8 {
            c = if c & 1 == 1 { (c >> 1) ^ 0xedb8_8320 } else { c >> 1 };
        }
    }
    !c
}

//! DEFLATE streams and gzip headers: C01 to C06, C15.

use std::fs;
use std::io::{Read, Write};

use librezip::verif_hooks::BitWriter;
use librezip::CircularBuffer;

use crate::case::*;
use crate::gen;
use crate::gen::WINDOW;
use crate::mon::*;
use crate::refl::*;
use crate::rng::Rng;
use crate::sut::*;
use crate::want;
use crate::zlib;

pub struct Valid {
    pub bytes: Vec<u8>,
    pub blks: Vec<Blk>,
    pub hdrs: Vec<Option<(usize, usize)>>,
}

fn from_blks(blks: Vec<Blk>) -> Valid {
    let e = encode(&blks);
    Valid {
        bytes: e.bits.bytes,
        blks,
        hdrs: e.hdrs,
    }
}

fn from_bytes(bytes: Vec<u8>) -> Valid {
    let d = decode(&bytes);
    assert!(d.bad.is_none() && d.grey.is_none(), "model refuses {:?}", d.bad);
    assert_eq!(bytes.len(), d.used);
    Valid {
        bytes,
        blks: d.blks,
        hdrs: d.hdrs,
    }
}

// ---- sources of valid streams ----

pub fn v_random(c: &mut Case) -> Valid {
    let budget = *c.r.pick(&[30usize, 300, 3000, 3000, 20_000, 80_000]);
    from_blks(gen::blocks(&mut c.r, budget))
}

pub fn v_small(r: &mut Rng) -> Valid {
    let budget = *r.pick(&[10usize, 40, 150, 400]);
    loop {
        let mut b = gen::blocks(r, budget);
        b.truncate(3);
        for b in &mut b {
            if let Blk::Stored(d) = b {
                d.truncate(40);
            }
        }
        // shortened stored blocks may leave references without data
        let mut out = vec![];
        let ok = b.iter().all(|b| match b {
            Blk::Stored(d) => {
                out.extend(d);
                true
            }
            Blk::Fixed(t) | Blk::Dyn(_, t) => expand(&mut out, 0, t),
        });
        if ok {
            return from_blks(b);
        }
    }
}

fn as_block(r: &mut Rng, dynamic: bool, t: Vec<Tok>) -> Blk {
    if dynamic {
        Blk::Dyn(gen::gen_hdr(r, &t), t)
    } else {
        Blk::Fixed(t)
    }
}

/// every length and every distance, in both kinds of block
fn v_sweep(c: &mut Case) -> Valid {
    let r = &mut c.r;
    let dynamic = c.idx % 2 == 1;
    let part = c.idx / 2 % 17;
    let pre: Vec<u8> = if r.chance(1, 2) { r.bytes(WINDOW) } else { gen::payload_n(r, WINDOW) };
    let mut t = vec![];
    if part == 16 {
        for len in 3..=258 {
            t.push(Tok::mat(len, gen::pick_dist(r, 6, WINDOW)));
            if r.chance(1, 2) {
                t.push(Tok::Lit(r.u8()));
            }
        }
        c.point("length x kind swept", c.idx % 2);
    } else {
        let mut d: Vec<usize> = (part as usize * 2048 + 1..=part as usize * 2048 + 2048).collect();
        if r.chance(1, 2) {
            r.shuffle(&mut d);
        }
        for d in d {
            t.push(Tok::mat(gen::pick_len(r, 4), d as u16));
        }
        c.point("distances swept (2048 each) x kind", c.idx % 34);
    }
    let r = &mut c.r;
    let b = as_block(r, dynamic, t);
    from_blks(vec![Blk::Stored(pre), b])
}

/// stored blocks of many sizes at every bit position
fn v_stored(c: &mut Case) -> Valid {
    let r = &mut c.r;
    let off = (c.idx % 8) as usize;
    let sizes = [0usize, 1, 2, 3, 127, 128, 255, 256, 257, 511, 512, 4660, 32767, 32768, 65279, 65280, 65534, 65535];
    let k = (c.idx / 8) as usize;
    let n = if k < sizes.len() { sizes[k] } else { r.log(65_535) };
    // 3 bits of block start, then 8 or 9 bits each and 7 for the end
    let lead: Vec<Tok> = (0..off).map(|_| Tok::Lit(200)).collect();
    let mut b = vec![Blk::Fixed(lead), Blk::Stored(gen::payload_n(r, n))];
    match r.below(3) {
        0 => {}
        1 => b.push(Blk::Stored(r.bytes(3))),
        _ => {
            let t = gen::tokens(r, 40, n, gen::tok_style(&mut Rng::new(1)), 4000);
            b.push(as_block(r, true, t))
        }
    }
    c.point("stored: bit position", (off as u64 * 9 + 3 + 7 + 3) % 8);
    from_blks(b)
}

/// mostly code descriptions
fn v_headers(c: &mut Case) -> Valid {
    let r = &mut c.r;
    let mut b = vec![];
    let n = r.range(1, 6);
    let mut have = 0;
    for _ in 0..n {
        let style = gen::tok_style(r);
        let k = r.below(12);
        let t = gen::tokens(r, k, have, style, 3000);
        if r.chance(1, 12) {
            // one length for all: the shortest description there is
            let d = *r.pick(&[7usize, 8]);
            let mut sel: Vec<usize> = (0..286).filter(|s| *s != 256).collect();
            r.shuffle(&mut sel);
            let mut ll = vec![0u8; 286];
            ll[256] = d as u8;
            for s in &sel[..(1 << d) - 1] {
                ll[*s] = d as u8;
            }
            let h = gen::finish_hdr(r, ll, vec![0; 1]);
            let t: Vec<Tok> = sel[..(1 << d) - 1].iter().filter(|s| **s < 256).map(|s| Tok::Lit(*s as u8)).collect();
            have += t.len();
            b.push(Blk::Dyn(h, t));
            continue;
        }
        have += t.iter().map(|t| t.size()).sum::<usize>();
        if r.chance(1, 15) {
            b.push(Blk::Dyn(gen::longest_hdr(r), t));
            continue;
        }
        b.push(Blk::Dyn(gen::gen_hdr(r, &t), t));
    }
    for b in &b {
        if let Blk::Dyn(h, _) = b {
            for l in h.ll.iter() {
                c.point("literal/length code lengths", u64::from(*l));
            }
            for l in h.dd.iter() {
                c.point("distance code lengths", u64::from(*l));
            }
            for l in h.cl.iter() {
                c.point("code length code lengths", u64::from(*l));
            }
            for (s, x) in &h.syms {
                c.point("code length symbols with extra", u64::from(*s) * 256 + u64::from(*x));
            }
            c.point("HLIT", h.ll.len() as u64);
            c.point("HDIST", h.dd.len() as u64);
            c.point("HCLEN", h.hclen as u64);
            let used = h.dd.iter().filter(|l| **l > 0).count();
            c.point("distance codes in use (0, 1, more)", used.min(2) as u64);
        }
    }
    from_blks(b)
}

/// more codes, blocks or bytes than 16 bits count
pub fn v_long(c: &mut Case) -> Valid {
    let k = c.idx % gen::LONG_KINDS;
    let v = from_blks(gen::long_blocks(&mut c.r, k as usize));
    c.point("kinds of long streams", k);
    if v.blks.iter().any(|b| b.toks().map_or(0, |t| t.len()) > 65_536) {
        c.hit("blocks of more than 65536 codes");
    }
    v
}

/// a single block of a great many codes
fn v_huge(c: &mut Case) -> Valid {
    let v = from_blks(gen::huge_blocks(&mut c.r, c.idx));
    let n = v.blks[0].toks().map_or(0, |t| t.len());
    c.point("blocks of more than 2^20 and 2^24 codes", u64::from(n > 1 << 24));
    v
}

pub fn v_zlib(c: &mut Case) -> Valid {
    let max = *c.r.pick(&[10usize, 300, 5000, 70_000, 150_000]);
    let data = gen::payload(&mut c.r, max);
    from_bytes(zlib::random(&mut c.r, &data))
}

fn data_files() -> Vec<Vec<u8>> {
    let mut names: Vec<_> = fs::read_dir("/repo/lib/tests/data")
        .map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect())
        .unwrap_or_default();
    names.sort();
    names
        .iter()
        .filter_map(|p| fs::read(p).ok())
        .filter(|b| b.len() > 18 && b[0] == 0x1f && b[1] == 0x8b)
        .collect()
}

pub fn v_file(c: &mut Case) -> Option<Valid> {
    let f = data_files();
    let b = f.get(c.idx as usize)?;
    let at = header_len(b)?;
    let d = decode(&b[at..]);
    assert!(d.bad.is_none());
    Some(Valid {
        bytes: b[at..at + d.used].to_vec(),
        blks: d.blks,
        hdrs: d.hdrs,
    })
}

/// where a valid gzip header ends
pub fn header_len(b: &[u8]) -> Option<usize> {
    let f = *b.get(3)?;
    let mut p = 10;
    if f & 4 != 0 {
        p += 2 + (*b.get(p)? as usize | (*b.get(p + 1)? as usize) << 8);
    }
    for bit in [8, 16] {
        if f & bit != 0 {
            while *b.get(p)? != 0 {
                p += 1;
            }
            p += 1;
        }
    }
    if f & 2 != 0 {
        p += 2;
    }
    if p <= b.len() {
        Some(p)
    } else {
        None
    }
}

fn note_kinds(c: &mut Case, v: &Valid) {
    for (i, b) in v.blks.iter().enumerate() {
        let k = match b {
            Blk::Stored(_) => "stored",
            Blk::Fixed(_) => "fixed",
            Blk::Dyn(..) => "dynamic",
        };
        c.hit(&format!("{} blocks", k));
        if i + 1 == v.blks.len() {
            c.hit(&format!("ending in a {} block", k));
        }
        if let Some(t) = b.toks() {
            c.hits("codes", t.len() as u64);
            if t.is_empty() {
                c.hit("blocks without codes");
            }
        }
    }
}

fn tail(r: &mut Rng) -> Vec<u8> {
    match r.below(4) {
        0 => vec![],
        1 => vec![0; r.range(1, 20)],
        2 => vec![255; r.range(1, 20)],
        _ => {
            let n = r.range(1, 40);
            r.bytes(n)
        }
    }
}

// ---- C01 ----

fn reproduce(c: &mut Case, bytes: &[u8]) -> Result<bool, String> {
    c.attach("stream", bytes);
    let (p, pos) = parse_bytes(bytes)?;
    if p.err.is_some() {
        c.hit("refused");
        return Ok(false);
    }
    c.eval();
    c.seen(&[&bytes[..pos]]);
    let out = match write_blocks(&p.blocks, vec![])? {
        Ok(o) => o,
        Err(e) => return Err(format!("parsed without error, but writing the blocks back failed: {}", e)),
    };
    if out != bytes[..pos] {
        let at = out.iter().zip(bytes).position(|(a, b)| a != b);
        return Err(format!(
            "parsed {} bytes without error, but the blocks give {} bytes, first difference at {:?}",
            pos,
            out.len(),
            at
        ));
    }
    c.hit("reproduced");
    c.hits("blocks reproduced", p.blocks.len() as u64);
    Ok(true)
}

fn c01_valid(c: &mut Case, v: Valid) -> Res {
    note_kinds(c, &v);
    let mut b = v.bytes.clone();
    b.extend(tail(&mut c.r));
    if reproduce(c, &b)? {
        c.hit("valid streams reproduced");
    }
    c.sample(|| format!("{} blocks, {} bytes: {}", v.blks.len(), v.bytes.len(), hex_head(&v.bytes)));
    Ok(())
}

fn c01_mutated(c: &mut Case) -> Res {
    let mut v = if c.r.chance(1, 3) { v_zlib(c) } else { v_small(&mut c.r) };
    gen::mutate(&mut c.r, &mut v.bytes);
    reproduce(c, &v.bytes).map(|_| ())
}

/// padding bits set, and 258 spelt with symbol 284: must not be altered silently
fn c01_odd(c: &mut Case) -> Res {
    let r = &mut c.r;
    if c.idx % 2 == 0 {
        let v = v_small(r);
        let mut b = v.bytes;
        // the last byte's padding, or before a stored block
        let n = b.len();
        let k = r.below(8);
        b[n - 1] |= 0x80 >> k.min(3);
        if r.chance(1, 2) {
            b = vec![0, 0, 0, 255, 255];
            b[0] |= (r.below(31) as u8 + 1) << 3;
            b.extend(encode(&[Blk::Fixed(vec![])]).bits.bytes);
            c.hit("padding before a stored block");
        } else {
            c.hit("padding at the end");
        }
        reproduce(c, &b).map(|_| ())
    } else {
        let mut blks = vec![Blk::Stored(r.bytes(300))];
        let mut t = gen::tokens(r, 20, 300, gen::tok_style(&mut Rng::new(c.idx)), 3000);
        let k = r.below(t.len() + 1);
        t.insert(k, Tok::Mat { len: 258, dist: r.range(1, 300) as u16, alt: true });
        let kind = r.chance(1, 2);
        let b = as_block(r, kind, t);
        blks.push(b);
        c.hit("258 as symbol 284");
        let b = encode(&blks).bits.bytes;
        reproduce(c, &b).map(|_| ())
    }
}

/// every stream of up to two bytes, and many three-byte ones
fn short_streams(c: &mut Case, f: fn(&mut Case, &[u8]) -> Res) -> Res {
    let hi = c.idx as u8;
    f(c, &[hi])?;
    for lo in 0..=255 {
        f(c, &[hi, lo])?;
        let b = [hi, lo, c.r.u8(), c.r.u8()];
        f(c, &b[..3])?;
        f(c, &b)?;
    }
    c.point("first bytes of short streams", c.idx);
    Ok(())
}

// ---- C02 ----

fn valid_decodes(c: &mut Case, v: &Valid) -> Res {
    note_kinds(c, v);
    let payload = expand_blks(&v.blks);
    let mut bytes = v.bytes.clone();
    bytes.extend(tail(&mut c.r));
    c.attach("stream", &v.bytes);
    c.eval();
    c.seen(&[&v.bytes]);
    let plan = if c.r.chance(1, 4) { IoPlan::random(&mut c.r) } else { IoPlan::plain() };
    let mut rd = MonReader::with(&bytes, plan, c.idx);
    let p = parse(&mut rd)?;
    if let Some(e) = p.err {
        return Err(format!("valid stream refused after {} of {} blocks: {}", p.blocks.len(), v.blks.len(), e));
    }
    want!(
        p.blocks.len() == v.blks.len(),
        "{} blocks, should be {}",
        p.blocks.len(),
        v.blks.len()
    );
    for (i, (g, w)) in p.blocks.iter().zip(&v.blks).enumerate() {
        same_block(g, w, v.hdrs[i], &v.bytes).map_err(|e| format!("block {}: {}", i, e))?;
    }
    // decode step by step; the window must follow
    let mut out = vec![];
    let mut at = 0;
    let mut w = CircularBuffer::new();
    for (i, (b, m)) in p.blocks.iter().zip(&v.blks).enumerate() {
        let plan = if c.r.chance(1, 4) { IoPlan::random(&mut c.r) } else { IoPlan::plain() };
        let mut mw = MonWriter::with(plan, c.idx);
        let r = sut("decoding", || librezip::decompressed_block(&mut mw, &mut w, b))?;
        if let Err(e) = r {
            return Err(format!("decoding block {} failed: {:#}", i, e));
        }
        at += m.size();
        out.extend(&mw.out);
        want!(
            out.len() <= payload.len() && out == payload[..at],
            "decoding block {} gave wrong bytes",
            i
        );
        want!(
            w.vec() == out[out.len() - out.len().min(WINDOW)..],
            "window is not the last output after block {}",
            i
        );
    }
    want!(out == payload, "payload of {} bytes, should be {}", out.len(), payload.len());
    // the other entry point
    if let Some(k) = p.blocks.iter().position(|b| !matches!(b, librezip::Block::Uncompressed(_))) {
        let codes = match &p.blocks[k] {
            librezip::Block::FixedHuffman(c) => c,
            librezip::Block::DynamicHuffman { codes, .. } => codes,
            _ => unreachable!(),
        };
        let from: usize = v.blks[..k].iter().map(|b| b.size()).sum();
        let mut w = CircularBuffer::new();
        w.extend(&payload[..from]);
        let mut o = vec![];
        let r = sut("decoding codes", || librezip::decompressed_codes(&mut o, &mut w, codes))?;
        want!(r.is_ok(), "decoding the codes of block {} failed", k);
        want!(
            o == payload[from..from + v.blks[k].size()],
            "decoding the codes of block {} gave wrong bytes",
            k
        );
    }
    if v.bytes.len() < 3000 && c.r.chance(1, 4) {
        // blocks that do not come one by one
        let want: Vec<Option<librezip::Block>> = p.blocks.iter().cloned().map(Some).collect();
        iterates(&mut c.r, &want, || librezip::parse_deflate(&v.bytes[..]), |b| b.ok())?;
        c.hit("iterated over in other ways");
    }
    c.hits("payload bytes compared", payload.len() as u64);
    if payload.len() > WINDOW {
        c.hit("payload longer than the window");
    }
    c.hit("valid streams decoded");
    c.sample(|| format!("{} blocks, {} -> {} bytes: {}", v.blks.len(), v.bytes.len(), payload.len(), hex_head(&v.bytes)));

    // second opinion on the model
    #[cfg(not(miri))]
    {
        let plain = v.blks.iter().all(|b| match b {
            Blk::Dyn(h, _) => h.dd.len() <= 30,
            _ => true,
        });
        if plain && c.idx % 4 == 0 {
            let z = zlib::decompress(&bytes, payload.len());
            match z {
                Ok((z, used)) => assert!(z == payload && used == v.bytes.len(), "model disagrees with zlib"),
                Err(e) => panic!("zlib refuses what the model makes: {}", e),
            }
            c.hit("also agreed with zlib");
        }
    }
    Ok(())
}

// ---- C03 ----

/// Err(panic), Ok(true): reported an error somewhere
fn reports_error(bytes: &[u8]) -> Result<bool, String> {
    let (p, _) = parse_bytes(bytes)?;
    if p.err.is_some() {
        return Ok(true);
    }
    Ok(decode_into(&p.blocks, std::io::sink())?.is_err())
}

fn must_fail(c: &mut Case, bytes: &[u8], why: &str) -> Res {
    c.eval();
    c.seen(&[bytes]);
    c.hit(why);
    match reports_error(bytes) {
        Ok(true) if bytes.len() < 2000 && c.r.chance(1, 30) => {
            // an error is not lost either if blocks do not come one by one
            let (p, _) = parse_bytes(bytes)?;
            let mut want: Vec<Option<librezip::Block>> = p.blocks.into_iter().map(Some).collect();
            want.extend(p.err.map(|_| None));
            let same = iterates(&mut c.r, &want, || librezip::parse_deflate(bytes), |b| b.ok());
            if same.is_err() {
                c.attach("stream", bytes);
            }
            c.hit("iterated over in other ways");
            same
        }
        Ok(true) => Ok(()),
        Ok(false) => {
            c.attach("stream", bytes);
            Err(format!("{}: accepted as a complete stream ({} bytes)", why, bytes.len()))
        }
        Err(e) => {
            c.attach("stream", bytes);
            Err(format!("{}: {}", why, e))
        }
    }
}

fn c03_trunc(c: &mut Case) -> Res {
    let v = match c.idx % 8 {
        0 => v_zlib(c),
        1 => v_random(c),
        _ => v_small(&mut c.r),
    };
    let n = v.bytes.len();
    let cuts: Vec<usize> = if n <= 600 {
        (0..n).collect()
    } else {
        let mut k: Vec<usize> = (0..12).map(|_| c.r.below(n)).collect();
        k.extend([n - 1, n - 2, n - 3]);
        // cost is bounded: long streams decode in full for late cuts
        k
    };
    if n <= 600 {
        c.hit("streams cut at every byte");
    }
    for k in cuts {
        must_fail(c, &v.bytes[..k], "truncated")?;
    }
    c.sample(|| format!("{} bytes cut: {}", n, hex_head(&v.bytes)));
    Ok(())
}

fn put_some(bits: &mut Bits, r: &mut Rng, ll: &[u8], dd: &[u8], toks: &[Tok]) {
    let lc = codes(ll);
    let dc = codes(dd);
    let has = |c: &[(u8, u32)], s: usize| c.get(s).map_or(false, |c| c.0 > 0);
    for t in toks {
        match *t {
            Tok::Lit(b) if has(&lc, b.into()) => bits.code(lc[usize::from(b)]),
            Tok::Mat { len, dist, alt } => {
                let (s, n, x) = len_sym(len, alt);
                let (d, m, y) = dist_sym(dist);
                if has(&lc, s) && has(&dc, d) {
                    bits.code(lc[s]);
                    bits.val(n, x.into());
                    bits.code(dc[d]);
                    bits.val(m, y.into());
                }
            }
            _ => {}
        }
    }
    if has(&lc, 256) {
        bits.code(lc[256]);
    }
    let _ = r;
}

/// A stream breaking one chosen rule: the bytes, the rule's number and name
pub fn broken(c: &mut Case) -> Option<(Vec<u8>, u64, &'static str)> {
    let rule = c.idx % 24;
    let r = &mut c.r;
    let mut e = Enc::default();
    let mut have = 0usize;
    // a valid start
    let lead = match r.below(5) {
        0 => vec![],
        // behind it any distance has something to refer to
        4 => vec![Blk::Fixed([Tok::Lit(r.u8())].into_iter().chain((0..130).map(|k| Tok::mat(258, 1 + k % 2))).collect())],
        1 => v_small(r).blks,
        2 => {
            let n = r.below(9);
            vec![Blk::Fixed((0..n).map(|_| Tok::Lit(r.u8())).collect())]
        }
        _ => vec![Blk::Stored(gen::payload(r, 300))],
    };
    for b in &lead {
        have += b.size();
        e.block(false, b);
    }
    let last = r.chance(3, 4);
    let style = gen::TokStyle { p_match: 128, ..gen::tok_style(r) };
    let k = r.log(60);
    let toks = if have == 0 {
        let mut t = vec![Tok::Lit(r.u8())];
        t.extend(gen::tokens(r, k, 1, style, 5000));
        t
    } else {
        gen::tokens(r, k, have, style, 5000)
    };
    have += toks.iter().map(|t| t.size()).sum::<usize>();
    let bits = &mut e.bits;
    let expect: Bad;
    let name;
    let dyn_start = |bits: &mut Bits, h: &DynHdr| {
        bits.bit(last);
        bits.val(2, 2);
        put_hdr(bits, h);
    };
    match rule {
        0 => {
            name = "reserved block type";
            expect = Bad::ReservedType;
            bits.bit(last);
            bits.val(2, 3);
            bits.align();
            bits.bytes.extend([0, 0, 255, 255]);
            bits.len += 32;
        }
        1 => {
            name = "stored length check";
            expect = Bad::StoredCheck;
            let n = r.log(2000);
            let d = r.bytes(n);
            let at;
            bits.bit(last);
            bits.val(2, 0);
            bits.align();
            at = bits.bytes.len();
            bits.bytes.extend((n as u16).to_le_bytes());
            bits.bytes.extend((!(n as u16)).to_le_bytes());
            bits.bytes.extend(&d);
            match r.below(3) {
                0 => bits.bytes[at + 2 + r.below(2)] ^= 1 << r.below(8),
                1 => bits.bytes[at + 2 + r.below(2)] = r.u8(),
                _ => {
                    // the length itself instead of its complement
                    let v = (n as u16).to_le_bytes();
                    bits.bytes[at + 2] = v[0];
                    bits.bytes[at + 3] = v[1];
                }
            }
            if bits.bytes[at] ^ bits.bytes[at + 2] == 255 && bits.bytes[at + 1] ^ bits.bytes[at + 3] == 255 {
                bits.bytes[at + 2] ^= 1;
            }
            bits.len = bits.bytes.len() * 8;
        }
        2..=5 => {
            // literal/length code over- or under-subscribed
            let h = gen::gen_hdr(r, &toks);
            let mut ll = h.ll.clone();
            let used: Vec<usize> = (0..ll.len()).filter(|s| ll[*s] > 0).collect();
            if rule < 4 {
                name = "incomplete literal/length code";
                // drop one symbol or lengthen one
                let s = *r.pick(&used);
                if used.len() > 3 && r.chance(1, 2) && s != 256 {
                    ll[s] = 0;
                } else if ll[s] < 15 {
                    ll[s] += 1;
                } else {
                    ll[s] = 0;
                }
            } else {
                name = "over-subscribed literal/length code";
                let free: Vec<usize> = (0..ll.len()).filter(|s| ll[*s] == 0).collect();
                let s = *r.pick(&used);
                if !free.is_empty() && r.chance(1, 2) {
                    let f = *r.pick(&free);
                    ll[f] = r.range(1, 15) as u8;
                } else if ll[s] > 1 {
                    ll[s] -= 1;
                } else if !free.is_empty() {
                    ll[free[0]] = 15;
                } else {
                    ll[s] = 0;
                }
            }
            expect = Bad::LitLenCode;
            let h = gen::finish_hdr(r, ll, h.dd.clone());
            dyn_start(bits, &h);
            if kraft(&h.ll) < 1 << 15 {
                put_some(bits, r, &h.ll, &h.dd, &toks);
            }
        }
        6..=9 => {
            expect = Bad::DistCode;
            let h = gen::gen_hdr(r, &toks);
            let mut dd;
            loop {
                let n = r.range(1, 30);
                dd = vec![0u8; n];
                match rule {
                    6 => {
                        // one code, not of length one
                        dd[r.below(n)] = r.range(2, 15) as u8;
                    }
                    7 => {
                        for _ in 0..r.range(2, 5) {
                            let p = r.below(n);
                            dd[p] = r.range(1, 6) as u8;
                        }
                    }
                    8 => {
                        if n < 2 {
                            continue;
                        }
                        let k = r.range(2, n);
                        dd = gen::gen_lens(r, &[], n, 15, k);
                        let p = r.below(n);
                        dd[p] = if dd[p] == 0 { r.range(1, 15) as u8 } else { dd[p] - 1 };
                    }
                    _ => {
                        if n < 3 {
                            continue;
                        }
                        let k = r.range(2, n);
                        dd = gen::gen_lens(r, &[], n, 14, k);
                        let p = r.below(n);
                        if dd[p] > 0 {
                            dd[p] += 1;
                        }
                    }
                }
                let used = dd.iter().filter(|l| **l > 0).count();
                if used > 0 && kraft(&dd) != 1 << 15 && !(used == 1 && kraft(&dd) == 1 << 14) {
                    break;
                }
            }
            name = if kraft(&dd) > 1 << 15 {
                "over-subscribed distance code"
            } else {
                "incomplete distance code"
            };
            let h = gen::finish_hdr(r, h.ll.clone(), dd);
            dyn_start(bits, &h);
            let lits: Vec<Tok> = toks.iter().cloned().filter(|t| matches!(t, Tok::Lit(_))).collect();
            put_some(bits, r, &h.ll, &h.dd, &lits);
        }
        10 | 11 => {
            name = "bad code length code";
            expect = Bad::ClCode;
            let mut h = gen::gen_hdr(r, &toks);
            loop {
                let p = r.below(19);
                h.cl[p] = match r.below(3) {
                    0 => 0,
                    1 => r.below(8) as u8,
                    _ => h.cl[p].saturating_sub(1),
                };
                if kraft(&h.cl) != 1 << 15 {
                    break;
                }
            }
            h.hclen = 19;
            bits.bit(last);
            bits.val(2, 2);
            bits.val(5, (h.ll.len() - 257) as u32);
            bits.val(5, (h.dd.len() - 1) as u32);
            bits.val(4, 15);
            for i in 0..19 {
                bits.val(3, u32::from(h.cl[CL_ORDER[i]]));
            }
            if kraft(&h.cl) < 1 << 15 {
                let cc = codes(&h.cl);
                for (s, x) in &h.syms {
                    if cc[usize::from(*s)].0 > 0 {
                        bits.code(cc[usize::from(*s)]);
                        bits.val([2, 3, 7, 0][(usize::from(*s).wrapping_sub(16)).min(3)], (*x).into());
                    }
                }
                put_some(bits, r, &h.ll, &h.dd, &toks);
            }
        }
        12 | 13 => {
            name = "repeat with nothing to repeat";
            expect = Bad::NoRepeat;
            let h = gen::gen_hdr(r, &toks);
            // zeros for as long as the repeat claims, were it allowed
            let x = r.below(4) as u8;
            let mut ll = h.ll.clone();
            for l in &mut ll[..3 + usize::from(x)] {
                *l = 0;
            }
            let ul: Vec<bool> = (0..ll.len()).map(|s| ll[s] > 0 || s == 256).collect();
            let mut ll = gen::gen_lens(r, &ul, ll.len(), 15, 0);
            if ll[..3 + usize::from(x)].iter().any(|l| *l > 0) {
                ll = vec![0; 257];
                ll[256] = 1;
                ll[255] = 1;
            }
            let mut h = loop {
                let h = gen::finish_hdr(r, ll.clone(), h.dd.clone());
                if h.syms.len() > 0 && h.syms[0].0 >= 17 {
                    let n = usize::from(h.syms[0].1) + if h.syms[0].0 == 17 { 3 } else { 11 };
                    if n >= 3 + usize::from(x) {
                        break h;
                    }
                }
            };
            // replace the start of the first run
            let n = usize::from(h.syms[0].1) + if h.syms[0].0 == 17 { 3 } else { 11 };
            let rest = n - 3 - usize::from(x);
            let mut s = vec![(16, x)];
            s.extend(vec![(0, 0); rest]);
            s.extend(&h.syms[1..]);
            h.syms = s;
            let mut uc = vec![false; 19];
            for (s, _) in &h.syms {
                uc[usize::from(*s)] = true;
            }
            let cl = gen::gen_lens(r, &uc, 19, 7, 0);
            h.cl.copy_from_slice(&cl);
            h.hclen = 19;
            dyn_start(bits, &h);
            put_some(bits, r, &h.ll, &h.dd, &toks);
        }
        14 | 15 => {
            name = "repeat past the end of the lengths";
            expect = Bad::RepeatOverrun;
            let mut h = gen::gen_hdr(r, &toks);
            let last_v = *h.dd.last().unwrap();
            // end in a repeat which is one or more too long
            let mut all = h.ll.clone();
            all.extend(&h.dd);
            let run = all.iter().rev().take_while(|x| **x == last_v).count();
            let over = r.range(1, 4);
            let (sym, x, covered) = if last_v == 0 {
                let covered = r.range(1, run.min(130));
                let n = (covered + over).max(3);
                if n >= 11 {
                    (18, (n - 11) as u8, covered)
                } else {
                    (17, (n - 3) as u8, covered)
                }
            } else if run > 1 {
                let covered = r.range(1, (run - 1).min(5));
                let n = (covered + over).clamp(3.max(covered + 1), 6);
                (16, (n - 3) as u8, covered)
            } else {
                // a repeat of a value not there: zeros past the end
                (17, 0, 0)
            };
            let mut syms;
            if covered == 0 {
                // cover the last length too: it becomes zero
                syms = gen::rle(r, &all[..all.len() - 1]);
            } else {
                syms = gen::rle(r, &all[..all.len() - covered]);
            }
            syms.push((sym, x));
            h.syms = syms;
            let mut uc = vec![false; 19];
            for (s, _) in &h.syms {
                uc[usize::from(*s)] = true;
            }
            let cl = gen::gen_lens(r, &uc, 19, 7, 0);
            h.cl.copy_from_slice(&cl);
            h.hclen = 19;
            dyn_start(bits, &h);
            put_some(bits, r, &h.ll, &h.dd, &toks);
        }
        16 => {
            name = "reserved length symbol";
            expect = Bad::ReservedLen;
            bits.bit(last);
            bits.val(2, 1);
            let (ll, dd) = fixed_lens();
            put_toks(bits, &ll, &dd, &toks);
            bits.code(codes(&ll)[286 + r.below(2)]);
            if r.chance(1, 2) {
                bits.code(codes(&dd)[0]);
            }
            bits.code(codes(&ll)[256]);
        }
        17 => {
            name = "reserved distance symbol, fixed";
            expect = Bad::ReservedDist;
            bits.bit(last);
            bits.val(2, 1);
            let (ll, dd) = fixed_lens();
            put_toks(bits, &ll, &dd, &toks);
            bits.code(codes(&ll)[257 + r.below(8)]);
            bits.code(codes(&dd)[30 + r.below(2)]);
            if r.chance(1, 2) {
                bits.val(13, 0);
            }
            bits.code(codes(&ll)[256]);
        }
        18 => {
            name = "reserved distance symbol, dynamic";
            expect = Bad::ReservedDist;
            let mut ul = vec![false; 286];
            for t in &toks {
                match *t {
                    Tok::Lit(b) => ul[usize::from(b)] = true,
                    Tok::Mat { len, .. } => ul[len_sym(len, false).0] = true,
                }
            }
            ul[256] = true;
            ul[257] = true;
            let h = gen::hdr_for(r, &ul, &[]);
            let n = 31 + r.below(2);
            let s = 30 + r.below(n - 30);
            let mut ud = vec![false; n];
            ud[s] = true;
            let k = r.range(1, 20);
            let dd = gen::gen_lens(r, &ud, n, 15, k);
            let h = gen::finish_hdr(r, h.ll, dd);
            dyn_start(bits, &h);
            let lits: Vec<Tok> = toks.iter().cloned().filter(|t| matches!(t, Tok::Lit(_))).collect();
            put_toks(bits, &h.ll, &h.dd, &lits);
            bits.code(codes(&h.ll)[257]);
            bits.code(codes(&h.dd)[s]);
            bits.val(*r.pick(&[0, 0, 13, 14, 15]), 0);
            bits.code(codes(&h.ll)[256]);
        }
        19 => {
            name = "unused half of a one-symbol distance code";
            expect = Bad::ReservedDist;
            let lits: Vec<Tok> = toks.iter().cloned().filter(|t| matches!(t, Tok::Lit(_))).collect();
            let mut ul = vec![false; 286];
            for t in &lits {
                if let Tok::Lit(b) = t {
                    ul[usize::from(*b)] = true;
                }
            }
            ul[256] = true;
            ul[257] = true;
            let h = gen::hdr_for(r, &ul, &[]);
            let n = r.range(1, 31);
            let mut dd = vec![0; n];
            dd[r.below(n)] = 1;
            let h = gen::finish_hdr(r, h.ll, dd);
            dyn_start(bits, &h);
            put_toks(bits, &h.ll, &h.dd, &lits);
            bits.code(codes(&h.ll)[257]);
            bits.bit(true);
            // as many as whatever it is taken for may want
            bits.val(r.below(14) as u8, 0);
            bits.code(codes(&h.ll)[256]);
        }
        20 => {
            name = "reference without any distance code";
            expect = Bad::NoDistCode;
            let lits: Vec<Tok> = toks.iter().cloned().filter(|t| matches!(t, Tok::Lit(_))).collect();
            let mut ul = vec![false; 286];
            for t in &lits {
                if let Tok::Lit(b) = t {
                    ul[usize::from(*b)] = true;
                }
            }
            ul[256] = true;
            let s = 257 + r.below(29);
            ul[s] = true;
            let h = gen::hdr_for(r, &ul, &[]);
            let n = r.range(1, 30);
            let h = gen::finish_hdr(r, h.ll, vec![0; n]);
            dyn_start(bits, &h);
            put_toks(bits, &h.ll, &h.dd, &lits);
            bits.code(codes(&h.ll)[s]);
            bits.val(LEN_EXTRA[s - 257], 0);
            bits.code(codes(&h.ll)[256]);
        }
        _ => {
            name = "reference before the start of the data";
            expect = Bad::TooFar;
            // control how much there is
            let n = match r.below(4) {
                0 => *r.pick(&[32_767usize, 32_766, 32_700, 24_577, 24_576, 16_384]),
                1 => r.log(32_000),
                _ => have.min(32_767),
            };
            e = Enc::default();
            let mut left = n;
            // in one or more blocks of several kinds
            while left > 0 {
                let k = if r.chance(1, 2) { left } else { r.range(1, left) };
                let b = match r.below(3) {
                    0 => Blk::Stored(gen::payload_n(r, k)),
                    1 if left > n - 1 || k < 300 => {
                        let d = gen::payload_n(r, k);
                        Blk::Fixed(d.iter().map(|b| Tok::Lit(*b)).collect())
                    }
                    _ => {
                        let d = gen::payload_n(r, k);
                        Blk::Fixed(gen::tokenise(r, &[], &d))
                    }
                };
                e.block(false, &b);
                left -= k;
            }
            let far = match r.below(3) {
                0 => n + 1,
                1 => (n + 1 + r.below(5)).min(32_768),
                _ => r.range(n + 1, 32_768),
            };
            let len = gen::pick_len(r, 4);
            let mut t = vec![Tok::mat(len, far as u16)];
            if r.chance(1, 2) {
                t.push(Tok::Lit(65));
            }
            let kind = r.chance(1, 2);
            let b = as_block(r, kind, t);
            e.block(last, &b);
        }
    }
    // if the error is overlooked, the rest looks like a proper end
    let r = &mut c.r;
    let mut bytes = e.bits.bytes;
    if !last {
        bytes.extend([1, 0, 0, 255, 255]);
    }
    if r.chance(1, 3) {
        let n = r.below(20);
        bytes.extend(r.bytes(n));
    }
    let d = decode(&bytes);
    if d.grey.is_some() {
        return None;
    }
    // perhaps another rule was hit first, or the change was undone by luck
    let _ = expect;
    d.bad?;
    Some((bytes, rule, name))
}

fn c03_rules(c: &mut Case) -> Res {
    match broken(c) {
        Some((bytes, rule, name)) => {
            c.point("rules broken", rule);
            must_fail(c, &bytes, name)?;
            c.sample(|| format!("{}: {}", name, hex_head(&bytes)));
        }
        None => c.hit("not broken after all"),
    }
    Ok(())
}

fn judge_any(c: &mut Case, bytes: &[u8]) -> Res {
    let d = decode(bytes);
    match d.bad {
        Some(_) if d.grey.is_none() => {
            let why = format!("damaged: {:?}", d.bad.unwrap());
            must_fail(c, bytes, &why)
        }
        Some(_) => Ok(()),
        None => {
            c.hit("damaged but still valid");
            Ok(())
        }
    }
}

fn c03_mutated(c: &mut Case) -> Res {
    for _ in 0..4 {
        let mut b = if c.r.chance(1, 8) { v_zlib(c).bytes } else { v_small(&mut c.r).bytes };
        gen::mutate(&mut c.r, &mut b);
        judge_any(c, &b)?;
    }
    Ok(())
}

fn garbage(r: &mut Rng) -> Vec<u8> {
    let n = r.log(400) + 1;
    let mut b = r.bytes(n);
    match r.below(4) {
        // steer into dynamic blocks
        0 => b[0] = (b[0] & 0xf8) | 4 | r.below(2) as u8,
        1 => b[0] = (b[0] & 0xf8) | 2 | r.below(2) as u8,
        _ => {}
    }
    b
}

fn c03_garbage(c: &mut Case) -> Res {
    for _ in 0..8 {
        let b = garbage(&mut c.r);
        judge_any(c, &b)?;
    }
    Ok(())
}

// ---- C04 ----

/// All reading entry points on one input
fn survive(c: &mut Case, b: &[u8]) -> Res {
    c.eval();
    c.seen(&[b]);
    c.attach("input", b);
    let bound = 250 * b.len() + (2 << 20);

    // header
    let mut rd = MonReader::new(b);
    let (h, peak) = peak_of(|| sut("reading the header", || librezip::gzip::discard_header(&mut rd).map_err(|e| format!("{:#}", e))));
    let h = h?;
    want!(peak < bound, "header: {} bytes of memory for {} bytes", peak, b.len());
    let at = if h.is_ok() {
        c.hit("headers accepted");
        rd.pos
    } else {
        0
    };

    for from in [0, at] {
        if from == 0 && at != 0 && b.len() > 4000 {
            continue;
        }
        let d = &b[from..];
        let mut rd = MonReader::new(d);
        let cap = d.len() * 8 / 3 + 4;
        let mut items = 0;
        let mut blocks = vec![];
        let mut failed = false;
        let (res, peak) = peak_of(|| -> Res {
            let mut it = sut("parse_deflate", || librezip::parse_deflate(&mut rd))?;
            loop {
                match sut("parsing", || it.next())? {
                    Some(Ok(b)) => blocks.push(b),
                    Some(Err(e)) => {
                        failed = true;
                        let _ = sut("formatting the error", || format!("{:#}\n{:?}", e, e))?;
                        break;
                    }
                    None => break,
                }
                items += 1;
                want!(items <= cap, "{} blocks from {} bytes: the iteration does not end", items, d.len());
            }
            for i in 0..3 {
                match sut("parsing after the end", || it.next())? {
                    None => {}
                    Some(x) => {
                        return Err(format!(
                            "call {} after {} gave {}",
                            i + 1,
                            if failed { "an error" } else { "the end" },
                            if x.is_ok() { "a block" } else { "an error" }
                        ))
                    }
                }
            }
            Ok(())
        });
        res?;
        want!(peak < bound, "parsing: {} bytes of memory for {} bytes of input", peak, d.len());
        c.hit(if failed { "streams refused" } else { "streams accepted" });
        c.hits("blocks yielded", blocks.len() as u64);
        // decode what there is, even if the stream broke later
        let total: usize = blocks
            .iter()
            .map(|b| match b {
                librezip::Block::Uncompressed(d) => d.len(),
                librezip::Block::FixedHuffman(k) | librezip::Block::DynamicHuffman { codes: k, .. } => {
                    k.iter().map(|c| usize::from(c.emitted_bytes())).sum()
                }
            })
            .sum();
        let mut n = Count(0);
        let (r, peak) = peak_of(|| decode_into(&blocks, &mut n));
        let r = r?;
        want!(peak < (1 << 20) + 16 * total, "decoding {} bytes took {} bytes of memory", total, peak);
        match r {
            Ok(_) => {
                want!(n.0 == total, "decoded {} of {} bytes", n.0, total);
                c.hit("decoded");
            }
            Err(_) => {
                want!(n.0 <= total, "decoded {} of {} bytes", n.0, total);
                c.hit("decoding refused")
            }
        }
    }

    // metadata; two bytes may stand for 32767 corrections, so not too much of it
    let b = &b[..b.len().min(1200)];
    let mut rd = MonReader::new(b);
    let (t, peak) = peak_of(|| sut("reading metadata", || librezip::serialise_trace::read(&mut rd).map_err(|e| format!("{:#}", e))));
    match t? {
        Ok(t) => {
            c.hit("metadata accepted");
            want!(
                peak < 16 * t.len() + bound,
                "metadata: {} bytes of memory for {} corrections from {} bytes",
                peak,
                t.len(),
                b.len()
            );
            want!(t.len() <= b.len() / 2 * 32_767, "{} corrections from {} bytes", t.len(), b.len());
        }
        Err(_) => {
            want!(peak < (16 * 32_767 + 250) * b.len() + (2 << 20), "metadata: {} bytes of memory", peak);
            c.hit("metadata refused");
        }
    }
    Ok(())
}

struct Count(usize);
impl Write for Count {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0 += b.len();
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn c04_garbage(c: &mut Case) -> Res {
    for _ in 0..4 {
        let b = garbage(&mut c.r);
        survive(c, &b)?;
    }
    Ok(())
}

fn c04_mutated(c: &mut Case) -> Res {
    for _ in 0..3 {
        let mut b = vec![];
        if c.r.chance(1, 3) {
            let f = c.r.below(32) as u8;
            b = gen::gz_header(&mut c.r, f, false);
        }
        let v = if c.r.chance(1, 8) { v_zlib(c).bytes } else { v_small(&mut c.r).bytes };
        b.extend(v);
        gen::mutate(&mut c.r, &mut b);
        if c.r.chance(1, 3) {
            let n = c.r.below(b.len() + 1);
            b.truncate(n);
        }
        survive(c, &b)?;
    }
    Ok(())
}

fn c04_headers(c: &mut Case) -> Res {
    let f = (c.idx % 256) as u8;
    let big = c.r.chance(1, 4);
    let mut b = gen::gz_header(&mut c.r, f, big);
    match c.r.below(4) {
        0 => gen::mutate(&mut c.r, &mut b),
        1 => {
            let n = c.r.below(b.len() + 1);
            b.truncate(n);
        }
        2 => b.extend(v_small(&mut c.r).bytes),
        _ => {}
    }
    survive(c, &b)
}

/// inputs meant to provoke: bombs, huge counts, deep codes, endless runs
fn c04_extreme(c: &mut Case) -> Res {
    let r = &mut c.r;
    let b: Vec<u8> = match c.idx % 12 {
        0 => {
            let mut t = vec![Tok::Lit(0)];
            let n = r.range(1000, 20_000);
            t.extend(vec![Tok::mat(258, 1); n]);
            let k = r.chance(1, 2);
            encode(&[as_block(r, k, t)]).bits.bytes
        }
        1 => {
            // stored length far beyond the data
            let mut b = vec![r.below(2) as u8];
            b.extend([255, 255, 0, 0]);
            let n = r.below(50);
            b.extend(r.bytes(n));
            b
        }
        2 => {
            // very many empty blocks
            let n = r.range(500, 4000);
            let mut blks = vec![];
            for _ in 0..n {
                blks.push(if r.chance(1, 2) { Blk::Fixed(vec![]) } else { Blk::Stored(vec![]) });
            }
            encode(&blks).bits.bytes
        }
        3 => {
            let n = r.range(1, 3000);
            let v = *r.pick(&[0u8, 255, 0x55, 0xaa, 2, 4, 5, 3]);
            vec![v; n]
        }
        4 => {
            // metadata: long runs of predictions, extreme distances
            let mut b = vec![];
            for _ in 0..r.range(1, 30) {
                match r.below(4) {
                    0 => b.extend([255, 255]),
                    1 => b.extend([0, 128, r.u8()]),
                    2 => b.extend([1, 128]),
                    _ => b.extend([r.u8(), r.below(128) as u8, 255]),
                }
            }
            b
        }
        5 => {
            // header claiming long fields
            let mut b = vec![0x1f, 0x8b, 8, 4 | r.below(32) as u8, 0, 0, 0, 0, 0, 0, 255, 255];
            let n = *r.pick(&[0usize, 1, 65_534, 65_535, 65_536, 70_000]);
            b.extend(vec![1; n]);
            b
        }
        6 => {
            // code descriptions of every shape, random lengths
            let mut bits = Bits::default();
            bits.bit(true);
            bits.val(2, 2);
            bits.val(5, r.below(32) as u32);
            bits.val(5, r.below(32) as u32);
            let mut cl = [0u8; 19];
            let uc: Vec<bool> = (0..19).map(|_| r.chance(1, 2)).collect();
            let k = gen::gen_lens(r, &uc, 19, 7, 0);
            cl.copy_from_slice(&k);
            bits.val(4, 15);
            for i in 0..19 {
                bits.val(3, cl[CL_ORDER[i]].into());
            }
            let mut b = bits.bytes;
            let n = r.range(1, 300);
            b.extend(r.bytes(n));
            b
        }
        7 => {
            // descriptions whose lengths sum up, but with unused or missing symbols
            let mut bits = Bits::default();
            bits.bit(r.chance(1, 2));
            bits.val(2, 2);
            let nl = r.range(257, 288);
            let nd = r.range(1, 32);
            let k = r.range(2, 40);
            let mut u = vec![false; nl];
            if r.chance(1, 3) {
                u[256] = true;
            }
            let ll = gen::gen_lens(r, &u, nl, 15, k);
            let k = r.range(1, nd);
            let dd = if k == 1 {
                let mut d = vec![0; nd];
                d[nd - 1] = 1;
                d
            } else {
                gen::gen_lens(r, &[], nd, 15, k)
            };
            let h = gen::finish_hdr(r, ll, dd);
            bits.val(5, (nl - 257) as u32);
            bits.val(5, (nd - 1) as u32);
            bits.val(4, (h.hclen - 4) as u32);
            for i in 0..h.hclen {
                bits.val(3, h.cl[CL_ORDER[i]].into());
            }
            let cc = codes(&h.cl);
            for (s, x) in &h.syms {
                bits.code(cc[usize::from(*s)]);
                bits.val([2, 3, 7, 0][(usize::from(*s).wrapping_sub(16)).min(3)], (*x).into());
            }
            let mut b = bits.bytes;
            let n = r.range(1, 300);
            b.extend(r.bytes(n));
            b
        }
        8 => {
            // distances of every reach with little data
            let have = r.log(300);
            let mut t: Vec<Tok> = (0..have).map(|_| Tok::Lit(r.u8())).collect();
            for _ in 0..r.range(1, 20) {
                t.push(Tok::mat(gen::pick_len(r, 4), gen::pick_dist(r, 6, WINDOW)));
            }
            let k = r.chance(1, 2);
            encode(&[as_block(r, k, t)]).bits.bytes
        }
        9 => {
            // every padding pattern
            let v = v_small(r);
            let mut b = v.bytes;
            let n = b.len();
            b[n - 1] |= 1 << r.below(8);
            b
        }
        10 => {
            let n = r.range(0, 3);
            r.bytes(n)
        }
        _ => {
            // alternative spelling of 258, also where 285 has no code
            let mut t = vec![Tok::Lit(1), Tok::Mat { len: 258, dist: 1, alt: true }];
            if r.chance(1, 2) {
                t.push(Tok::mat(258, 1));
            }
            let k = r.chance(1, 2);
            encode(&[as_block(r, k, t)]).bits.bytes
        }
    };
    c.point("kinds of extreme input", c.idx % 12);
    survive(c, &b)
}

// ---- C05 ----

fn c05(c: &mut Case, v: Valid) -> Res {
    let with_header = c.r.chance(1, 2);
    let mut all = vec![];
    if with_header {
        let f = c.r.below(32) as u8;
        all = gen::gz_header(&mut c.r, f, false);
    }
    let hl = all.len();
    all.extend(&v.bytes);
    let end = all.len();
    let t = match c.r.below(3) {
        // a second member right behind
        0 => {
            let mut t = c.r.bytes(8);
            t.extend(gen::gz_header(&mut c.r, 0, false));
            t.extend(&v.bytes);
            t
        }
        _ => tail(&mut c.r),
    };
    all.extend(&t);
    c.attach("input", &all);
    let mut first: Option<Vec<librezip::Block>> = None;
    let plans = if v.bytes.len() > 5000 { 3 } else { 6 };
    for k in 0..plans {
        let plan = match k {
            0 => IoPlan::plain(),
            1 => IoPlan { chunk: Chunk::One, interrupt: 60, ..IoPlan::plain() },
            _ => IoPlan::random(&mut c.r),
        };
        c.eval();
        let mut rd = MonReader::with(&all, plan, c.idx ^ k);
        if with_header {
            let h = sut("reading the header", || librezip::gzip::discard_header(&mut rd).map_err(|e| format!("{:#}", e)))?;
            let h = h.map_err(|e| format!("header refused under {:?}: {}", plan, e))?;
            want!(rd.pos == hl, "header: took {} bytes of {} under {:?}", rd.pos, hl, plan);
            want!(h == all[..hl], "header bytes differ under {:?}", plan);
        }
        let p = parse(&mut rd)?;
        if let Some(e) = p.err {
            return Err(format!("stream refused under {:?}: {}", plan, e));
        }
        want!(
            rd.pos == end,
            "took the input up to byte {}, the stream ends at {} (of {}) under {:?}",
            rd.pos,
            end,
            all.len(),
            plan
        );
        want!(
            t.is_empty() || rd.log.eof == 0,
            "read past the end of the stream under {:?}",
            plan
        );
        if let Some(f) = &first {
            want!(*f == p.blocks, "blocks depend on how the data arrives: {:?}", plan);
        } else {
            want!(p.blocks.len() == v.blks.len(), "{} blocks, should be {}", p.blocks.len(), v.blks.len());
            first = Some(p.blocks);
        }
        let mut rest = vec![];
        rd.read_to_end(&mut rest).map_err(|e| e.to_string())?;
        want!(rest == t, "what follows the stream is not left in place");
        c.hits("reads", rd.log.calls as u64);
        c.hits("interrupted reads", rd.log.interrupted as u64);
        c.hits("short reads", rd.log.short as u64);
    }
    // blocks that do not come one by one, and calls after the end
    let way = c.r.below(4);
    let mut rd = MonReader::with(&all[hl..], IoPlan::random(&mut c.r), c.idx);
    let n = v.blks.len();
    let k = c.r.below(n);
    sut("parsing", || -> Res {
        let mut it = librezip::parse_deflate(&mut rd);
        match way {
            0 => want!(it.count() == n, "other blocks counted"),
            1 => want!(it.last().map_or(false, |b| b.is_ok()), "no last block"),
            2 => {
                want!(it.nth(k).map_or(false, |b| b.is_ok()), "no block {}", k);
                want!(it.count() == n - k - 1, "other blocks left after block {}", k);
            }
            _ => {
                want!(it.by_ref().all(|b| b.is_ok()), "stream refused");
                for _ in 0..3 {
                    want!(it.next().is_none(), "something after the end of the stream");
                }
                want!(it.nth(1).is_none() && it.count() == 0, "something after the end of the stream");
            }
        }
        Ok(())
    })??;
    want!(
        rd.pos == end - hl,
        "took the input up to byte {}, the stream ends at {}, when blocks do not come one by one (way {})",
        rd.pos,
        end - hl,
        way
    );
    c.hit("iterated over in other ways");
    c.seen(&[&all]);
    c.hit(if t.is_empty() { "nothing behind the stream" } else { "data behind the stream" });
    c.point("bits used of the last byte", {
        let d = encode(&v.blks);
        (d.bits.len % 8) as u64
    });
    c.sample(|| format!("header {}, stream {}, then {} bytes; {} ways of reading", hl, v.bytes.len(), t.len(), plans));
    Ok(())
}

// ---- C06 ----

fn c06_valid(c: &mut Case) -> Res {
    let flags = (c.idx % 32) as u8;
    let big = c.idx % 5 == 4;
    let h = gen::gz_header(&mut c.r, flags, big);
    let mut all = h.clone();
    all.extend(tail(&mut c.r));
    c.attach("input", &all);
    c.eval();
    c.seen(&[&h]);
    c.point("flag combinations", flags.into());
    if flags & 4 != 0 && h[11] > 0 {
        c.hit("extra field of 256 bytes or more");
    }
    let plan = IoPlan::random(&mut c.r);
    let mut rd = MonReader::with(&all, plan, c.idx);
    let got = sut("reading the header", || librezip::gzip::discard_header(&mut rd).map_err(|e| format!("{:#}", e)))?;
    let got = got.map_err(|e| format!("valid header with flags {:#x} refused: {}", flags, e))?;
    want!(rd.pos == h.len(), "flags {:#x}: took {} bytes, the header has {}", flags, rd.pos, h.len());
    want!(got == h, "flags {:#x}: header bytes differ", flags);
    // by value and by reference
    let mut s = &all[..];
    let got = sut("reading the header", || librezip::gzip::discard_header(&mut s).map_err(|e| format!("{:#}", e)))?;
    want!(got.as_ref() == Ok(&h) && s.len() == all.len() - h.len(), "flags {:#x}: differs when read from a slice", flags);
    c.sample(|| format!("flags {:#x}: {}", flags, hex_head(&h)));

    // cut short at every place (or many)
    let n = h.len();
    let cuts: Vec<usize> = if n <= 400 { (0..n).collect() } else {
        let mut k: Vec<usize> = (0..14).collect();
        k.extend((0..20).map(|_| c.r.below(n)));
        k.extend([n - 1, n - 2]);
        k
    };
    for k in cuts {
        c.eval();
        let mut s = &h[..k];
        let got = sut("reading a cut header", || librezip::gzip::discard_header(&mut s).is_err())?;
        if !got {
            c.attach("input", &h[..k]);
            return Err(format!("header with flags {:#x} cut to {} of {} bytes accepted", flags, k, n));
        }
        c.hit("cut headers refused");
    }
    Ok(())
}

/// Headers and parts of headers of telling lengths.
fn c06_lengths(c: &mut Case) -> Res {
    let around = match c.r.below(3) {
        0 => 1usize << c.r.range(3, 20),
        1 => 512 * c.r.range(1, 200),
        _ => 1000 * c.r.range(1, 100),
    };
    let n = (around + c.r.below(18)).saturating_sub(14);
    // where the length is measured
    let part = c.r.below(4);
    let flags = c.r.below(32) as u8 | [4, 8, 16, 24][part];
    let mut h = vec![0x1f, 0x8b, 8, flags];
    h.extend(c.r.bytes(6));
    if flags & 4 != 0 {
        let k = if part == 0 { n.min(65_535) } else { c.r.below(20) };
        h.extend((k as u16).to_le_bytes());
        h.extend(c.r.bytes(k));
    }
    let used = if c.r.chance(1, 2) { 0 } else { h.len() };
    for bit in [8, 16] {
        if flags & bit != 0 {
            let k = if part == 1 && bit == 8 || part == 2 && bit == 16 || part == 3 && bit == 8 { n.saturating_sub(used) } else { c.r.below(20) };
            let b = c.r.range(1, 255) as u8;
            h.extend(vec![b; k]);
            h.push(0);
        }
    }
    if flags & 2 != 0 {
        h.extend(c.r.bytes(2));
    }
    let mut all = h.clone();
    all.extend(tail(&mut c.r));
    c.attach("input", &all);
    c.eval();
    c.point("lengths of headers", h.len() as u64);
    c.seen(&[&h]);
    let mut s = &all[..];
    let got = sut("reading the header", || librezip::gzip::discard_header(&mut s).map_err(|e| format!("{:#}", e)))?;
    let got = got.map_err(|e| format!("valid header with flags {:#x} and {} bytes refused: {}", flags, h.len(), e))?;
    want!(s.len() == all.len() - h.len(), "flags {:#x}: took {} bytes, the header has {}", flags, all.len() - s.len(), h.len());
    want!(got == h, "flags {:#x}: bytes of a header of {} differ", flags, h.len());
    let cut = h.len() - 1 - c.r.below(3);
    let mut s = &h[..cut];
    let got = sut("reading a cut header", || librezip::gzip::discard_header(&mut s).is_err())?;
    want!(got, "header with flags {:#x} cut to {} of {} bytes accepted", flags, cut, h.len());
    Ok(())
}

fn c06_invalid(c: &mut Case) -> Res {
    let kind = c.idx % 4;
    let val = (c.idx / 4 % 256) as u8;
    let f = c.r.below(32) as u8;
    let mut h = gen::gz_header(&mut c.r, f, false);
    match kind {
        0 if val != 0x1f => h[0] = val,
        1 if val != 0x8b => h[1] = val,
        2 if val != 8 => h[2] = val,
        3 if val & 0xe0 != 0 => {
            h = gen::gz_header(&mut c.r, val, false);
        }
        _ => return Ok(()),
    }
    h.extend(vec![0; 70_000]);
    c.eval();
    c.seen(&[&h[..20]]);
    c.point(["wrong first magic byte", "wrong second magic byte", "wrong method", "reserved flags"][kind as usize], val.into());
    let mut s = &h[..];
    let bad = sut("reading an invalid header", || librezip::gzip::discard_header(&mut s).is_err())?;
    if !bad {
        c.attach("input", &h[..100]);
    }
    want!(bad, "accepted a header starting {}", hex(&h[..4]));
    Ok(())
}

// ---- C15 ----

fn places(r: &mut Rng, n: usize, k: usize) -> Vec<usize> {
    if n <= k {
        (0..n).collect()
    } else {
        let mut v: Vec<usize> = (0..k - 3).map(|_| r.below(n)).collect();
        v.extend([0, n - 1, n - 2]);
        v
    }
}

fn c15_read(c: &mut Case) -> Res {
    let v = if c.idx % 10 == 0 { v_zlib(c) } else { v_small(&mut c.r) };
    let mut all = vec![];
    if c.r.chance(1, 2) {
        let f = c.r.below(32) as u8;
        all = gen::gz_header(&mut c.r, f, false);
    }
    let hl = all.len();
    all.extend(&v.bytes);
    c.attach("input", &all);
    let good = {
        let (p, _) = parse_bytes(&v.bytes)?;
        if p.err.is_some() {
            c.hit("stream refused without faults");
            return Ok(());
        }
        p.blocks
    };
    let all_len = all.len();
    if all_len <= 400 {
        c.hit("streams with a fault at every byte");
    }
    for at in places(&mut c.r, all_len, if all_len > 400 { 40 } else { 400 }) {
        let plan = IoPlan::fault(at, &mut c.r);
        c.eval();
        let mut rd = MonReader::with(&all, plan, c.idx);
        if hl > 0 {
            let h = sut("reading the header", || librezip::gzip::discard_header(&mut rd).map_err(|e| format!("{:#}", e)))?;
            if at < hl {
                want!(h.is_err(), "header read in spite of {:?}", plan);
                c.hit("faults in headers reported");
                continue;
            }
            want!(h.is_ok(), "header not read although the fault comes later: {:?}", plan);
        }
        let p = parse(&mut rd)?;
        want!(rd.log.faults > 0, "the fault was never met: {:?}", plan);
        want!(p.err.is_some(), "stream parsed to its end in spite of {:?}", plan);
        want!(p.blocks.len() <= good.len() && p.blocks[..] == good[..p.blocks.len()], "wrong blocks before {:?}", plan);
        c.hit("faults in streams reported");
    }
    c.seen(&[&all]);
    // no fault: short reads and interruptions change nothing
    let mut rd = MonReader::with(&all[hl..], IoPlan { interrupt: 120, ..IoPlan::random(&mut c.r) }, c.idx);
    let p = parse(&mut rd)?;
    want!(p.err.is_none() && p.blocks == good, "interrupted reads change the result: {:?}", p.err);
    c.hits("interrupted calls", rd.log.interrupted as u64);
    Ok(())
}

fn c15_write(c: &mut Case) -> Res {
    let v = if c.idx % 10 == 0 { v_zlib(c) } else { v_small(&mut c.r) };
    c.attach("stream", &v.bytes);
    let (p, _) = parse_bytes(&v.bytes)?;
    if p.err.is_some() {
        c.hit("stream refused without faults");
        return Ok(());
    }
    c.seen(&[&v.bytes]);
    let payload = expand_blks(&v.blks);
    let n = v.bytes.len();
    for at in places(&mut c.r, payload.len(), if n > 2000 { 25 } else { 250 }) {
        let plan = IoPlan::fault(at, &mut c.r);
        c.eval();
        let mut w = MonWriter::with(plan, c.idx);
        w.zero = c.r.chance(1, 4);
        let r = decode_into(&p.blocks, &mut w)?;
        want!(w.log.faults > 0, "decoding never met {:?}", plan);
        want!(r.is_err(), "decoding succeeded in spite of {:?}", plan);
        want!(w.out.len() <= payload.len() && w.out == payload[..w.out.len()], "wrong output before {:?}", plan);
        want!(w.out.len() == at, "decoding went on after {:?}: {} bytes", plan, w.out.len());
        c.hit("faults while decoding reported");
    }
    for at in places(&mut c.r, n, if n > 2000 { 25 } else { 250 }) {
        let plan = IoPlan::fault(at, &mut c.r);
        c.eval();
        let mut w = MonWriter::with(plan, c.idx);
        w.zero = c.r.chance(1, 4);
        let r = sut("re-serialising", || -> Result<(), String> {
            let mut bw = BitWriter::new(&mut w);
            for (i, b) in p.blocks.iter().enumerate() {
                bw.write_bit(i + 1 == p.blocks.len()).map_err(|e| e.to_string())?;
                librezip::compressed_block(&mut bw, b).map_err(|e| e.to_string())?;
            }
            bw.align().map_err(|e| e.to_string())
        })?;
        want!(w.log.faults > 0, "re-serialising never met {:?}", plan);
        want!(r.is_err(), "re-serialising succeeded in spite of {:?}", plan);
        want!(w.out.len() <= n && w.out == v.bytes[..w.out.len()], "wrong output before {:?}", plan);
        want!(w.out.len() == at, "re-serialising went on after {:?}: {} bytes", plan, w.out.len());
        c.hit("faults while re-serialising reported");
    }
    // no faults
    let plan = IoPlan { interrupt: 120, ..IoPlan::random(&mut c.r) };
    let mut w = MonWriter::with(plan, c.idx);
    let r = decode_into(&p.blocks, &mut w)?;
    want!(r.is_ok() && w.out == payload, "short or interrupted writes change the decoded bytes");
    let mut x = MonWriter::with(plan, c.idx);
    let r = write_blocks(&p.blocks, &mut x)?;
    want!(r.is_ok() && x.out == v.bytes, "short or interrupted writes change the serialised bytes");
    c.hits("interrupted calls", (w.log.interrupted + x.log.interrupted) as u64);
    c.hits("short writes", (w.log.short + x.log.short) as u64);
    c.sample(|| format!("stream of {} bytes, payload {}", n, payload.len()));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            rule: "a stream that parsed to its end, compared bit for bit with its re-serialisation",
            families: vec![
                fam("random", 1500, 40_000, |c| {
                    let v = v_random(c);
                    c01_valid(c, v)
                }),
                fam("sweep", 34, 340, |c| {
                    let v = v_sweep(c);
                    c01_valid(c, v)
                }),
                fam("stored", 240, 2000, |c| {
                    let v = v_stored(c);
                    c01_valid(c, v)
                }),
                fam("headers", 1500, 60_000, |c| {
                    let v = v_headers(c);
                    c01_valid(c, v)
                }),
                fam("zlib", 250, 6000, |c| {
                    let v = v_zlib(c);
                    c01_valid(c, v)
                }),
                fam("mutated", 4000, 400_000, c01_mutated),
                fam("odd", 600, 20_000, c01_odd),
                fam("short", 256, 256, |c| short_streams(c, |c, b| reproduce(c, b).map(|_| ()))),
                fam("files", 16, 16, |c| match v_file(c) {
                    Some(v) => c01_valid(c, v),
                    None => Ok(()),
                }),
                fam("long", 4, 400, |c| {
                    let v = v_long(c);
                    c01_valid(c, v)
                }),
                fam("huge", 1, 16, |c| {
                    let v = v_huge(c);
                    c01_valid(c, v)
                }),
            ],
            required: vec![
                ("kinds of long streams", 7),
                ("blocks of more than 65536 codes", 6),
                ("blocks of more than 2^20 and 2^24 codes", 2),
                ("valid streams reproduced", 500),
                ("length x kind swept", 2),
                ("distances swept (2048 each) x kind", 32),
                ("stored: bit position", 8),
                ("HCLEN", 12),
                ("HDIST", 32),
                ("literal/length code lengths", 16),
                ("refused", 100),
            ],
        },
        Prop {
            id: "C02",
            rule: "a valid stream, its blocks, codes, payload and window compared with the RFC 1951 model",
            families: vec![
                fam("random", 1500, 40_000, |c| {
                    let v = v_random(c);
                    valid_decodes(c, &v)
                }),
                fam("sweep", 34, 340, |c| {
                    let v = v_sweep(c);
                    valid_decodes(c, &v)
                }),
                fam("stored", 240, 2000, |c| {
                    let v = v_stored(c);
                    valid_decodes(c, &v)
                }),
                fam("headers", 1500, 60_000, |c| {
                    let v = v_headers(c);
                    valid_decodes(c, &v)
                }),
                fam("zlib", 250, 6000, |c| {
                    let v = v_zlib(c);
                    valid_decodes(c, &v)
                }),
                fam("mutated", 3000, 300_000, |c| {
                    // damage that leaves a valid stream
                    let mut b = v_small(&mut c.r).bytes;
                    gen::mutate(&mut c.r, &mut b);
                    let d = decode(&b);
                    if d.bad.is_some() || d.grey.is_some() || d.nonzero_padding {
                        return Ok(());
                    }
                    b.truncate(d.used);
                    c.hit("valid after damage");
                    valid_decodes(c, &Valid { bytes: b, blks: d.blks, hdrs: d.hdrs })
                }),
                fam("files", 16, 16, |c| match v_file(c) {
                    Some(v) => valid_decodes(c, &v),
                    None => Ok(()),
                }),
                fam("long", 3, 400, |c| {
                    let v = v_long(c);
                    valid_decodes(c, &v)
                }),
                fam("huge", 1, 16, |c| {
                    let v = v_huge(c);
                    valid_decodes(c, &v)
                }),
            ],
            required: vec![
                ("kinds of long streams", 7),
                ("blocks of more than 65536 codes", 6),
                ("blocks of more than 2^20 and 2^24 codes", 2),
                ("valid streams decoded", 500),
                ("iterated over in other ways", 200),
                ("also agreed with zlib", 100),
                ("length x kind swept", 2),
                ("distances swept (2048 each) x kind", 32),
                ("stored: bit position", 8),
                ("HCLEN", 12),
                ("HDIST", 32),
                ("literal/length code lengths", 16),
                ("distance codes in use (0, 1, more)", 3),
                ("payload longer than the window", 20),
            ],
        },
        Prop {
            id: "C03",
            rule: "a stream the strict RFC 1951 model refuses, which parsing or decoding must refuse too",
            families: vec![
                fam("trunc", 250, 10_000, c03_trunc),
                fam("rules", 4800, 200_000, c03_rules),
                fam("mutated", 2500, 200_000, c03_mutated),
                fam("garbage", 2000, 200_000, c03_garbage),
                fam("short", 256, 256, |c| short_streams(c, judge_any)),
            ],
            required: vec![
                ("rules broken", 24),
                ("truncated", 5000),
                ("streams cut at every byte", 50),
                ("reference before the start of the data", 100),
                ("reserved block type", 20),
                ("stored length check", 20),
                ("incomplete literal/length code", 20),
                ("over-subscribed literal/length code", 20),
                ("incomplete distance code", 20),
                ("over-subscribed distance code", 20),
                ("bad code length code", 20),
                ("repeat with nothing to repeat", 20),
                ("repeat past the end of the lengths", 20),
                ("reserved length symbol", 20),
                ("reserved distance symbol, fixed", 20),
                ("reserved distance symbol, dynamic", 20),
                ("unused half of a one-symbol distance code", 20),
                ("reference without any distance code", 20),
            ],
        },
        Prop {
            id: "C04",
            rule: "an input run through every reader under panic, overflow, memory and termination monitors",
            families: vec![
                fam("garbage", 3000, 300_000, c04_garbage),
                fam("mutated", 2500, 200_000, c04_mutated),
                fam("headers", 512, 20_000, c04_headers),
                fam("extreme", 1200, 60_000, c04_extreme),
                fam("short", 256, 256, |c| short_streams(c, survive)),
            ],
            required: vec![
                ("streams refused", 2000),
                ("streams accepted", 500),
                ("decoding refused", 100),
                ("metadata accepted", 500),
                ("metadata refused", 500),
                ("headers accepted", 100),
                ("kinds of extreme input", 12),
                ("first bytes of short streams", 256),
            ],
        },
        Prop {
            id: "C05",
            rule: "an input with known ends of header and stream, read in several ways",
            families: vec![
                fam("random", 600, 20_000, |c| {
                    let v = v_random(c);
                    c05(c, v)
                }),
                fam("small", 2000, 60_000, |c| {
                    let v = v_small(&mut c.r);
                    c05(c, v)
                }),
                fam("stored", 100, 2000, |c| {
                    let v = v_stored(c);
                    c05(c, v)
                }),
                fam("zlib", 120, 3000, |c| {
                    let v = v_zlib(c);
                    c05(c, v)
                }),
                fam("long", 1, 200, |c| {
                    let v = v_long(c);
                    c05(c, v)
                }),
            ],
            required: vec![
                ("kinds of long streams", 7),
                ("bits used of the last byte", 8),
                ("interrupted reads", 1000),
                ("short reads", 1000),
                ("data behind the stream", 200),
                ("nothing behind the stream", 100),
                ("iterated over in other ways", 500),
            ],
        },
        Prop {
            id: "C06",
            rule: "a gzip header, valid (then also cut short) or invalid in one way",
            families: vec![
                fam("valid", 640, 20_000, c06_valid),
                fam("invalid", 1024, 8192, c06_invalid),
                fam("lengths", 8000, 200_000, c06_lengths),
            ],
            required: vec![
                ("flag combinations", 32),
                ("wrong first magic byte", 255),
                ("wrong second magic byte", 255),
                ("wrong method", 255),
                ("reserved flags", 224),
                ("cut headers refused", 1000),
                ("extra field of 256 bytes or more", 20),
                ("lengths of headers", 2000),
            ],
        },
        Prop {
            id: "C15",
            rule: "one injected I/O fault at one byte position of one operation",
            families: vec![fam("read", 400, 12_000, c15_read), fam("write", 400, 12_000, c15_write)],
            required: vec![
                ("faults in headers reported", 1000),
                ("faults in streams reported", 5000),
                ("faults while decoding reported", 5000),
                ("faults while re-serialising reported", 5000),
                ("streams with a fault at every byte", 100),
                ("interrupted calls", 500),
                ("short writes", 100),
            ],
        },
    ]
}

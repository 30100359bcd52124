//! C28: work grows in proportion to what is worked on.

use std::io;
use std::io::{Read, Write};

use librezip::filter::{FilterRead, FilterWrite};
use librezip::verif_hooks::BitWriter;
use librezip::{all_refs::AllRefs, serialise_trace, trace, Technique};
use librezip::{Block, CircularBuffer, Code, Trace};

use crate::case::*;
use crate::gen;
use crate::mon::*;
use crate::refl::*;
use crate::rng::Rng;
use crate::sut::*;
use crate::want;

/// CPU time of this thread, in seconds
#[cfg(not(miri))]
fn now() -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
}
#[cfg(miri)]
fn now() -> f64 {
    0.0
}

/// Something that takes `n` units of work; gives the CPU time it took.
type Job<'a> = dyn FnMut(usize) -> Result<f64, String> + 'a;

fn timed<T>(what: &str, f: impl FnOnce() -> Result<T, String>) -> Result<(T, f64), String> {
    let t = now();
    let r = sut(what, f)??;
    Ok((r, now() - t))
}

/// Double the work until it can be measured, then have four and sixteen times
/// as much done. A violation must be seen again, each time it is looked at.
fn grows(c: &mut Case, what: &str, from: usize, to: usize, job: &mut Job) -> Res {
    const BASE: f64 = 0.008;
    let mut n = from;
    let mut t = job(n)?;
    while t < BASE && n < to / 16 {
        n *= 2;
        t = job(n)?;
    }
    for (times, most) in [(4usize, 11.0), (16, 52.0)] {
        let mut small = t;
        let mut large = job(n * times)?;
        c.eval();
        let floor = small.max(BASE / 2.0);
        if large <= most * floor {
            c.hit("workloads that grew in proportion");
            c.point("growth at sixteen times as much, in units of a tenth of that", (large / floor * 10.0 / times as f64) as u64);
            continue;
        }
        for _ in 0..4 {
            small = small.max(job(n)?);
            large = large.min(job(n * times)?);
        }
        let floor = small.max(BASE / 2.0);
        want!(
            large <= most * floor,
            "{}: {} times as much ({}) takes {:.1} times as long: {:.4} s, not {:.4} s",
            what,
            times,
            n * times,
            large / small,
            large,
            small
        );
        c.hit("measurements repeated");
    }
    c.sample(|| format!("{}: up to {}, {:.3} s for {}", what, n * 16, t, n));
    Ok(())
}

// ---- streams ----

/// `n` copies of the bits, packed
fn repeat(into: &mut Bits, bits: &Bits, n: usize) {
    // eight copies are whole bytes
    let mut eight = Bits::default();
    for _ in 0..8 {
        for i in 0..bits.len {
            eight.bit(Bits::get(&bits.bytes, i));
        }
    }
    let shift = into.len % 8;
    for _ in 0..n.div_ceil(8) {
        if shift == 0 {
            into.bytes.extend(&eight.bytes);
        } else {
            for b in &eight.bytes {
                *into.bytes.last_mut().unwrap() |= b << shift;
                into.bytes.push(b >> (8 - shift));
            }
        }
        into.len += eight.len;
    }
}

/// One block of the codes again and again
fn one_block(r: &mut Rng, first: &[Tok], unit: &[Tok], dynamic: bool, n: usize) -> Vec<u8> {
    let all: Vec<Tok> = first.iter().chain(unit).cloned().collect();
    let mut b = Bits::default();
    b.bit(true);
    let (ll, dd) = if dynamic {
        let h = gen::gen_hdr(r, &all);
        b.val(2, 2);
        put_hdr(&mut b, &h);
        (h.ll, h.dd)
    } else {
        b.val(2, 1);
        fixed_lens()
    };
    put_toks(&mut b, &ll, &dd, first);
    let mut u = Bits::default();
    put_toks(&mut u, &ll, &dd, unit);
    repeat(&mut b, &u, (n * 8).div_ceil(u.len.max(1)));
    b.code(codes(&ll)[256]);
    b.bytes
}

/// The blocks again and again; the last of them is stored
fn many_blocks(unit: &[Blk], n: usize) -> Vec<u8> {
    assert!(matches!(unit.last(), Some(Blk::Stored(_))));
    let mut e = Enc::default();
    for b in unit {
        e.block(false, b);
    }
    let u = e.bits.bytes;
    let mut v = Vec::with_capacity(n + u.len() + 5);
    while v.len() < n {
        v.extend(&u);
    }
    v.extend([1, 0, 0, 255, 255]);
    v
}

const SHAPES: u64 = 11;

fn stream(r: &mut Rng, shape: u64, n: usize) -> (&'static str, Vec<u8>) {
    let lits = |r: &mut Rng, n| -> Vec<Tok> { r.bytes(n).into_iter().map(Tok::Lit).collect() };
    let end = Blk::Stored(vec![]);
    match shape {
        0 => ("tiny stored blocks", many_blocks(&[Blk::Stored(vec![7])], n)),
        1 => ("large stored blocks", many_blocks(&[Blk::Stored(r.bytes(65_535))], n)),
        2 => {
            let u: Vec<Blk> = (0..5).map(|i| Blk::Fixed(lits(r, i % 3))).chain([end]).collect();
            ("tiny fixed blocks", many_blocks(&u, n))
        }
        3 => {
            let mut u = vec![];
            for i in 0..4 {
                let t = lits(r, 1 + i);
                u.push(Blk::Dyn(gen::gen_hdr(r, &t), t));
            }
            u.push(end);
            ("tiny dynamic blocks", many_blocks(&u, n))
        }
        4 => ("one fixed block of literals", {
            let u = lits(r, 200);
            one_block(r, &[], &u, false, n)
        }),
        5 => {
            let f = lits(r, 3000);
            let u: Vec<Tok> = (0..300)
                .map(|i| match i % 3 {
                    0 => Tok::Lit(r.u8()),
                    _ => Tok::mat(r.range(3, 12) as u16, r.range(1, 2900) as u16),
                })
                .collect();
            ("one block of literals and references", one_block(r, &f, &u, n % 2 == 0, n))
        }
        6 => {
            let f = lits(r, 300);
            let u: Vec<Tok> = (0..100).map(|_| Tok::mat(258, r.range(1, 290) as u16)).collect();
            ("one block of long references", one_block(r, &f, &u, true, n / 32))
        }
        7 => {
            let f: Vec<Tok> = lits(r, 20).into_iter().chain((0..140).map(|_| Tok::mat(258, 20))).collect();
            let u: Vec<Tok> = (0..100)
                .map(|_| Tok::mat(r.range(3, 258) as u16, r.range(32_000, 32_768) as u16))
                .collect();
            ("one block of far references", one_block(r, &f, &u, true, n / 8))
        }
        8 => {
            let mut u = vec![];
            for i in 0..3 {
                let style = gen::TokStyle { p_match: 10, len_mode: 1, dist_mode: i };
                let t = gen::tokens(r, 1500, 0, style, 4000);
                u.push(Blk::Dyn(gen::gen_hdr(r, &t), t));
            }
            u.push(end);
            ("dynamic blocks", many_blocks(&u, n))
        }
        9 => ("one dynamic block of one literal", one_block(r, &[], &[Tok::Lit(7)], true, n / 8)),
        _ => {
            let d: Vec<u8> = gen::payload_fam(r, n * 2, 3);
            ("what zlib writes", crate::zlib::compress(&d, 6, 0, 8, 15, &[]))
        }
    }
}

/// Reads a few bytes at a time
struct Few<'a>(&'a [u8], usize);

impl<'a> Read for Few<'a> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = b.len().min(self.1);
        self.0.read(&mut b[..n])
    }
}

struct Null(u64);

impl Write for Null {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0 += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn streams(c: &mut Case) -> Res {
    let shape = c.idx % SHAPES;
    let op = c.idx / SHAPES % 5;
    let seed = c.r.u64();
    let name = ["parsing", "decoding", "re-serialising", "decoding kept blocks", "re-serialising kept blocks"][op as usize];
    let mut kind = "";
    let mut job = |n: usize| {
        let (k, bytes) = stream(&mut Rng::new(seed), shape, n);
        kind = k;
        let (seen, t) = timed("working through the stream", || {
            let mut w = CircularBuffer::new();
            let mut out = Null(0);
            let mut again = BitWriter::new(Null(0));
            let mut seen = 0;
            let mut kept = vec![];
            for b in librezip::parse_deflate(&bytes[..]) {
                let b = b.map_err(s)?;
                seen += 1;
                match op {
                    1 => librezip::decompressed_block(&mut out, &mut w, &b).map_err(s)?,
                    2 => {
                        again.write_bit(true).map_err(s)?;
                        librezip::compressed_block(&mut again, &b).map_err(s)?
                    }
                    3 | 4 => kept.push(b),
                    _ => {}
                }
            }
            for b in &kept {
                if op == 3 {
                    librezip::decompressed_block(&mut out, &mut w, b).map_err(s)?
                } else {
                    again.write_bit(true).map_err(s)?;
                    librezip::compressed_block(&mut again, b).map_err(s)?
                }
            }
            again.align().map_err(s)?;
            let len = again.into_inner().0;
            if op == 2 || op == 4 {
                want!(len == bytes.len() as u64, "{} bytes written, should be {}", len, bytes.len());
            }
            drop(kept);
            Ok(seen)
        })?;
        want!(seen > 0, "no blocks");
        Ok(t)
    };
    let what = format!("{} a stream of kind {}", name, shape);
    let to = if shape == 1 { 128 << 20 } else { 8 << 20 };
    grows(c, &what, 16 << 10, to, &mut job)?;
    c.hit("kinds of streams");
    c.point("kinds of work on kinds of streams", c.idx % (SHAPES * 5));
    c.seen(&[&seed.to_le_bytes(), &c.idx.to_le_bytes()]);
    let kind = kind.to_string();
    c.sample(|| format!("{}: {}", name, kind));
    Ok(())
}

// ---- the rest ----

const JOBS: u64 = 19;

fn codes_for(r: &mut Rng, n: usize) -> Vec<Tok> {
    let mut t: Vec<Tok> = r.bytes(300).into_iter().map(Tok::Lit).collect();
    while t.len() < n {
        t.push(match r.below(3) {
            0 => Tok::Lit(r.u8()),
            _ => Tok::mat(r.range(3, 20) as u16, r.range(1, 290) as u16),
        });
    }
    t
}

fn s(e: impl std::fmt::Display) -> String {
    format!("refused: {:#}", e)
}

macro_rules! bits_of {
    ($b:expr) => {
        match $b {
            Block::DynamicHuffman { trees, .. } => trees,
            _ => unreachable!(),
        }
    };
}

fn rest(c: &mut Case) -> Res {
    let k = c.idx % JOBS;
    let seed = c.r.u64();
    let chunk = *c.r.pick(&[1usize, 3, 100, 8192, 1 << 20]);
    let of = c.idx / JOBS;
    let (name, to): (&str, usize) = match k {
        0 => ("reading a header with a long name", 16 << 20),
        1 => ("reading a header with a long comment", 16 << 20),
        2 => ("hashing while reading", 16 << 20),
        3 => ("hashing while writing", 16 << 20),
        4 => ("writing corrections", 4 << 20),
        5 => ("reading corrections", 4 << 20),
        6 => ("pushing into a window", 8 << 20),
        7 => ("extending a window", 16 << 20),
        8 => ("copying in a window", 1 << 20),
        9 => ("decoding codes", 2 << 20),
        10 => ("decoding codes in parts", 2 << 20),
        11 => ("writing codes", 2 << 20),
        12 => ("growing a bit string", 16 << 20),
        13 => ("looking at a bit string", 16 << 20),
        14 => ("taking a bit string apart", 16 << 20),
        15 => ("decoding stored data", 16 << 20),
        16 => ("comparing and copying blocks", 2 << 20),
        17 => ("small streams, one after the other", 256 << 10),
        _ => ("corrections for small blocks, one after the other", 16 << 10),
    };
    let mut job = |n: usize| -> Result<f64, String> {
        let r = &mut Rng::new(seed);
        Ok(match k {
            0 | 1 => {
                let mut h = vec![0x1f, 0x8b, 8, if k == 0 { 8 } else { 16 }, 0, 0, 0, 0, 0, 3];
                h.resize(10 + n, b'x');
                h.push(0);
                let (got, t) = timed("reading a header", || {
                    librezip::gzip::discard_header(Few(&h, chunk)).map_err(|e| e.to_string())
                })?;
                want!(got == h, "{} bytes of header, should be {}", got.len(), h.len());
                t
            }
            2 => {
                let d = r.bytes(n);
                timed("hashing", || {
                    let mut f = FilterRead::new(&d[..]);
                    let mut b = vec![0; chunk.max(64)];
                    while f.read(&mut b).map_err(|e| e.to_string())? > 0 {}
                    Ok(f.hash())
                })?
                .1
            }
            3 => {
                let d = r.bytes(n);
                timed("hashing", || {
                    let mut f = FilterWrite::new(Null(0));
                    for x in d.chunks(chunk.max(64)) {
                        f.write_all(x).map_err(|e| e.to_string())?;
                    }
                    Ok(f.hash())
                })?
                .1
            }
            4 | 5 => {
                let codes = lib_codes(&codes_for(r, 1000));
                let wrong = |i: usize| match codes[i % 1000] {
                    Code::Literal(_) => Trace::ActuallyLiteral,
                    Code::Reference(r) => Trace::Actually(r),
                };
                let t: Vec<Trace> = (0..n)
                    .map(|i| match of % 3 {
                        0 => Trace::Correct,
                        1 => wrong(i),
                        _ if i % 3 == 0 => wrong(i),
                        _ => Trace::Correct,
                    })
                    .collect();
                if k == 4 {
                    timed("writing corrections", || Ok(serialise_trace::write(&t)))?.1
                } else {
                    let m = serialise_trace::write(&t);
                    let (got, t2) = timed("reading corrections", || {
                        serialise_trace::read(Few(&m, chunk)).map_err(|e| e.to_string())
                    })?;
                    want!(got.len() == t.len(), "{} corrections, should be {}", got.len(), t.len());
                    t2
                }
            }
            6 => {
                timed("pushing", || {
                    let mut w = CircularBuffer::with_capacity(if of % 2 == 0 { 32_768 } else { 700 });
                    for i in 0..n {
                        w.push(i as u8);
                    }
                    Ok(w.len())
                })?
                .1
            }
            7 => {
                let d = r.bytes(n);
                timed("extending", || {
                    let mut w = CircularBuffer::with_capacity(if of % 2 == 0 { 32_768 } else { 700 });
                    for x in d.chunks(chunk) {
                        w.extend(x);
                    }
                    Ok(w.len())
                })?
                .1
            }
            8 => {
                timed("copying", || {
                    let mut w = CircularBuffer::new();
                    w.extend(&[1, 2, 3, 4, 5, 6, 7, 8, 9, 10]);
                    let mut o = Null(0);
                    for i in 0..n {
                        let d = 1 + (i * 7) % usize::from(w.len()).min(500);
                        w.copy(d as u16, 3 + (i % 20) as u16, &mut o).map_err(s)?;
                    }
                    Ok(o.0)
                })?
                .1
            }
            9 | 10 | 11 | 16 => {
                let t = codes_for(r, n);
                let codes = lib_codes(&t);
                let mut w = CircularBuffer::new();
                let mut o = Null(0);
                match k {
                    9 => timed("decoding", || librezip::decompressed_codes(&mut o, &mut w, &codes).map_err(s))?.1,
                    10 => {
                        timed("decoding", || {
                            for x in codes.chunks(chunk) {
                                librezip::decompressed_codes(&mut o, &mut w, x).map_err(s)?;
                            }
                            Ok(())
                        })?
                        .1
                    }
                    11 => {
                        let b = Block::FixedHuffman(codes);
                        timed("writing", || {
                            let mut w = BitWriter::new(Null(0));
                            librezip::compressed_block(&mut w, &b).map_err(s)
                        })?
                        .1
                    }
                    _ => {
                        let b = Block::FixedHuffman(codes);
                        timed("copying", || {
                            let o = b.clone();
                            Ok(o == b)
                        })?
                        .1
                    }
                }
            }
            17 => {
                let v: Vec<Vec<u8>> = (0..30)
                    .map(|_| {
                        let mut h = gen::gz_header(r, 8, false);
                        h.extend(crate::props::stream::v_small(r).bytes);
                        h
                    })
                    .collect();
                timed("working through streams", || {
                    for i in 0..n / 32 {
                        let mut rd = FilterRead::new(&v[i % 30][..]);
                        librezip::gzip::discard_header(&mut rd).map_err(s)?;
                        let mut out = FilterWrite::new(Null(0));
                        let mut again = BitWriter::new(Null(0));
                        let mut w = CircularBuffer::with_capacity(32_768);
                        for b in librezip::parse_deflate(&mut rd) {
                            let b = b.map_err(s)?;
                            librezip::decompressed_block(&mut out, &mut w, &b).map_err(s)?;
                            again.write_bit(true).map_err(s)?;
                            librezip::compressed_block(&mut again, &b).map_err(s)?;
                        }
                        (rd.hash(), out.hash());
                    }
                    Ok(())
                })?
                .1
            }
            18 => {
                let v: Vec<(Vec<u8>, Vec<Code>)> = (0..10)
                    .map(|_| {
                        let d = gen::payload_n(r, 100);
                        let t = gen::tokenise(r, &[], &d);
                        (d, lib_codes(&t))
                    })
                    .collect();
                timed("recording and restoring", || {
                    for i in 0..n / 128 {
                        let (d, codes) = &v[i % 10];
                        let conf = librezip::Config::gzip(1 + (i % 9) as u8);
                        let refs = AllRefs::with_sixteen(&[], d, conf.wams.insert_only_below_length.unwrap_or(u16::MAX));
                        let tech = Technique::new(conf, &refs);
                        let t = trace::trace(codes, &tech);
                        want!(trace::restore(&t, &tech) == *codes, "corrections do not restore the codes");
                    }
                    Ok(())
                })?
                .1
            }
            15 => {
                // far more than a stream could hold in one block
                let b = Block::Uncompressed(r.bytes(n));
                let mut w = CircularBuffer::new();
                let mut o = Null(0);
                timed("decoding", || librezip::decompressed_block(&mut o, &mut w, &b).map_err(s))?.1
            }
            _ => {
                let mut b = Block::DynamicHuffman { trees: Default::default(), codes: vec![] };
                let v = bits_of!(&mut b);
                let (_, grown) = timed("pushing", || {
                    for i in 0..n {
                        v.push(i % 3 == 0);
                    }
                    Ok(())
                })?;
                match k {
                    12 => grown,
                    13 => {
                        timed("looking", || {
                            let o = v.clone();
                            let mut m = 0;
                            for i in 0..n {
                                m += usize::from(o.get(i));
                                m += o.len() & 1;
                            }
                            Ok((m, v.iter().filter(|x| *x).count(), o == *v))
                        })?
                        .1
                    }
                    _ => {
                        timed("popping", || {
                            let mut m = 0;
                            if of % 2 == 0 {
                                while v.pop_byte().is_some() {
                                    m += 1;
                                }
                            } else {
                                while v.pop().is_some() {
                                    m += 1;
                                }
                            }
                            Ok(m)
                        })?
                        .1
                    }
                }
            }
        })
    };
    let what = format!("{} ({} at a time, {})", name, chunk, of);
    grows(c, &what, 4 << 10, to, &mut job)?;
    c.point("other kinds of work", k);
    c.seen(&[&seed.to_le_bytes(), &c.idx.to_le_bytes()]);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C28",
        rule: "one kind of work on one kind of input, with the CPU time of four and sixteen times as much compared",
        families: vec![fam("streams", SHAPES * 5, SHAPES * 5 * 12, streams), fam("rest", JOBS * 3, JOBS * 40, rest)],
        required: vec![
            ("workloads that grew in proportion", 150),
            ("kinds of work on kinds of streams", SHAPES * 5),
            ("other kinds of work", JOBS),
        ],
    }]
}

//! C24: blocks come one at a time, and memory follows the largest of them.

use std::cell::Cell;
use std::io;
use std::io::{Read, Write};

use librezip::filter::{FilterRead, FilterWrite};
use librezip::verif_hooks::BitWriter;
use librezip::CircularBuffer;
use librezip::{all_refs::AllRefs, serialise_trace, trace, Config, Technique};

use crate::case::*;
use crate::gen;
use crate::mon::*;
use crate::props::stream::{v_file, v_long, v_random, v_small, v_zlib, Valid};
use crate::refl::*;
use crate::rng::{fnv, Rng, FNV0};
use crate::sut::*;
use crate::want;

/// A reader whose position is seen from outside; at `stop` it ends, or fails.
struct Gate<'a> {
    data: &'a [u8],
    pos: &'a Cell<usize>,
    stop: usize,
    fail: Option<io::ErrorKind>,
    chunk: usize,
}

impl<'a> Read for Gate<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let at = self.pos.get();
        let n = buf.len().min(self.stop - at).min(self.chunk);
        if n == 0 && !buf.is_empty() {
            return match self.fail {
                Some(k) => Err(io::Error::new(k, INJECTED)),
                None => Ok(0),
            };
        }
        buf[..n].copy_from_slice(&self.data[at..at + n]);
        self.pos.set(at + n);
        Ok(n)
    }
}

fn lazy(c: &mut Case, v: Valid) -> Res {
    let e = encode(&v.blks);
    if e.bits.bytes != v.bytes {
        c.hit("streams the model writes differently");
        return Ok(());
    }
    let n = v.blks.len();
    let ends: Vec<usize> = (0..n)
        .map(|k| if k + 1 < n { e.starts[k + 1] } else { e.bits.len })
        .map(|b| b.div_ceil(8))
        .collect();
    let mut all = v.bytes.clone();
    let t = c.r.below(300);
    all.extend(c.r.bytes(t));
    c.attach("input", &all);
    // None: to the end; Some(k): nothing comes after block k
    let mut stops = vec![None, Some(n - 1)];
    for _ in 0..3 {
        stops.push(Some(c.r.below(n)));
    }
    for (i, stop) in stops.into_iter().enumerate() {
        let pos = Cell::new(0);
        let fail = if c.r.chance(1, 3) { None } else { Some(*c.r.pick(&FAULTS)) };
        let chunk = *c.r.pick(&[1, 7, 4096, usize::MAX]);
        let limit = stop.map_or(all.len(), |k| ends[k]);
        c.eval();
        let mut it = sut("parse_deflate", || {
            librezip::parse_deflate(Gate { data: &all, pos: &pos, stop: limit, fail, chunk })
        })?;
        for k in 0..=stop.unwrap_or(n - 1) {
            let b = match sut("parsing", || it.next())? {
                Some(Ok(b)) => b,
                Some(Err(e)) => {
                    return Err(format!(
                        "block {} of {} is there in full (input up to byte {}, it ends in {}), but: {:#}",
                        k, n, limit, ends[k], e
                    ))
                }
                None => return Err(format!("only {} of {} blocks", k, n)),
            };
            want!(
                pos.get() == ends[k],
                "block {} of {} ends in byte {}, but {} bytes were taken when it was handed out",
                k,
                n,
                ends[k],
                pos.get()
            );
            if i == 0 {
                let hdr = e.hdrs[k];
                same_block(&b, &v.blks[k], hdr, &v.bytes).map_err(|e| format!("block {}: {}", k, e))?;
            }
            c.hit("blocks taken one at a time");
        }
        let more = sut("parsing", || it.next())?;
        match stop {
            Some(k) if k + 1 < n => {
                want!(
                    matches!(more, Some(Err(_))),
                    "nothing follows block {} of {}, but there is no error",
                    k,
                    n
                );
                c.hit(if fail.is_some() { "stalled behind a block" } else { "cut off behind a block" });
            }
            _ => {
                want!(more.is_none(), "something came after the last block");
                want!(pos.get() == ends[n - 1], "{} bytes taken of {}", pos.get(), ends[n - 1]);
            }
        }
    }
    // damage in the filling bits behind a block takes nothing away from the blocks before it
    let mut behind: Vec<usize> = (0..n - 1).filter(|k| matches!(v.blks[k + 1], Blk::Stored(_))).collect();
    c.r.shuffle(&mut behind);
    behind.truncate(3);
    behind.push(n - 1);
    for k in behind {
        let (from, what) = if k + 1 == n {
            (e.bits.len, "behind the last block")
        } else {
            (e.starts[k + 1] + 3, "in the head of a stored block")
        };
        let room = (8 - from % 8) % 8;
        if room == 0 {
            continue;
        }
        let mut bad = all.clone();
        let bit = from + c.r.below(room);
        bad[bit / 8] |= 1 << (bit % 8);
        c.attach("input", &bad);
        let pos = Cell::new(0);
        let mut it = sut("parse_deflate", || {
            librezip::parse_deflate(Gate { data: &bad, pos: &pos, stop: bad.len(), fail: None, chunk: 4096 })
        })?;
        c.eval();
        for j in 0..=k {
            let b = match sut("parsing", || it.next())? {
                Some(Ok(b)) => b,
                Some(Err(e)) => {
                    return Err(format!(
                        "block {} of {} is in order, only a filling bit {} is not, but: {:#}",
                        j, n, what, e
                    ))
                }
                None => return Err(format!("only {} of {} blocks before a damaged filling bit", j, n)),
            };
            same_block(&b, &v.blks[j], e.hdrs[j], &v.bytes).map_err(|e| format!("block {}: {}", j, e))?;
        }
        if k + 1 < n {
            let more = sut("parsing", || it.next())?;
            want!(matches!(more, Some(Err(_))), "damaged filling {}, but no error", what);
        }
        c.hit("blocks before damaged filling");
    }
    c.attach("input", &all);
    for (k, e) in e.starts.iter().enumerate().skip(1) {
        c.point("where a block ends in its byte", (*e % 8) as u64);
        let _ = k;
    }
    c.seen(&[&all]);
    Ok(())
}

/// Where output goes that nobody keeps
struct Sink {
    len: u64,
    hash: u64,
}

impl Sink {
    fn new() -> Sink {
        Sink { len: 0, hash: FNV0 }
    }
}

impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.len += b.len() as u64;
        self.hash = fnv(b, self.hash);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn kind_of_long(r: &mut Rng, kind: u64) -> (Vec<Blk>, usize) {
    let mut blks = vec![];
    let mut have = 0;
    let dy = |r: &mut Rng, t: Vec<Tok>| Blk::Dyn(gen::gen_hdr(r, &t), t);
    let n = match kind {
        // a great many tiny ones
        0 => {
            for i in 0..60 {
                let k = r.below(3);
                let t: Vec<Tok> = r.bytes(k).into_iter().map(Tok::Lit).collect();
                blks.push(match i % 3 {
                    0 => Blk::Fixed(t),
                    1 if i % 30 == 1 => dy(r, t),
                    _ => Blk::Stored(r.bytes(k)),
                });
            }
            150_000
        }
        // tiny ones with code descriptions
        1 => {
            for _ in 0..40 {
                let k = r.range(1, 4);
                let t: Vec<Tok> = r.bytes(k).into_iter().map(Tok::Lit).collect();
                blks.push(dy(r, t));
            }
            15_000
        }
        // many codes
        2 => {
            for i in 0..20 {
                let style = gen::TokStyle { p_match: 20, len_mode: 1, dist_mode: i % 5 };
                let t = gen::tokens(r, 1500, have, style, 4000);
                blks.push(if i % 4 == 0 { Blk::Fixed(t) } else { dy(r, t) });
                have += blks[i].size();
            }
            800
        }
        // stored data
        3 => {
            for _ in 0..8 {
                blks.push(Blk::Stored(gen::payload_n(r, 65_535)));
            }
            300
        }
        // few codes, much data
        _ => {
            for _ in 0..10 {
                let mut t: Vec<Tok> = r.bytes(20).into_iter().map(Tok::Lit).collect();
                for _ in 0..150 {
                    t.push(Tok::mat(r.range(200, 258) as u16, r.range(1, 20) as u16));
                }
                blks.push(dy(r, t));
            }
            1200
        }
    };
    (blks, n)
}

/// What may be in use while blocks of this size are worked on, one after the other
fn allowance(largest: &Size) -> usize {
    (3 << 19) + 64 * largest.codes + 8 * largest.bytes
}

#[derive(Default, Clone)]
struct Size {
    codes: usize,
    bytes: usize,
}

fn size(b: &Blk) -> Size {
    Size { codes: b.toks().map_or(0, |t| t.len()), bytes: b.size() }
}

fn bounded(c: &mut Case) -> Res {
    let kind = c.idx % 6;
    let (blks, n) = if kind < 5 {
        kind_of_long(&mut c.r, kind)
    } else {
        // as zlib writes them
        let mut d = vec![];
        while d.len() < 12_000_000 {
            let k = c.r.range(20_000, 300_000);
            let f = c.r.below(8);
            d.extend(gen::payload_fam(&mut c.r, k, f));
        }
        let z = crate::zlib::compress(&d, 6, 0, 3, 15, &[]);
        let m = decode(&z);
        assert!(m.bad.is_none());
        (m.blks, 0)
    };
    let n = if n == 0 { blks.len() } else { n };
    let mut e = Enc::default();
    let mut total = Size::default();
    let mut largest = Size::default();
    let mut sink = Sink::new();
    let mut window: Vec<u8> = vec![];
    for i in 0..n {
        let b = &blks[i % blks.len()];
        let s = size(b);
        total.codes += s.codes;
        total.bytes += s.bytes;
        largest.codes = largest.codes.max(s.codes);
        largest.bytes = largest.bytes.max(s.bytes);
        let from = window.len();
        match b {
            Blk::Stored(d) => window.extend(d),
            Blk::Fixed(t) | Blk::Dyn(_, t) => assert!(expand(&mut window, 0, t)),
        }
        sink.write(&window[from..]).unwrap();
        if window.len() > 1 << 20 {
            let cut = window.len() - 32_768;
            window.drain(..cut);
        }
        e.block(i + 1 == n, b);
    }
    let bytes = e.bits.bytes;
    drop(window);
    let allowed = allowance(&largest);
    c.note(format!("{} blocks, {} codes, {} bytes of data, {} of stream; largest block: {} codes, {} bytes",
        n, total.codes, total.bytes, bytes.len(), largest.codes, largest.bytes));
    // the lazily built fixed codes belong to no stream
    let _ = parse_bytes(&encode(&[Blk::Fixed(vec![Tok::Lit(1)])]).bits.bytes);
    for mode in 0..4 {
        c.eval();
        let (r, peak) = peak_of(|| {
            sut("working through the stream", || -> Result<(Sink, Sink, usize), String> {
                let mut out = FilterWrite::new(Sink::new());
                let mut again = BitWriter::new(FilterWrite::new(Sink::new()));
                let mut w = CircularBuffer::new();
                let mut seen = 0;
                let mut rd = FilterRead::new(&bytes[..]);
                for b in librezip::parse_deflate(&mut rd) {
                    let b = b.map_err(|e| format!("{:#}", e))?;
                    seen += 1;
                    if mode & 1 == 1 {
                        librezip::decompressed_block(&mut out, &mut w, &b).map_err(|e| format!("{:#}", e))?;
                    }
                    if mode & 2 == 2 {
                        again.write_bit(seen == n).map_err(|e| format!("{:#}", e))?;
                        librezip::compressed_block(&mut again, &b).map_err(|e| format!("{:#}", e))?;
                    }
                }
                again.align().map_err(|e| format!("{:#}", e))?;
                Ok((out.into_inner(), again.into_inner().into_inner(), seen))
            })
        });
        let (out, again, seen) = r?.map_err(|e| format!("refused: {}", e))?;
        want!(seen == n, "{} blocks, should be {}", seen, n);
        if mode & 1 == 1 {
            want!((out.len, out.hash) == (sink.len, sink.hash), "decoded data differs");
        }
        if mode & 2 == 2 {
            want!((again.len, again.hash) == (bytes.len() as u64, fnv(&bytes, FNV0)), "re-serialised stream differs");
        }
        want!(
            peak <= allowed,
            "{} bytes of memory in use for {} ({} blocks, {} codes, {} bytes of data; no block with more than {} codes, {} bytes); {} would be in proportion to a block",
            peak,
            ["reading", "decoding", "re-serialising", "decoding and re-serialising"][mode],
            n, total.codes, total.bytes, largest.codes, largest.bytes, allowed
        );
        c.hits("blocks worked through in bounded memory", n as u64);
        c.point("memory peaks, in units of 64 KiB", (peak >> 16) as u64);
    }
    c.point("kinds of long streams measured", kind);
    c.seen(&[&bytes]);
    c.sample(|| format!("{} blocks, {} codes, {} bytes of data; {} bytes allowed", n, total.codes, total.bytes, allowed));
    Ok(())
}

/// Stream after stream in one process
fn given_back(c: &mut Case) -> Res {
    let rounds = if c.thorough { 12_000 } else { 4000 };
    let mut r = Rng::new(c.r.u64());
    let mut base = 0;
    let mut blocks = 0u64;
    for i in 0..rounds {
        if i == 50 {
            base = live();
        }
        let v = v_small(&mut r);
        let mut bytes = v.bytes;
        if i % 3 == 2 {
            gen::mutate(&mut r, &mut bytes);
        }
        let cut = i % 5 == 4;
        if i % 8 == 0 {
            let f = r.below(32) as u8;
            let h = gen::gz_header(&mut r, f, false);
            let h = sut("header", || librezip::gzip::discard_header(&h[..]).map(|h| h.len()).map_err(|e| e.to_string()))?;
            want!(h.is_ok(), "header refused");
        }
        let mut w = CircularBuffer::new();
        let mut out = BitWriter::new(Sink::new());
        let mut it = sut("parse_deflate", || librezip::parse_deflate(&bytes[..]))?;
        loop {
            match sut("parsing", || it.next())? {
                Some(Ok(b)) => {
                    blocks += 1;
                    let _ = sut("decoding", || librezip::decompressed_block(Sink::new(), &mut w, &b).is_ok())?;
                    sut("re-serialising", || librezip::compressed_block(&mut out, &b).is_ok())?;
                }
                Some(Err(_)) | None => break,
            }
            if cut {
                break;
            }
        }
        if i % 40 == 0 {
            let d = gen::payload(&mut r, 400);
            let t = gen::tokenise(&mut r, &[], &d);
            let codes = lib_codes(&t);
            let level = 1 + (i / 40 % 9) as u8;
            let back = sut("corrections", || {
                let refs = AllRefs::with_sixteen(&[], &d, limit(&Config::gzip(level)));
                let tech = Technique::new(Config::gzip(level), &refs);
                let t = trace::trace(&codes, &tech);
                let m = serialise_trace::write(&t);
                let t = serialise_trace::read(&m[..]).map_err(|e| e.to_string())?;
                Ok::<_, String>(trace::restore(&t, &tech) == codes)
            })??;
            want!(back, "corrections do not restore the codes");
        }
    }
    c.eval();
    let grown = live().saturating_sub(base);
    want!(
        grown <= 512 << 10,
        "{} bytes more in use after {} streams ({} blocks) were worked through and dropped",
        grown,
        rounds,
        blocks
    );
    c.hits("streams after which memory was given back", rounds as u64 - 50);
    c.seen(&[&c.idx.to_le_bytes()]);
    Ok(())
}

/// A few bytes kept of every block, or of every small job, show only after very many of them
fn given_back_small(c: &mut Case) -> Res {
    let n = if cfg!(debug_assertions) { 10_000 } else { 100_000 };
    // short descriptions, so that there can be many
    let mut ll = vec![8u8; 257];
    ll[0] = 0;
    let mut cl = [0u8; 19];
    cl[0] = 1;
    cl[8] = 1;
    let h = DynHdr {
        syms: ll.iter().map(|l| (*l, 0)).chain(std::iter::once((0, 0))).collect(),
        ll,
        dd: vec![0],
        cl,
        hclen: 5,
    };
    let t: Vec<Tok> = c.r.bytes(2).into_iter().map(|b| Tok::Lit(b | 1)).collect();
    let streams: Vec<Vec<u8>> = [
        vec![Blk::Dyn(h.clone(), t.clone())],
        vec![Blk::Dyn(h, t.clone()), Blk::Fixed(t.clone())],
        vec![Blk::Fixed(t.clone()), Blk::Stored(vec![7; 3])],
    ]
    .iter()
    .map(|b| encode(b).bits.bytes)
    .collect();
    let header = gen::gz_header(&mut c.r, 0, false);
    let data = b"-abcabcabdabc";
    let toks = gen::tokenise(&mut c.r, &[], data);
    let codes = lib_codes(&toks);
    let mut base = 0;
    for i in 0..n {
        if i == 2000 {
            base = live();
        }
        let bytes = &streams[i % streams.len()];
        sut("working through a stream", || -> Res {
            let _ = librezip::gzip::discard_header(&header[..]);
            let mut w = CircularBuffer::with_capacity(300);
            let mut out = BitWriter::new(Sink::new());
            // one in seven is cut off
            let end = bytes.len() - usize::from(i % 7 == 6);
            for b in librezip::parse_deflate(&bytes[..end]) {
                match b {
                    Ok(b) => {
                        librezip::decompressed_block(Sink::new(), &mut w, &b).map_err(|e| e.to_string())?;
                        librezip::compressed_block(&mut out, &b).map_err(|e| e.to_string())?;
                    }
                    Err(_) if end < bytes.len() => {}
                    Err(e) => return Err(e.to_string()),
                }
            }
            if i % 2 == 0 {
                let config = Config::gzip(1 + (i / 2 % 9) as u8);
                let refs = AllRefs::with_sixteen(&[], data, limit(&config));
                let tech = Technique::new(config, &refs);
                let t = trace::trace(&codes, &tech);
                let t = serialise_trace::read(&serialise_trace::write(&t)[..]).map_err(|e| e.to_string())?;
                want!(trace::restore(&t, &tech) == codes, "corrections do not restore the codes");
            }
            Ok(())
        })??;
    }
    c.eval();
    let grown = live().saturating_sub(base);
    want!(
        grown <= 384 << 10,
        "{} bytes more in use after {} small streams and predictions were worked through and dropped",
        grown,
        n
    );
    c.hits("small streams after which memory was given back", n as u64 - 2000);
    c.seen(&[&c.idx.to_le_bytes()]);
    Ok(())
}

fn limit(c: &Config) -> u16 {
    c.wams.insert_only_below_length.unwrap_or(u16::MAX)
}

/// The predictor's memory follows block and context.
fn predictor(c: &mut Case) -> Res {
    let n = *c.r.pick(&[1000usize, 20_000, 70_000, 150_000]);
    let pre = c.r.below(32_769);
    let f = c.r.below(8);
    let all = if c.idx % 3 == 0 {
        gen::long_data(&mut c.r, pre + n)
    } else {
        gen::payload_fam(&mut c.r, pre + n, f)
    };
    if gen::dense(&all) > 3000 {
        // too slow to be worked through
        return Ok(());
    }
    let (ctx, data) = all.split_at(pre);
    let t = gen::tokenise(&mut c.r, ctx, data);
    let codes = lib_codes(&t);
    let level = c.r.range(1, 9) as u8;
    c.attach("context", ctx);
    c.attach("data", data);
    c.eval();
    let (r, peak) = peak_of(|| {
        sut("recording and restoring", || {
            let refs = AllRefs::with_sixteen(ctx, data, limit(&Config::gzip(level)));
            let tech = Technique::new(Config::gzip(level), &refs);
            let t = trace::trace(&codes, &tech);
            let m = serialise_trace::write(&t);
            let t = serialise_trace::read(&m[..]).map_err(|e| e.to_string())?;
            Ok::<_, String>(trace::restore(&t, &tech) == codes)
        })
    });
    want!(r??, "corrections do not restore the codes");
    let allowed = (1 << 20) + 256 * (all.len() + codes.len());
    want!(
        peak <= allowed,
        "level {}: {} bytes of memory in use for {} of context, {} of data, {} codes; {} would be in proportion",
        level,
        peak,
        ctx.len(),
        data.len(),
        codes.len(),
        allowed
    );
    c.point("predictor: bytes of memory per byte of data", (peak / all.len().max(1)) as u64);
    c.hit("predictions in bounded memory");
    c.seen(&[ctx, data, &[level]]);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C24",
        rule: "a stream taken block by block with the reader's position seen at each; a long stream, run of streams or prediction with its memory use",
        families: vec![
            fam("lazy random", 1200, 40_000, |c| {
                let v = v_random(c);
                lazy(c, v)
            }),
            fam("lazy small", 3000, 200_000, |c| {
                let v = v_small(&mut c.r);
                lazy(c, v)
            }),
            fam("lazy zlib", 200, 6000, |c| {
                let v = v_zlib(c);
                lazy(c, v)
            }),
            fam("lazy long", 2, 60, |c| {
                let v = v_long(c);
                lazy(c, v)
            }),
            fam("lazy files", 16, 16, |c| match v_file(c) {
                Some(v) => lazy(c, v),
                None => Ok(()),
            }),
            fam("bounded", 12, 600, bounded),
            fam("given back", 8, 200, given_back),
            fam("given back small", 4, 16, given_back_small),
            fam("predictor", 40, 2000, predictor),
        ],
        required: vec![
            ("blocks taken one at a time", 20_000),
            ("stalled behind a block", 1000),
            ("cut off behind a block", 500),
            ("where a block ends in its byte", 8),
            ("blocks before damaged filling", 1000),
            ("kinds of long streams measured", 6),
            ("blocks worked through in bounded memory", 1_000_000),
            ("streams after which memory was given back", 20_000),
            ("small streams after which memory was given back", 90_000),
            ("predictions in bounded memory", 20),
        ],
    }]
}

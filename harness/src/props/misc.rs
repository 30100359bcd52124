//! The window (C13), hashing filters (C14), independence (C22), and inputs for
//! the checks of the command-line tools.

use std::fs;
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::sync::{Arc, Barrier};
use std::thread;

use librezip::all_refs::AllRefs;
use librezip::filter::{FilterRead, FilterWrite};
use librezip::trace as tr;
use librezip::{Block, CircularBuffer, Code, Config, Guesser, Technique, Trace};

use super::stream::{v_long, v_random, v_small, v_zlib, Valid};
use super::trace::{ctx, Ctx};
use crate::case::*;
use crate::gen;
use crate::gen::WINDOW;
use crate::mon::*;
use crate::refl::*;
use crate::rng::{fnv, Rng, FNV0};
use crate::sut::*;
use crate::want;

// ---- C13 ----

fn c13(c: &mut Case) -> Res {
    let cap = match c.idx % 8 {
        0 => c.r.range(1, 4),
        1 | 2 => c.r.range(1, 40),
        3 => c.r.range(1, 700),
        4 => *c.r.pick(&[255usize, 256, 257, 258, 259, 512]),
        5 => *c.r.pick(&[32_766usize, 32_767, 32_768, 32_769]),
        6 => *c.r.pick(&[65_533usize, 65_534, 65_535]),
        _ => c.r.log(65_535).max(1),
    };
    let is_new = cap == WINDOW && c.r.chance(1, 2);
    let mut w = if is_new {
        CircularBuffer::new()
    } else {
        sut("creating a window", || CircularBuffer::with_capacity(cap as u16))?
    };
    let mut all: Vec<u8> = vec![];
    let mut log = String::new();
    let ops = c.r.range(5, 60);
    c.point("capacities", cap as u64);
    for _ in 0..ops {
        let len = all.len().min(cap);
        c.eval();
        match c.r.below(7) {
            0 => {
                let b = c.r.u8();
                log.push_str(&format!("push {}\n", b));
                sut("push", || w.push(b))?;
                all.push(b);
                c.hit("pushes");
            }
            1 | 2 => {
                let n = match c.r.below(8) {
                    0 => 0,
                    1 => cap,
                    2 => cap + c.r.below(5),
                    3 => cap - c.r.below(3).min(cap),
                    4 => c.r.log(2 * cap),
                    _ => c.r.log(300),
                };
                let d = if c.r.chance(1, 4) { gen::payload_n(&mut c.r, n) } else { c.r.bytes(n) };
                log.push_str(&format!("extend by {}\n", n));
                sut("extend", || w.extend(&d))?;
                all.extend(&d);
                c.hit("extends");
            }
            k => {
                let dist = match c.r.below(8) {
                    0 => 0,
                    1 => len + 1,
                    2 => c.r.range(len + 1, 65_535.max(len + 1)),
                    3 => len,
                    4 => len.min(1),
                    5 => len.min(c.r.range(1, 5)),
                    _ => c.r.range(1, len.max(1)),
                };
                if dist > 65_535 {
                    continue;
                }
                let n = match c.r.below(8) {
                    0 => 0,
                    1 => dist.min(65_535),
                    2 => (dist + 1).min(65_535),
                    3 if cap < 2000 => (2 * cap + 3).min(65_535),
                    _ => usize::from(gen::pick_len(&mut c.r, 4)),
                };
                log.push_str(&format!("copy {} from {}\n", n, dist));
                let plan = if k == 6 { IoPlan::random(&mut c.r) } else { IoPlan::plain() };
                let mut out = MonWriter::with(plan, c.idx);
                let r = sut("copy", || w.copy(dist as u16, n as u16, &mut out).map_err(|e| e.to_string()))?;
                if dist == 0 || dist > len {
                    c.attach("operations", log.as_bytes());
                    want!(r.is_err(), "copy of {} from {} accepted with {} bytes in a window of {}", n, dist, len, cap);
                    want!(out.out.is_empty(), "refused copy wrote {} bytes", out.out.len());
                    c.hit("copies refused");
                } else {
                    let from = all.len();
                    for _ in 0..n {
                        all.push(all[all.len() - dist]);
                    }
                    c.attach("operations", log.as_bytes());
                    if let Err(e) = r {
                        return Err(format!("copy of {} from {} refused with {} bytes in a window of {}: {}", n, dist, len, cap, e));
                    }
                    want!(out.out == all[from..], "copy of {} from {} in a window of {} wrote wrong bytes", n, dist, cap);
                    c.hit("copies");
                    if n > dist {
                        c.hit("copies overlapping themselves");
                    }
                    if from / cap != (from - dist) / cap {
                        c.hit("copies whose source wraps");
                    }
                }
            }
        }
        let len = all.len().min(cap);
        c.attach("operations", log.as_bytes());
        want!(usize::from(w.len()) == len, "window of {} has length {}, should be {}", cap, w.len(), len);
        want!(usize::from(w.capacity()) == cap, "capacity {} of {}", w.capacity(), cap);
        let last = &all[all.len() - len..];
        let ds: Vec<usize> = if len <= 40 {
            (1..=len).collect()
        } else {
            let mut v: Vec<usize> = (0..20).map(|_| c.r.range(1, len)).collect();
            v.extend([1, 2, len - 1, len]);
            v
        };
        for d in ds {
            let b = sut("get_at_dist", || w.get_at_dist(d as u16))?;
            want!(
                b == all[all.len() - d],
                "byte at distance {} in a window of {} after {} bytes is {}, should be {}",
                d,
                cap,
                all.len(),
                b,
                all[all.len() - d]
            );
        }
        if len <= 300 || c.r.chance(1, 8) {
            let v = sut("vec", || w.vec())?;
            want!(v == last, "contents of a window of {} differ after {} bytes", cap, all.len());
            c.hit("contents compared");
        }
        if all.len() > cap {
            c.hit("states after wrapping");
        } else if all.len() == cap {
            c.hit("states exactly full");
        }
    }
    c.seen(&[log.as_bytes(), &all[..all.len().min(500)]]);
    c.sample(|| format!("capacity {}: {}", cap, log.replace('\n', "; ")));
    Ok(())
}

// ---- C14 ----

const K: [u64; 80] = [
    0x428a2f98d728ae22, 0x7137449123ef65cd, 0xb5c0fbcfec4d3b2f, 0xe9b5dba58189dbbc, 0x3956c25bf348b538,
    0x59f111f1b605d019, 0x923f82a4af194f9b, 0xab1c5ed5da6d8118, 0xd807aa98a3030242, 0x12835b0145706fbe,
    0x243185be4ee4b28c, 0x550c7dc3d5ffb4e2, 0x72be5d74f27b896f, 0x80deb1fe3b1696b1, 0x9bdc06a725c71235,
    0xc19bf174cf692694, 0xe49b69c19ef14ad2, 0xefbe4786384f25e3, 0x0fc19dc68b8cd5b5, 0x240ca1cc77ac9c65,
    0x2de92c6f592b0275, 0x4a7484aa6ea6e483, 0x5cb0a9dcbd41fbd4, 0x76f988da831153b5, 0x983e5152ee66dfab,
    0xa831c66d2db43210, 0xb00327c898fb213f, 0xbf597fc7beef0ee4, 0xc6e00bf33da88fc2, 0xd5a79147930aa725,
    0x06ca6351e003826f, 0x142929670a0e6e70, 0x27b70a8546d22ffc, 0x2e1b21385c26c926, 0x4d2c6dfc5ac42aed,
    0x53380d139d95b3df, 0x650a73548baf63de, 0x766a0abb3c77b2a8, 0x81c2c92e47edaee6, 0x92722c851482353b,
    0xa2bfe8a14cf10364, 0xa81a664bbc423001, 0xc24b8b70d0f89791, 0xc76c51a30654be30, 0xd192e819d6ef5218,
    0xd69906245565a910, 0xf40e35855771202a, 0x106aa07032bbd1b8, 0x19a4c116b8d2d0c8, 0x1e376c085141ab53,
    0x2748774cdf8eeb99, 0x34b0bcb5e19b48a8, 0x391c0cb3c5c95a63, 0x4ed8aa4ae3418acb, 0x5b9cca4f7763e373,
    0x682e6ff3d6b2b8a3, 0x748f82ee5defb2fc, 0x78a5636f43172f60, 0x84c87814a1f0ab72, 0x8cc702081a6439ec,
    0x90befffa23631e28, 0xa4506cebde82bde9, 0xbef9a3f7b2c67915, 0xc67178f2e372532b, 0xca273eceea26619c,
    0xd186b8c721c0c207, 0xeada7dd6cde0eb1e, 0xf57d4f7fee6ed178, 0x06f067aa72176fba, 0x0a637dc5a2c898a6,
    0x113f9804bef90dae, 0x1b710b35131c471b, 0x28db77f523047d84, 0x32caab7b40c72493, 0x3c9ebe0a15c9bebc,
    0x431d67c49c100d4c, 0x4cc5d4becb3e42b6, 0x597f299cfc657e2a, 0x5fcb6fab3ad6faec, 0x6c44198c4a475817,
];

pub fn sha512(d: &[u8]) -> Vec<u8> {
    let mut h: [u64; 8] = [
        0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1,
        0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179,
    ];
    let mut m = d.to_vec();
    m.push(0x80);
    while m.len() % 128 != 112 {
        m.push(0);
    }
    m.extend((d.len() as u128 * 8).to_be_bytes());
    for ch in m.chunks(128) {
        let mut w = [0u64; 80];
        for i in 0..16 {
            let mut b = [0; 8];
            b.copy_from_slice(&ch[i * 8..i * 8 + 8]);
            w[i] = u64::from_be_bytes(b);
        }
        for i in 16..80 {
            let s0 = w[i - 15].rotate_right(1) ^ w[i - 15].rotate_right(8) ^ (w[i - 15] >> 7);
            let s1 = w[i - 2].rotate_right(19) ^ w[i - 2].rotate_right(61) ^ (w[i - 2] >> 6);
            w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
        }
        let mut v = h;
        for i in 0..80 {
            let s1 = v[4].rotate_right(14) ^ v[4].rotate_right(18) ^ v[4].rotate_right(41);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(K[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(28) ^ v[0].rotate_right(34) ^ v[0].rotate_right(39);
            let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(maj);
            v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    h.iter().flat_map(|x| x.to_be_bytes()).collect()
}

fn filter_plan(c: &mut Case, n: usize) -> IoPlan {
    let mut p = if c.r.chance(1, 2) {
        let at = c.r.below(n + 2);
        IoPlan::fault(at, &mut c.r)
    } else {
        IoPlan::random(&mut c.r)
    };
    if c.r.chance(1, 2) {
        p.interrupt = 80;
    }
    p
}

fn c14_read(c: &mut Case) -> Res {
    let max = *c.r.pick(&[0usize, 1, 111, 112, 127, 128, 129, 300, 5000]);
    let d = gen::payload(&mut c.r, max);
    let plan = filter_plan(c, d.len());
    c.attach("data", &d);
    c.note(format!("{:?}", plan));
    let mut twin = MonReader::with(&d, plan, c.idx);
    let mut f = FilterRead::new(MonReader::with(&d, plan, c.idx));
    let mut passed = vec![];
    let calls = c.r.range(1, 60);
    let mut fault = false;
    for _ in 0..calls {
        c.eval();
        let n = match c.r.below(5) {
            0 => 0,
            1 => 1,
            2 => c.r.range(1, 9),
            _ => c.r.log(2000),
        };
        // stale bytes behind what is read must not count
        let mut a = vec![0x5a; n];
        let mut b = vec![0x5a; n];
        let x = sut("filtered read", || f.read(&mut a))?;
        let y = twin.read(&mut b);
        match (x, y) {
            (Ok(x), Ok(y)) => {
                want!(x == y, "filtered read gave {} bytes, the reader {}", x, y);
                want!(a == b, "filtered read delivered other bytes");
                passed.extend(&b[..y]);
                if y < n {
                    c.hit("short reads");
                }
            }
            (Err(x), Err(y)) => {
                want!(x.kind() == y.kind() && x.to_string() == y.to_string(), "filtered error {:?}, really {:?}", x, y);
                c.hit("errors passed on");
                fault |= y.kind() != std::io::ErrorKind::Interrupted;
            }
            (x, y) => return Err(format!("filtered read gave {:?}, the reader {:?}", x, y)),
        }
    }
    if c.r.chance(1, 4) {
        let inner = sut("into_inner", || f.into_inner())?;
        want!(inner.pos == twin.pos, "into_inner is at {}, should be at {}", inner.pos, twin.pos);
        return Ok(());
    }
    let h = sut("digest", || f.hash())?;
    want!(h == sha512(&passed), "digest of {} bytes read differs from SHA-512", passed.len());
    if fault {
        c.hit("digests after errors");
    }
    c.hits("bytes read", passed.len() as u64);
    c.seen(&[&passed, format!("{:?}", plan).as_bytes()]);
    c.sample(|| format!("{} reads, {} of {} bytes, {:?}", calls, passed.len(), d.len(), plan));
    Ok(())
}

fn c14_write(c: &mut Case) -> Res {
    let plan = filter_plan(c, 3000);
    c.note(format!("{:?}", plan));
    let zero = c.r.chance(1, 4);
    let mut twin = MonWriter::with(plan, c.idx);
    let mut inner = MonWriter::with(plan, c.idx);
    twin.zero = zero;
    inner.zero = zero;
    twin.flush_fails = c.r.chance(1, 4);
    inner.flush_fails = twin.flush_fails;
    let mut f = FilterWrite::new(inner);
    let calls = c.r.range(1, 60);
    for _ in 0..calls {
        c.eval();
        if c.r.chance(1, 8) {
            let x = sut("flush", || f.flush())?;
            let y = twin.flush();
            want!(x.as_ref().map_err(|e| (e.kind(), e.to_string())) == y.as_ref().map_err(|e| (e.kind(), e.to_string())), "flush gave {:?}, the writer {:?}", x, y);
            if y.is_err() {
                c.hit("failed flushes passed on");
            }
            continue;
        }
        let n = match c.r.below(5) {
            0 => 0,
            1 => c.r.range(1, 9),
            _ => c.r.log(1500),
        };
        let b = c.r.bytes(n);
        let x = sut("filtered write", || f.write(&b))?;
        let y = twin.write(&b);
        match (x, y) {
            (Ok(x), Ok(y)) => {
                want!(x == y, "filtered write took {} bytes, the writer {}", x, y);
                if y < n {
                    c.hit("short writes");
                }
            }
            (Err(x), Err(y)) => {
                want!(x.kind() == y.kind() && x.to_string() == y.to_string(), "filtered error {:?}, really {:?}", x, y);
                c.hit("errors passed on");
            }
            (x, y) => return Err(format!("filtered write gave {:?}, the writer {:?}", x, y)),
        }
    }
    if c.r.chance(1, 3) {
        let inner = sut("into_inner", || f.into_inner())?;
        want!(inner.out == twin.out, "other bytes written");
        want!(inner.log.flushes == twin.log.flushes, "{} flushes of {} passed on", inner.log.flushes, twin.log.flushes);
        c.hit("written bytes compared");
        return Ok(());
    }
    let h = sut("digest", || f.hash())?;
    want!(h == sha512(&twin.out), "digest of {} bytes written differs from SHA-512", twin.out.len());
    c.hits("bytes written", twin.out.len() as u64);
    c.seen(&[&twin.out, format!("{:?}", plan).as_bytes()]);
    Ok(())
}

/// Every method of `Read`: the digest covers what the wrapped reader handed out, however it was asked
/// Lengths, some of them 0, of the pieces of a buffer.
fn parts(r: &mut Rng, n: usize) -> Vec<usize> {
    let mut v = vec![];
    let mut left = n;
    for _ in 0..r.below(5) {
        let k = if r.chance(1, 4) { 0 } else { r.below(left + 1) };
        v.push(k);
        left -= k;
    }
    v.push(left);
    v
}

fn c14_read_any(c: &mut Case) -> Res {
    use std::io::IoSliceMut;
    let max = *c.r.pick(&[50usize, 300, 5000]);
    let mut d = gen::payload(&mut c.r, max);
    if c.r.chance(1, 3) {
        d.iter_mut().for_each(|b| *b &= 0x7f);
        if c.r.chance(1, 2) {
            d.push(0xc3);
        }
    }
    let plan = filter_plan(c, d.len());
    c.attach("data", &d);
    c.note(format!("{:?}", plan));
    let mut inner = MonReader::with(&d, plan, c.idx);
    let mut f = FilterRead::new(&mut inner);
    let mut got: Vec<u8> = vec![];
    let mut failed = false;
    let mut how = vec![];
    for _ in 0..c.r.range(1, 12) {
        c.eval();
        let n = c.r.log(600);
        let k = c.r.below(8);
        how.push(k);
        let r = match k {
            6 => {
                // gives back nothing that is not UTF-8, but takes it
                let mut v = String::new();
                let r = sut("read_to_string", || f.read_to_string(&mut v))?;
                got.extend(v.as_bytes());
                c.hit(if r.is_ok() { "strings read" } else { "strings refused" });
                r.map(|_| ())
            }
            0 => {
                let mut a = vec![0; n];
                let r = sut("read_exact", || f.read_exact(&mut a))?;
                if r.is_ok() {
                    got.extend(&a);
                }
                r
            }
            1 => {
                let mut a = vec![0; n];
                let mut v = vec![];
                let mut rest = &mut a[..];
                for k in parts(&mut c.r, n) {
                    let (x, y) = rest.split_at_mut(k);
                    v.push(IoSliceMut::new(x));
                    rest = y;
                }
                let r = sut("read_vectored", || f.read_vectored(&mut v))?;
                r.map(|n| got.extend(&a[..n]))
            }
            2 => {
                let mut v = vec![];
                let r = sut("read_to_end", || f.read_to_end(&mut v))?;
                got.extend(&v);
                r.map(|_| ())
            }
            3 => {
                let mut v = vec![];
                let r = sut("take", || f.by_ref().take(n as u64).read_to_end(&mut v))?;
                got.extend(&v);
                r.map(|_| ())
            }
            4 => {
                let mut v = vec![];
                let r = sut("copy", || std::io::copy(&mut f.by_ref().take(n as u64), &mut v))?;
                got.extend(&v);
                r.map(|_| ())
            }
            _ => {
                let mut a = vec![0; n];
                let r = sut("read", || f.read(&mut a))?;
                r.map(|n| got.extend(&a[..n]))
            }
        };
        if r.is_err() {
            // what a failed call delivered is not always known
            failed = true;
            break;
        }
    }
    let h = sut("digest", || f.hash())?;
    let taken = inner.pos;
    if !failed {
        want!(got == d[..taken], "{:?}: delivered {} bytes, the reader gave {}", how, got.len(), taken);
    } else {
        c.hit("failed whole-buffer reads");
    }
    want!(
        h == sha512(&d[..taken]),
        "{:?}: digest of {} bytes read differs from SHA-512",
        how,
        taken
    );
    c.hit("reads by any method");
    c.seen(&[&d[..taken], format!("{:?}{:?}", how, plan).as_bytes()]);
    Ok(())
}

/// Every method of `Write`: the digest covers what the wrapped writer took
fn c14_write_any(c: &mut Case) -> Res {
    use std::io::IoSlice;
    let plan = filter_plan(c, 3000);
    c.note(format!("{:?}", plan));
    let mut inner = MonWriter::with(plan, c.idx);
    inner.zero = c.r.chance(1, 4);
    let mut f = FilterWrite::new(&mut inner);
    let mut sent: Vec<u8> = vec![];
    let mut failed = false;
    let mut how = vec![];
    for _ in 0..c.r.range(1, 12) {
        c.eval();
        let n = c.r.log(1200);
        let b = c.r.bytes(n);
        let k = c.r.below(6);
        how.push(k);
        let r = match k {
            0 | 1 => sut("write_all", || f.write_all(&b))?.map(|_| b.len()),
            2 => {
                let mut v = vec![];
                let mut rest = &b[..];
                for k in parts(&mut c.r, n) {
                    let (x, y) = rest.split_at(k);
                    v.push(IoSlice::new(x));
                    rest = y;
                }
                sut("write_vectored", || f.write_vectored(&v))?
            }
            3 => {
                let t: String = b.iter().map(|x| (b'a' + x % 26) as char).collect();
                let r = sut("write_fmt", || write!(f, "{}", t))?;
                if r.is_ok() {
                    sent.extend(t.as_bytes());
                }
                r.map(|_| 0)
            }
            4 => sut("copy", || std::io::copy(&mut &b[..], &mut f))?.map(|_| b.len()),
            _ => sut("write", || f.write(&b))?,
        };
        match r {
            Ok(n) => sent.extend(if k == 3 { &b[..0] } else { &b[..n] }),
            Err(_) => {
                failed = true;
                break;
            }
        }
    }
    let h = sut("digest", || f.hash())?;
    if failed {
        want!(inner.out.starts_with(&sent), "{:?}: other bytes written", how);
        c.hit("failed whole-buffer writes");
    } else {
        want!(inner.out == sent, "{:?}: {} bytes sent, the writer took {}", how, sent.len(), inner.out.len());
    }
    want!(
        h == sha512(&inner.out),
        "{:?}: digest of {} bytes written differs from SHA-512",
        how,
        inner.out.len()
    );
    c.hit("writes by any method");
    c.seen(&[&inner.out, format!("{:?}{:?}", how, plan).as_bytes()]);
    Ok(())
}

/// through read_to_end and write_all, as a pipeline would
/// Single calls of any size.
fn c14_large(c: &mut Case) -> Res {
    let n = match c.r.below(3) {
        0 => (1usize << c.r.range(8, 22)) - 3 + c.r.below(7),
        1 => c.r.range(10_000, 200_000),
        _ => c.r.range(1 << 20, 5 << 20),
    };
    let mut d = c.r.bytes(1 << 16);
    while d.len() < n {
        let k = d.len().min(n - d.len());
        d.extend_from_within(..k);
        let at = c.r.below(d.len());
        d[at] = c.r.u8();
    }
    d.truncate(n);
    c.note(format!("{} bytes at once", n));
    c.eval();
    let mut w = FilterWrite::new(vec![]);
    let k = sut("write", || w.write(&d))?.map_err(|e| format!("write of {} bytes failed: {}", n, e))?;
    want!(k == n, "write took {} of {} bytes", k, n);
    let right = sha512(&d);
    want!(sut("digest", || w.hash())? == right, "digest of {} bytes written at once differs from SHA-512", n);
    let mut f = FilterRead::new(&d[..]);
    let mut b = vec![0; n + c.r.below(3)];
    let k = sut("read", || f.read(&mut b))?.map_err(|e| format!("read of {} bytes failed: {}", n, e))?;
    want!(k == n && b[..n] == d[..], "read delivered {} of {} bytes, or others", k, n);
    want!(sut("digest", || f.hash())? == right, "digest of {} bytes read at once differs from SHA-512", n);
    c.hit("single calls of any size");
    c.point("sizes", n as u64);
    c.seen(&[&d[..64], &n.to_le_bytes()]);
    Ok(())
}

fn c14_pipe(c: &mut Case) -> Res {
    let max = *c.r.pick(&[100usize, 5000, 70_000]);
    let d = gen::payload(&mut c.r, max);
    c.attach("data", &d);
    c.eval();
    c.seen(&[&d]);
    let plan = IoPlan { interrupt: 50, ..IoPlan::random(&mut c.r) };
    let mut f = FilterRead::new(MonReader::with(&d, plan, c.idx));
    let mut got = vec![];
    let r = sut("read_to_end", || f.read_to_end(&mut got))?;
    want!(r.is_ok() && got == d, "reading through the filter changed the data");
    want!(sut("digest", || f.hash())? == sha512(&d), "digest of {} bytes read differs from SHA-512", d.len());
    let mut w = FilterWrite::new(MonWriter::with(plan, c.idx));
    let r = sut("write_all", || w.write_all(&d))?;
    want!(r.is_ok(), "write_all failed");
    want!(sut("digest", || w.hash())? == sha512(&d), "digest of {} bytes written differs from SHA-512", d.len());
    c.hit("pipelines");
    Ok(())
}

// ---- C22 ----

#[derive(Clone)]
struct Job {
    bytes: Vec<u8>,
    blks: Vec<Blk>,
    payload: Vec<u8>,
    x: Arc<(Vec<u8>, Vec<u8>)>,
    toks: Vec<Tok>,
    level: u8,
}

#[derive(PartialEq, Debug)]
struct Outcome {
    blocks: Vec<Block>,
    payload: Vec<u8>,
    again: Vec<u8>,
    trace: Vec<Trace>,
    meta: Vec<u8>,
    codes: Vec<Code>,
    guesses: Vec<Vec<Code>>,
}

fn job(r: &mut Rng, light: bool) -> Job {
    let budget = if light { 60 } else { *r.pick(&[60usize, 400, 3000]) };
    let blks = gen::blocks(r, budget);
    let x: Ctx = ctx(r, if light { 0 } else { r.clone().below(2) });
    let toks = gen::tokenise(r, &x.pre, &x.data);
    Job {
        bytes: encode(&blks).bits.bytes,
        payload: expand_blks(&blks),
        blks,
        x: Arc::new((x.pre, x.data)),
        toks,
        level: r.range(1, 9) as u8,
    }
}

/// Jobs that agree in every size and differ in a few literals only.
fn siblings(r: &mut Rng, n: usize) -> Vec<Job> {
    let mut j = job(r, false);
    let mut blks = vec![];
    for b in j.blks {
        blks.push(match b {
            Blk::Dyn(h, t) => Blk::Dyn(gen::explicit_hdr(r, h), t),
            b => b,
        });
    }
    // something in it must be worth exchanging
    let mut t = vec![];
    for _ in 0..12 {
        t.push(Tok::Lit(r.u8()));
        t.push(Tok::Lit(r.u8()));
    }
    let h = gen::gen_hdr(r, &t);
    blks.push(Blk::Dyn(gen::explicit_hdr(r, h), t.clone()));
    blks.push(Blk::Fixed(t));
    if r.chance(1, 2) {
        // data in front takes nothing from the references behind
        blks.rotate_right(2);
    }
    j.blks = blks;
    let mut out = vec![];
    for i in 0..n {
        if i > 0 {
            let used: Vec<u8> = j
                .blks
                .iter()
                .flat_map(|b| b.toks().unwrap_or(&[]))
                .filter_map(|t| if let Tok::Lit(b) = *t { Some(b) } else { None })
                .chain(j.x.1.iter().cloned())
                .collect();
            for _ in 0..r.range(1, 3) {
                // high ones, so that what comes first stays the same for long
                let a = *r.pick(&used);
                let b = loop {
                    let b = if r.chance(1, 2) { *r.pick(&used) } else { r.u8() };
                    if (b < 144) == (a < 144) {
                        break b;
                    }
                };
                j.blks = gen::twin(&j.blks, a, b);
                let p = |d: &[u8]| d.iter().map(|x| if *x == a { b } else if *x == b { a } else { *x }).collect::<Vec<u8>>();
                j.x = Arc::new((p(&j.x.0), p(&j.x.1)));
                j.toks = j.toks.iter().map(|t| if let Tok::Lit(x) = *t { Tok::Lit(p(&[x])[0]) } else { *t }).collect();
            }
        }
        j.bytes = encode(&j.blks).bits.bytes;
        j.payload = expand_blks(&j.blks);
        out.push(j.clone());
    }
    assert!(out.iter().all(|o| o.bytes.len() == out[0].bytes.len() && o.payload.len() == out[0].payload.len()));
    out
}

/// Jobs over the same data that differ in the level only, and should in what comes out:
/// long matches, each behind more near ones than some level looks at.
fn levels(r: &mut Rng, n: usize) -> Vec<Job> {
    let mut pre = vec![];
    let mut data = vec![];
    let mut many = 3000;
    for k in 0..r.range(2, 6) {
        let start = [200 + k as u8, r.u8(), r.u8()];
        let tail = r.range(2, 60);
        let long: Vec<u8> = start.iter().cloned().chain(r.bytes(tail)).collect();
        let near = r.range(1, *r.clone().pick(&[4, 8, 16, 32, 128, 256, 1024, 3000])).min(many);
        many -= near;
        pre.extend(&long);
        for _ in 0..near {
            pre.extend(start);
            // up to how long they are decides as well
            pre.extend(&long[3..3 + if r.chance(1, 4) { r.below(tail) } else { 0 }]);
            pre.push(long[3] ^ 1);
        }
        data.extend(&long);
        data.push(7);
    }
    let mut j = job(r, true);
    let cut = pre.len() - pre.len().min(WINDOW);
    let x = Ctx { pre: pre[cut..].to_vec(), data };
    j.toks = gen::tokenise(r, &x.pre, &x.data);
    j.x = Arc::new((x.pre, x.data));
    let mut all: Vec<u8> = (1..=9).collect();
    // neighbours more often than not
    let first = r.below(9);
    all.rotate_left(first);
    if r.chance(1, 3) {
        for i in 1..9 {
            all.swap(i, r.range(i, 8));
        }
    }
    all[..n].iter().map(|l| Job { level: *l, ..j.clone() }).collect()
}

/// Work that goes wrong: whatever it leaves behind must not matter.
fn mishaps(c: &mut Case, jobs: &[Job]) -> Res {
    for _ in 0..c.r.range(1, 6) {
        let j = c.r.pick(jobs).clone();
        let mut b = j.bytes.clone();
        match c.r.below(6) {
            0 => {
                gen::mutate(&mut c.r, &mut b);
                let (p, _) = parse_bytes(&b)?;
                let _ = decode_into(&p.blocks, vec![])?;
            }
            1 => {
                b.truncate(c.r.below(b.len() + 1));
                let (p, _) = parse_bytes(&b)?;
                let _ = write_blocks(&p.blocks, vec![])?;
            }
            2 => {
                let at = c.r.below(b.len());
                let plan = IoPlan { fault_at: Some(at), ..IoPlan::random(&mut c.r) };
                let mut rd = MonReader::with(&b, plan, c.idx);
                parse(&mut rd)?;
            }
            3 => {
                let (p, _) = parse_bytes(&b)?;
                let at = c.r.below(j.payload.len() + 1);
                let plan = IoPlan { fault_at: Some(at), ..IoPlan::random(&mut c.r) };
                let _ = decode_into(&p.blocks, MonWriter::with(plan, c.idx))?;
                let plan = IoPlan { fault_at: Some(c.r.below(b.len())), ..IoPlan::random(&mut c.r) };
                let _ = write_blocks(&p.blocks, MonWriter::with(plan, c.idx))?;
            }
            4 => {
                // half way, then dropped
                let mut it = librezip::parse_deflate(&b[..]);
                let _ = sut("parsing", || it.next())?;
                let cfg = Config::gzip(j.level);
                let refs = AllRefs::with_sixteen(&j.x.0, &j.x.1, cfg.wams.insert_only_below_length.unwrap_or(u16::MAX));
                let tech = Technique::new(cfg, &refs);
                let mut s = tech.scanner();
                let k = c.r.below(j.toks.len() + 1);
                for t in lib_codes(&j.toks[..k]) {
                    sut("predicting", || s.codes())?;
                    sut("feedback", || s.feedback(t))?;
                }
            }
            _ => {
                let n = c.r.below(200);
                let g = c.r.bytes(n);
                let _ = sut("reading metadata", || librezip::serialise_trace::read(&g[..]).map(|_| ()).map_err(|e| format!("{:#}", e)))?;
                let _ = sut("reading a header", || librezip::gzip::discard_header(&mut &g[..]).map(|_| ()).map_err(|e| format!("{:#}", e)))?;
            }
        }
        c.hit("failures in between");
    }
    Ok(())
}

/// The same memory holds one job's data after the other's.
#[derive(Default)]
struct Desk {
    bytes: Vec<u8>,
    pre: Vec<u8>,
    data: Vec<u8>,
}

impl Desk {
    fn work(&mut self, j: &Job) -> Result<Outcome, String> {
        for (to, from) in [(&mut self.bytes, &j.bytes), (&mut self.pre, &j.x.0), (&mut self.data, &j.x.1)] {
            to.clear();
            to.reserve(1 << 18);
            to.extend(from);
        }
        do_job_on(j, &self.bytes, &self.pre, &self.data)
    }
}

/// What identifies an outcome: the same for any error, as it may name anything.
fn digest(o: &Result<Outcome, String>) -> u64 {
    match o {
        Ok(o) => fnv(format!("{:?}", o).as_bytes(), FNV0),
        Err(_) => 0,
    }
}

fn put(to: &mut Vec<u8>, b: &[u8]) {
    to.extend((b.len() as u32).to_le_bytes());
    to.extend(b);
}

/// The job done by a process that does nothing else.
fn far_from_all(j: &Job) -> u64 {
    let mut b = vec![];
    put(&mut b, &j.bytes);
    put(&mut b, &j.x.0);
    put(&mut b, &j.x.1);
    put(&mut b, &[j.level]);
    let mut t = vec![];
    for k in &j.toks {
        let (x, y) = match *k {
            Tok::Lit(b) => (u16::from(b), 0),
            Tok::Mat { len, dist, .. } => (len, dist),
        };
        t.extend(x.to_le_bytes());
        t.extend(y.to_le_bytes());
    }
    put(&mut b, &t);
    let mut p = Command::new(std::env::current_exe().expect("own name"))
        .arg("alone")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .spawn()
        .expect("a process of its own");
    p.stdin.take().unwrap().write_all(&b).expect("job sent");
    let out = p.wait_with_output().expect("process ended");
    let s = String::from_utf8_lossy(&out.stdout);
    match s.trim().parse() {
        Ok(d) if out.status.success() => d,
        _ => 0,
    }
}

pub fn alone_main() {
    let mut b = vec![];
    std::io::stdin().read_to_end(&mut b).expect("job");
    let mut at = 0;
    let mut get = || {
        let n = u32::from_le_bytes([b[at], b[at + 1], b[at + 2], b[at + 3]]) as usize;
        at += 4 + n;
        b[at - n..at].to_vec()
    };
    let bytes = get();
    let x = Arc::new((get(), get()));
    let level = get()[0];
    let toks = get()
        .chunks(4)
        .map(|k| {
            let (x, y) = (u16::from_le_bytes([k[0], k[1]]), u16::from_le_bytes([k[2], k[3]]));
            if y == 0 {
                Tok::Lit(x as u8)
            } else {
                Tok::mat(x, y)
            }
        })
        .collect();
    let j = Job { bytes, blks: vec![], payload: vec![], x, toks, level };
    println!("{}", digest(&do_job(&j)));
}

fn do_job(j: &Job) -> Result<Outcome, String> {
    do_job_on(j, &j.bytes, &j.x.0, &j.x.1)
}

fn do_job_on(j: &Job, bytes: &[u8], pre: &[u8], data: &[u8]) -> Result<Outcome, String> {
    let (p, _) = parse_bytes(bytes)?;
    if let Some(e) = p.err {
        return Err(format!("stream refused: {}", e));
    }
    let mut payload = vec![];
    decode_into(&p.blocks, &mut payload)??;
    let again = write_blocks(&p.blocks, vec![])??;
    let codes = lib_codes(&j.toks);
    let trace = sut("try_gzip", || librezip::tracer::try_gzip(j.level, pre, data, &codes))?;
    let meta = sut("writing metadata", || librezip::serialise_trace::write(&trace))?;
    let cfg = Config::gzip(j.level);
    let refs = AllRefs::with_sixteen(pre, data, cfg.wams.insert_only_below_length.unwrap_or(u16::MAX));
    let tech = Technique::new(cfg, &refs);
    let back = sut("restoring", || tr::restore(&trace, &tech))?;
    let mut s = tech.scanner();
    let mut guesses = vec![];
    for k in codes {
        guesses.push(sut("predicting", || s.codes())?);
        sut("feedback", || s.feedback(k))?;
    }
    Ok(Outcome {
        blocks: p.blocks,
        payload,
        again,
        trace,
        meta,
        codes: back,
        guesses,
    })
}

/// The outcome must be that of a process which did nothing but this job.
fn as_alone(j: &Job, o: &Result<Outcome, String>, far: u64) -> Res {
    if digest(o) == far {
        return Ok(());
    }
    Err(match o {
        Err(e) => format!("fails here but not alone: {}", e),
        Ok(_) if far == 0 => "fails alone but not here".to_string(),
        Ok(o) if o.payload != j.payload => "other payload than alone".to_string(),
        Ok(o) if o.again != j.bytes => "other stream written back than alone".to_string(),
        Ok(o) if o.codes != lib_codes(&j.toks) => "other codes restored than alone".to_string(),
        Ok(_) => "other blocks, predictions or metadata than alone".to_string(),
    })
}

fn c22_siblings(c: &mut Case) -> Res {
    let n = c.r.range(2, 4);
    let jobs = siblings(&mut c.r, n);
    c22_alike(c, jobs)
}

fn c22_levels(c: &mut Case) -> Res {
    let n = c.r.range(2, 4);
    let jobs = levels(&mut c.r, n);
    c.note(format!("levels {:?}", jobs.iter().map(|j| j.level).collect::<Vec<u8>>()));
    c22_alike(c, jobs)
}

/// One after the other, again and again, in any order.
fn c22_alike(c: &mut Case, jobs: Vec<Job>) -> Res {
    let n = jobs.len();
    for (i, j) in jobs.iter().enumerate() {
        c.attach(&format!("stream {}", i), &j.bytes);
        c.attach(&format!("data {}", i), &j.x.1);
    }
    c.eval();
    let far: Vec<u64> = jobs.iter().map(far_from_all).collect();
    let tell = |a: &Job, b: &Job, i: usize, k: usize| a.level != b.level && far[i] != far[k];
    for (i, a) in jobs.iter().enumerate() {
        for (k, b) in jobs[..i].iter().enumerate() {
            if tell(a, b, i, k) {
                c.point("levels that come out differently", u64::from(a.level.min(b.level)) * 10 + u64::from(a.level.max(b.level)));
            }
        }
    }
    let mut desk = Desk::default();
    let mut order = vec![];
    for _ in 0..3 * n {
        let k = c.r.below(n);
        order.push(k as u8);
        let o = if c.r.chance(1, 2) { desk.work(&jobs[k]) } else { do_job(&jobs[k]) };
        as_alone(&jobs[k], &o, far[k]).map_err(|e| format!("job {} after {:?}: {}", k, order, e))?;
        c.hit("siblings told apart");
        if c.r.chance(1, 3) {
            mishaps(c, &jobs)?;
        }
    }
    c.seen(&[&order, &jobs[0].bytes]);
    Ok(())
}

/// Small jobs, so often that nothing which counts can stay hidden: each result is that of the
/// first time.
/// whether this build is too slow for all of it: ThreadSanitizer has nothing to say of one thread
fn slow_build() -> bool {
    cfg!(debug_assertions) || std::env::var_os("TSAN_OPTIONS").is_some()
}

fn c22_longlived(c: &mut Case) -> Res {
    let few = slow_build();
    let (parses, predictions) = if cfg!(miri) {
        (200, 50)
    } else if few {
        (70_000, 12_000)
    } else if c.thorough {
        (600_000, 160_000)
    } else {
        (300_000, 80_000)
    };
    c.eval();
    // streams
    let streams: Vec<Valid> = (0..30).map(|_| tiny_stream(&mut c.r)).collect();
    let mut first: Vec<Option<u64>> = vec![None; streams.len()];
    let mut blocks = 0u64;
    let mut rounds = 0u64;
    while blocks < parses {
        for (i, v) in streams.iter().enumerate() {
            let (p, _) = parse_bytes(&v.bytes)?;
            let mut payload = vec![];
            let mut again = vec![];
            if p.err.is_none() {
                decode_into(&p.blocks, &mut payload)??;
                again = write_blocks(&p.blocks, vec![])??;
            }
            blocks += p.blocks.len() as u64;
            if let Some(e) = p.err {
                c.attach("stream", &v.bytes);
                return Err(format!("stream {} after {} blocks in this process: {}", i, blocks, e));
            }
            if payload != expand_blks(&v.blks) || again != v.bytes {
                c.attach("stream", &v.bytes);
                return Err(format!(
                    "stream {} after {} blocks in this process: other payload or other bytes written than it should be",
                    i, blocks
                ));
            }
            // all of it is compared now and then, being costly
            if first[i].is_none() || (rounds + i as u64) % 16 == 0 {
                let d = fnv(format!("{:?}", p.blocks).as_bytes(), FNV0);
                if d != *first[i].get_or_insert(d) {
                    c.attach("stream", &v.bytes);
                    return Err(format!("stream {} after {} blocks: other blocks than the first time", i, blocks));
                }
            }
        }
        rounds += 1;
    }
    c.hits("blocks parsed in one process", blocks);
    // predictions
    let mut jobs = vec![];
    for _ in 0..24 {
        let mut pre = c.r.bytes(6);
        pre.extend(pre.clone());
        let n = c.r.range(1, 12);
        let mut data: Vec<u8> = (0..n).map(|_| *c.r.pick(&pre)).collect();
        data.extend(&pre[..c.r.range(3, 7)]);
        let toks = gen::tokenise(&mut c.r, &pre, &data);
        jobs.push((pre, data, lib_codes(&toks), c.r.range(1, 9) as u8));
    }
    let mut first: Vec<Option<(Vec<u8>, Vec<librezip::Trace>)>> = vec![None; jobs.len()];
    let mut done = 0u64;
    while done < predictions {
        for (i, (pre, data, codes, level)) in jobs.iter().enumerate() {
            let trace = sut("try_gzip", || librezip::tracer::try_gzip(*level, pre, data, codes))?;
            let meta = sut("writing metadata", || librezip::serialise_trace::write(&trace))?;
            let cfg = Config::gzip(*level);
            let refs = AllRefs::with_sixteen(pre, data, cfg.wams.insert_only_below_length.unwrap_or(u16::MAX));
            let tech = Technique::new(cfg, &refs);
            let back = sut("restoring", || tr::restore(&trace, &tech))?;
            done += 1;
            let same = match &first[i] {
                Some((m, t)) => *m == meta && *t == trace,
                None => true,
            };
            if !same || back != *codes {
                c.attach("preroll", pre);
                c.attach("data", data);
                c.note(format!("level {}, codes {:?}", level, codes));
                return Err(format!(
                    "job {} after {} predictions in this process: {}",
                    i,
                    done,
                    if same { "other codes restored" } else { "other metadata than the first time" }
                ));
            }
            if first[i].is_none() {
                first[i] = Some((meta, trace));
            }
        }
    }
    c.hits("predictions in one process", done);
    let all: Vec<u8> = streams.iter().flat_map(|v| v.bytes.clone()).collect();
    c.seen(&[&all]);
    Ok(())
}

/// something big once, and then so many small ones that 16 bits of whatever was remembered of it
/// come round again
fn c22_afterlarge(c: &mut Case) -> Res {
    let after = if cfg!(miri) {
        20
    } else if slow_build() {
        2_000
    } else {
        65_540
    };
    c.eval();
    let odd: Vec<Valid> = (0..3).map(|_| v_random(c)).collect();
    // these send as few of the code lengths' code lengths as they can, five
    let mut ll = vec![8u8; 257];
    ll[0] = 0;
    let mut cl = [0u8; 19];
    cl[0] = 1;
    cl[8] = 1;
    let few_sent = DynHdr {
        syms: ll.iter().map(|l| (*l, 0)).chain(std::iter::once((0, 0))).collect(),
        ll,
        dd: vec![0],
        cl,
        hclen: 5,
    };
    let small: Vec<Valid> = [&[1u8][..], &[1, 2], &[255, 255, 255]]
        .iter()
        .map(|d| {
            let t: Vec<Tok> = d.iter().map(|b| Tok::Lit(*b)).collect();
            valid(vec![Blk::Dyn(few_sent.clone(), t)])
        })
        .collect();
    for v in &odd {
        let (p, _) = parse_bytes(&v.bytes)?;
        let mut out = vec![];
        decode_into(&p.blocks, &mut out)??;
    }
    for n in 0..after {
        let v = &small[n % small.len()];
        let (p, _) = parse_bytes(&v.bytes)?;
        let mut payload = vec![];
        decode_into(&p.blocks, &mut payload)??;
        let again = write_blocks(&p.blocks, vec![])??;
        if payload != expand_blks(&v.blks) || again != v.bytes {
            c.attach("stream", &v.bytes);
            return Err(format!("small stream {} after a few large ones: payload {:?}, error {:?}", n, payload, p.err));
        }
    }
    let big = c.r.bytes(40_000);
    let toks = gen::tokenise(&mut c.r, &big[..20_000], &big[20_000..]);
    sut("try_gzip", || librezip::tracer::try_gzip(2, &big[..20_000], &big[20_000..], &lib_codes(&toks)))?;
    for n in 0..after {
        // nothing to find
        let data: Vec<u8> = c.r.bytes(7);
        if (0..4).any(|i| data[i + 1..].windows(3).any(|w| *w == data[i..i + 3])) {
            continue;
        }
        let codes: Vec<Code> = data.iter().map(|b| Code::Literal(*b)).collect();
        let level = (n % 9) as u8 + 1;
        let trace = sut("try_gzip", || librezip::tracer::try_gzip(level, &[], &data, &codes))?;
        if trace != vec![librezip::Trace::Correct; codes.len()] {
            c.attach("data", &data);
            return Err(format!("level {}: {:?} for seven literals, {} jobs after a large one", level, trace, n));
        }
    }
    c.hits("small jobs after a large one", 2 * after as u64);
    let all: Vec<u8> = odd.iter().flat_map(|v| v.bytes.clone()).collect();
    c.seen(&[&all]);
    Ok(())
}

/// A few tiny blocks of every kind, most with a code description.
fn tiny_stream(r: &mut Rng) -> Valid {
    let mut blks = vec![];
    for i in 0..r.range(3, 9) {
        let n = r.range(1, 5);
        let mut t: Vec<Tok> = r.bytes(n).into_iter().map(Tok::Lit).collect();
        if r.chance(1, 2) {
            t.push(Tok::mat(r.range(3, 20) as u16, 1));
        }
        blks.push(match i % 8 {
            3 => Blk::Stored(r.bytes(n)),
            5 => Blk::Fixed(t),
            _ => Blk::Dyn(gen::gen_hdr(r, &t), t),
        });
    }
    valid(blks)
}

fn c22_interleaved(c: &mut Case) -> Res {
    let n = c.r.range(2, 5);
    let jobs: Vec<Job> = if c.r.chance(1, 3) {
        siblings(&mut c.r, n)
    } else if c.r.chance(1, 4) {
        levels(&mut c.r, n)
    } else {
        (0..n).map(|_| job(&mut c.r, false)).collect()
    };
    for (i, j) in jobs.iter().enumerate() {
        c.attach(&format!("stream {}", i), &j.bytes);
    }
    c.eval();
    let mut alone: Vec<Outcome> = vec![];
    for (i, j) in jobs.iter().enumerate() {
        let o = do_job(j);
        as_alone(j, &o, far_from_all(j)).map_err(|e| format!("job {}: {}", i, e))?;
        match o {
            Ok(o) => alone.push(o),
            // wrong, but for another property to say
            Err(_) => return Ok(()),
        }
    }
    // streams, block by block, in random order
    let mut its: Vec<_> = jobs.iter().map(|j| Some(librezip::parse_deflate(&j.bytes[..]))).collect();
    let mut wins: Vec<CircularBuffer> = (0..n).map(|_| CircularBuffer::new()).collect();
    let mut outs: Vec<Vec<u8>> = vec![vec![]; n];
    let mut blocks: Vec<Vec<Block>> = vec![vec![]; n];
    let mut order = vec![];
    while its.iter().any(|i| i.is_some()) {
        let k = c.r.below(n);
        if let Some(it) = its[k].as_mut() {
            order.push(k as u8);
            match sut("parsing", || it.next())? {
                Some(Ok(b)) => {
                    sut("decoding", || librezip::decompressed_block(&mut outs[k], &mut wins[k], &b))?
                        .map_err(|e| format!("decoding while interleaved: {:#}", e))?;
                    blocks[k].push(b);
                }
                Some(Err(e)) => return Err(format!("refused while interleaved with {} others: {:#}", n - 1, e)),
                None => its[k] = None,
            }
        }
    }
    for k in 0..n {
        want!(blocks[k] == alone[k].blocks, "blocks of stream {} differ when interleaved", k);
        want!(outs[k] == alone[k].payload, "payload of stream {} differs when interleaved", k);
        let l = outs[k].len();
        want!(wins[k].vec() == outs[k][l - l.min(WINDOW)..], "window {} differs when interleaved", k);
    }
    // predictions, step by step; two scanners share each technique
    let cfgs: Vec<Config> = jobs.iter().map(|j| Config::gzip(j.level)).collect();
    let refs: Vec<AllRefs> = jobs
        .iter()
        .zip(&cfgs)
        .map(|(j, c)| AllRefs::with_sixteen(&j.x.0, &j.x.1, c.wams.insert_only_below_length.unwrap_or(u16::MAX)))
        .collect();
    let techs: Vec<Technique> = refs.iter().zip(&cfgs).map(|(r, c)| Technique::new(*c, r)).collect();
    let mut scs: Vec<_> = (0..2 * n).map(|k| techs[k % n].scanner()).collect();
    let mut at = vec![0; 2 * n];
    let codes: Vec<Vec<Code>> = jobs.iter().map(|j| lib_codes(&j.toks)).collect();
    let mut left: usize = 2 * codes.iter().map(|k| k.len()).sum::<usize>();
    while left > 0 {
        let k = c.r.below(2 * n);
        let j = k % n;
        let burst = c.r.range(1, 5);
        for _ in 0..burst {
            if at[k] == codes[j].len() {
                break;
            }
            let g = sut("predicting", || scs[k].codes())?;
            want!(g == alone[j].guesses[at[k]], "prediction {} of job {} differs when interleaved", at[k], j);
            sut("feedback", || scs[k].feedback(codes[j][at[k]]))?;
            at[k] += 1;
            left -= 1;
        }
        order.push(k as u8);
    }
    // and all over again
    if c.r.chance(1, 2) {
        mishaps(c, &jobs)?;
    }
    for (k, j) in jobs.iter().enumerate().rev() {
        let o = do_job(j).map_err(|e| format!("job {} fails when repeated: {}", k, e))?;
        want!(o == alone[k], "job {} gives other results when repeated", k);
        c.hit("repeated");
    }
    c.hit("interleaved");
    c.hits("steps interleaved", order.len() as u64);
    c.seen(&[&order, &jobs[0].bytes]);
    c.sample(|| format!("{} streams, steps {:?}...", n, &order[..order.len().min(30)]));
    Ok(())
}

type Done = Vec<Vec<Result<Outcome, String>>>;

fn run_threads(jobs: &[Job], n: usize) -> Result<Done, String> {
    let gate = Arc::new(Barrier::new(n));
    let jobs: Arc<Vec<Job>> = Arc::new(jobs.to_vec());
    let hs: Vec<_> = (0..n)
        .map(|t| {
            let gate = gate.clone();
            let jobs = jobs.clone();
            thread::spawn(move || {
                gate.wait();
                // each starts elsewhere
                (0..jobs.len()).map(|k| do_job(&jobs[(k + t) % jobs.len()])).collect()
            })
        })
        .collect();
    hs.into_iter()
        .map(|h| h.join().map_err(|_| "thread panicked".to_string()))
        .collect()
}

fn compare_threads(jobs: &[Job], got: &Done, far: &[u64]) -> Res {
    for (t, g) in got.iter().enumerate() {
        for (k, o) in g.iter().enumerate() {
            let w = (k + t) % jobs.len();
            as_alone(&jobs[w], o, far[w]).map_err(|e| format!("job {} on thread {}: {}", w, t, e))?;
        }
    }
    Ok(())
}

fn c22_threads(c: &mut Case) -> Res {
    let n = c.r.range(2, 12);
    let k = c.r.range(1, 5);
    let jobs: Vec<Job> = if c.r.chance(1, 3) {
        siblings(&mut c.r, k)
    } else if c.r.chance(1, 4) {
        levels(&mut c.r, k)
    } else {
        (0..k).map(|_| job(&mut c.r, false)).collect()
    };
    for (i, j) in jobs.iter().enumerate() {
        c.attach(&format!("stream {}", i), &j.bytes);
    }
    c.eval();
    let got = run_threads(&jobs, n)?;
    compare_threads(&jobs, &got, &jobs.iter().map(far_from_all).collect::<Vec<u64>>())?;
    c.hit("concurrent runs");
    c.hits("jobs done concurrently", (n * jobs.len()) as u64);
    c.point("threads", n as u64);
    c.seen(&[&jobs[0].bytes, &[n as u8]]);
    Ok(())
}

/// a BlockIter and a window used from one thread after another
fn c22_moved(c: &mut Case) -> Res {
    let j = job(&mut c.r, false);
    c.attach("stream", &j.bytes);
    c.eval();
    let alone = match do_job(&j) {
        Ok(o) => o,
        Err(_) => return Ok(()),
    };
    let bytes = Arc::new(j.bytes.clone());
    struct Own(Arc<Vec<u8>>, usize);
    impl Read for Own {
        fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
            let n = b.len().min(self.0.len() - self.1);
            b[..n].copy_from_slice(&self.0[self.1..self.1 + n]);
            self.1 += n;
            Ok(n)
        }
    }
    let mut it = librezip::parse_deflate(Own(bytes, 0));
    let mut w = CircularBuffer::new();
    let mut out = vec![];
    let mut blocks = vec![];
    loop {
        let (it2, w2, out2, b) = thread::spawn(move || {
            let (mut it, mut w, mut out) = (it, w, out);
            let b = it.next();
            if let Some(Ok(b)) = &b {
                let _ = librezip::decompressed_block(&mut out, &mut w, b);
            }
            (it, w, out, b)
        })
        .join()
        .map_err(|_| "a step on another thread panicked".to_string())?;
        it = it2;
        w = w2;
        out = out2;
        match b {
            Some(Ok(b)) => blocks.push(b),
            Some(Err(e)) => return Err(format!("refused when moved between threads: {:#}", e)),
            None => break,
        }
    }
    want!(blocks == alone.blocks && out == alone.payload, "moving a stream between threads changes it");
    c.hit("streams moved between threads");
    Ok(())
}

/// A fresh process whose very first use is concurrent.
pub fn threads_main(seed: u64, n: usize, light: bool) {
    let mut r = Rng::new(seed ^ 0x7468_7265_6164);
    let mut jobs: Vec<Job> = (0..if light { 2 } else { 4 }).map(|_| job(&mut r, light)).collect();
    // what is built on first use is the fixed code, for reading or for writing
    if !light {
        jobs.extend(siblings(&mut r, 2));
    }
    let fixed = vec![
        Blk::Fixed(vec![Tok::Lit(1), Tok::Lit(200), Tok::mat(5, 2)]),
        Blk::Fixed(vec![Tok::mat(258, 1), Tok::mat(3, 7)]),
    ];
    for j in jobs.iter_mut().filter(|_| light) {
        j.blks = fixed.clone();
        j.bytes = encode(&fixed).bits.bytes;
        j.payload = expand_blks(&fixed);
    }
    let res = run_threads(&jobs, n).and_then(|got| {
        // the interpreter starts no processes
        let far = jobs.iter().map(|j| if cfg!(miri) { digest(&do_job(j)) } else { far_from_all(j) });
        compare_threads(&jobs, &got, &far.collect::<Vec<u64>>())?;
        Ok(got.iter().map(|g| g.len()).sum::<usize>())
    });
    match res {
        Ok(k) => println!("ok {}", k),
        Err(e) => {
            println!("mismatch: {}", e);
            std::process::exit(1);
        }
    }
}

// ---- inputs for the command-line tools ----

fn listing(v: &Valid) -> String {
    let mut s = String::new();
    for (i, b) in v.blks.iter().enumerate() {
        match b {
            Blk::Stored(d) => s.push_str(&format!("S {}\n", d.len())),
            Blk::Fixed(_) => s.push_str("F\n"),
            Blk::Dyn(..) => {
                let (from, to) = v.hdrs[i].unwrap();
                s.push_str("D ");
                for k in from..to {
                    s.push(if Bits::get(&v.bytes, k) { '1' } else { '0' });
                }
                s.push('\n');
            }
        }
        for t in b.toks().unwrap_or(&[]) {
            match *t {
                Tok::Lit(b) => s.push_str(&format!("L {}\n", b)),
                Tok::Mat { len, dist, .. } => s.push_str(&format!("R {} {}\n", dist, len)),
            }
        }
    }
    s
}

/// Writes N.gz, N.raw, N.txt and one line per file to index.txt:
/// number, valid or broken, bytes of the header, where the stream ends, what it is.
pub fn gen_corpus(dir: &str, seed: u64, n: u64, from: u64) {
    fs::create_dir_all(dir).expect("directory");
    let mut index = String::new();
    for i in from..from + n {
        let mut cov = Cov::default();
        let mut c = Case {
            r: Rng::new(seed.wrapping_mul(0x1_0001).wrapping_add(i)),
            idx: i,
            n,
            thorough: false,
            cov: &mut cov,
            attach: vec![],
            notes: vec![],
        };
        let c = &mut c;
        let flags = c.r.below(32) as u8;
        let big = c.r.chance(1, 12);
        let mut file = gen::gz_header(&mut c.r, flags, big);
        let hl = file.len();
        let (v, what) = match i % 8 {
            _ if i % 40 == 7 => (v_long(c), "long"),
            0 => (v_zlib(c), "zlib"),
            1 | 2 => (v_random(c), "random"),
            3 => {
                let n = *c.r.pick(&[0usize, 1, 8191, 8192, 8193, 30_000, 65_535, 65_536, 150_000]);
                let d = gen::payload_n(&mut c.r, n);
                let blks: Vec<Blk> = if d.is_empty() {
                    vec![Blk::Stored(vec![])]
                } else {
                    d.chunks(65_535).map(|d| Blk::Stored(d.to_vec())).collect()
                };
                (valid(blks), "stored")
            }
            4 => {
                let n = c.r.range(0, 3);
                let d = c.r.bytes(n);
                (valid(vec![Blk::Fixed(d.iter().map(|b| Tok::Lit(*b)).collect())]), "tiny")
            }
            5 => {
                // every literal and many references
                let mut t: Vec<Tok> = (0..=255).map(Tok::Lit).collect();
                c.r.shuffle(&mut t);
                t.extend((3..=258).map(|l| Tok::mat(l, c.r.range(1, 256) as u16)));
                let h = gen::gen_hdr(&mut c.r, &t);
                let b = if c.r.chance(1, 2) { Blk::Dyn(h, t) } else { Blk::Fixed(t) };
                (valid(vec![b]), "all symbols")
            }
            _ => (v_small(&mut c.r), "small"),
        };
        file.extend(&v.bytes);
        let end = file.len();
        let payload = expand_blks(&v.blks);
        let wide = v.blks.iter().any(|b| match b {
            Blk::Dyn(h, _) => h.dd.len() > 30,
            _ => false,
        });
        file.extend(gen::crc32(&payload).to_le_bytes());
        file.extend((payload.len() as u32).to_le_bytes());
        match c.r.below(6) {
            0 => {
                let n = c.r.below(50);
                let t = c.r.bytes(n);
                file.extend(t)
            }
            1 => {
                let again = file.clone();
                file.extend(again)
            }
            _ => {}
        }
        let base = format!("{}/{}", dir, i);
        fs::write(format!("{}.gz", base), &file).expect("write");
        fs::write(format!("{}.raw", base), &payload).expect("write");
        fs::write(format!("{}.txt", base), listing(&v)).expect("write");
        index.push_str(&format!("{}\tvalid\t{}\t{}\t{}\t{}\n", i, hl, end, if wide { "wide" } else { "plain" }, what));
    }
    fs::write(format!("{}/index.txt", dir), index).expect("index");
}

fn valid(blks: Vec<Blk>) -> Valid {
    let e = encode(&blks);
    Valid {
        bytes: e.bits.bytes,
        hdrs: e.hdrs,
        blks,
    }
}

/// Writes N.gz (broken) and N.raw (all a decoder could give before the damage).
pub fn gen_broken(dir: &str, seed: u64, n: u64) {
    fs::create_dir_all(dir).expect("directory");
    let mut index = String::new();
    let mut i = 0;
    let mut k = 0;
    while i < n {
        k += 1;
        let mut cov = Cov::default();
        let mut c = Case {
            r: Rng::new(seed.wrapping_mul(0x2_0003).wrapping_add(k)),
            idx: k / 2,
            n,
            thorough: false,
            cov: &mut cov,
            attach: vec![],
            notes: vec![],
        };
        let c = &mut c;
        let flags = c.r.below(32) as u8;
        let mut file = gen::gz_header(&mut c.r, flags, false);
        let hl = file.len();
        let mut body;
        if k % 2 == 0 {
            match super::stream::broken(c) {
                Some((b, _, _)) => body = b,
                None => continue,
            }
        } else {
            body = v_small(&mut c.r).bytes;
            gen::mutate(&mut c.r, &mut body);
        }
        // broken but not just short of data: something has to be noticed
        body.extend([0x55; 40]);
        body.extend([1, 2, 3, 4, 5, 6, 7, 8]);
        let d = decode(&body);
        let why = match d.bad {
            Some(b) if d.grey.is_none() => format!("{:?}", b),
            _ => continue,
        };
        file.extend(&body);
        let base = format!("{}/{}", dir, i);
        fs::write(format!("{}.gz", base), &file).expect("write");
        fs::write(format!("{}.raw", base), &d.payload).expect("write");
        index.push_str(&format!("{}\tbroken\t{}\t0\t-\t{}\n", i, hl, why));
        i += 1;
    }
    fs::write(format!("{}/index.txt", dir), index).expect("index");
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C13",
            rule: "one operation on a window, whose state is then compared with the bytes written",
            families: vec![fam("ops", 4000, 200_000, c13)],
            required: vec![
                ("pushes", 1000),
                ("extends", 1000),
                ("copies", 5000),
                ("copies refused", 5000),
                ("copies overlapping themselves", 1000),
                ("copies whose source wraps", 1000),
                ("states after wrapping", 5000),
                ("states exactly full", 500),
                ("contents compared", 5000),
                ("capacities", 500),
            ],
        },
        Prop {
            id: "C14",
            rule: "one call through a hashing filter next to the same call without it, and the digest at the end",
            families: vec![
                fam("read", 3000, 100_000, c14_read),
                fam("write", 3000, 100_000, c14_write),
                fam("read-any", 3000, 100_000, c14_read_any),
                fam("write-any", 3000, 100_000, c14_write_any),
                fam("pipe", 300, 5000, c14_pipe),
                fam("large", 80, 1500, c14_large),
            ],
            required: vec![
                ("short reads", 1000),
                ("short writes", 1000),
                ("errors passed on", 1000),
                ("digests after errors", 100),
                ("written bytes compared", 100),
                ("pipelines", 100),
                ("strings read", 200),
                ("strings refused", 200),
                ("failed whole-buffer reads", 200),
                ("failed flushes passed on", 200),
                ("single calls of any size", 80),
                ("failed whole-buffer writes", 200),
            ],
        },
        Prop {
            id: "C22",
            rule: "streams done alone, interleaved, repeated, moved between threads or run concurrently",
            families: vec![
                fam("interleaved", 500, 20_000, c22_interleaved),
                fam("siblings", 300, 10_000, c22_siblings),
                fam("levels", 150, 5_000, c22_levels),
                fam("threads", 160, 5000, c22_threads),
                fam("moved", 60, 2000, c22_moved),
                fam("longlived", 2, 12, c22_longlived),
                fam("afterlarge", 4, 12, c22_afterlarge),
            ],
            required: vec![
                ("interleaved", 200),
                ("steps interleaved", 10_000),
                ("repeated", 500),
                ("siblings told apart", 1000),
                ("failures in between", 500),
                ("concurrent runs", 50),
                ("jobs done concurrently", 500),
                ("streams moved between threads", 20),
                ("blocks parsed in one process", 300_000),
                ("predictions in one process", 80_000),
                ("small jobs after a large one", 120_000),
            ],
        },
    ]
}

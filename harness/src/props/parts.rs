//! The parts blocks are made of: bit strings (C26), decoding codes into any
//! window (C27).

use std::io::{Read, Write};
use std::process::{Command, Stdio};

use librezip::verif_hooks::make_ref;
use librezip::{Block, CircularBuffer, Code};

use crate::case::*;
use crate::gen;
use crate::gen::WINDOW;
use crate::mon::*;
use crate::refl::*;
use crate::rng::Rng;
use crate::sut::*;
use crate::want;

// ---- C26 ----

macro_rules! bits_of {
    ($b:expr) => {
        match $b {
            Block::DynamicHuffman { trees, .. } => trees,
            _ => unreachable!(),
        }
    };
}

fn empty() -> Block {
    Block::DynamicHuffman {
        trees: Default::default(),
        codes: vec![],
    }
}

fn same_bits(b: &Block, m: &[bool], r: &mut Rng) -> Result<(), String> {
    let v = bits_of!(b);
    sut("looking at a bit string", || {
        want!(v.len() == m.len(), "length {}, should be {}", v.len(), m.len());
        want!(v.is_empty() == m.is_empty(), "{} bits, but empty: {}", m.len(), v.is_empty());
        if m.len() <= 600 || r.chance(1, 30) {
            let it: Vec<bool> = v.iter().collect();
            if it != m {
                let n = it.iter().zip(m).take_while(|(a, b)| a == b).count();
                return Err(format!("iterating over {} bits gives others from bit {} on ({} bits)", m.len(), n, it.len()));
            }
        }
        if m.len() <= 600 && r.chance(1, 40) {
            iterates(r, m, || v.iter(), |x| x)?;
        }
        for _ in 0..8.min(m.len()) {
            let k = r.below(m.len());
            want!(v.get(k) == m[k], "bit {} of {} is {}", k, m.len(), v.get(k));
        }
        if !m.is_empty() {
            let k = m.len() - 1;
            want!(v.get(k) == m[k] && v.get(0) == m[0], "the first or last of {} bits is wrong", m.len());
        }
        Ok(())
    })?
}

fn pushed(m: &[bool]) -> Block {
    let mut b = empty();
    for x in m {
        bits_of!(&mut b).push(*x);
    }
    b
}

/// The description a stream was parsed to
fn parsed_bits(r: &mut Rng) -> Result<(Block, Vec<bool>), String> {
    let t = gen::tokens(r, 5, 0, gen::tok_style(&mut Rng::new(1)), 300);
    let h = gen::gen_hdr(r, &t);
    let e = encode(&[Blk::Dyn(h, t)]);
    let (from, to) = e.hdrs[0].unwrap();
    let (mut p, _) = parse_bytes(&e.bits.bytes)?;
    want!(p.err.is_none() && p.blocks.len() == 1, "a valid block was refused");
    let m = (from..to).map(|i| Bits::get(&e.bits.bytes, i)).collect();
    Ok((p.blocks.remove(0), m))
}

fn c26(c: &mut Case) -> Res {
    let (mut b, mut m) = if c.r.chance(1, 3) {
        c.hit("bit strings from a stream");
        parsed_bits(&mut c.r)?
    } else {
        (empty(), vec![])
    };
    if let Block::DynamicHuffman { codes, .. } = &mut b {
        codes.clear();
    }
    let mut log = String::new();
    if c.idx % 500 == 3 {
        // longer than any block has them
        let n = match c.idx / 500 % 3 {
            0 => c.r.range(100_000, 1_300_000),
            // around the powers of two
            k => (1 << c.r.range(9, 20)) + c.r.below(3) - (k as usize - 1),
        };
        let of = c.r.range(2, 9);
        sut("push", || (0..n).for_each(|i| bits_of!(&mut b).push(i % of == 0)))?;
        m.extend((0..n).map(|i| i % of == 0));
        log.push_str(&format!("({} bits, each {}th set)", n, of));
        let it: Vec<bool> = sut("iterating", || bits_of!(&b).iter().collect())?;
        want!(it == m, "iterating over {} bits gives others", n);
        c.hit("very long bit strings");
    }
    let ops = c.r.range(5, 120);
    let grow = c.r.range(1, 5);
    // a copy taken earlier, which nothing may change
    let mut kept: Option<(Block, Vec<bool>)> = None;
    for _ in 0..ops {
        c.eval();
        match c.r.below(10) {
            k if k < grow => {
                let n = match c.r.below(6) {
                    0 => 8,
                    1 if c.r.chance(1, 300) => c.r.log(200_000),
                    1 => c.r.log(200),
                    _ => c.r.range(1, 3),
                };
                let of = c.r.below(4);
                for _ in 0..n {
                    let x = match of {
                        0 => true,
                        1 => false,
                        _ => c.r.chance(1, 2),
                    };
                    log.push(if x { '1' } else { '0' });
                    sut("push", || bits_of!(&mut b).push(x))?;
                    m.push(x);
                }
                c.hits("bits pushed", n as u64);
            }
            5 | 6 => {
                let n = if c.r.chance(1, 6) { c.r.log(200) } else { c.r.range(1, 3) };
                for _ in 0..n {
                    let got = sut("pop", || bits_of!(&mut b).pop())?;
                    log.push('-');
                    let want = m.pop();
                    c.attach("operations", log.as_bytes());
                    want!(got == want, "pop gave {:?}, should be {:?}", got, want);
                    c.hit(if want.is_some() { "bits popped" } else { "nothing to pop" });
                }
            }
            7 => {
                let got = sut("pop_byte", || bits_of!(&mut b).pop_byte())?;
                log.push('B');
                let want = if m.len() < 8 {
                    None
                } else {
                    let last = m.split_off(m.len() - 8);
                    Some(last.iter().enumerate().map(|(i, x)| u8::from(*x) << i).sum::<u8>())
                };
                c.attach("operations", log.as_bytes());
                want!(got == want, "pop_byte gave {:?}, should be {:?}", got, want);
                c.hit(if want.is_some() { "bytes popped" } else { "no byte to pop" });
                if want.is_some() && m.len() % 8 != 0 {
                    c.hit("bytes popped across a boundary");
                }
            }
            8 => {
                if let Some((k, km)) = &kept {
                    same_bits(k, km, &mut c.r).map_err(|e| format!("a copy changed: {}", e))?;
                    c.hit("copies looked at later");
                }
                kept = Some((sut("copying", || b.clone())?, m.clone()));
                if c.r.chance(1, 3) {
                    // go on with the copy
                    let (k, _) = kept.as_mut().unwrap();
                    std::mem::swap(k, &mut b);
                }
            }
            _ => {
                // built in one go, and the same with one bit another or more
                let fresh = sut("building", || pushed(&m))?;
                want!(sut("comparing", || fresh == b)?, "{} bits differ from the same bits pushed at once", m.len());
                let mut o = m.clone();
                if o.is_empty() || c.r.chance(1, 3) {
                    o.push(false);
                } else if c.r.chance(1, 2) {
                    o.pop();
                } else {
                    let k = c.r.below(o.len());
                    o[k] = !o[k];
                }
                let other = sut("building", || pushed(&o))?;
                want!(!sut("comparing", || other == b)?, "{} bits equal others", m.len());
                c.hit("comparisons");
                if m.len() < 400 || m.len() < 20_000 && c.r.chance(1, 20) {
                    let text = sut("printing", || format!("{:?}", bits_of!(&b)))?;
                    let digits: String = m.iter().map(|x| if *x { '1' } else { '0' }).collect();
                    want!(text.ends_with(&digits) && text.contains(&m.len().to_string()), "printed as {}", text);
                    if let Some(x) = text.len().checked_sub(digits.len() + 1) {
                        let before = text.as_bytes()[x];
                        want!(before != b'0' && before != b'1' || digits.is_empty(), "printed as {}", text);
                    }
                }
            }
        }
        c.attach("operations", log.as_bytes());
        same_bits(&b, &m, &mut c.r)?;
        c.point("bits in the last byte", m.len() as u64 % 8);
    }
    c.seen(&[log.as_bytes()]);
    c.sample(|| format!("{} operations: {}", ops, log.chars().take(80).collect::<String>()));
    c.attach.clear();
    Ok(())
}

/// Printing goes to standard output, so a process of its own does it: each line of its input
/// is a history (1, 0, - for pop), each part of its output ends in a line with "=".
fn c26_print(c: &mut Case) -> Res {
    let mut input = String::new();
    let mut want: Vec<String> = vec![];
    for i in 0..40 {
        let mut m = vec![];
        let n = match i % 4 {
            0 => c.r.below(30),
            1 => 8 * c.r.below(12) + c.r.below(3),
            2 => c.r.log(3000),
            _ => (1 << c.r.range(3, 13)) + c.r.below(3) - 1,
        };
        let of = c.r.range(2, 6);
        while m.len() < n {
            let x = match of {
                2 => true,
                3 => false,
                _ => c.r.chance(1, 2),
            };
            m.push(x);
            input.push(if x { '1' } else { '0' });
            if of == 5 && c.r.chance(1, 4) {
                for _ in 0..c.r.range(1, 9).min(m.len()) {
                    m.pop();
                    input.push('-');
                }
                m.push(true);
                input.push('1');
            }
        }
        input.push('\n');
        c.point("bits printed, modulo eight", m.len() as u64 % 8);
        want.push(m.iter().map(|x| if *x { '1' } else { '0' }).collect());
    }
    c.attach("operations", input.as_bytes());
    c.eval();
    let mut p = Command::new(std::env::current_exe().expect("own name"))
        .arg("print-bits")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("a process of its own");
    let mut to = p.stdin.take().unwrap();
    let text = input.clone();
    let feed = std::thread::spawn(move || {
        let _ = to.write_all(text.as_bytes());
    });
    let out = p.wait_with_output().expect("process ended");
    feed.join().expect("fed");
    want!(out.status.success(), "printing bit strings ended with {}", out.status);
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    let mut parts: Vec<String> = text
        .split('=')
        .map(|t| t.chars().filter(|x| *x == '0' || *x == '1').collect())
        .collect();
    want!(parts.len() == want.len() + 1, "{} bit strings printed, should be {}", parts.len() - 1, want.len());
    parts.pop();
    for (i, (got, want)) in parts.iter().zip(&want).enumerate() {
        want!(got == want, "bit string {} ({} bits) printed as {} bits: {}", i, want.len(), got.len(), got);
        c.hit("bit strings printed");
    }
    c.seen(&[input.as_bytes()]);
    c.attach.clear();
    Ok(())
}

pub fn print_bits_main() {
    let mut text = String::new();
    std::io::stdin().read_to_string(&mut text).expect("histories");
    for line in text.lines() {
        let mut b = empty();
        for x in line.bytes() {
            let v = bits_of!(&mut b);
            match x {
                b'-' => {
                    v.pop();
                }
                x => v.push(x == b'1'),
            }
        }
        bits_of!(&b).pretty_print();
        println!("=");
    }
}

// ---- C27 ----

fn as_code(t: &Tok) -> Code {
    match *t {
        Tok::Lit(b) => Code::Literal(b),
        Tok::Mat { len, dist, .. } => {
            let mut r = make_ref(1, len);
            r.dist = dist;
            Code::Reference(r)
        }
    }
}

fn kind_of(r: &mut Rng, t: &[Tok]) -> Block {
    let codes = t.iter().map(as_code).collect();
    if r.chance(1, 2) {
        Block::FixedHuffman(codes)
    } else {
        Block::DynamicHuffman {
            trees: Default::default(),
            codes,
        }
    }
}

fn c27(c: &mut Case) -> Res {
    c.eval();
    let cap = match c.idx % 6 {
        0 => c.r.range(1, 40),
        1 => c.r.range(1, 700),
        2 => *c.r.pick(&[255usize, 256, 257, 258, 259, 32_767, 65_535]),
        _ => WINDOW,
    };
    let before = match c.r.below(5) {
        0 => 0,
        1 => c.r.log(2 * cap),
        2 => cap,
        3 => cap.saturating_sub(c.r.below(3)),
        _ => c.r.range(cap, 2 * cap + 300),
    };
    c.point("capacities", cap as u64);
    let past = gen::payload_n(&mut c.r, before);
    let mut all = past.clone();
    // pieces: codes or stored bytes; the first code that refers to nothing
    // ends it
    let mut pieces: Vec<Result<Vec<Tok>, Vec<u8>>> = vec![];
    let mut bad = None;
    let spoil = c.r.chance(1, 3);
    for _ in 0..c.r.range(1, 6) {
        if c.r.chance(1, 5) {
            let n = match c.r.below(4) {
                0 => 0,
                1 => cap,
                _ => c.r.log(400),
            };
            let d = c.r.bytes(n);
            all.extend(&d);
            pieces.push(Err(d));
            continue;
        }
        let mut t = vec![];
        let many = c.r.chance(1, 60);
        let n = match c.idx {
            // more than a block of a stream would have
            k if k % 15_000 == 77 => {
                c.hit("millions of codes");
                c.r.range(1 << 18, 5 << 20)
            }
            _ if many => c.r.log(700),
            _ => c.r.log(60),
        };
        // the same reference again and again, now and then
        let again = many && c.r.chance(1, 2);
        for _ in 0..n {
            let len = all.len().min(cap);
            if again && matches!(t.last(), Some(Tok::Mat { .. })) && c.r.chance(199, 200) {
                t.push(t[t.len() - 1]);
            } else if len > 0 && c.r.chance(1, if n > 2000 { 100 } else { 2 }) {
                let dist = match c.r.below(6) {
                    0 => len,
                    1 => len - c.r.below(3).min(len - 1),
                    2 => c.r.range(1, 5).min(len),
                    _ => c.r.range(1, len),
                };
                t.push(Tok::mat(gen::pick_len(&mut c.r, 4), dist as u16));
            } else {
                t.push(Tok::Lit(c.r.u8()));
            }
            let k = t.len() - 1;
            assert!(expand(&mut all, 0, &t[k..]));
        }
        let len = all.len().min(cap);
        if spoil && bad.is_none() && c.r.chance(1, 2) {
            let dist = match c.r.below(4) {
                0 => 0,
                1 => len + 1,
                2 => 65_535,
                _ => c.r.range(len + 1, 65_535.max(len + 1)),
            };
            if dist <= 65_535 && (dist == 0 || dist > len) {
                t.push(Tok::mat(gen::pick_len(&mut c.r, 4), dist as u16));
                for _ in 0..c.r.below(4) {
                    t.push(Tok::Lit(c.r.u8()));
                }
                c.hit(match dist {
                    0 => "distance of zero",
                    _ if dist == len + 1 => "one further back than the window",
                    _ => "far beyond the window",
                });
                bad = Some(all.len());
            }
        }
        pieces.push(Ok(t));
        if bad.is_some() {
            break;
        }
    }
    let fresh = || -> Result<CircularBuffer, String> {
        sut("filling a window", || {
            let mut w = CircularBuffer::with_capacity(cap as u16);
            w.extend(&past);
            w
        })
    };
    let what = |p: &Result<Vec<Tok>, Vec<u8>>| match p {
        Ok(t) => format!("{} codes", t.len()),
        Err(d) => format!("{} stored bytes", d.len()),
    };
    // piece by piece, as blocks or as codes, in one go or split anywhere
    for way in 0..3 {
        let mut w = fresh()?;
        let mut out = vec![];
        let mut refused = false;
        for p in &pieces {
            let r = match p {
                Err(d) => sut("decoding a stored block", || {
                    librezip::decompressed_block(&mut out, &mut w, &Block::Uncompressed(d.clone()))
                })?,
                Ok(t) if way == 0 => {
                    let b = kind_of(&mut c.r, t);
                    sut("decoding a block", || librezip::decompressed_block(&mut out, &mut w, &b))?
                }
                Ok(t) => {
                    let codes: Vec<Code> = t.iter().map(as_code).collect();
                    let mut rest = &codes[..];
                    let mut r = Ok(());
                    loop {
                        let k = if way == 1 { rest.len() } else { c.r.range(1, 4).min(rest.len()) };
                        r = r.and(sut("decoding codes", || librezip::decompressed_codes(&mut out, &mut w, &rest[..k]))?);
                        rest = &rest[k..];
                        if rest.is_empty() || r.is_err() {
                            break;
                        }
                        c.hit("codes decoded in parts");
                    }
                    r
                }
            };
            if r.is_err() {
                refused = true;
                want!(
                    bad.is_some() && std::ptr::eq(p, pieces.last().unwrap()),
                    "{} refused with a window of {}/{}: {:#}",
                    what(p),
                    w.len(),
                    cap,
                    r.unwrap_err()
                );
                break;
            }
        }
        let right = &all[past.len()..];
        match bad {
            Some(_) => {
                want!(refused, "a reference to nothing was decoded, with a window of {}", cap);
                want!(right.starts_with(&out), "wrong bytes in front of a reference to nothing");
                c.hit("references to nothing refused");
            }
            None => {
                want!(out == right, "{} bytes decoded, should be {}, or differ (window of {}, way {})", out.len(), right.len(), cap, way);
                let len = all.len().min(cap);
                want!(usize::from(w.len()) == len, "the window holds {} bytes, should be {}", w.len(), len);
                want!(sut("contents", || w.vec())? == all[all.len() - len..], "the window of {} is not the last output", cap);
                c.hit("histories decoded");
                if all.len() > cap {
                    c.hit("windows that wrapped");
                }
            }
        }
    }
    c.seen(&[&all[..all.len().min(3000)], &(pieces.len() as u64).to_le_bytes()]);
    c.sample(|| {
        let v: Vec<String> = pieces.iter().map(what).collect();
        format!("window of {} holding {}: {}", cap, before.min(cap), v.join(", "))
    });
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C26",
            rule: "one operation on a bit string, with everything that can be seen of it compared with a list of bits",
            families: vec![fam("ops", 30_000, 1_000_000, c26), fam("print", 60, 3000, c26_print)],
            required: vec![
                ("bits pushed", 10_000),
                ("bits popped", 5_000),
                ("nothing to pop", 100),
                ("bytes popped", 1_000),
                ("no byte to pop", 100),
                ("bytes popped across a boundary", 500),
                ("comparisons", 1000),
                ("copies looked at later", 500),
                ("bit strings from a stream", 500),
                ("bits in the last byte", 8),
                ("very long bit strings", 20),
                ("bit strings printed", 1000),
                ("bits printed, modulo eight", 8),
            ],
        },
        Prop {
            id: "C27",
            rule: "codes and stored bytes decoded into a window of some capacity and contents, at once and in parts",
            families: vec![fam("any", 30_000, 1_000_000, c27)],
            required: vec![
                ("histories decoded", 3000),
                ("references to nothing refused", 1000),
                ("distance of zero", 50),
                ("one further back than the window", 50),
                ("far beyond the window", 50),
                ("windows that wrapped", 1000),
                ("millions of codes", 3),
                ("codes decoded in parts", 1000),
                ("capacities", 40),
            ],
        },
    ]
}

//! Blocks put together by a caller: C25.

use librezip::verif_hooks::{make_ref, BitWriter};
use librezip::{Block, Code};

use crate::case::*;
use crate::gen;
use crate::gen::WINDOW;
use crate::mon::*;
use crate::refl::*;
use crate::rng::Rng;
use crate::sut::*;
use crate::want;

/// What a caller hands over
#[derive(Clone)]
enum Made {
    Stored(Vec<u8>),
    Fixed(Vec<Tok>),
    Dyn(Bits, Vec<Tok>),
}

enum Verdict {
    /// its bits
    Yes(Bits),
    No(&'static str),
    Open,
}

fn why_not(ll: &[u8], dd: &[u8], toks: &[Tok]) -> Option<&'static str> {
    let has = |l: &[u8], s: usize| l.get(s).map_or(false, |l| *l > 0);
    for t in toks {
        match *t {
            Tok::Lit(b) => {
                if !has(ll, b.into()) {
                    return Some("literal without a code");
                }
            }
            Tok::Mat { len, dist, .. } => {
                if dist == 0 {
                    return Some("distance of zero");
                }
                if usize::from(dist) > WINDOW {
                    return Some("distance over 32768");
                }
                if !has(ll, len_sym(len, false).0) {
                    return Some("length without a code");
                }
                if dd.iter().all(|l| *l == 0) {
                    return Some("reference, but no distance code");
                }
                if !has(dd, dist_sym(dist).0) {
                    return Some("distance without a code");
                }
            }
        }
    }
    if !has(ll, 256) {
        return Some("no code for the end");
    }
    None
}

fn put_all(bits: &mut Bits, ll: &[u8], dd: &[u8], toks: &[Tok]) {
    put_toks(bits, ll, dd, toks);
    bits.code(codes(ll)[256]);
}

/// `at`: how many bits come before the block
fn verdict(m: &Made, at: usize) -> Verdict {
    let mut bits = Bits::default();
    match m {
        Made::Stored(d) => {
            if d.len() > 65_535 {
                return Verdict::No("more than a stored block holds");
            }
            bits.val(2, 0);
            while (at + bits.len) % 8 != 0 {
                bits.bit(false);
            }
            let n = d.len() as u16;
            bits.val(16, n.into());
            bits.val(16, (!n).into());
            for b in d {
                bits.val(8, u32::from(*b));
            }
        }
        Made::Fixed(t) => {
            let (ll, dd) = fixed_lens();
            if let Some(w) = why_not(&ll, &dd, t) {
                return Verdict::No(w);
            }
            bits.val(2, 1);
            put_all(&mut bits, &ll, &dd, t);
        }
        Made::Dyn(desc, t) => {
            let (h, open) = read_hdr(desc);
            if open {
                return Verdict::Open;
            }
            let h = match h {
                Some(h) => h,
                None => return Verdict::No("no code description"),
            };
            if let Some(w) = why_not(&h.ll, &h.dd, t) {
                return Verdict::No(w);
            }
            bits.val(2, 2);
            for i in 0..desc.len {
                bits.bit(Bits::get(&desc.bytes, i));
            }
            put_all(&mut bits, &h.ll, &h.dd, t);
        }
    }
    Verdict::Yes(bits)
}

fn as_code(t: &Tok) -> Code {
    match *t {
        Tok::Lit(b) => Code::Literal(b),
        Tok::Mat { len, dist, .. } => {
            // the distance is a public field
            let mut r = make_ref(1, len);
            r.dist = dist;
            Code::Reference(r)
        }
    }
}

fn built(m: &Made) -> Result<Block, String> {
    sut("building a block", || match m {
        Made::Stored(d) => Block::Uncompressed(d.clone()),
        Made::Fixed(t) => Block::FixedHuffman(t.iter().map(as_code).collect()),
        Made::Dyn(desc, t) => {
            let mut b = Block::DynamicHuffman {
                trees: Default::default(),
                codes: t.iter().map(as_code).collect(),
            };
            if let Block::DynamicHuffman { trees, .. } = &mut b {
                for i in 0..desc.len {
                    trees.push(Bits::get(&desc.bytes, i));
                }
            }
            b
        }
    })
}

/// The description as parsing gives it, with these codes instead of its own
fn from_parsed(bytes: &[u8], m: &Made) -> Result<Block, String> {
    let (mut p, _) = parse_bytes(bytes)?;
    want!(p.err.is_none() && p.blocks.len() == 1, "a valid block was refused");
    let mut b = p.blocks.remove(0);
    if let (Block::DynamicHuffman { codes, .. }, Made::Dyn(_, t)) = (&mut b, m) {
        *codes = t.iter().map(as_code).collect();
    }
    Ok(b)
}

fn describe(m: &Made) -> String {
    match m {
        Made::Stored(d) => format!("stored block of {} bytes", d.len()),
        Made::Fixed(t) => format!("fixed block of {} codes", t.len()),
        Made::Dyn(d, t) => format!("dynamic block of {} codes with a description of {} bits", t.len(), d.len),
    }
}

fn offer(c: &mut Case, m: &Made, b: Option<Block>) -> Res {
    c.eval();
    // a block in front, so that this one starts at any bit
    let lead: Vec<Tok> = (0..c.r.below(8)).map(|_| Tok::Lit(c.r.u8() | 0x90)).collect();
    let mut pre = Bits::default();
    pre.bit(false);
    pre.val(2, 1);
    let (ll, dd) = fixed_lens();
    put_all(&mut pre, &ll, &dd, &lead);
    let last = c.r.chance(1, 2);
    pre.bit(last);
    let v = verdict(m, pre.len);
    c.point("bit position of a block", pre.len as u64 % 8);
    let block = match b {
        Some(b) => b,
        None => built(m)?,
    };
    let kept = sut("copying a block", || block.clone())?;
    let mut w = BitWriter::new(vec![]);
    for i in 0..pre.len {
        w.write_bit(Bits::get(&pre.bytes, i)).map_err(|e| format!("{:#}", e))?;
    }
    let wrote = sut(&format!("writing a {}", describe(m)), || {
        librezip::compressed_block(&mut w, &block).map_err(|e| format!("{:#}", e))
    })?;
    want!(sut("comparing", || kept == block)?, "writing a block changed it");
    match (&v, &wrote) {
        (Verdict::Yes(_), Err(e)) => return Err(format!("a {} that can be written was refused: {}", describe(m), e)),
        (Verdict::No(w), Ok(())) => return Err(format!("a {} was written all the same: {}", describe(m), w)),
        (Verdict::No(w), Err(_)) => {
            c.hit(w);
            c.hit("blocks refused");
            return Ok(());
        }
        (Verdict::Open, Err(_)) => {
            c.hit("left open, refused");
            return Ok(());
        }
        (Verdict::Yes(_), Ok(())) => c.hit("blocks written"),
        (Verdict::Open, Ok(())) => c.hit("left open, written"),
    }
    // an empty block behind, unless this one is the last
    let mut rest = Bits::default();
    if !last {
        rest.bit(true);
        rest.val(2, 1);
        put_all(&mut rest, &ll, &dd, &[]);
        for i in 0..rest.len {
            w.write_bit(Bits::get(&rest.bytes, i)).map_err(|e| format!("{:#}", e))?;
        }
    }
    let out = sut("finishing", || w.align().map(|()| w.into_inner()))?.map_err(|e| format!("{:#}", e))?;
    c.seen(&[&out]);
    if let Verdict::Yes(bits) = &v {
        let mut want = pre.clone();
        for part in [bits, &rest] {
            for i in 0..part.len {
                want.bit(Bits::get(&part.bytes, i));
            }
        }
        if want.bytes != out {
            c.attach("written", &out);
            c.attach("expected", &want.bytes);
            let n = want.bytes.iter().zip(&out).take_while(|(a, b)| a == b).count();
            return Err(format!("a {} was written wrongly: byte {} of {}/{}", describe(m), n, out.len(), want.bytes.len()));
        }
    }
    let (p, used) = parse_bytes(&out)?;
    c.attach("written", &out);
    want!(p.err.is_none(), "what was written for a {} is refused: {:?}", describe(m), p.err);
    want!(used == out.len() && p.blocks.len() == 3 - usize::from(last), "what was written for a {} is other blocks", describe(m));
    want!(
        sut("comparing", || p.blocks[1] == block)?,
        "what was written for a {} reads as another block",
        describe(m)
    );
    c.attach.clear();
    Ok(())
}

fn hdr_bits(h: &DynHdr) -> Bits {
    let mut b = Bits::default();
    put_hdr(&mut b, h);
    b
}

fn any_hdr(r: &mut Rng) -> DynHdr {
    match r.below(8) {
        0 => gen::longest_hdr(r),
        1 => {
            let t = gen::tokens(r, 3000, 0, gen::tok_style(&mut Rng::new(1)), 30_000);
            gen::gen_hdr(r, &t)
        }
        2 => {
            // a whole range, with single symbols missing
            let mut ul: Vec<bool> = (0..286).map(|_| true).collect();
            let mut ud: Vec<bool> = (0..30).map(|_| true).collect();
            for _ in 0..r.below(4) {
                let s = r.below(286);
                ul[s] = s == 256;
                ud[r.below(30)] = false;
            }
            gen::hdr_for(r, &ul, &ud)
        }
        k => {
            let pl = *r.pick(&[2usize, 10, 100, 250]);
            let mut ul: Vec<bool> = (0..286).map(|_| r.below(256) < pl).collect();
            ul[256] = true;
            if k == 3 {
                // no lengths at all
                for u in &mut ul[257..] {
                    *u = false;
                }
            }
            let pd = *r.pick(&[0usize, 10, 60, 250]);
            let ud: Vec<bool> = (0..30).map(|_| r.below(256) < pd).collect();
            gen::hdr_for(r, &ul, &ud)
        }
    }
}

fn lengths_of(sym: usize) -> Vec<u16> {
    (3..=258).filter(|l| len_sym(*l, false).0 == sym).collect()
}

fn dist_of(r: &mut Rng, sym: usize) -> u16 {
    let n = 1usize << DIST_EXTRA[sym];
    let x = match r.below(4) {
        0 => 0,
        1 => n - 1,
        _ => r.below(n),
    };
    (DIST_BASE[sym] as usize + x) as u16
}

/// Codes this description can express
fn fitting(r: &mut Rng, ll: &[u8], dd: &[u8], n: usize) -> Vec<Tok> {
    let lits: Vec<usize> = (0..256).filter(|s| ll[*s] > 0).collect();
    let lens: Vec<usize> = (257..ll.len().min(286)).filter(|s| ll[*s] > 0).collect();
    let dists: Vec<usize> = (0..dd.len().min(30)).filter(|s| dd[*s] > 0).collect();
    let mut t = vec![];
    for _ in 0..n {
        let mat = !lens.is_empty() && !dists.is_empty() && (lits.is_empty() || r.chance(1, 2));
        if mat {
            let l = lengths_of(*r.pick(&lens));
            let d = *r.pick(&dists);
            t.push(Tok::mat(*r.pick(&l), dist_of(r, d)));
        } else if !lits.is_empty() {
            t.push(Tok::Lit(*r.pick(&lits) as u8));
        }
    }
    t
}

/// A code that spoils the block, if there is one
fn misfit(r: &mut Rng, ll: &[u8], dd: &[u8]) -> Option<Tok> {
    let has = |l: &[u8], s: usize| l.get(s).map_or(false, |l| *l > 0);
    let missing = |l: &[u8], from: usize, to: usize| -> Vec<usize> { (from..to).filter(|s| !has(l, *s)).collect() };
    let lits = missing(ll, 0, 256);
    let lens = missing(ll, 257, 286);
    let dists = missing(dd, 0, 30);
    let good_len: Vec<usize> = (257..286).filter(|s| has(ll, *s)).collect();
    let good_dist: Vec<usize> = (0..30).filter(|s| has(dd, *s)).collect();
    let some_len = |r: &mut Rng, from: &[usize]| {
        let l = lengths_of(*r.pick(from));
        *r.pick(&l)
    };
    for _ in 0..20 {
        match r.below(4) {
            0 if !lits.is_empty() => return Some(Tok::Lit(*r.pick(&lits) as u8)),
            1 if !lens.is_empty() => {
                let l = some_len(r, &lens);
                let s = if good_dist.is_empty() { r.below(30) } else { *r.pick(&good_dist) };
                return Some(Tok::mat(l, dist_of(r, s)));
            }
            2 if !dists.is_empty() && !good_len.is_empty() => {
                let l = some_len(r, &good_len);
                let s = *r.pick(&dists);
                return Some(Tok::mat(l, dist_of(r, s)));
            }
            3 if !good_len.is_empty() => {
                let l = some_len(r, &good_len);
                let d = match r.below(6) {
                    0 | 1 => 0,
                    2 => 32_769,
                    3 => 65_535,
                    4 => 49_153,
                    _ => r.range(32_769, 65_535) as u16,
                };
                return Some(Tok::mat(l, d));
            }
            _ => {}
        }
    }
    None
}

fn spoilt(r: &mut Rng, ll: &[u8], dd: &[u8], t: &mut Vec<Tok>) {
    if let Some(m) = misfit(r, ll, dd) {
        let at = match r.below(3) {
            0 => 0,
            1 => t.len(),
            _ => r.below(t.len() + 1),
        };
        t.insert(at, m);
    }
}

fn dynamic(c: &mut Case) -> Res {
    let r = &mut c.r;
    let h = any_hdr(r);
    let n = r.log(80);
    let good = fitting(r, &h.ll, &h.dd, n);
    let mut t = good.clone();
    match r.below(4) {
        0 => {}
        1 => t = gen::tokens(r, n, WINDOW, gen::tok_style(&mut Rng::new(1)), 30_000),
        _ => spoilt(r, &h.ll, &h.dd, &mut t),
    }
    for t in &t {
        if let Tok::Mat { len, .. } = *t {
            c.point("length symbols asked for", len_sym(len, false).0 as u64);
        }
    }
    let desc = hdr_bits(&h);
    let m = Made::Dyn(desc.clone(), t);
    let b = if c.r.chance(1, 2) {
        c.hit("description as parsed");
        Some(from_parsed(&encode(&[Blk::Dyn(h.clone(), good.clone())]).bits.bytes, &m)?)
    } else {
        None
    };
    offer(c, &m, b)?;
    // whatever became of that one, its own codes still go
    offer(c, &Made::Dyn(desc, good), None)
}

/// Every symbol in turn is the one without a code.
fn each_symbol(c: &mut Case) -> Res {
    let s = (c.idx % 316) as usize;
    let r = &mut c.r;
    let mut ul = vec![true; 286];
    let mut ud = vec![true; 30];
    if s < 286 {
        ul[s] = false;
    } else {
        ud[s - 286] = false;
    }
    let used = |u: &[bool], r: &mut Rng, n: usize| {
        let mut v = gen::gen_lens(r, u, n, 15, 0);
        v.truncate(n);
        v
    };
    let nl = 286;
    let ll = used(&ul, r, nl);
    let dd = used(&ud, r, 30);
    let h = gen::finish_hdr(r, ll, dd);
    let n = r.below(5);
    let mut t = fitting(r, &h.ll, &h.dd, n);
    c.point("symbols left out", s as u64);
    let desc = hdr_bits(&h);
    if s != 256 {
        offer(c, &Made::Dyn(desc.clone(), t.clone()), None)?;
        let r = &mut c.r;
        t.push(match s {
            0..=255 => Tok::Lit(s as u8),
            257..=285 => {
                let l = lengths_of(s);
                Tok::mat(*r.pick(&l), gen::pick_dist(r, 6, WINDOW))
            }
            _ => Tok::mat(r.range(3, 258) as u16, dist_of(r, s - 286)),
        });
    }
    offer(c, &Made::Dyn(desc, t), None)
}

/// Descriptions cut, lengthened and changed
fn descriptions(c: &mut Case) -> Res {
    let r = &mut c.r;
    let h = any_hdr(r);
    let n = r.log(10);
    let t = fitting(r, &h.ll, &h.dd, n);
    let desc = hdr_bits(&h);
    let cut = |d: &Bits, n: usize| {
        let mut o = Bits::default();
        for i in 0..n {
            o.bit(Bits::get(&d.bytes, i));
        }
        o
    };
    let mut all = vec![];
    for _ in 0..12 {
        let d = match r.below(6) {
            0 => cut(&desc, r.below(desc.len)),
            1 => cut(&desc, desc.len - r.range(1, 8)),
            2 => {
                let mut d = desc.clone();
                for _ in 0..r.range(1, 12) {
                    d.bit(r.chance(1, 2));
                }
                d
            }
            3 => {
                let mut d = Bits::default();
                for _ in 0..r.log(400) {
                    d.bit(r.chance(1, 2));
                }
                d
            }
            _ => {
                let mut d = desc.clone();
                for _ in 0..r.range(1, 3) {
                    let at = if r.chance(1, 2) { r.below(desc.len.min(80)) } else { r.below(desc.len) };
                    d.bytes[at / 8] ^= 1 << (at % 8);
                }
                d
            }
        };
        all.push(d);
    }
    for d in all {
        offer(c, &Made::Dyn(d, t.clone()), None)?;
    }
    if c.idx % 16 == 0 {
        for k in 0..desc.len {
            offer(c, &Made::Dyn(cut(&desc, k), t.clone()), None)?;
        }
        c.hit("descriptions cut at every bit");
    }
    offer(c, &Made::Dyn(desc, t), None)
}

fn fixed(c: &mut Case) -> Res {
    let r = &mut c.r;
    let (ll, dd) = fixed_lens();
    let n = r.log(200);
    let good = fitting(r, &ll, &dd, n);
    let mut t = good.clone();
    if r.chance(1, 2) {
        spoilt(r, &ll, &dd, &mut t);
    }
    offer(c, &Made::Fixed(t), None)?;
    offer(c, &Made::Fixed(good), None)
}

/// Every distance there is, and is not
fn distances(c: &mut Case) -> Res {
    let (ll, dd) = fixed_lens();
    let part = (c.idx % 64) as usize;
    let _ = (&ll, &dd);
    let l = gen::pick_len(&mut c.r, 4);
    let all: Vec<u16> = (part * 1024..part * 1024 + 1024).map(|d| d as u16).collect();
    c.point("distances asked for (1024 each)", part as u64);
    if part < 32 {
        let ok: Vec<Tok> = all.iter().filter(|d| **d > 0).map(|d| Tok::mat(l, *d)).collect();
        offer(c, &Made::Fixed(ok), None)?;
    }
    for d in all {
        if d == 0 || usize::from(d) > WINDOW {
            offer(c, &Made::Fixed(vec![Tok::mat(l, d)]), None)?;
        }
    }
    Ok(())
}

fn stored(c: &mut Case) -> Res {
    let sizes = [0usize, 1, 255, 256, 32_768, 65_534, 65_535, 65_536, 65_537, 65_791, 65_792, 98_304, 131_071, 131_072, 196_608, 1 << 20];
    let k = c.idx as usize;
    let n = if k < sizes.len() {
        sizes[k]
    } else if c.r.chance(1, 2) {
        c.r.range(65_400, 66_000)
    } else {
        c.r.log(300_000)
    };
    let d = gen::payload_n(&mut c.r, n);
    offer(c, &Made::Stored(d), None)
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C25",
        rule: "a block offered to the writer: what it wrote compared bit for bit and parsed back, or its refusal",
        families: vec![
            fam("dynamic", 40_000, 1_000_000, dynamic),
            fam("each symbol", 1264, 60_000, each_symbol),
            fam("descriptions", 4000, 200_000, descriptions),
            fam("fixed", 3000, 200_000, fixed),
            fam("distances", 64, 640, distances),
            fam("stored", 120, 4000, stored),
        ],
        required: vec![
            ("blocks written", 1000),
            ("blocks refused", 1000),
            ("literal without a code", 100),
            ("length without a code", 100),
            ("distance without a code", 100),
            ("reference, but no distance code", 20),
            ("no code for the end", 2),
            ("no code description", 100),
            ("distance of zero", 50),
            ("distance over 32768", 1000),
            ("more than a stored block holds", 10),
            ("symbols left out", 316),
            ("bit position of a block", 8),
        ],
    }]
}

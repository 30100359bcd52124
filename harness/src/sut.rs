//! Drives the code under test and compares its values with the model's.

use std::io::Write;

use librezip::verif_hooks::{make_ref, BitWriter};
use librezip::{Block, CircularBuffer, Code};

use crate::mon::{sut, MonReader};
use crate::refl::{Bits, Blk, Tok};

pub struct Parsed {
    pub blocks: Vec<Block>,
    pub err: Option<String>,
}

/// Iterate to the end; the outer error is a panic or runaway iteration.
pub fn parse(reader: &mut MonReader) -> Result<Parsed, String> {
    let cap = reader.data.len() * 8 / 3 + 4;
    let mut it = sut("parse_deflate", || librezip::parse_deflate(&mut *reader))?;
    let mut blocks = vec![];
    loop {
        match sut("parsing", || it.next())? {
            Some(Ok(b)) => blocks.push(b),
            Some(Err(e)) => {
                let e = sut("formatting the error", || format!("{:#}", e))?;
                return Ok(Parsed {
                    blocks,
                    err: Some(e),
                });
            }
            None => return Ok(Parsed { blocks, err: None }),
        }
        if blocks.len() > cap {
            return Err(format!("more than {} blocks from {} bytes", cap, cap * 3 / 8));
        }
    }
}

pub fn parse_bytes(d: &[u8]) -> Result<(Parsed, usize), String> {
    let mut r = MonReader::new(d);
    let p = parse(&mut r)?;
    Ok((p, r.pos))
}

/// Outer error: panic. Inner error: reported by the code.
pub fn write_blocks<W: Write>(blocks: &[Block], into: W) -> Result<Result<W, String>, String> {
    sut("re-serialising", || {
        let mut w = BitWriter::new(into);
        for (i, b) in blocks.iter().enumerate() {
            w.write_bit(i + 1 == blocks.len())
                .map_err(|e| format!("{:#}", e))?;
            librezip::compressed_block(&mut w, b).map_err(|e| format!("{:#}", e))?;
        }
        w.align().map_err(|e| format!("{:#}", e))?;
        Ok(w.into_inner())
    })
}

/// Decode blocks; Ok(Err) is a reported error.
pub fn decode_into<W: Write>(blocks: &[Block], mut out: W) -> Result<Result<CircularBuffer, String>, String> {
    sut("decoding", || {
        let mut w = CircularBuffer::new();
        for b in blocks {
            librezip::decompressed_block(&mut out, &mut w, b).map_err(|e| format!("{:#}", e))?;
        }
        Ok(w)
    })
}

pub fn code(t: &Tok) -> Code {
    match *t {
        Tok::Lit(b) => Code::Literal(b),
        Tok::Mat { len, dist, .. } => Code::Reference(make_ref(dist, len)),
    }
}

pub fn lib_codes(t: &[Tok]) -> Vec<Code> {
    t.iter().map(code).collect()
}

pub fn tok(c: &Code) -> Tok {
    match *c {
        Code::Literal(b) => Tok::Lit(b),
        Code::Reference(r) => Tok::mat(r.run(), r.dist),
    }
}

pub fn same_codes(got: &[Code], want: &[Tok]) -> Result<(), String> {
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        let same = match (*g, *w) {
            (Code::Literal(a), Tok::Lit(b)) => a == b,
            (Code::Reference(r), Tok::Mat { len, dist, .. }) => r.dist == dist && r.run() == len,
            _ => false,
        };
        if !same {
            return Err(format!("code {}: {:?}, should be {:?}", i, g, w));
        }
        if usize::from(g.emitted_bytes()) != w.size() {
            return Err(format!("code {}: {:?} claims {} bytes", i, g, g.emitted_bytes()));
        }
    }
    if got.len() != want.len() {
        return Err(format!("{} codes, should be {}", got.len(), want.len()));
    }
    Ok(())
}

/// `hdr`: where the code description lies in the stream
pub fn same_block(got: &Block, want: &Blk, hdr: Option<(usize, usize)>, bytes: &[u8]) -> Result<(), String> {
    match (got, want) {
        (Block::Uncompressed(a), Blk::Stored(b)) => {
            if a != b {
                return Err("stored bytes differ".into());
            }
        }
        (Block::FixedHuffman(c), Blk::Fixed(t)) => same_codes(c, t)?,
        (Block::DynamicHuffman { trees, codes }, Blk::Dyn(_, t)) => {
            same_codes(codes, t)?;
            let (from, to) = hdr.unwrap();
            if trees.len() != to - from {
                return Err(format!(
                    "code description of {} bits, should be {}",
                    trees.len(),
                    to - from
                ));
            }
            for (i, b) in trees.iter().enumerate() {
                if b != Bits::get(bytes, from + i) {
                    return Err(format!("code description differs at bit {}", i));
                }
            }
        }
        _ => return Err("block of another kind".into()),
    }
    Ok(())
}

/// Whether an iterator keeps to what `Iterator` promises: all its methods see the same items.
/// `make` begins anew, `want` is what comes out, as `of` sees it.
pub fn iterates<K: PartialEq, I: Iterator, F: FnMut() -> I, G: Fn(I::Item) -> K>(
    r: &mut crate::rng::Rng,
    want: &[K],
    mut make: F,
    of: G,
) -> Result<(), String> {
    let n = want.len();
    let bad = |what: &str| Err(format!("`{}` disagrees with what is iterated over one by one ({} items)", what, n));
    let same = |got: Option<I::Item>, want: Option<&K>| got.map(&of).as_ref() == want;
    sut("iterating", || {
        let mut it = make();
        for left in (0..=n).rev() {
            let (lo, hi) = it.size_hint();
            if lo > left || hi.map_or(false, |h| h < left) {
                return bad("size_hint");
            }
            if it.next().is_some() != (left > 0) {
                return bad("next");
            }
        }
        if it.next().is_some() || it.nth(2).is_some() {
            return bad("next after the end");
        }
        if make().count() != n {
            return bad("count");
        }
        if !same(make().last(), want.last()) {
            return bad("last");
        }
        if make().fold(0, |k, x| k + usize::from(k < n && of(x) == want[k])) != n {
            return bad("fold");
        }
        for _ in 0..3 {
            let k = r.below(n + 2);
            let mut it = make();
            if !same(it.nth(k), want.get(k)) {
                return bad("nth");
            }
            if k < n {
                for w in want[k + 1..].iter().map(Some).chain([None]) {
                    if !same(it.next(), w) {
                        return bad("next after nth");
                    }
                }
            }
            let mut it = make();
            for w in want.iter().take(k) {
                if !same(it.next(), Some(w)) {
                    return bad("next");
                }
            }
            if it.count() != n.saturating_sub(k) {
                return bad("count half way");
            }
            let mut it = make();
            for _ in 0..k {
                it.next();
            }
            if !same(it.last(), want[k.min(n)..].last()) {
                return bad("last half way");
            }
        }
        let k = r.range(2, 4);
        let mut i = 0;
        for x in make().step_by(k) {
            if !same(Some(x), want.get(i)) {
                return bad("step_by");
            }
            i += k;
        }
        if i < n {
            return bad("step_by");
        }
        Ok(())
    })?
}

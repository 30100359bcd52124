//! Reference model of RFC 1951: an encoder that can express every legal choice,
//! and a strict decoder.  Written from the RFC, sharing nothing with the code
//! under test.

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Tok {
    Lit(u8),
    /// `alt`: a length of 258 coded as symbol 284 with extra bits 31.
    Mat { len: u16, dist: u16, alt: bool },
}

impl Tok {
    pub fn mat(len: u16, dist: u16) -> Tok {
        Tok::Mat { len, dist, alt: false }
    }
    pub fn size(&self) -> usize {
        match *self {
            Tok::Lit(_) => 1,
            Tok::Mat { len, .. } => usize::from(len),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct DynHdr {
    /// literal/length code lengths, 257..=286 of them
    pub ll: Vec<u8>,
    /// distance code lengths, 1..=32 of them
    pub dd: Vec<u8>,
    /// code length symbols with the value of their extra bits
    pub syms: Vec<(u8, u8)>,
    /// code lengths of the code length code
    pub cl: [u8; 19],
    /// how many of them are sent, 4..=19
    pub hclen: usize,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Blk {
    Stored(Vec<u8>),
    Fixed(Vec<Tok>),
    Dyn(DynHdr, Vec<Tok>),
}

impl Blk {
    pub fn toks(&self) -> Option<&[Tok]> {
        match self {
            Blk::Stored(_) => None,
            Blk::Fixed(t) | Blk::Dyn(_, t) => Some(t),
        }
    }
    pub fn size(&self) -> usize {
        match self {
            Blk::Stored(d) => d.len(),
            Blk::Fixed(t) | Blk::Dyn(_, t) => t.iter().map(|t| t.size()).sum(),
        }
    }
}

pub const CL_ORDER: [usize; 19] = [
    16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15,
];

pub const LEN_BASE: [u16; 29] = [
    3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131,
    163, 195, 227, 258,
];
pub const LEN_EXTRA: [u8; 29] = [
    0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0,
];
pub const DIST_BASE: [u32; 30] = [
    1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537,
    2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577,
];
pub const DIST_EXTRA: [u8; 30] = [
    0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13,
    13,
];

/// (symbol, extra bits, value)
pub fn len_sym(len: u16, alt: bool) -> (usize, u8, u16) {
    if len == 258 && !alt {
        return (285, 0, 0);
    }
    for i in (0..28).rev() {
        if LEN_BASE[i] <= len {
            return (257 + i, LEN_EXTRA[i], len - LEN_BASE[i]);
        }
    }
    unreachable!()
}

pub fn dist_sym(dist: u16) -> (usize, u8, u16) {
    for i in (0..30).rev() {
        if DIST_BASE[i] <= u32::from(dist) {
            return (i, DIST_EXTRA[i], (u32::from(dist) - DIST_BASE[i]) as u16);
        }
    }
    unreachable!()
}

#[derive(Default, Clone)]
pub struct Bits {
    pub bytes: Vec<u8>,
    pub len: usize,
}

impl Bits {
    pub fn bit(&mut self, b: bool) {
        if self.len % 8 == 0 {
            self.bytes.push(0);
        }
        if b {
            *self.bytes.last_mut().unwrap() |= 1 << (self.len % 8);
        }
        self.len += 1;
    }
    /// least significant bit first
    pub fn val(&mut self, n: u8, v: u32) {
        for i in 0..n {
            self.bit((v >> i) & 1 == 1);
        }
    }
    /// Huffman code, most significant bit first
    pub fn code(&mut self, (len, code): (u8, u32)) {
        assert!(len > 0, "symbol without a code");
        for i in (0..len).rev() {
            self.bit((code >> i) & 1 == 1);
        }
    }
    pub fn align(&mut self) {
        self.len = self.bytes.len() * 8;
    }
    pub fn get(bytes: &[u8], pos: usize) -> bool {
        (bytes[pos / 8] >> (pos % 8)) & 1 == 1
    }
}

/// RFC 1951, 3.2.2: codes from lengths
pub fn codes(lens: &[u8]) -> Vec<(u8, u32)> {
    let mut count = [0u32; 17];
    for l in lens {
        count[usize::from(*l)] += 1;
    }
    count[0] = 0;
    let mut next = [0u32; 17];
    let mut code = 0;
    for b in 1..=16 {
        code = (code + count[b - 1]) << 1;
        next[b] = code;
    }
    lens.iter()
        .map(|l| {
            if *l == 0 {
                (0, 0)
            } else {
                let c = next[usize::from(*l)];
                next[usize::from(*l)] += 1;
                (*l, c)
            }
        })
        .collect()
}

pub fn fixed_lens() -> (Vec<u8>, Vec<u8>) {
    let mut ll = vec![8u8; 144];
    ll.extend(vec![9u8; 112]);
    ll.extend(vec![7u8; 24]);
    ll.extend(vec![8u8; 8]);
    (ll, vec![5u8; 32])
}

/// Kraft sum in units of 2^-15
pub fn kraft(lens: &[u8]) -> u32 {
    lens.iter()
        .filter(|l| **l > 0)
        .map(|l| 1u32 << (15 - *l))
        .sum()
}

#[derive(Clone, Default)]
pub struct Enc {
    pub bits: Bits,
    /// first bit of each block (its final flag)
    pub starts: Vec<usize>,
    /// for dynamic blocks, the bits of the code description
    pub hdrs: Vec<Option<(usize, usize)>>,
}

pub fn put_toks(bits: &mut Bits, ll: &[u8], dd: &[u8], toks: &[Tok]) {
    let lc = codes(ll);
    let dc = codes(dd);
    for t in toks {
        match *t {
            Tok::Lit(b) => bits.code(lc[usize::from(b)]),
            Tok::Mat { len, dist, alt } => {
                let (s, n, v) = len_sym(len, alt);
                bits.code(lc[s]);
                bits.val(n, u32::from(v));
                let (s, n, v) = dist_sym(dist);
                bits.code(dc[s]);
                bits.val(n, u32::from(v));
            }
        }
    }
}

pub fn put_hdr(bits: &mut Bits, h: &DynHdr) {
    bits.val(5, (h.ll.len() - 257) as u32);
    bits.val(5, (h.dd.len() - 1) as u32);
    bits.val(4, (h.hclen - 4) as u32);
    for i in 0..h.hclen {
        bits.val(3, u32::from(h.cl[CL_ORDER[i]]));
    }
    let cc = codes(&h.cl);
    for (s, x) in &h.syms {
        bits.code(cc[usize::from(*s)]);
        match s {
            16 => bits.val(2, u32::from(*x)),
            17 => bits.val(3, u32::from(*x)),
            18 => bits.val(7, u32::from(*x)),
            _ => {}
        }
    }
}

impl Enc {
    pub fn block(&mut self, last: bool, b: &Blk) {
        let bits = &mut self.bits;
        self.starts.push(bits.len);
        bits.bit(last);
        match b {
            Blk::Stored(d) => {
                bits.val(2, 0);
                bits.align();
                self.hdrs.push(None);
                let n = d.len() as u16;
                bits.val(16, u32::from(n));
                bits.val(16, u32::from(!n));
                bits.bytes.extend(d);
                bits.len = bits.bytes.len() * 8;
            }
            Blk::Fixed(t) => {
                bits.val(2, 1);
                self.hdrs.push(None);
                let (ll, dd) = fixed_lens();
                put_toks(bits, &ll, &dd, t);
                bits.code(codes(&ll)[256]);
            }
            Blk::Dyn(h, t) => {
                bits.val(2, 2);
                let from = bits.len;
                put_hdr(bits, h);
                self.hdrs.push(Some((from, bits.len)));
                put_toks(bits, &h.ll, &h.dd, t);
                bits.code(codes(&h.ll)[256]);
            }
        }
    }
}

pub fn encode(blks: &[Blk]) -> Enc {
    let mut e = Enc::default();
    for (i, b) in blks.iter().enumerate() {
        e.block(i + 1 == blks.len(), b);
    }
    e
}

/// Apply tokens to an output; false if a distance reaches too far back.
pub fn expand(out: &mut Vec<u8>, base: usize, toks: &[Tok]) -> bool {
    for t in toks {
        match *t {
            Tok::Lit(b) => out.push(b),
            Tok::Mat { len, dist, .. } => {
                let d = usize::from(dist);
                if d > out.len() - base {
                    return false;
                }
                for _ in 0..len {
                    let b = out[out.len() - d];
                    out.push(b);
                }
            }
        }
    }
    true
}

pub fn expand_blks(blks: &[Blk]) -> Vec<u8> {
    let mut out = Vec::new();
    for b in blks {
        match b {
            Blk::Stored(d) => out.extend(d),
            Blk::Fixed(t) | Blk::Dyn(_, t) => assert!(expand(&mut out, 0, t)),
        }
    }
    out
}

#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Bad {
    Truncated,
    ReservedType,
    StoredCheck,
    LitLenCode,
    DistCode,
    ClCode,
    NoRepeat,
    RepeatOverrun,
    ReservedLen,
    ReservedDist,
    NoDistCode,
    TooFar,
}

pub struct Dec {
    /// complete blocks
    pub blks: Vec<Blk>,
    pub hdrs: Vec<Option<(usize, usize)>>,
    pub payload: Vec<u8>,
    /// bytes consumed when the stream ended
    pub used: usize,
    pub bad: Option<Bad>,
    /// something RFC 1951 leaves open or this project refuses on purpose
    pub grey: Option<&'static str>,
    pub nonzero_padding: bool,
    pub alt258: bool,
}

struct In<'a> {
    d: &'a [u8],
    pos: usize,
}

impl<'a> In<'a> {
    fn bit(&mut self) -> Result<u32, Bad> {
        if self.pos >= self.d.len() * 8 {
            return Err(Bad::Truncated);
        }
        let b = Bits::get(self.d, self.pos);
        self.pos += 1;
        Ok(u32::from(b))
    }
    fn val(&mut self, n: u8) -> Result<u32, Bad> {
        let mut v = 0;
        for i in 0..n {
            v |= self.bit()? << i;
        }
        Ok(v)
    }
    /// false if some padding bit was set
    fn align(&mut self) -> bool {
        let mut clean = true;
        while self.pos % 8 != 0 {
            clean &= !Bits::get(self.d, self.pos);
            self.pos += 1;
        }
        clean
    }
}

/// Decoding table: symbols sorted by (length, symbol), counts per length
struct Tab {
    count: [u32; 16],
    syms: Vec<u16>,
}

impl Tab {
    fn new(lens: &[u8]) -> Tab {
        let mut count = [0u32; 16];
        let mut syms: Vec<u16> = (0..lens.len() as u16)
            .filter(|s| lens[usize::from(*s)] > 0)
            .collect();
        for s in &syms {
            count[usize::from(lens[usize::from(*s)])] += 1;
        }
        syms.sort_by_key(|s| (lens[usize::from(*s)], *s));
        Tab { count, syms }
    }
    /// None: a bit pattern without a symbol
    fn sym(&self, i: &mut In) -> Result<Option<u16>, Bad> {
        let (mut code, mut first, mut index) = (0u32, 0u32, 0u32);
        for len in 1..=15 {
            code |= i.bit()?;
            let n = self.count[len];
            if code < first + n {
                return Ok(Some(self.syms[(index + code - first) as usize]));
            }
            index += n;
            first = (first + n) << 1;
            code <<= 1;
        }
        Ok(None)
    }
}

pub fn decode(d: &[u8]) -> Dec {
    let mut out = Dec {
        blks: vec![],
        hdrs: vec![],
        payload: vec![],
        used: 0,
        bad: None,
        grey: None,
        nonzero_padding: false,
        alt258: false,
    };
    let mut i = In { d, pos: 0 };
    out.bad = dec_blocks(&mut i, &mut out).err();
    out.used = i.pos.div_ceil(8);
    out
}

fn dec_blocks(i: &mut In, out: &mut Dec) -> Result<(), Bad> {
    loop {
        let last = i.bit()? == 1;
        match i.val(2)? {
            0 => {
                out.nonzero_padding |= !i.align();
                let n = i.val(16)?;
                let c = i.val(16)?;
                if n ^ 0xffff != c {
                    return Err(Bad::StoredCheck);
                }
                let from = i.pos / 8;
                let n = n as usize;
                if from + n > i.d.len() {
                    return Err(Bad::Truncated);
                }
                i.pos += n * 8;
                let data = i.d[from..from + n].to_vec();
                out.payload.extend(&data);
                out.hdrs.push(None);
                out.blks.push(Blk::Stored(data));
            }
            1 => {
                let (ll, dd) = fixed_lens();
                let t = dec_toks(i, &Tab::new(&ll), Some(&Tab::new(&dd)), out)?;
                out.hdrs.push(None);
                out.blks.push(Blk::Fixed(t));
            }
            2 => {
                let from = i.pos;
                let h = dec_hdr(i, out)?;
                let hdr = Some((from, i.pos));
                let dt = if h.dd.iter().all(|l| *l == 0) {
                    None
                } else {
                    Some(Tab::new(&h.dd))
                };
                let t = dec_toks(i, &Tab::new(&h.ll), dt.as_ref(), out)?;
                out.hdrs.push(hdr);
                out.blks.push(Blk::Dyn(h, t));
            }
            _ => return Err(Bad::ReservedType),
        }
        if last {
            break;
        }
    }
    out.nonzero_padding |= !i.align();
    Ok(())
}

fn dec_hdr(i: &mut In, out: &mut Dec) -> Result<DynHdr, Bad> {
    let nl = i.val(5)? as usize + 257;
    let nd = i.val(5)? as usize + 1;
    let nc = i.val(4)? as usize + 4;
    if nl > 286 {
        out.grey = Some("more than 286 literal/length codes");
    }
    let mut cl = [0u8; 19];
    for k in 0..nc {
        cl[CL_ORDER[k]] = i.val(3)? as u8;
    }
    if kraft(&cl) != 1 << 15 {
        return Err(Bad::ClCode);
    }
    let t = Tab::new(&cl);
    let mut lens: Vec<u8> = Vec::new();
    let mut syms = vec![];
    while lens.len() < nl + nd {
        let s = t.sym(i)?.ok_or(Bad::ClCode)?;
        let (n, v, x) = match s {
            0..=15 => (1, s as u8, 0),
            16 => {
                let x = i.val(2)?;
                (3 + x, *lens.last().ok_or(Bad::NoRepeat)?, x)
            }
            17 => {
                let x = i.val(3)?;
                (3 + x, 0, x)
            }
            _ => {
                let x = i.val(7)?;
                (11 + x, 0, x)
            }
        };
        syms.push((s as u8, x as u8));
        lens.extend(vec![v; n as usize]);
    }
    if lens.len() > nl + nd {
        return Err(Bad::RepeatOverrun);
    }
    let ll = lens[..nl].to_vec();
    let dd = lens[nl..].to_vec();
    if kraft(&ll) != 1 << 15 {
        let used = ll.iter().filter(|l| **l > 0).count();
        if used == 1 && kraft(&ll) == 1 << 14 {
            out.grey = Some("one literal/length code");
        }
        return Err(Bad::LitLenCode);
    }
    let used = dd.iter().filter(|l| **l > 0).count();
    let k = kraft(&dd);
    if used == 0 {
    } else if used == 1 && k == 1 << 14 {
        if dd.len() == 32 && dd[31] == 1 {
            out.grey = Some("only the last distance code");
        }
    } else if k != 1 << 15 {
        return Err(Bad::DistCode);
    }
    Ok(DynHdr {
        ll,
        dd,
        syms,
        cl,
        hclen: nc,
    })
}

/// A code description on its own: what it says, or None if it is broken, cut
/// off or longer than what it says; and whether that is left open
pub fn read_hdr(bits: &Bits) -> (Option<DynHdr>, bool) {
    let mut padded = bits.bytes.clone();
    padded.extend([0; 600]);
    let mut i = In { d: &padded, pos: 0 };
    let mut out = decode(&[]);
    let h = dec_hdr(&mut i, &mut out);
    (h.ok().filter(|_| i.pos == bits.len), out.grey.is_some())
}

fn dec_toks(i: &mut In, lt: &Tab, dt: Option<&Tab>, out: &mut Dec) -> Result<Vec<Tok>, Bad> {
    let mut toks = vec![];
    loop {
        let s = lt.sym(i)?.ok_or(Bad::LitLenCode)?;
        match s {
            0..=255 => {
                toks.push(Tok::Lit(s as u8));
                out.payload.push(s as u8);
            }
            256 => return Ok(toks),
            257..=285 => {
                let k = usize::from(s) - 257;
                let len = LEN_BASE[k] + i.val(LEN_EXTRA[k])? as u16;
                let alt = s == 284 && len == 258;
                if alt {
                    out.alt258 = true;
                    out.grey = Some("length 258 coded as symbol 284");
                }
                let dt = dt.ok_or(Bad::NoDistCode)?;
                // an incomplete one-symbol code: its second bit pattern is unused
                let ds = dt.sym(i)?.ok_or(Bad::ReservedDist)?;
                if ds > 29 {
                    return Err(Bad::ReservedDist);
                }
                let k = usize::from(ds);
                let dist = (DIST_BASE[k] + i.val(DIST_EXTRA[k])?) as u16;
                let tok = Tok::Mat { len, dist, alt };
                if !expand(&mut out.payload, 0, &[tok]) {
                    return Err(Bad::TooFar);
                }
                toks.push(tok);
            }
            _ => return Err(Bad::ReservedLen),
        }
    }
}

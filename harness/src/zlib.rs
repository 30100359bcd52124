//! The system's zlib: a second opinion for the reference model, and a source of
//! realistic streams.
#![cfg(not(miri))]

use std::os::raw::{c_char, c_int, c_uint, c_ulong, c_void};

#[repr(C)]
struct ZStream {
    next_in: *const u8,
    avail_in: c_uint,
    total_in: c_ulong,
    next_out: *mut u8,
    avail_out: c_uint,
    total_out: c_ulong,
    msg: *const c_char,
    state: *mut c_void,
    zalloc: *mut c_void,
    zfree: *mut c_void,
    opaque: *mut c_void,
    data_type: c_int,
    adler: c_ulong,
    reserved: c_ulong,
}

#[link(name = "z")]
extern "C" {
    fn zlibVersion() -> *const c_char;
    fn deflateInit2_(
        s: *mut ZStream,
        level: c_int,
        method: c_int,
        wbits: c_int,
        mem: c_int,
        strategy: c_int,
        version: *const c_char,
        size: c_int,
    ) -> c_int;
    fn deflate(s: *mut ZStream, flush: c_int) -> c_int;
    fn deflateEnd(s: *mut ZStream) -> c_int;
    fn inflateInit2_(s: *mut ZStream, wbits: c_int, version: *const c_char, size: c_int) -> c_int;
    fn inflate(s: *mut ZStream, flush: c_int) -> c_int;
    fn inflateEnd(s: *mut ZStream) -> c_int;
}

fn blank() -> ZStream {
    unsafe { std::mem::zeroed() }
}

/// Raw deflate. `flushes`: (bytes of input, flush kind) before the rest is finished.
pub fn compress(
    data: &[u8],
    level: i32,
    strategy: i32,
    mem: i32,
    wbits: i32,
    flushes: &[(usize, i32)],
) -> Vec<u8> {
    unsafe {
        let mut s = blank();
        let rc = deflateInit2_(
            &mut s,
            level,
            8,
            -wbits,
            mem,
            strategy,
            zlibVersion(),
            std::mem::size_of::<ZStream>() as c_int,
        );
        assert_eq!(0, rc);
        let mut out = vec![0u8; data.len() + data.len() / 8 + 1000 + 100 * flushes.len()];
        s.next_out = out.as_mut_ptr();
        s.avail_out = out.len() as c_uint;
        let mut pos = 0;
        for (n, f) in flushes {
            let n = (*n).min(data.len() - pos);
            s.next_in = data[pos..].as_ptr();
            s.avail_in = n as c_uint;
            pos += n;
            let rc = deflate(&mut s, *f);
            assert!(rc == 0 || rc == -5, "deflate {}", rc);
            assert_eq!(0, s.avail_in);
        }
        s.next_in = data[pos..].as_ptr();
        s.avail_in = (data.len() - pos) as c_uint;
        assert_eq!(1, deflate(&mut s, 4));
        let n = s.total_out as usize;
        deflateEnd(&mut s);
        out.truncate(n);
        out
    }
}

/// Ok(payload, bytes used) or the error code
pub fn decompress(data: &[u8], limit: usize) -> Result<(Vec<u8>, usize), i32> {
    unsafe {
        let mut s = blank();
        let rc = inflateInit2_(
            &mut s,
            -15,
            zlibVersion(),
            std::mem::size_of::<ZStream>() as c_int,
        );
        assert_eq!(0, rc);
        let mut out = vec![0u8; limit + 1];
        s.next_in = data.as_ptr();
        s.avail_in = data.len() as c_uint;
        s.next_out = out.as_mut_ptr();
        s.avail_out = out.len() as c_uint;
        let rc = inflate(&mut s, 4);
        let (i, o) = (s.total_in as usize, s.total_out as usize);
        inflateEnd(&mut s);
        if rc == 1 {
            out.truncate(o);
            Ok((out, i))
        } else {
            Err(rc)
        }
    }
}

/// A stream with random parameters.
pub fn random(r: &mut crate::rng::Rng, data: &[u8]) -> Vec<u8> {
    let level = r.range(0, 9) as i32;
    let strategy = *r.pick(&[0, 0, 0, 1, 2, 3, 4]);
    let mem = r.range(1, 9) as i32;
    let wbits = *r.pick(&[15, 15, 15, 9, 10, 12]);
    let mut flushes = vec![];
    if r.chance(1, 3) {
        for _ in 0..r.range(1, 4) {
            flushes.push((r.log(data.len()), *r.pick(&[1, 2, 3, 5])));
        }
    }
    compress(data, level, strategy, mem, wbits, &flushes)
}

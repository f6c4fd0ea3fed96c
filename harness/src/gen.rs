//! Job parameters and the data they describe.
use crate::sym::*;
use retrocompressor::*;

/// Reader over the job's parameter list.
static mut BASE: u32 = 0;
pub struct P { i: u32 }
impl P {
    pub fn new() -> Self { P { i: unsafe { BASE } } }
    /// the next P::new() goes on from here
    pub fn pass_on(&self) { unsafe { BASE = self.i } }
    pub fn next(&mut self) -> usize { let v = param(self.i); self.i += 1; v }
}

pub fn lcg(s: &mut u32) -> u32 { *s = s.wrapping_mul(1664525).wrapping_add(1013904223); *s >> 8 }

/// Data made of segments; the parameter list holds the number of segments and four numbers each:
/// kind, length, a, b.
/// 0 pseudo-random bytes, seed a | 1 pseudo-random symbols below a, added to b | 2 the byte a | 3 text
/// 4 symbols of Fibonacci frequencies, in order (a: symbols used, b: base symbol) | 5 pairs that make every step a new string
/// 6 symbolic bytes in a..=b | 7 copy of what is a bytes back | 8 symbolic-distance copy: a + symbolic 0..=b bytes back
/// 9 one symbolic byte in a..=b repeated | 10 symbolic length 0..=len of symbolic bytes in a..=b
/// 11 symbolic length 0..=len of the byte a | 12 copy a back of symbolic length 0..=len | 13 symbolic byte a | (mask b)
/// 16 `len` 16-bit little-endian numbers from a up | 15 the beginning of the shortest sequence that contains every pair of bytes
/// 14 copy of what is a + 64 * symbolic 0..=b bytes back: one distance for each position code
pub fn data(p: &mut P) -> Vec<u8> {
    let segs = p.next();
    let mut d: Vec<u8> = Vec::new();
    for _ in 0..segs {
        let (kind, len, a, b) = (p.next(), p.next(), p.next(), p.next());
        match kind {
            0 => { let mut s = a as u32; for _ in 0..len { d.push(lcg(&mut s) as u8); } }
            1 => { let mut s = (len * 7 + a + b) as u32; for _ in 0..len { d.push((lcg(&mut s) as usize % a + b) as u8); } }
            2 => for _ in 0..len { d.push(a as u8) },
            3 => { let t = b"I am Sam. Sam I am. I do not like this Sam I am. Do you like green eggs and ham? "; for i in 0..len { d.push(t[i % t.len()]) } }
            4 => {
                // most frequent symbol last, so that the tree grows as deep as it can
                let mut f = vec![1usize; a];
                for i in 2..a { f[i] = f[i - 1] + f[i - 2]; }
                let mut n = 0;
                'o: for i in 0..a { for _ in 0..f[i] { if n == len { break 'o; } d.push((b + i) as u8); n += 1; } }
            }
            5 => { for i in 0..len { d.push(if i & 1 == 0 { (i >> 9) as u8 } else { (i >> 1) as u8 }); } }
            6 => for _ in 0..len { d.push(byte_in(a as u8, b as u8)) },
            7 => for _ in 0..len { let v = d[d.len() - a]; d.push(v) },
            8 => {
                let s = byte_in(0, b as u8) as usize;
                let base = d.len() - a;
                for i in 0..len { let v = d[base + i - s]; d.push(v) }
            }
            9 => { let v = byte_in(a as u8, b as u8); for _ in 0..len { d.push(v) } }
            10 => { let n = pick(len + 1); for _ in 0..n { d.push(byte_in(a as u8, b as u8)) } }
            11 => { let n = pick(len + 1); for _ in 0..n { d.push(a as u8) } }
            12 => { let n = pick(len + 1); for _ in 0..n { let v = d[d.len() - a]; d.push(v) } }
            13 => for _ in 0..len { d.push(a as u8 | (byte() & b as u8)) },
            14 => { let n = a + 64 * pick(b + 1); for _ in 0..len { let v = d[d.len() - n]; d.push(v) } }
            15 => { let n = d.len() + len; 'a: for i in 0..=255u8 { if d.len() < n { d.push(i) } for j in i as usize + 1..256 { for b in [i, j as u8] { if d.len() == n { break 'a; } d.push(b) } } } }
            16 => for i in 0..len { d.extend_from_slice(&((a + i) as u16).to_le_bytes()) },
            _ => panic!("segment kind"),
        }
    }
    d
}

/// LZW options: width, order (0 Msb0, 1 Lsb0), clear code (0 none), stop code (0 none), header bits, header divisor, chunk size, largest symbol
pub fn lzw_opt(p: &mut P) -> lzw::Options {
    let (w, o, c, s, hb, hd, ch, ms) = (p.next(), p.next(), p.next(), p.next(), p.next(), p.next(), p.next(), p.next());
    lzw_options(w, o, c, s, hb, hd, ch, ms)
}
pub fn lzw_options(w: usize, o: usize, c: usize, s: usize, hb: usize, hd: usize, ch: usize, ms: usize) -> lzw::Options {
    lzw::Options {
        header_bits: hb, header_divisor: hd, chunk_size: ch, max_symbol: ms, min_code_width: w, max_code_width: w,
        clear_code: if c == 0 { None } else { Some(c) }, stop_code: if s == 0 { None } else { Some(s) },
        ord: if o == 0 { BitOrder::Msb0 } else { BitOrder::Lsb0 },
        ..lzw::STD_OPTIONS
    }
}
/// LZSS options: window, threshold, lookahead, precursor, header
pub fn lzss_opt(p: &mut P) -> lzss_huff::Options {
    let (w, t, l, c, h) = (p.next(), p.next(), p.next(), p.next(), p.next());
    lzss_huff::Options { window_size: w, threshold: t, lookahead: l, precursor: c as u8, header: h != 0, ..lzss_huff::STD_OPTIONS }
}

pub enum Codec { Lzw(lzw::Options), Lzss(lzss_huff::Options), Port, Td0 }
/// Codec: 0 lzw + options, 1 lzss_huff + options, 2 port, 3 td0
pub fn codec(p: &mut P) -> Codec {
    match p.next() { 0 => Codec::Lzw(lzw_opt(p)), 1 => Codec::Lzss(lzss_opt(p)), 2 => Codec::Port, _ => Codec::Td0 }
}
use std::io::{Read, Write, Seek};
pub type R = Result<(u64, u64), Box<dyn std::error::Error>>;
impl Codec {
    pub fn run<A: Read + Seek, B: Write + Seek>(&self, compress: bool, r: &mut A, w: &mut B) -> R {
        match (self, compress) {
            (Codec::Lzw(o), true) => lzw::compress(r, w, o), (Codec::Lzw(o), false) => lzw::expand(r, w, o),
            (Codec::Lzss(o), true) => lzss_huff::compress(r, w, o), (Codec::Lzss(o), false) => lzss_huff::expand(r, w, o),
            (Codec::Port, true) => direct_ports::lzhuf::encode(r, w), (Codec::Port, false) => direct_ports::lzhuf::decode(r, w),
            (Codec::Td0, true) => td0::compress(r, w), (Codec::Td0, false) => td0::expand(r, w),
        }
    }
    pub fn slice(&self, compress: bool, d: &[u8]) -> Result<Vec<u8>, Box<dyn std::error::Error>> {
        match (self, compress) {
            (Codec::Lzw(o), true) => lzw::compress_slice(d, o), (Codec::Lzw(o), false) => lzw::expand_slice(d, o),
            (Codec::Lzss(o), true) => lzss_huff::compress_slice(d, o), (Codec::Lzss(o), false) => lzss_huff::expand_slice(d, o),
            (Codec::Port, true) => direct_ports::lzhuf::encode_slice(d), (Codec::Port, false) => direct_ports::lzhuf::decode_slice(d),
            (Codec::Td0, true) => td0::compress_slice(d), (Codec::Td0, false) => td0::expand_slice(d),
        }
    }
    pub fn offsets(&mut self, i: u64, o: u64) {
        match self { Codec::Lzw(x) => { x.in_offset = i; x.out_offset = o }, Codec::Lzss(x) => { x.in_offset = i; x.out_offset = o }, _ => {} }
    }
    pub fn limit(&mut self, m: u64) {
        match self { Codec::Lzw(x) => x.max_file_size = m, Codec::Lzss(x) => x.max_file_size = m, _ => {} }
    }
    /// does the stream carry no end of its own, so that padding bits can add output
    pub fn padded(&self) -> bool {
        match self { Codec::Lzw(o) => o.stop_code.is_none() && o.header_bits == 0, Codec::Lzss(o) => !o.header, Codec::Port => false, Codec::Td0 => true }
    }
}
/// A 12-byte TD0 header with the given version byte and a right checksum, by the reference CRC.
pub fn td_header(sig: &[u8], body: &[u8]) -> Vec<u8> {
    let mut h = sig.to_vec();
    h.extend_from_slice(body);
    let c = crate::refs::crc(0, &h);
    h.push(c as u8); h.push((c >> 8) as u8);
    h
}
/// the input actually given to a compressor: TD0 images need a header
pub fn image(c: &Codec, d: Vec<u8>, ver: u8) -> Vec<u8> {
    match c { Codec::Td0 => { let mut h = td_header(b"TD", &[0, 0, ver, 0, 0, 0, 0, 0]); h.extend(d); h }, _ => d }
}

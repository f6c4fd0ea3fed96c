mod sym;
mod gen;
mod io;
mod refs;
use gen::*;
use io::*;
use retrocompressor::*;
use sym::*;

/// same length and same bytes
fn same(a: &[u8], b: &[u8]) -> bool { a == b }
/// `d` followed by at most 7 more bytes
fn almost(x: &[u8], d: &[u8]) -> bool { x.len() >= d.len() && x.len() < d.len() + 8 && x[..d.len()] == *d }
fn prefix(x: &[u8], d: &[u8]) -> bool { x.len() <= d.len() && *x == d[..x.len()] }
fn is(e: &Box<dyn std::error::Error>, f: fn(&Error) -> bool) -> bool { match e.downcast_ref::<Error>() { Some(x) => f(x), None => false } }
fn too_large(e: &Error) -> bool { matches!(e, Error::FileTooLarge) }
fn show(v: &[u8]) { for b in v { emit(*b as u64); } }
/// fails the property; also tells the reader of a native replay why
fn must<T>(r: Result<T, Box<dyn std::error::Error>>, id: u32) -> Option<T> { match r { Ok(v) => Some(v), Err(_) => { check(false, id); None } } }

/// Round trip.  Parameters: codec, data.
fn round_trip() {
    let mut p = P::new();
    let c = codec(&mut p);
    let d = data(&mut p);
    let d = image(&c, d, param(0) as u8); // version byte unused outside td0
    let z = match must(c.slice(true, &d), 10) { Some(z) => z, None => return };
    let x = match must(c.slice(false, &z), 11) { Some(x) => x, None => return };
    show(&z);
    if c.padded() { check(almost(&x, &d), 13) } else { check(x.len() == d.len(), 12); check(same(&x, &d), 1) }
    reach(1);
}
#[no_mangle] pub extern "C" fn h_round_trip() { round_trip() }
/// Round trip with LZW options of which width, order, clear, stop, chunk size and header are arbitrary.
/// Parameters: largest symbol, smallest width, widths, data.
#[no_mangle] pub extern "C" fn h_lzw_any() {
    let mut p = P::new();
    let (ms, w0, nw) = (p.next(), p.next(), p.next());
    let w = w0 + pick(nw);
    let o = pick(2);
    let (c, s) = ([0, ms + 1, ms + 2, (1 << w) - 1][pick(4)], [0, ms + 1, ms + 2, (1 << w) - 2][pick(4)]);
    assume(c == 0 || c != s);
    assume(c < 1 << w && s < 1 << w);
    let ch = [1, 2, 3, 4096][pick(4)];
    let head = pick(3);
    let (hb, hd) = [(0, 1), (16, 1), (13, w)][head];
    // consistent: something must end a chunk, and short padding must not look like a code
    assume(c != 0 || hb > 0 || ch == 4096);
    assume(s != 0 || hb > 0 || w >= 8);
    let opt = lzw_options(w, o, c, s, hb, hd, ch, ms);
    let d = data(&mut p);
    let z = match must(lzw::compress_slice(&d, &opt), 10) { Some(z) => z, None => return };
    let x = match must(lzw::expand_slice(&z, &opt), 11) { Some(z) => z, None => return };
    show(&z);
    check(same(&x, &d), 1);
    reach(1);
}
/// Round trip with arbitrary LZSS parameters.  Parameters: smallest window, windows, data.
#[no_mangle] pub extern "C" fn h_lzss_any() {
    let mut p = P::new();
    let (w0, nw) = (p.next(), p.next());
    let w = w0 + pick(nw);
    let l = 2 + pick(w - 2);
    let t = pick(l);
    let pre = [b' ', 0, b'a'][pick(3)];
    let opt = lzss_huff::Options { window_size: w, lookahead: l, threshold: t, precursor: pre, ..lzss_huff::STD_OPTIONS };
    let d = data(&mut p);
    let z = match must(lzss_huff::compress_slice(&d, &opt), 10) { Some(z) => z, None => return };
    let x = match must(lzss_huff::expand_slice(&z, &opt), 11) { Some(z) => z, None => return };
    show(&z);
    check(same(&x, &d), 1);
    reach(1);
}
/// C04.  Parameters: data.
#[no_mangle] pub extern "C" fn h_same_bits() {
    let mut p = P::new();
    let d = data(&mut p);
    let a = match must(lzss_huff::compress_slice(&d, &lzss_huff::STD_OPTIONS), 10) { Some(z) => z, None => return };
    let b = match must(direct_ports::lzhuf::encode_slice(&d), 11) { Some(z) => z, None => return };
    show(&a);
    check(a.len() == b.len(), 2);
    check(same(&a, &b), 1);
    reach(1);
}
/// C04 across: each expands the other's output.
#[no_mangle] pub extern "C" fn h_cross() {
    let mut p = P::new();
    let d = data(&mut p);
    let a = match must(lzss_huff::compress_slice(&d, &lzss_huff::STD_OPTIONS), 10) { Some(z) => z, None => return };
    let b = match must(direct_ports::lzhuf::encode_slice(&d), 11) { Some(z) => z, None => return };
    let x = match must(direct_ports::lzhuf::decode_slice(&a), 12) { Some(z) => z, None => return };
    check(same(&x, &d), 1);
    let y = match must(lzss_huff::expand_slice(&b, &lzss_huff::STD_OPTIONS), 13) { Some(z) => z, None => return };
    check(same(&y, &d), 2);
    reach(1);
}
/// the options TD0 uses, spelled out from the format: 12-byte header in front, LZW with 16-bit chunk headers
/// in units of 4 bits, or plain LZHUF without size field
fn td_v1() -> lzw::Options { lzw::Options { max_file_size: 3_000_000, ..lzw_options(12, 1, 0, 0, 16, 4, 4096, 255) } }
fn td_v2() -> lzss_huff::Options { lzss_huff::Options { header: false, window_size: 4096, threshold: 2, lookahead: 60, precursor: b' ', max_file_size: 3_000_000, in_offset: 0, out_offset: 0, ..lzss_huff::STD_OPTIONS } }
/// C05.  Parameters: mode (0 version symbolic, else the version), data.
#[no_mangle] pub extern "C" fn h_td0() {
    let mut p = P::new();
    let mode = p.next();
    let mut h = [0u8; 8];
    for i in 0..8 { h[i] = if i == 2 && mode != 0 { mode as u8 } else { byte() }; }
    let ver = h[2];
    let mut img = td_header(b"TD", &h);
    let d = data(&mut p);
    img.extend_from_slice(&d);
    let z = match must(td0::compress_slice(&img), 10) { Some(z) => z, None => return };
    check(z.len() >= 12, 2);
    check(same(&z[..12], &td_header(b"td", &h)), 3);
    let body = if ver < 20 { lzw::compress_slice(&d, &td_v1()) } else { lzss_huff::compress_slice(&d, &td_v2()) };
    let body = match must(body, 11) { Some(z) => z, None => return };
    check(same(&z[12..], &body), 4);
    let x = match must(td0::expand_slice(&z), 12) { Some(z) => z, None => return };
    check(x.len() >= 12, 5);
    if ver < 20 { check(same(&x, &img), 1) } else { check(almost(&x, &img), 6) }
    show(&z);
    reach(1);
}
/// C06.  Parameters: direction (1 compress), smallest length, lengths, mask of what is symbolic (bit i: header byte i), version byte.
#[no_mangle] pub extern "C" fn h_gate() {
    let mut p = P::new();
    let (comp, l0, nl, mask, ver) = (p.next() == 1, p.next(), p.next(), p.next(), p.next());
    let c = Codec::Td0;
    let sig: &[u8] = if comp { b"TD" } else { b"td" };
    let mut h = td_header(sig, &[1, 2, 3, 0, 5, 6, 7, 8]);
    h[4] = ver as u8;
    let k = crate::refs::crc(0, &h[..10]);
    h[10] = k as u8; h[11] = (k >> 8) as u8;
    for i in 0..12 { if mask >> i & 1 == 1 { h[i] = byte(); } }
    // a body that both expanders accept
    let n = l0 + pick(nl);
    let full = h.clone();
    if ver < 20 && !comp { h.extend_from_slice(&[0, 0]); } else { h.extend_from_slice(&[0u8; 4]); }
    h.truncate(n);
    let sched = Sched::plain();
    let mut r = Src::new(&h, &sched);
    let old = [9u8, 8, 7];
    let mut w = Sink::new(&old, &sched);
    let res = c.run(comp, &mut r, &mut w);
    if n < 12 {
        check(res.is_err(), 1);
        check(!w.touched, 2);
        reach(1);
        return;
    }
    let k = refs::crc(0, &full[..10]);
    let good_sig = full[0] == sig[0] && full[1] == sig[1];
    let good_crc = full[10] == k as u8 && full[11] == (k >> 8) as u8;
    let ok = good_sig & good_crc;
    match res {
        Ok(_) => { check(ok, 3); reach(3); }
        Err(e) => {
            if w.touched { check(ok, 4); } // a bad body may fail later, but only after a good header
            if let Some(e) = e.downcast_ref::<Error>() {
                match e {
                    Error::FileFormatMismatch => check(!good_sig, 5),
                    Error::BadChecksum => check(!good_crc, 6),
                    Error::FileTooLarge => check(false, 7),
                }
            } else { check(false, 8); }
            check(!ok, 9);
            check(!w.touched, 10);
            check(same(&w.data, &old), 11);
            reach(4);
        }
    }
}
/// C07.  Parameters: codec, bytes; for td0 the version byte and then the body.
/// Only termination without panic is checked; where sizes are declared they are part of the data.
#[no_mangle] pub extern "C" fn h_any_bytes() {
    let mut p = P::new();
    let c = codec(&mut p);
    let mut z = Vec::new();
    if let Codec::Td0 = c { let v = p.next() as u8; z = td_header(b"td", &[0, 0, v, 0, 0, 0, 0, 0]); }
    let d = data(&mut p);
    z.extend_from_slice(&d);
    match c.slice(false, &z) { Ok(x) => { emit(x.len() as u64); reach(1) }, Err(_) => reach(2) }
}
/// C07 on a damaged valid stream: byte at picked position replaced by anything.
/// Parameters: codec, first position, positions, data.
#[no_mangle] pub extern "C" fn h_damaged() {
    let mut p = P::new();
    let c = codec(&mut p);
    let (a, n) = (p.next(), p.next());
    let d = data(&mut p);
    let d = image(&c, d, 0);
    let mut z = match c.slice(true, &d) { Ok(z) => z, Err(_) => return };
    let at = a + pick(n);
    if at < z.len() { z[at] = byte(); }
    match c.slice(false, &z) { Ok(x) => { emit(x.len() as u64); reach(1) }, Err(_) => reach(2) }
}
/// C08.  Parameters: codec, direction (1 compress, 0 expand of a compressed stream), junk before the input, bytes before the output, bytes the sink holds after that, data.
/// Junk and the sink's earlier bytes are symbolic.
#[no_mangle] pub extern "C" fn h_offsets() {
    let mut p = P::new();
    let mut c = codec(&mut p);
    let (comp, j, o, after) = (p.next() == 1, p.next(), p.next(), p.next());
    let mut d = data(&mut p);
    if !comp { d = match must(c.slice(true, &d), 10) { Some(z) => z, None => return }; }
    let want = match must(c.slice(comp, &d), 11) { Some(z) => z, None => return };
    let mut src = bytes(j);
    src.extend_from_slice(&d);
    let mut old = bytes(o);
    for i in 0..after { old.push(0x55 ^ i as u8); }
    c.offsets(j as u64, o as u64);
    let s = Sched::plain();
    let mut r = Src::new(&src, &s);
    let mut w = Sink::new(&old, &s);
    // where the streams are left by whoever had them before does not matter
    r.pos = pick(4) as u64 * (src.len() as u64 / 3);
    w.pos = pick(3) as u64 * (old.len() as u64 / 2 + 1);
    let res = match must(c.run(comp, &mut r, &mut w), 12) { Some(z) => z, None => return };
    check(w.low >= o as u64, 2);
    check(w.data.len() >= o + want.len(), 3);
    if w.data.len() < o + want.len() { return; }
    check(same(&w.data[..o], &old[..o]), 4);
    check(same(&w.data[o..o + want.len()], &want), 1);
    check(res.0 == d.len() as u64 && res.1 == want.len() as u64, 5);
    show(&want);
    reach(1);
}
/// C08, C09: offsets of any size.  Parameters: codec, direction, in offset (low 32 bits, high), out offset (low, high), data.
#[no_mangle] pub extern "C" fn h_far() {
    let mut p = P::new();
    let mut c = codec(&mut p);
    let comp = p.next() == 1;
    let mut off = || { let lo = p.next() as u64; lo | (p.next() as u64) << 32 };
    let (j, o) = (off(), off());
    let mut d = data(&mut p);
    if !comp { d = match must(c.slice(true, &d), 10) { Some(z) => z, None => return }; }
    let want = match must(c.slice(comp, &d), 11) { Some(z) => z, None => return };
    c.offsets(j, o);
    let n = d.len() as u64;
    let mut r = FarSrc { base: j, data: d, pos: 0, strayed: false };
    let mut w = FarSink { base: o, data: Vec::new(), pos: 0, strayed: false };
    let res = match must(c.run(comp, &mut r, &mut w), 12) { Some(z) => z, None => return };
    check(!w.strayed, 2);
    check(w.data.len() == want.len(), 3);
    check(same(&w.data, &want), 1);
    check(res.0 == n && res.1 == want.len() as u64, 5);
    show(&want);
    reach(1);
}
/// C09.  Parameters: codec, direction, old length of the sink, out offset, in offset, data.
#[no_mangle] pub extern "C" fn h_sizes() {
    let mut p = P::new();
    let mut c = codec(&mut p);
    let (comp, old, o, j, tail) = (p.next() == 1, p.next(), p.next(), p.next(), p.next());
    let d = data(&mut p);
    let d = image(&c, d, if old % 2 == 0 { 10 } else { 21 });
    let mut d = d;
    if !comp { d = match must(c.slice(true, &d), 10) { Some(z) => z, None => return }; }
    let whole = d.len();
    for _ in 0..tail { d.push(byte()); }
    // the size of the stream: what an empty sink receives
    let s = Sched::plain();
    let mut e = Sink::new(&[], &s);
    let first = match must(c.run(comp, &mut Src::new(&d, &s), &mut e), 11) { Some(z) => z, None => return };
    check(first.1 == e.data.len() as u64, 1);
    let consumed = if let (Codec::Port, false) = (&c, comp) { whole as u64 - 4 } else { d.len() as u64 };
    check(first.0 == consumed, 2);
    c.offsets(j as u64, o as u64);
    let (j, _) = match c { Codec::Lzw(_) | Codec::Lzss(_) => (j, o), _ => (0, 0) };
    let mut src = vec![0xAA; j];
    src.extend_from_slice(&d);
    let mut w = Sink::new(&vec![0x77; old], &s);
    let res = match must(c.run(comp, &mut Src::new(&src, &s), &mut w), 12) { Some(z) => z, None => return };
    check(res.1 == e.data.len() as u64, 3);
    check(res.0 == consumed, 4);
    reach(1);
}
/// C10.  Parameters: codec, direction, in offset, room (one symbolic limit from n - room to n + room around the true length; 0: any 64-bit limit), data.
#[no_mangle] pub extern "C" fn h_limit() {
    let mut p = P::new();
    let mut c = codec(&mut p);
    let (comp, j, room) = (p.next() == 1, p.next(), p.next());
    let mut d = data(&mut p);
    if !comp { d = match must(c.slice(true, &d), 10) { Some(z) => z, None => return }; }
    let want = match must(c.slice(comp, &d), 11) { Some(z) => z, None => return };
    let mut src = vec![0x5A; j];
    src.extend_from_slice(&d);
    let lim = if room == 0 { let mut v = 0u64; for b in bytes(8) { v = v << 8 | b as u64; } v } else { (d.len() + byte_in(0, 2 * room as u8) as usize).saturating_sub(room) as u64 };
    c.offsets(j as u64, 0);
    c.limit(lim);
    let s = Sched::plain();
    let old = [1u8, 2, 3];
    let mut w = Sink::new(&old, &s);
    match c.run(comp, &mut Src::new(&src, &s), &mut w) {
        Ok(_) => { check(d.len() as u64 <= lim, 1); check(same(&w.data[..want.len().min(w.data.len())], &want), 2); reach(1) }
        Err(e) => { check(d.len() as u64 > lim, 3); check(is(&e, too_large), 4); check(!w.touched && same(&w.data, &old), 5); reach(2) }
    }
}
/// C10: a source longer than the limit is refused before anything is written, whatever its length and the limit.
#[no_mangle] pub extern "C" fn h_over() {
    let mut p = P::new();
    let mut c = codec(&mut p);
    let (comp, off) = (p.next() == 1, p.next());
    let d = data(&mut p);
    let d = image(&c, d, 21);
    let (mut n, mut lim) = (0u64, 0u64);
    for b in bytes(8) { n = n << 8 | b as u64; }
    for b in bytes(8) { lim = lim << 8 | b as u64; }
    assume(n >= (off + d.len()) as u64 && n - off as u64 > lim);
    c.offsets(off as u64, 0);
    c.limit(lim);
    let s = Sched::plain();
    let mut r = Src::new(&d, &s);
    r.claim = Some(n);
    let old = [1u8, 2, 3];
    let mut w = Sink::new(&old, &s);
    match c.run(comp, &mut r, &mut w) {
        Ok(_) => check(false, 1),
        Err(e) => { check(is(&e, too_large), 2); check(!w.touched && same(&w.data, &old), 3); reach(1) }
    }
}
/// C10: a length that the size field cannot hold is not recorded as another one.  The source reports any 64-bit length; what
/// can be read from it is the data.  Parameters: codec, data.
/// A source of any length up to a documented limit is not refused for its size.
#[no_mangle] pub extern "C" fn h_claim() {
    let mut p = P::new();
    let c = codec(&mut p);
    let (comp, limit) = (p.next() == 1, p.next() as u64);
    let d = data(&mut p);
    let mut d = image(&c, d, if limit % 2 == 0 { 10 } else { 21 });
    if !comp { d = match must(c.slice(true, &d), 10) { Some(z) => z, None => return }; }
    let mut n = 0u64;
    for b in bytes(4) { n = n << 8 | b as u64; }
    assume(n >= d.len() as u64 && n <= limit);
    let s = Sched::plain();
    let mut r = Src::new(&d, &s);
    r.claim = Some(n);
    let mut w = Sink::new(&[], &s);
    match c.run(comp, &mut r, &mut w) {
        Ok(_) => reach(1),
        Err(e) => check(!is(&e, too_large), 1),
    }
    reach(2);
}
#[no_mangle] pub extern "C" fn h_size_field() {
    let mut p = P::new();
    let mut c = codec(&mut p);
    let d = data(&mut p);
    let mut n = 0u64;
    for b in bytes(8) { n = n << 8 | b as u64; }
    c.limit(u64::MAX);
    let s = Sched::plain();
    let mut r = Src::new(&d, &s);
    r.claim = Some(n);
    let mut w = Sink::new(&[], &s);
    match c.run(true, &mut r, &mut w) {
        Ok(_) => {
            check(w.data.len() >= 4, 1);
            if w.data.len() < 4 { return; }
            let h = u32::from_le_bytes([w.data[0], w.data[1], w.data[2], w.data[3]]) as u64;
            check(h == n || h == d.len() as u64, 2);
            reach(1);
        }
        Err(_) => { check(!w.touched, 3); reach(2) }
    }
}
/// C11.  Parameters: codec, direction, first free operation, free operations, what the others move at most (0 all), data.
#[no_mangle] pub extern "C" fn h_chunking() {
    let mut p = P::new();
    let c = codec(&mut p);
    let (comp, first, free, rest) = (p.next() == 1, p.next(), p.next(), p.next());
    let d = data(&mut p);
    let mut d = image(&c, d, if rest % 2 == 0 { 10 } else { 21 });
    if !comp { d = match must(c.slice(true, &d), 10) { Some(z) => z, None => return }; }
    let mut a = std::io::Cursor::new(&d[..]);
    let mut b = std::io::Cursor::new(Vec::new());
    let want = match must(c.run(comp, &mut a, &mut b), 11) { Some(z) => z, None => return };
    let b = b.into_inner();
    let s = Sched::new(first, free, rest);
    let mut w = Sink::new(&[], &s);
    let got = match must(c.run(comp, &mut Src::new(&d, &s), &mut w), 12) { Some(z) => z, None => return };
    check(w.data.len() == b.len(), 2);
    check(same(&w.data, &b), 1);
    check(got == want, 3);
    reach(1);
}
/// C12.  Parameters: codec, direction, operations that can fail (see Sched), smallest fault index, indices, mode, data.
#[no_mangle] pub extern "C" fn h_fault() {
    let mut p = P::new();
    let c = codec(&mut p);
    let (comp, kind, f0, nf, mode) = (p.next() == 1, p.next(), p.next(), p.next(), p.next());
    let d = data(&mut p);
    let mut d = image(&c, d, if f0 % 2 == 0 { 10 } else { 21 });
    if !comp { d = match must(c.slice(true, &d), 10) { Some(z) => z, None => return }; }
    let f = f0 + byte_in(0, (nf - 1) as u8) as usize;
    let s = Sched::faulty(kind, f, mode);
    let mut w = Sink::new(&[], &s);
    let res = c.run(comp, &mut Src::new(&d, &s), &mut w);
    if s.fired.get() { check(res.is_err(), 1); reach(1) } else { check(res.is_ok(), 2); check(!w.unflushed, 3); reach(2) }
}
/// C13, compression.  Parameters: LZW options, data.
#[no_mangle] pub extern "C" fn h_lzw_format() {
    let mut p = P::new();
    let o = lzw_opt(&mut p);
    let d = data(&mut p);
    let z = match must(lzw::compress_slice(&d, &o), 10) { Some(z) => z, None => return };
    let r = refs::lzw_encode(&d, &o);
    show(&z);
    check(z.len() == r.len(), 2);
    check(same(&z, &r), 1);
    reach(1);
}
/// C13, expansion of symbolic codes.  Parameters: LZW options, codes of a prefix compressed from data, free codes, smallest and largest free code; then the prefix data.
/// The stream is the reference encoding of the prefix data (its end codes dropped), then free codes, then the stop code if there is one.
#[no_mangle] pub extern "C" fn h_lzw_codes() {
    let mut p = P::new();
    let o = lzw_opt(&mut p);
    let (nfree, lo, hi) = (p.next(), p.next(), p.next());
    let d = data(&mut p);
    let w = o.max_code_width;
    let lsb = matches!(o.ord, BitOrder::Lsb0);
    let head = refs::lzw_encode(&d, &lzw::Options { stop_code: None, header_bits: 0, clear_code: None, ..o.clone() });
    // codes of the prefix
    let mut codes = Vec::new();
    let mut at = 0;
    while let Some(c) = refs::get_bits(&head, lsb, at, w) { codes.push(c); at += w; }
    for _ in 0..nfree {
        let c = if hi < 256 { byte_in(lo as u8, hi as u8) as usize } else { let v = (byte() as usize) << 8 | byte() as usize; assume(v >= lo && v <= hi); v };
        codes.push(c);
    }
    if let Some(c) = o.stop_code { codes.push(c); }
    let mut pk = refs::Pack::new(&o.ord);
    if o.header_bits > 0 { pk.put(o.header_bits, codes.len() * w / o.header_divisor); }
    for c in codes { pk.put(w, c); }
    let want = refs::lzw_decode(&pk.out, &o);
    match lzw::expand_slice(&pk.out, &o) {
        Ok(x) => { match want { Some(y) => { check(x.len() == y.len(), 2); check(same(&x, &y), 1); reach(1) }, None => check(false, 3) } }
        Err(e) => { check(want.is_none(), 4); check(is(&e, |x| matches!(x, Error::FileFormatMismatch)), 5); reach(2) }
    }
}
/// C13, expansion of a raw bit stream.  Parameters: LZW options, bytes.
#[no_mangle] pub extern "C" fn h_lzw_bits() {
    let mut p = P::new();
    let o = lzw_opt(&mut p);
    let z = data(&mut p);
    let want = refs::lzw_decode(&z, &o);
    match lzw::expand_slice(&z, &o) {
        Ok(x) => { match want { Some(y) => { check(x.len() == y.len(), 2); check(same(&x, &y), 1); reach(1) }, None => check(false, 3) } }
        Err(_) => { check(want.is_none(), 4); reach(2) }
    }
}
/// C13, both directions of one stream: the reference encoder's stream expands to the data.
#[no_mangle] pub extern "C" fn h_lzw_foreign() {
    let mut p = P::new();
    let o = lzw_opt(&mut p);
    let d = data(&mut p);
    let r = refs::lzw_encode(&d, &o);
    let x = match must(lzw::expand_slice(&r, &o), 10) { Some(z) => z, None => return };
    check(same(&x, &d), 1);
    reach(1);
}
/// C14.  Parameters: LZSS options (header decides whether the size is given), size, prefix kind (data compressed by the reference tokenizer: literals only), bits: data.
/// Stream: the reference literals of the prefix data, then the bytes of the second data block appended bitwise.
#[no_mangle] pub extern "C" fn h_lzhuf_format() {
    let mut p = P::new();
    let o = lzss_opt(&mut p);
    let (port, size) = (p.next() == 1, p.next());
    let pre = data(&mut p);
    let tail = data(&mut p);
    let mut toks: Vec<refs::Tok> = pre.iter().map(|b| refs::Tok::Lit(*b)).collect();
    // a copy token forces the free bits to start with a position when the parameter asks for it
    let copy = p.next();
    let mut body;
    if copy > 0 {
        toks.push(refs::Tok::Copy(copy, 1));
        body = refs::lzhuf_encode(&toks, o.lookahead, o.threshold);
        let at = body_bits(&toks, &o) - 9; // the position of distance 1 is 3 + 6 bits: overwrite it
        body = splice(&body, at, &tail);
    } else {
        body = refs::lzhuf_encode(&toks, o.lookahead, o.threshold);
        let at = body_bits(&toks, &o);
        body = splice(&body, at, &tail);
    }
    let mut z = Vec::new();
    let declared = if o.header || port { size } else { usize::MAX };
    if o.header || port { z.extend_from_slice(&(size as u32).to_le_bytes()); }
    z.extend_from_slice(&body);
    let want = refs::lzhuf_decode(&body, declared, port, o.window_size, o.lookahead, o.threshold, o.precursor, usize::MAX);
    let got = if port { direct_ports::lzhuf::decode_slice(&z) } else { lzss_huff::expand_slice(&z, &o) };
    let x = match must(got, 10) { Some(x) => x, None => return };
    check(x.len() == want.len(), 2);
    check(same(&x, &want), 1);
    reach(1);
}
fn body_bits(toks: &[refs::Tok], o: &lzss_huff::Options) -> usize {
    // length in bits: encode with one more known token and compare is overkill, count directly
    let mut m = refs::Model::new(256 + o.lookahead - o.threshold);
    let mut n = 0;
    for t in toks {
        match t {
            refs::Tok::Lit(b) => { n += m.code(*b as usize).len(); m.update(*b as usize); }
            refs::Tok::Copy(l, _) => { let s = l + 255 - o.threshold; n += m.code(s).len() + 9; m.update(s); }
        }
    }
    n
}
/// `tail` appended to the first `at` bits of `body`
fn splice(body: &[u8], at: usize, tail: &[u8]) -> Vec<u8> {
    let mut v = body[..at / 8].to_vec();
    let k = at % 8;
    if k == 0 { v.extend_from_slice(tail); return v; }
    let mut cur = body[at / 8] & !(0xffu8 >> k);
    for t in tail { v.push(cur | t >> k); cur = t << (8 - k); }
    v.push(cur);
    v
}
/// C14: a stream of reference tokens (literals and copies) expands to what they mean.
/// Parameters: LZSS options, port, data of literals, copies, then per copy: smallest length, lengths, smallest distance, distances (both symbolic, up to 256 values), and one literal.
#[no_mangle] pub extern "C" fn h_lzhuf_tokens() {
    let mut p = P::new();
    let o = lzss_opt(&mut p);
    let port = p.next() == 1;
    let pre = data(&mut p);
    let n = p.next();
    let mut out = pre.clone();
    let mut toks: Vec<refs::Tok> = pre.iter().map(|b| refs::Tok::Lit(*b)).collect();
    for _ in 0..n {
        let (l0, nl, d0, nd) = (p.next(), p.next(), p.next(), p.next());
        let len = l0 + pick(nl);
        let dist = d0 + pick(nd);
        for _ in 0..len {
            let k = out.len();
            let v = if dist <= k { out[k - dist] } else if dist - k <= o.window_size - o.lookahead { o.precursor } else { 0 };
            out.push(v);
        }
        toks.push(refs::Tok::Copy(len, dist));
        out.push(b'x');
        toks.push(refs::Tok::Lit(b'x'));
    }
    let mut z = Vec::new();
    if o.header || port { z.extend_from_slice(&(out.len() as u32).to_le_bytes()); }
    z.extend_from_slice(&refs::lzhuf_encode(&toks, o.lookahead, o.threshold));
    let got = if port { direct_ports::lzhuf::decode_slice(&z) } else { lzss_huff::expand_slice(&z, &o) };
    let x = match must(got, 10) { Some(x) => x, None => return };
    if o.header || port { check(same(&x, &out), 1) } else { check(almost(&x, &out), 2) }
    reach(1);
}
/// C15.  Parameters: length.  Seed and bytes symbolic.
#[no_mangle] pub extern "C" fn h_crc() {
    let n = param(0);
    let seed = (byte() as u16) << 8 | byte() as u16;
    let d = bytes(n);
    check(td0::crc16(seed, &d) == refs::crc(seed, &d), 1);
    reach(1);
}
/// C15, long messages.  Parameters: is the seed symbolic, data.
#[no_mangle] pub extern "C" fn h_crc_long() {
    let mut p = P::new();
    let seed = if p.next() == 1 { (byte() as u16) << 8 | byte() as u16 } else { 0x1d0f };
    let d = data(&mut p);
    let k = td0::crc16(seed, &d);
    emit(k as u64);
    check(k == refs::crc(seed, &d), 1);
    let n = d.len() / 2;
    check(td0::crc16(td0::crc16(seed, &d[..n]), &d[n..]) == k, 2);
    reach(1);
}
/// C15: chaining.
#[no_mangle] pub extern "C" fn h_crc_chain() {
    let n = param(0);
    let seed = (byte() as u16) << 8 | byte() as u16;
    let d = bytes(n);
    let k = pick(n + 1);
    check(td0::crc16(td0::crc16(seed, &d[..k]), &d[k..]) == td0::crc16(seed, &d), 1);
    reach(1);
}
/// C15: bursts.  Two messages differ by a non-zero pattern of 16 bits at any bit position.
#[no_mangle] pub extern "C" fn h_crc_burst() {
    let n = param(0);
    let seed = (byte() as u16) << 8 | byte() as u16;
    let d = bytes(n);
    let (b0, b1) = (byte(), byte());
    assume(b0 | b1 != 0);
    let bit = pick(8 * n - 15);
    let pat = ((b0 as u32) << 16 | (b1 as u32) << 8) >> (bit % 8);
    let mut e = d.clone();
    e[bit / 8] ^= (pat >> 16) as u8;
    e[bit / 8 + 1] ^= (pat >> 8) as u8;
    if bit / 8 + 2 < n { e[bit / 8 + 2] ^= pat as u8; }
    check(td0::crc16(seed, &d) != td0::crc16(seed, &e), 1);
    reach(1);
}
/// C16.  Parameters: codec, symbolic trailing bytes, data.
#[no_mangle] pub extern "C" fn h_trailing() {
    let mut p = P::new();
    let c = codec(&mut p);
    let n = p.next();
    let d = data(&mut p);
    let mut z = match must(c.slice(true, &d), 10) { Some(z) => z, None => return };
    for _ in 0..n { z.push(byte()); }
    let x = match must(c.slice(false, &z), 11) { Some(z) => z, None => return };
    check(x.len() == d.len(), 2);
    check(same(&x, &d), 1);
    reach(1);
}
/// C17.  Parameters: codec, bytes at the front that are never cut, data.
#[no_mangle] pub extern "C" fn h_truncated() {
    let mut p = P::new();
    let c = codec(&mut p);
    let keep = p.next();
    let d = data(&mut p);
    let z = match must(c.slice(true, &d), 10) { Some(z) => z, None => return };
    let n = z.len();
    if n <= keep { return; }
    let cut = keep + pick(n - keep);
    match c.slice(false, &z[..cut]) {
        Ok(x) => {
            if c.padded() { check(prefix(&x, &d) || almost(&x, &d) || padded_prefix(&x, &d), 1) } else { check(prefix(&x, &d), 2) }
            reach(1)
        }
        Err(_) => reach(2),
    }
}
/// all but the last 7 bytes are a prefix of `d`
fn padded_prefix(x: &[u8], d: &[u8]) -> bool { let k = x.len().saturating_sub(7); prefix(&x[..k], d) }

/// C18: literals only through the Huffman coder: threshold not below lookahead, so that nothing is ever a match.
/// Parameters: alphabet (0: 256 symbols; k: the k symbols 0..k), data, second data that is checked against the first's length.
#[no_mangle] pub extern "C" fn h_huff() {
    let mut p = P::new();
    let k = p.next();
    let t = if k == 0 { 1 } else { 257 - k };
    let o = lzss_huff::Options { window_size: 4, lookahead: 1, threshold: t, ..lzss_huff::STD_OPTIONS };
    let d = data(&mut p);
    let z = match must(lzss_huff::compress_slice(&d, &o), 10) { Some(z) => z, None => return };
    let x = match must(lzss_huff::expand_slice(&z, &o), 11) { Some(z) => z, None => return };
    check(x.len() == d.len(), 2);
    check(same(&x, &d), 1);
    reach(1);
}

/// C20.  A call made twice, with another call between that may fail, gives the same; and slices are treated as streams are.
/// Parameters: codec, direction, data; then the call between: codec, direction (0: the data as they are are expanded), fault
/// (0 none, k: one of its first k operations fails), data.
#[no_mangle] pub extern "C" fn h_alone() {
    let mut p = P::new();
    let c = codec(&mut p);
    let comp = p.next() == 1;
    let d = data(&mut p);
    let mut d = image(&c, d, 10);
    if !comp { d = match must(c.slice(true, &d), 10) { Some(z) => z, None => return }; }
    let o = codec(&mut p);
    let (ocomp, fault) = (p.next() == 1, p.next());
    let e = data(&mut p);
    let e = if ocomp { image(&o, e, 21) } else { e };
    let s = Sched::plain();
    let mut w = Sink::new(&[], &s);
    let first = match must(c.run(comp, &mut Src::new(&d, &s), &mut w), 11) { Some(z) => z, None => return };
    let f = Sched::faulty(4, if fault == 0 { usize::MAX } else { pick(fault) }, 0);
    let _ = o.run(ocomp, &mut Src::new(&e, &f), &mut Sink::new(&[], &f));
    let mut v = Sink::new(&[], &s);
    let again = match must(c.run(comp, &mut Src::new(&d, &s), &mut v), 12) { Some(z) => z, None => return };
    check(w.data.len() == v.data.len(), 2);
    check(same(&w.data, &v.data), 1);
    check(first == again, 3);
    let x = match must(c.slice(comp, &d), 13) { Some(z) => z, None => return };
    check(x.len() == v.data.len(), 4);
    check(same(&x, &v.data), 5);
    reach(1);
}
/// C20: the slice and the stream function agree on anything, errors included.  Parameters: codec, direction, data.
/// Another call comes first, then what one of the other entries checks must still hold.
#[no_mangle] pub extern "C" fn h_after() {
    let mut p = P::new();
    let o = codec(&mut p);
    let (ocomp, fault) = (p.next() == 1, p.next());
    let e = data(&mut p);
    let e = if ocomp { image(&o, e, 21) } else { e };
    let f = Sched::faulty(4, if fault == 0 { usize::MAX } else { pick(fault) }, 0);
    let _ = o.run(ocomp, &mut Src::new(&e, &f), &mut Sink::new(&[], &f));
    let which = p.next();
    p.pass_on();
    [h_lzw_format, h_lzw_bits, h_greedy, h_lzhuf_format, h_round_trip, h_td0, h_cross, h_lzw_foreign][which]();
}
#[no_mangle] pub extern "C" fn h_slice() {
    let mut p = P::new();
    let c = codec(&mut p);
    let comp = p.next() == 1;
    let d = data(&mut p);
    let s = Sched::plain();
    let mut w = Sink::new(&[], &s);
    let a = c.run(comp, &mut Src::new(&d, &s), &mut w);
    match (a, c.slice(comp, &d)) {
        (Ok(_), Ok(x)) => { check(x.len() == w.data.len(), 2); check(same(&x, &w.data), 1); reach(1) }
        (Err(e), Err(f)) => { check(kind(&e) == kind(&f), 3); reach(2) }
        _ => check(false, 4),
    }
}
fn kind(e: &Box<dyn std::error::Error>) -> u32 {
    match e.downcast_ref::<Error>() {
        Some(Error::FileFormatMismatch) => 1, Some(Error::FileTooLarge) => 2, Some(Error::BadChecksum) => 3,
        None => match e.downcast_ref::<std::io::Error>() { Some(x) if x.kind() == std::io::ErrorKind::UnexpectedEof => 4, Some(_) => 5, None => 6 },
    }
}
/// C21: the stream a compressor writes is the size field and greedy tokens, nothing else.
/// Parameters: LZSS options, port, first data index whose token is compared with every possible match, data.
#[no_mangle] pub extern "C" fn h_greedy() {
    let mut p = P::new();
    let o = lzss_opt(&mut p);
    let port = p.next() == 1;
    let from = p.next();
    let d = data(&mut p);
    let z = if port { direct_ports::lzhuf::encode_slice(&d) } else { lzss_huff::compress_slice(&d, &o) };
    let z = match must(z, 10) { Some(z) => z, None => return };
    show(&z);
    if port && d.len() == 0 && z.len() == 0 { return; }
    let h = if o.header || port { 4 } else { 0 };
    check(z.len() >= h, 11);
    if z.len() < h { return; }
    if h == 4 { check(same(&z[..4], &(d.len() as u32).to_le_bytes()), 1); }
    let (win, look, thr) = (o.window_size, o.lookahead, o.threshold);
    let (out, toks, _) = refs::lzhuf_parse(&z[h..], d.len(), false, win, look, thr, o.precursor, usize::MAX);
    check(out.len() == d.len(), 2);
    check(same(&out, &d), 3);
    let body = refs::lzhuf_encode(&toks, look, thr);
    check(body.len() == z.len() - h, 4);
    check(same(&body, &z[h..]), 5);
    let mut at = 0;
    for t in &toks {
        let n = match t { refs::Tok::Lit(_) => 1, refs::Tok::Copy(n, _) => *n };
        if let refs::Tok::Copy(n, dist) = t {
            check(*n > thr && *n <= look && *dist <= win - look, 6);
        }
        // would one more byte have matched anywhere?
        let m = match t { refs::Tok::Lit(_) => thr + 1, refs::Tok::Copy(n, _) => n + 1 };
        if at >= from && m <= look && at + m <= d.len() {
            let mut better = false;
            for dist in 1..=(win - look).min(at + look) {
                let mut e = true;
                for k in 0..m { e &= d[at + k] == if at + k >= dist { d[at + k - dist] } else { o.precursor }; }
                better |= e;
            }
            check(!better, 7);
        }
        at += n;
    }
    reach(1);
}

macro_rules! table { ($($n:ident),*) => { pub static TABLE: &[(&str, extern "C" fn())] = &[$((stringify!($n), $n)),*]; } }
table!(h_over, h_round_trip, h_lzw_any, h_lzss_any, h_same_bits, h_cross, h_td0, h_gate, h_any_bytes, h_damaged, h_offsets, h_sizes, h_limit, h_size_field, h_chunking, h_fault,
    h_lzw_format, h_lzw_codes, h_lzw_bits, h_lzw_foreign, h_lzhuf_format, h_lzhuf_tokens, h_crc, h_crc_long, h_crc_chain, h_crc_burst, h_trailing, h_truncated, h_huff, h_alone, h_slice, h_greedy, h_claim, h_after, h_far);

/// destructors of thread-local values: the thread never ends here
#[cfg(symx)]
#[no_mangle] pub unsafe extern "C" fn __cxa_thread_atexit_impl(_f: usize, _o: usize, _d: usize) -> i32 { 0 }

#[cfg(symx)]
fn main() { for t in TABLE { t.1(); } }

#[cfg(not(symx))]
fn main() {
    // usage: harness ENTRY p0,p1,.. HEXBYTES [trace]
    let a: Vec<String> = std::env::args().collect();
    let params = if a[2].is_empty() { vec![] } else { a[2].split(',').map(|s| s.parse::<u64>().unwrap()).collect() };
    let h = a[3].as_bytes();
    let hex = |c: u8| (c as char).to_digit(16).unwrap() as u8;
    let bytes = h.chunks(2).filter(|c| c.len() == 2).map(|c| hex(c[0]) * 16 + hex(c[1])).collect();
    sym::imp::ST.with(|s| { let mut s = s.borrow_mut(); s.bytes = bytes; s.params = params; s.trace = a.len() > 4; });
    let f = TABLE.iter().find(|t| t.0 == a[1]).expect("no such entry").1;
    f();
}

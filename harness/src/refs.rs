//! Reference formats, written from their descriptions and independently of the code under test.
use retrocompressor::*;

/// CRC-16, polynomial 0xA097, most significant bit first, as polynomial division over a bit string
/// with the seed added to the first 16 bits.
pub fn crc(seed: u16, d: &[u8]) -> u16 {
    let mut reg: u16 = seed;
    for b in d {
        let mut k = 8;
        while k > 0 {
            k -= 1;
            let top = (reg >> 15) as u8 ^ (b >> k & 1);
            // no branch on data: the feedback is a mask
            let m = (top as u16).wrapping_neg();
            reg = (reg << 1) ^ (m & 0xa097);
        }
    }
    reg
}

/// Bit packing in either order.
pub struct Pack { pub out: Vec<u8>, lsb: bool, n: usize }
impl Pack {
    pub fn new(o: &BitOrder) -> Self { Pack { out: Vec::new(), lsb: matches!(o, BitOrder::Lsb0), n: 0 } }
    fn set(&mut self, pos: usize, bit: u8) {
        while self.out.len() <= pos / 8 { self.out.push(0); }
        let s = if self.lsb { pos % 8 } else { 7 - pos % 8 };
        self.out[pos / 8] = (self.out[pos / 8] & !(1 << s)) | bit << s;
    }
    pub fn put_at(&mut self, at: usize, w: usize, v: usize) {
        for i in 0..w { let b = if self.lsb { v >> i } else { v >> (w - 1 - i) } & 1; self.set(at + i, b as u8); }
    }
    pub fn put(&mut self, w: usize, v: usize) { let n = self.n; self.put_at(n, w, v); self.n += w; }
    pub fn len(&self) -> usize { self.n }
}
pub fn get_bits(d: &[u8], lsb: bool, at: usize, w: usize) -> Option<usize> {
    if at + w > d.len() * 8 { return None; }
    let mut v = 0usize;
    for i in 0..w {
        let pos = at + i;
        let b = (d[pos / 8] >> if lsb { pos % 8 } else { 7 - pos % 8 } & 1) as usize;
        if lsb { v |= b << i } else { v = v << 1 | b }
    }
    Some(v)
}
/// The codes a table hands out, in order: ascending, skipping symbols and reserved codes, until the width is exhausted.
fn next_free(o: &lzw::Options, prev: Option<usize>) -> Option<usize> {
    let mut c = prev.map_or(0, |p| p + 1);
    while c <= o.max_symbol || Some(c) == o.clear_code || Some(c) == o.stop_code { c += 1; }
    if c <= usize::MAX >> (64 - o.max_code_width) { Some(c) } else { None }
}
/// The standard greedy LZW stream.
pub fn lzw_encode(d: &[u8], o: &lzw::Options) -> Vec<u8> {
    let w = o.max_code_width;
    let mut pk = Pack::new(&o.ord);
    let mut at = 0;
    loop {
        // a chunk
        let head = pk.len();
        if o.header_bits > 0 { pk.put(o.header_bits, 0); }
        let mut table: Vec<(usize, u8, usize)> = Vec::new(); // (prefix code, symbol, code)
        let mut last = None;
        let mut full = false;
        let mut codes = 0;
        let mut ended = false;
        loop {
            if at == d.len() { ended = true; break; }
            let mut cur = d[at] as usize;
            at += 1;
            while at < d.len() {
                let mut f = None;
                for t in &table { if t.0 == cur && t.1 == d[at] { f = Some(t.2); break; } }
                match f { Some(c) => { cur = c; at += 1 }, None => break }
            }
            pk.put(w, cur);
            codes += 1;
            if at == d.len() { ended = true; break; }
            if !full {
                match next_free(o, last) { Some(c) => { table.push((cur, d[at], c)); last = Some(c) }, None => full = true }
            }
            if codes >= o.chunk_size { break; }
        }
        if ended {
            if let Some(c) = o.stop_code { pk.put(w, c); codes += 1; }
        } else if let Some(c) = o.clear_code { pk.put(w, c); codes += 1; }
        if o.header_bits > 0 { pk.put_at(head, o.header_bits, codes * w / o.header_divisor); }
        if ended { return pk.out; }
    }
}
/// Decode by the rules: a code must be a symbol, an entry of the table, or the entry about to be made.
/// `strict` streams only: None when a code cannot occur.
pub fn lzw_decode(s: &[u8], o: &lzw::Options) -> Option<Vec<u8>> {
    let w = o.max_code_width;
    let lsb = matches!(o.ord, BitOrder::Lsb0);
    let mut at = 0;
    let mut out: Vec<u8> = Vec::new();
    loop {
        let limit = if o.header_bits > 0 {
            match get_bits(s, lsb, at, o.header_bits) { Some(h) => { at += o.header_bits; h * o.header_divisor }, None => return Some(out) }
        } else { usize::MAX };
        let mut table: Vec<(usize, usize, usize)> = Vec::new(); // code, start, length in out
        let mut last = None;
        let mut prev: Option<(usize, usize)> = None;
        let mut used = 0;
        while used < limit {
            let c = match get_bits(s, lsb, at, w) { Some(c) => c, None => return Some(out) };
            at += w;
            if Some(c) == o.stop_code { return Some(out); }
            if Some(c) == o.clear_code { break; }
            used += w;
            let start = out.len();
            let fresh = match prev { Some(_) => next_free(o, last), None => None };
            if fresh.is_some() { last = fresh; }
            if c <= o.max_symbol { out.push(c as u8); }
            else {
                let mut f = None;
                for t in &table { if t.0 == c { f = Some((t.1, t.2)); break; } }
                match f {
                    Some((b, n)) => for i in 0..n { let v = out[b + i]; out.push(v); },
                    None => {
                        if Some(c) != fresh { return None; }
                        let (b, n) = prev.unwrap();
                        for i in 0..n { let v = out[b + i]; out.push(v); }
                        let v = out[b];
                        out.push(v);
                    }
                }
            }
            // the entry made now is the previous string and the first symbol of this one: they are adjacent in the output
            if let (Some(n), Some((b, l))) = (fresh, prev) { table.push((n, b, l + 1)); }
            prev = Some((start, out.len() - start));
        }
    }
}

/// Adaptive Huffman model of LZHUF: nodes in ascending frequency order, siblings adjacent,
/// incremented node swapped with the last node of its old frequency.
pub struct Model { freq: Vec<u32>, up: Vec<usize>, kid: Vec<usize>, leaf: Vec<usize>, n: usize }
const LEAF: usize = 1 << 20;
impl Model {
    pub fn new(n: usize) -> Self {
        let t = 2 * n - 1;
        let mut m = Model { freq: vec![1; t], up: vec![0; t], kid: (0..t).map(|i| LEAF + i).collect(), leaf: (0..n).collect(), n };
        for j in n..t { let i = 2 * (j - n); m.freq[j] = m.freq[i] + m.freq[i + 1]; m.kid[j] = i; m.up[i] = j; m.up[i + 1] = j; }
        m
    }
    fn rebuild(&mut self) {
        let t = 2 * self.n - 1;
        let mut nodes: Vec<(u32, usize)> = (0..t).filter(|i| self.kid[*i] >= LEAF).map(|i| ((self.freq[i] + 1) / 2, self.kid[i])).collect();
        let mut i = 0;
        while nodes.len() < t {
            let f = nodes[i].0 + nodes[i + 1].0;
            // a new branch goes after every node that is not heavier
            let mut k = nodes.len();
            while k > 0 && nodes[k - 1].0 > f { k -= 1; }
            nodes.insert(k, (f, i));
            i += 2;
        }
        for i in 0..t {
            self.freq[i] = nodes[i].0;
            self.kid[i] = nodes[i].1;
        }
        for i in 0..t {
            let k = self.kid[i];
            if k >= LEAF { self.leaf[k - LEAF] = i } else { self.up[k] = i; self.up[k + 1] = i }
        }
    }
    pub fn update(&mut self, sym: usize) {
        let root = 2 * self.n - 2;
        if self.freq[root] == 0x8000 { self.rebuild(); }
        let mut c = self.leaf[sym];
        loop {
            let f = self.freq[c];
            let mut l = c;
            while l < root && self.freq[l + 1] == f { l += 1; }
            if l != c {
                let (a, b) = (self.kid[c], self.kid[l]);
                self.place(l, a);
                self.place(c, b);
            }
            self.freq[l] = f + 1;
            if l == root { break; }
            c = self.up[l];
        }
    }
    fn place(&mut self, at: usize, k: usize) {
        self.kid[at] = k;
        if k >= LEAF { self.leaf[k - LEAF] = at } else { self.up[k] = at; self.up[k + 1] = at }
    }
    pub fn code(&self, sym: usize) -> Vec<u8> {
        let mut v = Vec::new();
        let mut c = self.leaf[sym];
        while c != 2 * self.n - 2 { v.push((c & 1) as u8); c = self.up[c]; }
        v.reverse();
        v
    }
}
/// The canonical prefix code of the upper six position bits: how many codes there are of 3, 4, ... 8 bits.
const POS: [(u32, u32); 6] = [(3, 1), (4, 3), (5, 8), (6, 12), (7, 24), (8, 16)];

pub struct Bits<'a> { pub d: &'a [u8], pub at: usize }
impl<'a> Bits<'a> {
    fn bit(&mut self) -> Option<u8> { let b = *self.d.get(self.at / 8)?; let v = b >> (7 - self.at % 8) & 1; self.at += 1; Some(v) }
    fn bit_or(&mut self, zero: bool) -> Option<u8> { match self.bit() { Some(b) => Some(b), None => if zero { self.at += 1; Some(0) } else { None } } }
}
/// Decode an LZHUF stream (after its size field).  `zeros`: bits past the end read as 0, otherwise they end the stream.
pub fn lzhuf_decode(body: &[u8], size: usize, zeros: bool, window: usize, look: usize, thr: usize, pre: u8, cap: usize) -> Vec<u8> {
    lzhuf_parse(body, size, zeros, window, look, thr, pre, cap).0
}
/// The same, with the tokens and how many bits they took.
pub fn lzhuf_parse(body: &[u8], size: usize, zeros: bool, window: usize, look: usize, thr: usize, pre: u8, cap: usize) -> (Vec<u8>, Vec<Tok>, usize) {
    let mut toks = Vec::new();
    let mut m = Model::new(256 + look - thr);
    let mut bits = Bits { d: body, at: 0 };
    let mut out: Vec<u8> = Vec::new();
    while out.len() < size {
        if out.len() > cap { return (out, toks, bits.at); }
        let root = m.kid.len() - 1;
        let mut c = m.kid[root];
        while c < LEAF {
            match bits.bit_or(zeros) { Some(b) => c = m.kid[c + b as usize], None => return (out, toks, bits.at) }
        }
        let s = c - LEAF;
        m.update(s);
        if s < 256 { out.push(s as u8); toks.push(Tok::Lit(s as u8)); continue; }
        let len = s - 256 + thr + 1;
        // position: canonical prefix code, then six plain bits
        let (mut code, mut first, mut val) = (0u32, 0u32, 0u32);
        let mut len_so_far = 0;
        let mut upper = None;
        for (l, cnt) in POS {
            while len_so_far < l {
                match bits.bit_or(zeros) { Some(b) => code = code << 1 | b as u32, None => return (out, toks, bits.at) }
                first <<= 1;
                len_so_far += 1;
            }
            if code < first + cnt { upper = Some(val + code - first); break; }
            first += cnt;
            val += cnt;
        }
        let mut pos = upper.unwrap() as usize;
        for _ in 0..6 { match bits.bit_or(zeros) { Some(b) => pos = pos << 1 | b as usize, None => return (out, toks, bits.at) } }
        let dist = pos % window + 1;
        toks.push(Tok::Copy(len, pos + 1));
        // window: `look` bytes that are still zero, then the precursor up to the start of the data
        for _ in 0..len {
            let n = out.len();
            let v = if dist <= n { out[n - dist] } else if dist - n <= window - look { pre } else { 0 };
            out.push(v);
        }
    }
    (out, toks, bits.at)
}
/// Encode symbols (literals, or (length, distance)) the LZHUF way; returns the stream after the size field.
pub enum Tok { Lit(u8), Copy(usize, usize) }
pub fn lzhuf_encode(toks: &[Tok], look: usize, thr: usize) -> Vec<u8> {
    let mut m = Model::new(256 + look - thr);
    let mut pk = Pack::new(&BitOrder::Msb0);
    for t in toks {
        match t {
            Tok::Lit(b) => { for x in m.code(*b as usize) { pk.put(1, x as usize); } m.update(*b as usize); }
            Tok::Copy(len, dist) => {
                let s = len + 255 - thr;
                for x in m.code(s) { pk.put(1, x as usize); }
                m.update(s);
                let up = (dist - 1) as u32 >> 6;
                let (mut first, mut val) = (0u32, 0u32);
                let mut l0 = 0;
                for (l, cnt) in POS {
                    first <<= l - l0;
                    l0 = l;
                    if up < val + cnt { pk.put(l as usize, (first + up - val) as usize); break; }
                    first += cnt;
                    val += cnt;
                }
                pk.put(6, dist - 1 & 63);
            }
        }
    }
    pk.out
}

//! Sources and sinks whose delivery schedule and faults are symbolic.
use crate::sym::*;
use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};
use std::cell::Cell;
use std::rc::Rc;

/// One schedule shared by a source and a sink.
pub struct Sched {
    /// operations so far, of the kind that can fail
    pub ops: Cell<usize>,
    /// what can fail: 0 reads, 1 writes, 2 seeks, 3 flushes, 4 everything
    pub kind: usize,
    /// operation at which the fault strikes (symbolic), usize::MAX for none
    pub fault: usize,
    pub fired: Cell<bool>,
    /// 0 one failure, 2 permanent from then on, 3 (writes) nothing more is accepted
    pub mode: usize,
    /// the kind of the errors
    pub err: ErrorKind,
    /// reads and writes whose outcome is decided symbolically: those numbered first..first+free
    pub rw: Cell<usize>,
    pub first: usize,
    pub free: usize,
    /// what other reads and writes do: 0 everything, k at most k bytes
    pub rest: usize,
}
impl Sched {
    pub fn plain() -> Rc<Sched> { Self::new(0, 0, 0) }
    pub fn new(first: usize, free: usize, rest: usize) -> Rc<Sched> {
        Rc::new(Sched { ops: Cell::new(0), kind: 4, fault: usize::MAX, fired: Cell::new(false), mode: 0, err: ErrorKind::Other, rw: Cell::new(0), first, free, rest })
    }
    /// mode + 16 * number of the kind of error, or any of them for 15
    pub fn faulty(kind: usize, fault: usize, mode: usize) -> Rc<Sched> {
        const ERRS: [ErrorKind; 13] = [ErrorKind::Other, ErrorKind::InvalidData, ErrorKind::UnexpectedEof, ErrorKind::WouldBlock, ErrorKind::TimedOut, ErrorKind::BrokenPipe,
            ErrorKind::WriteZero, ErrorKind::NotFound, ErrorKind::PermissionDenied, ErrorKind::InvalidInput, ErrorKind::OutOfMemory, ErrorKind::Unsupported, ErrorKind::Interrupted];
        let err = ERRS[if mode / 16 == 15 { pick(12) } else { mode / 16 }];
        let mode = mode % 16;
        Rc::new(Sched { ops: Cell::new(0), kind, fault, fired: Cell::new(false), mode, err, rw: Cell::new(0), first: 0, free: 0, rest: 0 })
    }
    fn op(&self, kind: usize) -> Result<()> {
        if self.fired.get() && self.mode == 2 { return Err(Error::from(self.err)); }
        if self.kind != 4 && self.kind != kind { return Ok(()); }
        let n = self.ops.get();
        self.ops.set(n + 1);
        if !self.fired.get() && n == self.fault { self.fired.set(true); return Err(Error::from(self.err)); }
        Ok(())
    }
    /// how many of `n` bytes to move
    fn amount(&self, n: usize) -> Result<usize> {
        let k = self.rw.get();
        self.rw.set(k + 1);
        if n == 0 { return Ok(0); }
        let cap = if self.rest == 0 { n } else { n.min(self.rest) };
        if k < self.first || k >= self.first + self.free { return Ok(cap); }
        match pick(4) {
            0 => Err(Error::from(ErrorKind::Interrupted)),
            1 => Ok(1),
            2 => Ok((n / 2).max(1)),
            _ => Ok(n),
        }
    }
}
fn seek_to(pos: &mut u64, len: usize, p: SeekFrom) -> Result<u64> {
    let n = match p {
        SeekFrom::Start(n) => n as i64,
        SeekFrom::End(d) => len as i64 + d,
        SeekFrom::Current(d) => *pos as i64 + d,
    };
    if n < 0 { return Err(Error::from(ErrorKind::InvalidInput)); }
    *pos = n as u64;
    Ok(*pos)
}
/// `claim`: the length a seek to the end reports, when it is not that of the data
pub struct Src { pub data: Vec<u8>, pub pos: u64, pub s: Rc<Sched>, pub claim: Option<u64> }
pub struct Sink { pub data: Vec<u8>, pub pos: u64, pub s: Rc<Sched>, pub touched: bool, pub low: u64, pub unflushed: bool }
impl Src { pub fn new(d: &[u8], s: &Rc<Sched>) -> Self { Src { data: d.to_vec(), pos: 0, s: s.clone(), claim: None } } }
impl Sink { pub fn new(d: &[u8], s: &Rc<Sched>) -> Self { Sink { data: d.to_vec(), pos: 0, s: s.clone(), touched: false, low: u64::MAX, unflushed: false } } }
impl Read for Src {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        self.s.op(0)?;
        let p = (self.pos as usize).min(self.data.len());
        let n = buf.len().min(self.data.len() - p);
        let n = self.s.amount(n)?;
        buf[..n].copy_from_slice(&self.data[p..p + n]);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for Src { fn seek(&mut self, p: SeekFrom) -> Result<u64> { self.s.op(2)?; if let (Some(n), SeekFrom::End(0)) = (self.claim, p) { self.pos = n; return Ok(n); } let l = self.data.len(); seek_to(&mut self.pos, l, p) } }
impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        match self.s.op(1) { Err(_) if self.s.mode == 3 => return Ok(0), r => r? }
        if self.s.mode == 3 && self.s.fired.get() { return Ok(0); }
        let n = self.s.amount(buf.len())?;
        if n == 0 { return Ok(0); }
        self.touched = true;
        self.unflushed = true;
        self.low = self.low.min(self.pos);
        let p = self.pos as usize;
        if self.data.len() < p + n { self.data.resize(p + n, 0); }
        self.data[p..p + n].copy_from_slice(&buf[..n]);
        self.pos += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> { self.s.op(3)?; self.unflushed = false; Ok(()) }
}
impl Seek for Sink { fn seek(&mut self, p: SeekFrom) -> Result<u64> { self.s.op(2)?; let l = self.data.len(); seek_to(&mut self.pos, l, p) } }

/// A source whose data begin far from the start (what is before them is never stored), and a sink that keeps only
/// what is written from `base` on.
pub struct FarSrc { pub base: u64, pub data: Vec<u8>, pub pos: u64, pub strayed: bool }
pub struct FarSink { pub base: u64, pub data: Vec<u8>, pub pos: u64, pub strayed: bool }
fn far_seek(pos: &mut u64, end: u64, p: SeekFrom) -> Result<u64> {
    let n = match p { SeekFrom::Start(n) => Some(n), SeekFrom::End(d) => end.checked_add_signed(d), SeekFrom::Current(d) => pos.checked_add_signed(d) };
    match n { Some(n) => { *pos = n; Ok(n) }, None => Err(Error::from(ErrorKind::InvalidInput)) }
}
impl Read for FarSrc {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        if self.pos < self.base {
            self.strayed = true;
            let n = (buf.len() as u64).min(self.base - self.pos) as usize;
            for i in 0..n { buf[i] = 0x5A }
            self.pos += n as u64;
            return Ok(n);
        }
        let p = ((self.pos - self.base) as usize).min(self.data.len());
        let n = buf.len().min(self.data.len() - p);
        buf[..n].copy_from_slice(&self.data[p..p + n]);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for FarSrc { fn seek(&mut self, p: SeekFrom) -> Result<u64> { let e = self.base + self.data.len() as u64; far_seek(&mut self.pos, e, p) } }
impl Write for FarSink {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        if self.pos < self.base || self.pos - self.base > 1 << 24 { self.strayed = true; }
        else {
            let p = (self.pos - self.base) as usize;
            if self.data.len() < p + buf.len() { self.data.resize(p + buf.len(), 0); }
            self.data[p..p + buf.len()].copy_from_slice(buf);
        }
        self.pos += buf.len() as u64;
        Ok(buf.len())
    }
    fn flush(&mut self) -> Result<()> { Ok(()) }
}
impl Seek for FarSink { fn seek(&mut self, p: SeekFrom) -> Result<u64> { let e = self.base + self.data.len() as u64; far_seek(&mut self.pos, e, p) } }

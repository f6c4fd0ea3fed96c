//! C19: the executable.  Under `--cfg symx` /repo/src/main.rs runs against a model of the operating
//! system's files (os.rs); natively the same job runs the real executable in a scratch directory.
#[path = "../../harness/src/sym.rs"]
mod sym;
#[path = "../../harness/src/gen.rs"]
#[allow(dead_code)]
mod gen;
#[path = "../../harness/src/refs.rs"]
#[allow(dead_code)]
mod refs;
use gen::*;
use retrocompressor::*;
use sym::*;
use std::io::Cursor;

#[cfg(symx)]
#[allow(dead_code)]
mod os;
#[cfg(symx)]
#[path = "../../.build/cli-src/main.rs"] // /repo/src as it is, with an entry appended by build_ir.sh
#[allow(dead_code)]
mod cli;

pub const IN: &str = "in.dat";
pub const OUT: &str = "out.dat";
pub const BY: &str = "other.dat";

pub struct Case { compress: bool, method: usize, existed: bool, missing: bool, accept: bool, args: Vec<&'static str>, stdin: Vec<u8>, input: Vec<u8>, old: Vec<u8>, by: Vec<u8> }

fn library(compress: bool, method: usize, d: &[u8]) -> Option<Vec<u8>> {
    let mut r = Cursor::new(d.to_vec());
    let mut w = Cursor::new(Vec::new());
    let res = match (compress, method) {
        (true, 0) => lzw::compress(&mut r, &mut w, &lzw::STD_OPTIONS),
        (true, 1) => direct_ports::lzhuf::encode(&mut r, &mut w),
        (true, 2) => lzss_huff::compress(&mut r, &mut w, &lzss_huff::STD_OPTIONS),
        (true, _) => td0::compress(&mut r, &mut w),
        (false, 0) => lzw::expand(&mut r, &mut w, &lzw::STD_OPTIONS),
        (false, 1) => direct_ports::lzhuf::decode(&mut r, &mut w),
        (false, 2) => lzss_huff::expand(&mut r, &mut w, &lzss_huff::STD_OPTIONS),
        (false, _) => td0::expand(&mut r, &mut w),
    };
    match res { Ok(_) => Some(w.into_inner()), Err(_) => None }
}

/// Parameters: direction (1 compress), method (0 lzw, 1 lzhuf-port, 2 lzss_huff, 3 td0, 4 unknown), output exists,
/// input (0 valid for the method, 1 missing, 2 the data as they are, 3 valid but cut short, 4 valid and followed by more), answer (0 arbitrary line, 1 y, 2 Y, 3 n, 4 end of file, 5 y without newline),
/// order of the arguments, length of the old output, TD0 version, data.
fn case() -> Case {
    let mut p = P::new();
    let (dir, method, existed, input_kind, answer, order, oldlen, ver) = (p.next(), p.next(), p.next(), p.next(), p.next(), p.next(), p.next(), p.next());
    let mut d = data(&mut p);
    if method == 3 && input_kind != 2 {
        let mut img = td_header(b"TD", &[1, 2, ver as u8, 3, 4, 5, 6, 7]);
        img.extend_from_slice(&d);
        d = img;
    }
    if dir == 0 && input_kind != 2 && method < 4 { d = library(true, method, &d).unwrap(); }
    if input_kind == 3 { let n = d.len() - pick(d.len().min(12)) - 1; d.truncate(n); }
    if input_kind == 4 { for _ in 0..3 { d.push(byte_in(0, 2)); } }
    let mut stdin: Vec<u8> = Vec::new();
    match answer {
        0 => { let n = pick(4); for _ in 0..n { stdin.push(byte_in(32, 126)); } if n > 0 { assume(stdin[0] != 32); } stdin.push(10); }
        1 => stdin.extend(b"y\n"), 2 => stdin.extend(b"Y\n"), 3 => stdin.extend(b"n\n"), 5 => stdin.extend(b"y"),
        _ => {}
    }
    let mut line: Vec<u8> = stdin.clone();
    if line.last() == Some(&10) { line.pop(); }
    // trailing blanks do not matter
    let accept = line.len() >= 1 && (line[0] == b'y' || line[0] == b'Y') && line[1..].iter().all(|c| *c == 32);
    let m = ["lzw", "lzhuf-port", "lzss_huff", "td0", "zip"][method];
    let sub = if dir == 1 { "compress" } else { "expand" };
    let args = match order { 0 => vec!["retrocompressor", sub, "-m", m, "-i", IN, "-o", OUT], _ => vec!["retrocompressor", sub, "--output", OUT, "--method", m, "--input", IN] };
    let mut old = Vec::new();
    for i in 0..oldlen { old.push(if i < 2 { byte() } else { i as u8 }); }
    Case { compress: dir == 1, method, existed: existed == 1, missing: input_kind == 1, accept, args, stdin, input: d, old, by: vec![1, 2, 3] }
}

/// what the files must be afterwards
fn judge(c: &Case, code: i32, names: usize, input: Option<&[u8]>, output: Option<&[u8]>, by: Option<&[u8]>) {
    check(by == Some(&c.by[..]), 1);
    check(if c.missing { input.is_none() } else { input == Some(&c.input[..]) }, 2);
    check(names == 1 + (!c.missing) as usize + output.is_some() as usize, 3);
    if c.existed && (!c.accept || c.missing || c.method == 4) {
        reach(if !c.accept { 1 } else if c.missing { 2 } else { 3 });
        check(output == Some(&c.old[..]), 4);
        return;
    }
    if c.missing { reach(4); check(output.is_none() && code != 0, 7); return; }
    if c.method == 4 { reach(7); check(code != 0, 8); return; }
    match library(c.compress, c.method, &c.input) {
        Some(z) => { reach(5); check(output == Some(&z[..]), 5); check(code == 0, 6); for b in &z { emit(*b as u64); } }
        None => { reach(6); check(code != 0, 9); }
    }
}

#[cfg(symx)]
#[no_mangle] pub extern "C" fn h_cli() {
    let c = case();
    os::boot(c);
    let code = cli::symx_entry__::run();
    os::finish(code);
}
#[cfg(symx)]
fn main() { h_cli() }

#[cfg(not(symx))]
fn main() {
    // usage: cli ENTRY p0,p1,.. HEXBYTES [trace]      (CLI_EXE names the executable under test)
    let a: Vec<String> = std::env::args().collect();
    let params = if a[2].is_empty() { vec![] } else { a[2].split(',').map(|s| s.parse::<u64>().unwrap()).collect() };
    let h = a[3].as_bytes();
    let hex = |c: u8| (c as char).to_digit(16).unwrap() as u8;
    let bytes = h.chunks(2).filter(|c| c.len() == 2).map(|c| hex(c[0]) * 16 + hex(c[1])).collect();
    sym::imp::ST.with(|s| { let mut s = s.borrow_mut(); s.bytes = bytes; s.params = params; s.trace = a.len() > 4; });
    let c = case();
    let exe = std::env::var("CLI_EXE").expect("CLI_EXE");
    struct Scratch(std::path::PathBuf);
    impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }
    let mut ok = None;
    for i in 0.. {
        let d = std::env::temp_dir().join(format!("retrocompressor-cli-{}-{}", std::process::id(), i));
        if std::fs::create_dir(&d).is_ok() { ok = Some(Scratch(d)); break; }
        assert!(i < 1000);
    }
    let dir = ok.unwrap();
    let at = |n: &str| dir.0.join(n);
    std::fs::write(at(BY), &c.by).unwrap();
    if !c.missing { std::fs::write(at(IN), &c.input).unwrap(); }
    if c.existed { std::fs::write(at(OUT), &c.old).unwrap(); }
    let mut ch = std::process::Command::new(&exe).args(&c.args[1..]).current_dir(&dir.0).stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).spawn().unwrap();
    let _ = std::io::Write::write_all(&mut ch.stdin.take().unwrap(), &c.stdin);
    let st = ch.wait().unwrap();
    let names = std::fs::read_dir(&dir.0).unwrap().count();
    let get = |n: &str| std::fs::read(at(n)).ok();
    let (i, o, b) = (get(IN), get(OUT), get(BY));
    drop(dir);
    judge(&c, st.code().unwrap_or(256), names, i.as_deref(), o.as_deref(), b.as_deref());
}

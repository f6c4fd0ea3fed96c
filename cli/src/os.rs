//! A model of the files, of standard input and of the process, under the C names the standard library calls.
#![allow(suspicious_runtime_symbol_definitions, invalid_runtime_symbol_definitions)]
use crate::{judge, Case, BY, IN, OUT};
use crate::sym::*;

struct Fd { open: bool, node: usize, pos: usize, flags: i32 }
struct World { case: Option<Case>, names: Vec<(Vec<u8>, usize)>, nodes: Vec<Vec<u8>>, fds: Vec<Fd>, stdin_pos: usize, errno: i32, done: bool }
static mut W: World = World { case: None, names: Vec::new(), nodes: Vec::new(), fds: Vec::new(), stdin_pos: 0, errno: 0, done: false };
#[allow(static_mut_refs)]
fn w() -> &'static mut World { unsafe { &mut W } }

extern "C" { fn rt_args_init(argc: i32, argv: *const *const u8, env: *const *const u8); }

pub fn boot(c: Case) {
    let x = w();
    let mut put = |n: &str, d: &[u8]| { x.names.push((n.as_bytes().to_vec(), x.nodes.len())); x.nodes.push(d.to_vec()); };
    put(BY, &c.by);
    if !c.missing { put(IN, &c.input); }
    if c.existed { put(OUT, &c.old); }
    let mut argv: Vec<*const u8> = Vec::new();
    for a in &c.args { let mut z = a.as_bytes().to_vec(); z.push(0); argv.push(Box::leak(z.into_boxed_slice()).as_ptr()); }
    let n = argv.len() as i32;
    argv.push(std::ptr::null());
    let p = Box::leak(argv.into_boxed_slice()).as_ptr();
    let env: &'static [*const u8; 1] = Box::leak(Box::new([std::ptr::null()]));
    x.case = Some(c);
    unsafe { rt_args_init(n, p, env.as_ptr()); }
}

pub fn finish(code: i32) {
    let x = w();
    if x.done { return; }
    x.done = true;
    let c = x.case.take().unwrap();
    let find = |n: &str| x.names.iter().find(|e| e.0 == n.as_bytes()).map(|e| &x.nodes[e.1][..]);
    judge(&c, code, x.names.len(), find(IN), find(OUT), find(BY));
}

fn fail(e: i32) -> isize { w().errno = e; -1 }
unsafe fn cstr(p: *const u8) -> Vec<u8> {
    let mut v = Vec::new();
    let mut i = 0;
    while *p.add(i) != 0 { v.push(*p.add(i)); i += 1; }
    if v.starts_with(b"./") { v.drain(..2); }
    v
}
fn lookup(n: &[u8]) -> Option<usize> { w().names.iter().position(|e| e.0 == n) }
fn fd(f: i32) -> Option<&'static mut Fd> { if f < 3 { return None; } match w().fds.get_mut(f as usize - 3) { Some(d) if d.open => Some(d), _ => None } }

const ENOENT: i32 = 2; const EBADF: i32 = 9; const EEXIST: i32 = 17; const EINVAL: i32 = 22; const ENOSYS: i32 = 38;
const O_CREAT: i32 = 0o100; const O_EXCL: i32 = 0o200; const O_TRUNC: i32 = 0o1000; const O_APPEND: i32 = 0o2000;

#[no_mangle] pub unsafe extern "C" fn __errno_location() -> *mut i32 { &mut w().errno }
#[no_mangle] pub unsafe extern "C" fn open64(path: *const u8, flags: i32, _mode: u32) -> i32 {
    let n = cstr(path);
    let node = match lookup(&n) {
        Some(i) => { if flags & O_CREAT != 0 && flags & O_EXCL != 0 { return fail(EEXIST) as i32; } w().names[i].1 }
        None => {
            if flags & O_CREAT == 0 { return fail(ENOENT) as i32; }
            let k = w().nodes.len();
            w().nodes.push(Vec::new());
            w().names.push((n, k));
            k
        }
    };
    if flags & O_TRUNC != 0 && flags & 3 != 0 { w().nodes[node].clear(); }
    w().fds.push(Fd { open: true, node, pos: 0, flags });
    w().fds.len() as i32 + 2
}
#[no_mangle] pub unsafe extern "C" fn open(path: *const u8, flags: i32, mode: u32) -> i32 { open64(path, flags, mode) }
#[no_mangle] pub unsafe extern "C" fn openat64(_d: i32, path: *const u8, flags: i32, mode: u32) -> i32 { open64(path, flags, mode) }
#[no_mangle] pub unsafe extern "C" fn close(f: i32) -> i32 { if let Some(d) = fd(f) { d.open = false; 0 } else { fail(EBADF) as i32 } }
#[no_mangle] pub unsafe extern "C" fn read(f: i32, p: *mut u8, n: usize) -> isize {
    if f == 0 {
        let x = w();
        let s = &x.case.as_ref().unwrap().stdin;
        let k = n.min(s.len() - x.stdin_pos);
        for i in 0..k { *p.add(i) = s[x.stdin_pos + i]; }
        x.stdin_pos += k;
        return k as isize;
    }
    match fd(f) {
        Some(d) => {
            if d.flags & 3 == 1 { return fail(EBADF); }
            let v = &w().nodes[d.node];
            let k = n.min(v.len().saturating_sub(d.pos));
            if k > 0 { std::ptr::copy_nonoverlapping(v.as_ptr().add(d.pos), p, k); }
            d.pos += k;
            k as isize
        }
        None => fail(EBADF),
    }
}
#[no_mangle] pub unsafe extern "C" fn pread64(f: i32, p: *mut u8, n: usize, off: i64) -> isize {
    match fd(f) { Some(d) => { let o = d.pos; d.pos = off as usize; let r = read(f, p, n); fd(f).unwrap().pos = o; r } None => fail(EBADF) }
}
#[no_mangle] pub unsafe extern "C" fn write(f: i32, p: *const u8, n: usize) -> isize {
    if f == 1 || f == 2 { return n as isize; }
    match fd(f) {
        Some(d) => {
            if d.flags & 3 == 0 { return fail(EBADF); }
            let v = &mut w().nodes[d.node];
            if d.flags & O_APPEND != 0 { d.pos = v.len(); }
            if v.len() < d.pos + n { v.resize(d.pos + n, 0); }
            if n > 0 { std::ptr::copy_nonoverlapping(p, v.as_mut_ptr().add(d.pos), n); }
            d.pos += n;
            n as isize
        }
        None => fail(EBADF),
    }
}
#[repr(C)] pub struct Iov { p: *mut u8, n: usize }
#[no_mangle] pub unsafe extern "C" fn writev(f: i32, v: *const Iov, n: i32) -> isize {
    let mut t = 0;
    for i in 0..n as usize { let e = &*v.add(i); let r = write(f, e.p, e.n); if r < 0 { return r; } t += r; }
    t
}
#[no_mangle] pub unsafe extern "C" fn readv(f: i32, v: *const Iov, n: i32) -> isize {
    for i in 0..n as usize { let e = &*v.add(i); if e.n > 0 { return read(f, e.p, e.n); } }
    0
}
#[no_mangle] pub unsafe extern "C" fn pwrite64(f: i32, p: *const u8, n: usize, off: i64) -> isize {
    match fd(f) { Some(d) => { let o = d.pos; d.pos = off as usize; let r = write(f, p, n); fd(f).unwrap().pos = o; r } None => fail(EBADF) }
}
#[no_mangle] pub unsafe extern "C" fn lseek64(f: i32, off: i64, whence: i32) -> i64 {
    match fd(f) {
        Some(d) => {
            let base = match whence { 0 => 0, 1 => d.pos as i64, _ => w().nodes[d.node].len() as i64 };
            if base + off < 0 { return fail(EINVAL) as i64; }
            d.pos = (base + off) as usize;
            d.pos as i64
        }
        None => fail(29) as i64,
    }
}
#[no_mangle] pub unsafe extern "C" fn ftruncate64(f: i32, n: i64) -> i32 {
    match fd(f) { Some(d) if d.flags & 3 != 0 => { w().nodes[d.node].resize(n as usize, 0); 0 } _ => fail(EINVAL) as i32 }
}
#[no_mangle] pub unsafe extern "C" fn unlink(p: *const u8) -> i32 { match lookup(&cstr(p)) { Some(i) => { w().names.remove(i); 0 } None => fail(ENOENT) as i32 } }
#[no_mangle] pub unsafe extern "C" fn rename(a: *const u8, b: *const u8) -> i32 {
    let (a, b) = (cstr(a), cstr(b));
    if lookup(&a).is_none() { return fail(ENOENT) as i32; }
    if a == b { return 0; }
    if let Some(j) = lookup(&b) { w().names.remove(j); }
    let i = lookup(&a).unwrap();
    w().names[i].0 = b;
    0
}
/// struct stat of x86_64 Linux: only mode (24) and size (48) are filled in
unsafe fn put_stat(node: usize, st: *mut u8) -> i32 {
    for i in 0..144 { *st.add(i) = 0; }
    *(st.add(8) as *mut u64) = node as u64 + 1;
    *(st.add(24) as *mut u32) = 0o100644;
    *(st.add(48) as *mut u64) = w().nodes[node].len() as u64;
    0
}
#[no_mangle] pub unsafe extern "C" fn fstat64(f: i32, st: *mut u8) -> i32 { match fd(f) { Some(d) => put_stat(d.node, st), None => fail(EBADF) as i32 } }
#[no_mangle] pub unsafe extern "C" fn stat64(p: *const u8, st: *mut u8) -> i32 { match lookup(&cstr(p)) { Some(i) => put_stat(w().names[i].1, st), None => fail(ENOENT) as i32 } }
#[no_mangle] pub unsafe extern "C" fn lstat64(p: *const u8, st: *mut u8) -> i32 { stat64(p, st) }
#[no_mangle] pub unsafe extern "C" fn fstatat64(_d: i32, p: *const u8, st: *mut u8, _f: i32) -> i32 { stat64(p, st) }
#[no_mangle] pub unsafe extern "C" fn statx(_d: i32, _p: *const u8, _f: i32, _m: u32, _st: *mut u8) -> i32 { fail(ENOSYS) as i32 }
#[no_mangle] pub unsafe extern "C" fn copy_file_range(_a: i32, _x: *mut i64, _b: i32, _y: *mut i64, _n: usize, _f: u32) -> isize { fail(ENOSYS) }
#[no_mangle] pub unsafe extern "C" fn sendfile64(_a: i32, _b: i32, _o: *mut i64, _n: usize) -> isize { fail(EINVAL) }
#[no_mangle] pub unsafe extern "C" fn splice(_a: i32, _x: *mut i64, _b: i32, _y: *mut i64, _n: usize, _f: u32) -> isize { fail(EINVAL) }
#[no_mangle] pub unsafe extern "C" fn umask(_m: u32) -> u32 { 0o022 }
#[no_mangle] pub unsafe extern "C" fn chmod(_p: *const u8, _m: u32) -> i32 { 0 }
#[no_mangle] pub unsafe extern "C" fn access(p: *const u8, _m: i32) -> i32 { if lookup(&cstr(p)).is_some() { 0 } else { fail(ENOENT) as i32 } }
#[no_mangle] pub unsafe extern "C" fn fsync(_f: i32) -> i32 { 0 }
#[no_mangle] pub unsafe extern "C" fn fdatasync(_f: i32) -> i32 { 0 }
#[no_mangle] pub unsafe extern "C" fn fchmod(_f: i32, _m: u32) -> i32 { 0 }
#[no_mangle] pub unsafe extern "C" fn flock(_f: i32, _m: i32) -> i32 { 0 }
#[no_mangle] pub unsafe extern "C" fn fcntl(_f: i32, _c: i32, _a: usize) -> i32 { 0 }
#[no_mangle] pub unsafe extern "C" fn isatty(_f: i32) -> i32 { fail(25); 0 }
#[no_mangle] pub unsafe extern "C" fn ioctl(_f: i32, _r: u64, _a: usize) -> i32 { fail(25) as i32 }
#[no_mangle] pub unsafe extern "C" fn getenv(_p: *const u8) -> *const u8 { std::ptr::null() }
#[no_mangle] pub unsafe extern "C" fn syscall(_n: i64, _a: usize, _b: usize, _c: usize, _d: usize, _e: usize, _f: usize) -> i64 { fail(ENOSYS) as i64 }
#[no_mangle] pub unsafe extern "C" fn dlsym(_h: usize, _n: *const u8) -> usize { 0 }
#[no_mangle] pub unsafe extern "C" fn __cxa_thread_atexit_impl(_f: usize, _o: usize, _d: usize) -> i32 { 0 }
#[no_mangle] pub unsafe extern "C" fn clock_gettime(_c: i32, t: *mut i64) -> i32 { *t = 1_700_000_000; *t.add(1) = 0; 0 }
#[no_mangle] pub unsafe extern "C" fn getpid() -> i32 { 7 }
#[no_mangle] pub unsafe extern "C" fn exit(code: i32) -> ! { finish(code); assume(false); loop {} }
#[no_mangle] pub unsafe extern "C" fn _exit(code: i32) -> ! { exit(code) }
#[no_mangle] pub unsafe extern "C" fn __xpg_strerror_r(_e: i32, p: *mut u8, n: usize) -> i32 { if n > 1 { *p = b'?'; *p.add(1) = 0; } 0 }

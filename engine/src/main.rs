mod exec;
mod expr;
mod ir;
mod solver;
use exec::*;
use std::io::{Read, Write};
use std::time::{Duration, Instant};

extern "C" { fn fork() -> i32; fn waitpid(p: i32, st: *mut i32, o: i32) -> i32; fn pipe(f: *mut i32) -> i32; fn read(f: i32, b: *mut u8, n: usize) -> isize; fn write(f: i32, b: *const u8, n: usize) -> isize; fn close(f: i32) -> i32; fn _exit(c: i32) -> !; }

fn esc(s: &str) -> String { s.chars().flat_map(|c| match c { '"' => vec!['\\', '"'], '\\' => vec!['\\', '\\'], c if (c as u32) < 32 => vec![' '], c => vec![c] }).collect() }

fn report(x: &Exec, secs: f64) -> String {
    let s = &x.st;
    let hex = |b: &Vec<u8>| b.iter().map(|v| format!("{:02x}", v)).collect::<String>();
    let viol: Vec<String> = x.viol.iter().map(|v| format!("{{\"kind\":\"{}\",\"id\":{},\"bytes\":\"{}\",\"stack\":[{}]}}", esc(&v.kind), v.id, hex(&v.bytes), v.stack.iter().map(|t| format!("\"{}\"", esc(t))).collect::<Vec<_>>().join(","))).collect();
    let uns: Vec<String> = s.unsupported.iter().map(|(k, n)| format!("\"{}\":{}", esc(k), n)).collect();
    let re: Vec<String> = x.reached.iter().map(|(k, n)| format!("\"{}\":{}", k, n)).collect();
    let fu: Vec<String> = x.funcs_used().iter().map(|(k, n)| format!("[\"{}\",{}]", esc(k), n)).collect();
    let sm: Vec<String> = x.samples.iter().map(|(b, e)| format!("[\"{}\",[{}]]", hex(b), e.iter().map(|v| format!("\"{:x}\"", v)).collect::<Vec<_>>().join(","))).collect();
    let em: Vec<String> = x.emits.iter().map(|v| format!("\"{:x}\"", v)).collect();
    format!("{{\"paths\":{},\"ended\":{},\"assumed\":{},\"forks\":{},\"steps\":{},\"merges\":{},\"joins\":{},\"domain_decided\":{},\"asserts\":{},\"asserts_folded\":{},\"asserts_solver\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_secs\":{:.3},\"max_query_secs\":{:.3},\"secs\":{:.2},\"maxdepth\":{},\"maxvars\":{},\"max_path_steps\":{},\"nodes\":{},\"incomplete\":{},\"violations\":[{}],\"unsupported\":{{{}}},\"reached\":{{{}}},\"funcs\":[{}],\"emits\":[{}],\"samples\":[{}]}}",
        s.paths, s.ended, s.assumed, s.forks, s.steps, s.merges, s.joins, s.domain_decided, s.asserts, s.asserts_folded, s.asserts_solver, x.sol.queries, x.sol.sat, x.sol.unsat, s.unknown, x.sol.time, x.sol.maxq, secs, s.maxdepth, s.maxvars, s.max_path_steps, x.ar.nodes.len(), s.incomplete,
        viol.join(","), uns.join(","), re.join(","), fu.join(","), em.join(","), sm.join(","))
}

fn main() { std::thread::Builder::new().stack_size(4 << 30).spawn(main_).unwrap().join().unwrap(); }
fn main_() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |n: &str| a.iter().position(|x| x == n).map(|i| a[i + 1].clone());
    if a.len() < 2 || a[1] == "--version" { println!("symx 0.1, z3 {}", solver::Solver::version()); return; }
    let src = std::fs::read_to_string(&a[1]).expect("ir file");
    let hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(|_| ()));
    let m = ir::parse(&src);
    std::panic::set_hook(hook);
    drop(src);
    let t0 = Instant::now();
    let secs: f64 = opt("--time").map_or(1e9, |s| s.parse().unwrap());
    let lim = Limits { path_steps: opt("--path-steps").map_or(20_000_000_000, |s| s.parse().unwrap()), deadline: Some(t0 + Duration::from_secs_f64(secs.min(1e8))), max_viol: opt("--max-viol").map_or(2, |s| s.parse().unwrap()), enum_cap: opt("--enum-cap").map_or(5000, |s| s.parse().unwrap()) };
    let mut x = Exec::new(&m, lim, opt("--z3-timeout").map_or(60000, |s| s.parse().unwrap()));
    x.params = opt("--params").map_or(vec![], |s| s.split(',').filter(|t| !t.is_empty()).map(|t| t.parse().unwrap()).collect());
    x.concrete = opt("--concrete").map(|s| (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect());
    if let Some(v) = opt("--hash") { x.hash_const = v == "const"; }
    if let Some(v) = opt("--merge1") { x.merge1 = v.parse().unwrap(); }
    if let Some(v) = opt("--merge2") { x.merge2 = v.parse().unwrap(); }
    let entry = opt("--entry").expect("--entry");
    let jobs: usize = opt("--jobs").map_or(1, |s| s.parse().unwrap());
    let init = x.initial(&entry);
    if jobs <= 1 {
        x.explore(vec![init], None);
        if a.iter().any(|s| s == "--sites") {
            let mut v: Vec<_> = x.sites.iter().collect();
            v.sort_by(|a, b| b.1.cmp(a.1));
            for ((f, pc), n) in v.iter().take(15) { eprintln!("{} {} pc {} {}", n, short(&m.funcs[*f as usize].name), pc, format!("{:?}", m.funcs[*f as usize].code[*pc as usize]).chars().take(120).collect::<String>()); }
        }
        println!("{}", report(&x, t0.elapsed().as_secs_f64()));
        return;
    }
    let work = x.explore(vec![init], Some(jobs * 32));
    let mut work: Vec<_> = work.into_iter().collect();
    println!("{}", report(&x, t0.elapsed().as_secs_f64()));
    if work.is_empty() { return; }
    std::io::stdout().flush().unwrap();
    // the frontier is dealt to worker processes on demand through a pipe of indices
    unsafe {
        let mut q = [0i32; 2];
        pipe(q.as_mut_ptr());
        let n = work.len();
        let mut kids = Vec::new();
        for _ in 0..jobs {
            let mut r = [0i32; 2];
            pipe(r.as_mut_ptr());
            let p = fork();
            if p == 0 {
                close(q[1]);
                close(r[0]);
                // statistics start afresh in the child
                x.st = Stats::default();
                x.viol.clear(); x.samples.clear();
                x.reached.clear();
                for f in x.fsteps.iter_mut() { *f = 0; }
                x.sol.queries = 0; x.sol.sat = 0; x.sol.unsat = 0; x.sol.time = 0.0; x.sol.maxq = 0.0;
                loop {
                    let mut b = [0u8; 4];
                    if read(q[0], b.as_mut_ptr(), 4) != 4 { break; }
                    let i = u32::from_le_bytes(b) as usize;
                    let s = work[i].clone();
                    x.explore(vec![s], None);
                }
                let out = report(&x, t0.elapsed().as_secs_f64());
                let o = out.as_bytes();
                let mut k = 0;
                while k < o.len() { let w = write(r[1], o[k..].as_ptr(), o.len() - k); if w <= 0 { break; } k += w as usize; }
                _exit(0);
            }
            close(r[1]);
            kids.push((p, r[0]));
        }
        close(q[0]);
        for i in 0..n { let b = (i as u32).to_le_bytes(); write(q[1], b.as_ptr(), 4); }
        close(q[1]);
        work.clear();
        for (p, r) in kids {
            use std::os::fd::FromRawFd;
            let mut f = std::fs::File::from_raw_fd(r);
            let mut s = String::new();
            let _ = f.read_to_string(&mut s);
            let mut st = 0;
            waitpid(p, &mut st, 0);
            if s.is_empty() { println!("{{\"crashed\":{}}}", st); } else { println!("{}", s); }
        }
    }
}

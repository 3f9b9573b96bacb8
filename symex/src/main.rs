mod exec;
mod expr;
mod ir;
mod mem;
mod z3;
use std::fmt::Write as _;
use std::io::{Read, Write};
use std::os::fd::FromRawFd;

extern "C" {
    fn fork() -> i32;
    fn pipe(f: *mut i32) -> i32;
    fn close(f: i32) -> i32;
    fn waitpid(p: i32, s: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn poll(p: *mut PollFd, n: u64, t: i32) -> i32;
    fn read(f: i32, b: *mut u8, n: usize) -> isize;
    fn prctl(o: i32, a: u64) -> i32;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
    fn kill(p: i32, s: i32) -> i32;
}
#[repr(C)]
struct PollFd { fd: i32, ev: i16, re: i16 }

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) }
    }
    o.push('"');
    o
}
struct Job { entry: String, case: u64 }
struct Opts { ll: String, jobs: usize, time: f64, total: f64, paths: u64, pinstr: u64, qto: u32, trace: bool, samples: usize, mem: u64, maxv: usize, prof: bool }

fn inputs_json(v: &[(u32, u64)]) -> String {
    let mut o = String::from("[");
    for (i, (w, x)) in v.iter().enumerate() { if i > 0 { o.push(','); } let _ = write!(o, "[{},{}]", w, x); }
    o.push(']');
    o
}

fn run_job(m: &'static ir::Module, j: &Job, o: &Opts, time: f64) -> String {
    let Some(&f) = m.func_by_name.get(&j.entry) else { return format!("{{\"entry\":{},\"case\":{},\"error\":\"no such entry\"}}", jstr(&j.entry), j.case) };
    let lim = exec::Limits { time, paths: o.paths, path_instrs: o.pinstr, max_violations: o.maxv, samples: o.samples };
    let mut x = exec::Exec::new(m, lim, o.qto);
    x.trace = o.trace;
    x.run(f, j.case);
    if o.prof {
        let mut v: Vec<_> = x.fork_sites.iter().collect();
        v.sort_by_key(|a| std::cmp::Reverse(*a.1));
        for ((f, b), n) in v.into_iter().take(25) { eprintln!("{:8} {} [{}]", n, m.funcs[*f as usize].pretty, m.funcs[*f as usize].block_names[*b as usize]); }
    }
    let s = &x.st;
    let mut r = String::new();
    let _ = write!(r, "{{\"entry\":{},\"case\":{},\"paths\":{},\"done\":{},\"assumed_away\":{},\"panics\":{},\"forks\":{},\"branches\":{},\"concretizations\":{},\"instrs\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"cex_hits\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"wall_s\":{:.3},\"mismatches\":{},\"asserts\":{},\"assert_queries\":{},\"max_inputs\":{},\"max_depth\":{},\"exprs\":{}",
        jstr(&j.entry), j.case, s.paths, s.done, s.assumed_away, s.panics, s.forks, s.branches, s.conc, s.instrs, x.z3.queries, x.z3.sat, x.z3.unsat, x.z3.unknown, s.cache_hits, s.cex_hits, x.z3.time, x.z3.max_q, x.t0.elapsed().as_secs_f64(), s.mismatches, s.asserts, s.assert_queries, s.max_inputs, s.max_depth, x.ar.nodes.len());
    r.push_str(",\"incomplete\":{");
    for (i, (k, v)) in x.incomplete.iter().enumerate() { if i > 0 { r.push(','); } let _ = write!(r, "{}:{}", jstr(k), v); }
    r.push_str("},\"reach\":{");
    for (i, (k, v)) in x.reach.iter().enumerate() { if i > 0 { r.push(','); } let _ = write!(r, "{}:{}", jstr(k), v); }
    r.push_str("},\"violations\":[");
    for (i, v) in x.violations.iter().enumerate() {
        if i > 0 { r.push(','); }
        let _ = write!(r, "{{\"key\":{},\"msg\":{},\"inputs\":{},\"stack\":[{}]}}", jstr(&v.key), jstr(&v.msg), inputs_json(&v.inputs), v.stack.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","));
    }
    r.push_str("],\"samples\":[");
    for (i, v) in x.samples.iter().enumerate() { if i > 0 { r.push(','); } r.push_str(&inputs_json(v)); }
    r.push_str("],\"funcs\":[");
    let mut first = true;
    for (i, b) in x.funcs_seen.iter().enumerate() {
        let p = &m.funcs[i].pretty;
        if *b && (p.contains("dxf::") || p.contains("<dxf")) { if !first { r.push(','); } first = false; let _ = write!(r, "{}", i); }
    }
    r.push_str("]}");
    r
}

fn main() {
    let mut o = Opts { ll: String::new(), jobs: 8, time: 60.0, total: 600.0, paths: 1_000_000, pinstr: 300_000_000, qto: 10_000, trace: false, samples: 3, mem: 8, maxv: 8, prof: false };
    let mut jobs: Vec<Job> = vec![];
    let mut a = std::env::args().skip(1);
    let mut jobsfile = None;
    while let Some(x) = a.next() {
        let mut nx = || a.next().expect("argument");
        match x.as_str() {
            "--ll" => o.ll = nx(),
            "-j" => o.jobs = nx().parse().unwrap(),
            "--time" => o.time = nx().parse().unwrap(),
            "--total" => o.total = nx().parse().unwrap(),
            "--paths" => o.paths = nx().parse().unwrap(),
            "--path-instrs" => o.pinstr = nx().parse().unwrap(),
            "--query-timeout" => o.qto = nx().parse().unwrap(),
            "--samples" => o.samples = nx().parse().unwrap(),
            "--mem" => o.mem = nx().parse().unwrap(),
            "--max-violations" => o.maxv = nx().parse().unwrap(),
            "--trace" => o.trace = true,
            "--prof" => o.prof = true,
            "--jobs" => jobsfile = Some(nx()),
            "--job" => { let e = nx(); let c = nx().parse().unwrap(); jobs.push(Job { entry: e, case: c }); }
            "--version" => { println!("{}", z3::version()); return; }
            _ => panic!("unknown option {}", x),
        }
    }
    if let Some(f) = jobsfile {
        for l in std::fs::read_to_string(f).unwrap().lines() { let mut p = l.split_whitespace(); if let (Some(e), Some(c)) = (p.next(), p.next()) { jobs.push(Job { entry: e.into(), case: c.parse().unwrap() }); } }
    }
    let t0 = std::time::Instant::now();
    let text = std::fs::read(&o.ll).expect("ll file");
    let text: &'static [u8] = Box::leak(text.into_boxed_slice());
    let m: &'static ir::Module = Box::leak(Box::new(ir::Parser::parse(text)));
    let ninstr: usize = m.funcs.iter().map(|f| f.blocks.iter().map(|b| b.len()).sum::<usize>()).sum();
    {
        // module header line: names of functions in the library under test, by index
        let mut r = format!("{{\"module\":{{\"parse_s\":{:.3},\"functions\":{},\"instructions\":{},\"z3\":{},\"names\":{{", t0.elapsed().as_secs_f64(), m.funcs.iter().filter(|f| f.defined).count(), ninstr, jstr(&z3::version()));
        let mut first = true;
        for (i, f) in m.funcs.iter().enumerate() { if f.defined && (f.pretty.contains("dxf::") || f.pretty.contains("<dxf")) { if !first { r.push(','); } first = false; let _ = write!(r, "\"{}\":{}", i, jstr(&f.pretty)); } }
        r.push_str("}}}\n");
        std::io::stdout().write_all(r.as_bytes()).unwrap();
        std::io::stdout().flush().unwrap();
    }
    struct W { pid: i32, fd: i32, job: usize, buf: Vec<u8>, start: std::time::Instant, lim: f64 }
    let mut ws: Vec<W> = vec![];
    let mut next = 0;
    while next < jobs.len() || !ws.is_empty() {
        while ws.len() < o.jobs && next < jobs.len() {
            let left = o.total - t0.elapsed().as_secs_f64();
            let j = &jobs[next];
            if left < 1.0 {
                println!("{{\"entry\":{},\"case\":{},\"skipped\":\"total time budget\"}}", jstr(&j.entry), j.case);
                next += 1;
                continue;
            }
            let mut fds = [0i32; 2];
            unsafe { pipe(fds.as_mut_ptr()); }
            let tl = o.time.min(left);
            let pid = unsafe { fork() };
            if pid == 0 {
                unsafe {
                    prctl(1, 9);
                    close(fds[0]);
                    let lim = [o.mem << 30, o.mem << 30];
                    setrlimit(9, &lim);
                }
                let oref: &'static Opts = unsafe { &*(&o as *const Opts) };
                let jref: &'static Job = unsafe { &*(j as *const Job) };
                let h = std::thread::Builder::new().stack_size(1 << 30).spawn(move || run_job(m, jref, oref, tl)).unwrap();
                let r = match h.join() { Ok(r) => r, Err(_) => "{\"error\":\"engine panic\"}".to_string() };
                let mut f = unsafe { std::fs::File::from_raw_fd(fds[1]) };
                let _ = f.write_all(r.as_bytes());
                let _ = f.flush();
                unsafe { _exit(0) }
            }
            unsafe { close(fds[1]); }
            ws.push(W { pid, fd: fds[0], job: next, buf: vec![], start: std::time::Instant::now(), lim: tl });
            next += 1;
        }
        let mut pf: Vec<PollFd> = ws.iter().map(|w| PollFd { fd: w.fd, ev: 1, re: 0 }).collect();
        unsafe { poll(pf.as_mut_ptr(), pf.len() as u64, 500); }
        let mut i = 0;
        let mut k = 0;
        while i < ws.len() {
            let mut fin = false;
            if pf[k].re != 0 {
                let mut b = vec![0u8; 1 << 16];
                let n = unsafe { read(ws[i].fd, b.as_mut_ptr(), b.len()) };
                if n <= 0 { fin = true; } else { ws[i].buf.extend_from_slice(&b[..n as usize]); }
            } else if ws[i].start.elapsed().as_secs_f64() > ws[i].lim + 30.0 {
                unsafe { kill(ws[i].pid, 9); }
                fin = true;
            }
            k += 1;
            if fin {
                let w = ws.remove(i);
                unsafe { let mut st = 0; waitpid(w.pid, &mut st, 0); close(w.fd); }
                let mut t = String::from_utf8_lossy(&w.buf).to_string();
                if !t.starts_with("{\"entry\"") { t = format!("{{\"entry\":{},\"case\":{},\"error\":\"worker died\"}}", jstr(&jobs[w.job].entry), jobs[w.job].case); }
                println!("{}", t);
                std::io::stdout().flush().unwrap();
            } else { i += 1; }
        }
    }
    let _ = std::io::stdin().by_ref();
}

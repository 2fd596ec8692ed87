mod exec;
mod expr;
mod ir;
mod prep;
mod z3;

use std::fmt::Write as _;
use std::io::Write as _;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::Instant;

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn prctl(a: i32, b: u64, c: u64, d: u64, e: u64) -> i32;
    fn _exit(c: i32) -> !;
}

#[repr(C)]
struct Shared {
    active: AtomicU64,
    stop: AtomicU64,
    seq: AtomicU64,
    paths: AtomicU64,
    viol: AtomicU64,
    truncated: AtomicU64,
}

fn js(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(r, "\\u{:04x}", c as u32);
            }
            c => r.push(c),
        }
    }
    r.push('"');
    r
}
fn jin(v: &[(String, u64)]) -> String {
    let mut r = String::from("[");
    for (i, (t, x)) in v.iter().enumerate() {
        if i > 0 {
            r.push(',');
        }
        let _ = write!(r, "[{},{}]", js(t), x);
    }
    r.push(']');
    r
}

fn dump(ex: &exec::Ex, path: &str, leftover: usize, hits: bool) {
    let s = &ex.st;
    let mut o = String::from("{");
    let _ = write!(
        o,
        "\"instr\":{},\"forks\":{},\"finished\":{},\"done\":{},\"pruned\":{},\"violated\":{},\"sat\":{},\"unsat\":{},\"cached\":{},\"quick\":{},\"conc\":{},\"maxcons\":{},\"queries\":{},\"solver_ns\":{},\"exprs\":{},\"leftover\":{}",
        s.instr, s.forks, s.finished, s.done, s.pruned, s.violated, s.sat, s.unsat, s.cached, s.quick, s.conc, s.maxcons, ex.z.queries, ex.z.nanos, ex.ar.n.len(), leftover
    );
    let m = |h: &std::collections::HashMap<String, (u64, Vec<(String, u64)>)>| {
        let mut r = String::from("{");
        for (i, (k, (n, v))) in h.iter().enumerate() {
            if i > 0 {
                r.push(',');
            }
            let _ = write!(r, "{}:[{},{}]", js(k), n, jin(v));
        }
        r.push('}');
        r
    };
    let _ = write!(o, ",\"panics\":{},\"errors\":{}", m(&s.panics), m(&s.errors));
    let cnt = |h: &std::collections::HashMap<String, u64>| {
        let v: Vec<String> = h.iter().map(|(k, n)| format!("{}:{}", js(k), n)).collect();
        format!("{{{}}}", v.join(","))
    };
    let _ = write!(o, ",\"reach\":{},\"violn\":{}", cnt(&s.reach), cnt(&s.violn));
    let v: Vec<String> = s.checks.iter().map(|(k, (n, q))| format!("{}:[{},{}]", js(k), n, q)).collect();
    let _ = write!(o, ",\"checks\":{{{}}}", v.join(","));
    let v: Vec<String> = s.viol.iter().map(|x| format!("[{},{}]", js(&x.id), jin(&x.inputs))).collect();
    let _ = write!(o, ",\"viol\":[{}]", v.join(","));
    let v: Vec<String> = s.samples.iter().map(|(a, b)| format!("[{},{}]", jin(a), jin(b))).collect();
    let _ = write!(o, ",\"samples\":[{}]", v.join(","));
    if hits {
        let v: Vec<String> = ex.m.funcs.iter().enumerate().filter(|(i, f)| ex.hit[*i] && f.defined).map(|(_, f)| js(&f.name)).collect();
        let _ = write!(o, ",\"funcs\":[{}]", v.join(","));
    }
    o.push('}');
    let mut f = std::fs::File::create(path).expect("result file");
    f.write_all(o.as_bytes()).expect("result write");
}

fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned())
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("prep") => prep::prep(&a[2], &a[3]),
        Some("run") => run(&a),
        _ => {
            eprintln!("usage: symex prep IN OUT | symex run --ir F --harness H --out DIR [--workers N] [--time S]");
            std::process::exit(64);
        }
    }
}

fn run(a: &[String]) {
    let ir = arg(a, "--ir").unwrap();
    let h = arg(a, "--harness").unwrap();
    let out = arg(a, "--out").unwrap();
    let workers: u64 = arg(a, "--workers").and_then(|x| x.parse().ok()).unwrap_or(8);
    let tlimit: f64 = arg(a, "--time").and_then(|x| x.parse().ok()).unwrap_or(600.0);
    let seed: u64 = arg(a, "--seed").and_then(|x| x.parse().ok()).unwrap_or(1);
    let maxviol: u64 = arg(a, "--maxviol").and_then(|x| x.parse().ok()).unwrap_or(4);
    let stop_after: u64 = arg(a, "--stop-after").and_then(|x| x.parse().ok()).unwrap_or(u64::MAX);
    let maxinstr: u64 = arg(a, "--max-instr").and_then(|x| x.parse().ok()).unwrap_or(60_000_000);
    let t0 = Instant::now();
    let text: &'static [u8] = Box::leak(std::fs::read(&ir).expect("ir").into_boxed_slice());
    let m = Box::leak(Box::new(ir::parse(text)));
    let (mut ex, st) = exec::Ex::new(m, seed);
    ex.maxviol = maxviol;
    ex.only = arg(a, "--only").unwrap_or_default();
    ex.panics = arg(a, "--panics").unwrap_or_default();
    ex.fork_addr = !a.iter().any(|x| x == "--ite-addr");
    ex.maxinstr = maxinstr;
    let st = match ex.start(st, &h) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("symex: {}", e);
            std::process::exit(65);
        }
    };
    let sh: &'static Shared = unsafe {
        let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0);
        &*(p as *const Shared)
    };
    sh.active.store(1, SeqCst);
    unsafe {
        prctl(36, 1, 0, 0, 0); // subreaper: collect every descendant
    }
    ex.pending.push(st);
    // explorer processes are children of this one
    let pid = unsafe { fork() };
    if pid == 0 {
        worker(ex, sh, &out, workers, tlimit, t0, stop_after);
    }
    let mut bad = 0;
    loop {
        let mut s = 0i32;
        let p = unsafe { waitpid(-1, &mut s, 0) };
        if p < 0 {
            break;
        }
        if s != 0 {
            bad += 1;
            eprintln!("symex: explorer process ended abnormally (status {:#x})", s);
            sh.stop.store(1, SeqCst);
        }
    }
    println!(
        "paths {} processes {} wall {:.1}s{}",
        sh.paths.load(SeqCst),
        sh.seq.load(SeqCst) + 1,
        t0.elapsed().as_secs_f64(),
        if sh.truncated.load(SeqCst) != 0 { " TRUNCATED" } else { "" }
    );
    if bad > 0 {
        std::process::exit(70);
    }
    if sh.truncated.load(SeqCst) != 0 {
        std::process::exit(75);
    }
}

fn worker(mut ex: exec::Ex, sh: &'static Shared, out: &str, workers: u64, tlimit: f64, t0: Instant, stop_after: u64) -> ! {
    let mut id = 0u64;
    let mut last_fork = Instant::now();
    loop {
        if sh.stop.load(SeqCst) != 0 || t0.elapsed().as_secs_f64() > tlimit {
            break;
        }
        if ex.pending.len() >= 2 && sh.active.load(SeqCst) < workers && last_fork.elapsed().as_millis() >= 5 {
            let n = sh.active.fetch_add(1, SeqCst);
            if n >= workers {
                sh.active.fetch_sub(1, SeqCst);
            } else {
                let nid = sh.seq.fetch_add(1, SeqCst) + 1;
                let p = unsafe { fork() };
                if p < 0 {
                    sh.active.fetch_sub(1, SeqCst);
                } else {
                    last_fork = Instant::now();
                    let mut keep = vec![];
                    for (i, s) in std::mem::take(&mut ex.pending).into_iter().enumerate() {
                        if (i % 2 == 0) == (p == 0) {
                            keep.push(s);
                        }
                    }
                    ex.pending = keep;
                    if p == 0 {
                        id = nid;
                        ex.st = exec::Stats::default();
                        ex.z.queries = 0;
                        ex.z.nanos = 0;
                        ex.sample_cap = 1;
                    }
                }
            }
        }
        let st = match ex.pending.pop() {
            Some(s) => s,
            None => break,
        };
        let lf = last_fork;
        let np = ex.st.violn.values().sum::<u64>();
        ex.run(st, &mut |e: &mut exec::Ex| {
            if sh.stop.load(SeqCst) != 0 || t0.elapsed().as_secs_f64() > tlimit {
                return false;
            }
            !(!e.pending.is_empty() && sh.active.load(SeqCst) < workers && lf.elapsed().as_millis() >= 5)
        });
        sh.paths.fetch_add(1, SeqCst);
        let nv = ex.st.violn.values().sum::<u64>();
        if nv > np && sh.viol.fetch_add(nv - np, SeqCst) + (nv - np) >= stop_after {
            sh.stop.store(2, SeqCst);
        }
    }
    if !ex.pending.is_empty() {
        sh.truncated.store(1, SeqCst);
    }
    let left = ex.pending.len();
    dump(&ex, &format!("{}/{}.json", out, id), left, true);
    sh.active.fetch_sub(1, SeqCst);
    unsafe { _exit(0) }
}

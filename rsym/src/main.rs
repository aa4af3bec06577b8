mod exec;
mod expr;
mod ir;
mod mem;
mod solver;
mod z3;

use exec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
    fn getpid() -> i32;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

struct Shared {
    active: AtomicI64,
    stop: AtomicU64,
    paths: AtomicU64,
    failed: AtomicU64,
    nproc: AtomicU64,
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arg(n: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == n).and_then(|i| a.get(i + 1).cloned())
}
fn flag(n: &str) -> bool {
    std::env::args().any(|x| x == n)
}
fn num(n: &str, d: u64) -> u64 {
    arg(n).map(|x| x.parse().expect("number")).unwrap_or(d)
}

fn dump(ex: &Exec, path: &str) {
    let r = &ex.res;
    let s = &solver::sol().st;
    let mut o = String::new();
    for (k, v) in [
        ("paths", r.paths),
        ("assume_killed", r.killed_assume),
        ("steps", r.steps),
        ("forks", r.forks),
        ("asserts", r.asserts),
        ("asserts_trivial", r.asserts_trivial),
        ("asserts_z3", r.asserts_z3),
        ("asserts_dom", r.asserts_dom),
        ("mass_unknown", r.mass_unknown),
        ("concretized", r.concretized),
        ("q_domain", s.q_fd),
        ("q_model", s.q_model),
        ("q_z3", s.q_z3),
        ("z3_sat", s.z3_sat),
        ("z3_unsat", s.z3_unsat),
        ("z3_unknown", s.z3_unknown),
        ("z3_us", s.z3_ns / 1000),
        ("audit", s.audit),
        ("audit_bad", s.audit_bad),
        ("path_z3", s.path_z3),
        ("expr_nodes", expr::p().nodes.len() as u64),
    ] {
        o.push_str(&format!("stat {} {}\n", k, v));
    }
    o.push_str(&format!("max max_steps {}\n", r.max_steps));
    o.push_str(&format!("mass {:e}\n", r.mass));
    for (k, v) in &r.reach {
        o.push_str(&format!("reach {} {}\n", k, v));
    }
    for (k, v) in &r.inconclusive {
        o.push_str(&format!("inc {} {}\n", v, k.replace('\n', " ")));
    }
    for (k, v) in &ex.stubs_hit {
        o.push_str(&format!("stub {} {}\n", v, k));
    }
    for f in &r.funcs {
        o.push_str(&format!("func {}\n", ex.m.funcs[*f as usize].dem));
    }
    for v in &r.viols {
        o.push_str(&format!("viol {}\t{}\t{}\t{}\t{}\n", v.kind, v.id, hex(&v.model), v.what.replace(['\n', '\t'], " "), v.stack.join("\x1f")));
    }
    for t in &r.traces {
        o.push_str(&format!("trace {} {}\n", if t.model.is_empty() { "-".into() } else { hex(&t.model) }, if t.obs.is_empty() { "-".into() } else { hex(&t.obs) }));
    }
    let tmp = format!("{}.tmp", path);
    std::fs::write(&tmp, o).expect("write");
    std::fs::rename(&tmp, path).expect("rename");
}

fn work(mut ex: Exec, sh: &Shared, out: &str, jobs: i64, audit: u64) {
    let mut kids = vec![];
    let root_funcs = ex.prof.is_some();
    loop {
        if sh.stop.load(Ordering::Relaxed) != 0 {
            ex.stack.clear();
        }
        let st = match if ex.cfg.random && ex.stack.len() > 1 {
            let i = (ex.res.paths.wrapping_mul(0x9E3779B97F4A7C15) >> 33) as usize % ex.stack.len();
            Some(ex.stack.swap_remove(i))
        } else {
            ex.stack.pop()
        } {
            Some(s) => s,
            None => break,
        };
        let before = ex.res.paths;
        ex.run_path(st);
        sh.paths.fetch_add(ex.res.paths - before, Ordering::Relaxed);
        if ex.stop {
            sh.stop.store(1, Ordering::Relaxed);
        }
        if let Some(d) = ex.cfg.deadline {
            if Instant::now() > d && !ex.stack.is_empty() {
                *ex.res.inconclusive.entry("time limit reached with unexplored paths".into()).or_insert(0) += ex.stack.len() as u64;
                sh.stop.store(2, Ordering::Relaxed);
                ex.stack.clear();
            }
        }
        if expr::p().nodes.len() > 30_000_000 {
            *ex.res.inconclusive.entry("expression arena limit".into()).or_insert(0) += ex.stack.len() as u64;
            sh.stop.store(2, Ordering::Relaxed);
            ex.stack.clear();
        }
        while ex.stack.len() >= 2 && !root_funcs {
            let a = sh.active.load(Ordering::Relaxed);
            if a >= jobs {
                break;
            }
            if sh.active.compare_exchange(a, a + 1, Ordering::SeqCst, Ordering::SeqCst).is_err() {
                continue;
            }
            let pid = unsafe { fork() };
            if pid < 0 {
                sh.active.fetch_sub(1, Ordering::SeqCst);
                break;
            }
            // alternate states so both sides get a share of shallow and deep work
            let all = std::mem::take(&mut ex.stack);
            let mine = if pid == 0 { 1 } else { 0 };
            ex.stack = all.into_iter().enumerate().filter(|(i, _)| i % 2 == mine).map(|(_, s)| s).collect();
            if pid == 0 {
                unsafe {
                    prctl(1, 9, 0, 0, 0);
                }
                sh.nproc.fetch_add(1, Ordering::Relaxed);
                ex.res = Results::default();
                ex.stubs_hit.clear();
                solver::sol().st = Default::default();
                let o = format!("{}.{}", out, unsafe { getpid() });
                let base = out.to_string();
                work_child(ex, sh, &base, &o, jobs, audit);
                unsafe { _exit(0) }
            } else {
                kids.push(pid);
            }
        }
    }
    sh.active.fetch_sub(1, Ordering::SeqCst);
    let own = format!("{}.{}", out, unsafe { getpid() });
    dump(&ex, &own);
    for k in kids {
        let mut s = 0;
        unsafe { waitpid(k, &mut s, 0) };
        if s != 0 {
            sh.failed.fetch_add(1, Ordering::Relaxed);
        }
    }
    if let Some(pf) = &ex.prof {
        let mut v: Vec<(u64, usize)> = pf.iter().enumerate().map(|(i, n)| (*n, i)).collect();
        v.sort();
        for (n, i) in v.iter().rev().take(40) {
            eprintln!("{:>12} {}", n, ex.m.funcs[*i].dem);
        }
    }
    if let Some(fp) = &ex.forkprof {
        let mut v: Vec<_> = fp.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for ((f, pc), n) in v.iter().take(40) {
            eprintln!("forks {:>10} {} @{}", n, ex.m.funcs[*f as usize].dem, pc);
        }
    }
}
fn work_child(ex: Exec, sh: &Shared, base: &str, _own: &str, jobs: i64, audit: u64) {
    work(ex, sh, base, jobs, audit)
}

fn main() {
    // deep recursion in the expression printer/evaluator
    let h = std::thread::Builder::new().stack_size(4 << 30).spawn(real_main).unwrap();
    match h.join() {
        Ok(c) => std::process::exit(c),
        Err(_) => std::process::exit(70),
    }
}

fn real_main() -> i32 {
    let ll = arg("--ll").expect("--ll");
    let out = arg("--out").expect("--out");
    let jobs = num("--jobs", 8) as i64;
    let audit = num("--audit", 1);
    let t0 = Instant::now();
    let m = ir::Module::load(&ll);
    let parse = t0.elapsed();
    if flag("--list") {
        for f in &m.funcs {
            if f.name.starts_with("h_") && f.text.is_some() {
                println!("{}", f.name);
            }
        }
        return 0;
    }
    let mut rc = 0;
    let sh: &Shared = unsafe { &*(mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *const Shared) };
    for h in arg("--harness").expect("--harness").split(',') {
        let t1 = Instant::now();
        let base = format!("{}.{}.part", out, h);
        sh.active.store(1, Ordering::SeqCst);
        sh.stop.store(0, Ordering::SeqCst);
        sh.failed.store(0, Ordering::SeqCst);
        sh.nproc.store(1, Ordering::SeqCst);
        remove_parts(&base);
        // run each harness in its own child: clean arena per harness
        let pid = unsafe { fork() };
        if pid == 0 {
            let tmo = num("--timeout", 0);
            let cfg = Cfg {
                max_steps: num("--max-steps", 60_000_000),
                max_viols: num("--max-viols", 12) as usize,
                trace_keep: num("--traces", 6) as usize,
                deadline: if tmo > 0 { Some(Instant::now() + Duration::from_secs(tmo)) } else { None },
                path_z3: num("--path-z3", 1),
                random: flag("--random"),
                leak: true,
            };
            solver::sol().audit_every = audit;
            let mut ex = Exec::new(&m, cfg);
            if flag("--prof") {
                ex.prof = Some(vec![0; m.funcs.len()]);
                ex.forkprof = Some(Default::default());
            }
            let st = ex.init(h);
            ex.stack.push(st);
            work(ex, sh, &base, jobs, audit);
            unsafe { _exit(0) }
        }
        let mut s = 0;
        unsafe { waitpid(pid, &mut s, 0) };
        let mut failed = sh.failed.load(Ordering::SeqCst);
        if s != 0 {
            failed += 1;
        }
        rc |= merge(&out, h, &base, t1.elapsed(), parse, failed, sh.nproc.load(Ordering::SeqCst));
    }
    rc
}

fn remove_parts(base: &str) {
    let b = std::path::Path::new(base);
    let dir = b.parent().filter(|d| !d.as_os_str().is_empty()).unwrap_or(std::path::Path::new("."));
    let pre = format!("{}.", b.file_name().unwrap().to_string_lossy());
    for e in std::fs::read_dir(dir).unwrap().flatten() {
        if e.file_name().to_string_lossy().starts_with(&pre) {
            let _ = std::fs::remove_file(e.path());
        }
    }
}

fn merge(out: &str, h: &str, base: &str, wall: Duration, parse: Duration, failed: u64, nproc: u64) -> i32 {
    let dir = std::path::Path::new(base).parent().unwrap().to_path_buf();
    let pre = std::path::Path::new(base).file_name().unwrap().to_string_lossy().into_owned();
    let mut stats: BTreeMap<String, u64> = Default::default();
    let mut reach: BTreeMap<String, u64> = Default::default();
    let mut inc: BTreeMap<String, u64> = Default::default();
    let mut stub: BTreeMap<String, u64> = Default::default();
    let mut funcs: BTreeSet<String> = Default::default();
    let mut viols: Vec<String> = vec![];
    let mut traces: Vec<(String, String)> = vec![];
    let mut mass = 0f64;
    for e in std::fs::read_dir(if dir.as_os_str().is_empty() { ".".into() } else { dir }).unwrap().flatten() {
        let n = e.file_name().to_string_lossy().into_owned();
        if !n.starts_with(&pre) {
            continue;
        }
        let t = std::fs::read_to_string(e.path()).unwrap_or_default();
        let _ = std::fs::remove_file(e.path());
        for l in t.lines() {
            let (k, r) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "stat" => {
                    let (a, b) = r.split_once(' ').unwrap();
                    *stats.entry(a.into()).or_insert(0) += b.parse::<u64>().unwrap();
                }
                "max" => {
                    let (a, b) = r.split_once(' ').unwrap();
                    let e = stats.entry(a.into()).or_insert(0);
                    *e = (*e).max(b.parse().unwrap());
                }
                "mass" => mass += r.parse::<f64>().unwrap(),
                "reach" => {
                    let (a, b) = r.split_once(' ').unwrap();
                    *reach.entry(a.into()).or_insert(0) += b.parse::<u64>().unwrap();
                }
                "inc" | "stub" => {
                    let (a, b) = r.split_once(' ').unwrap();
                    let mp = if k == "inc" { &mut inc } else { &mut stub };
                    *mp.entry(b.into()).or_insert(0) += a.parse::<u64>().unwrap();
                }
                "func" => {
                    funcs.insert(r.into());
                }
                "viol" => viols.push(r.into()),
                "trace" => {
                    let (a, b) = r.split_once(' ').unwrap();
                    traces.push((a.replace('-', ""), b.replace('-', "")));
                }
                _ => {}
            }
        }
    }
    if failed > 0 {
        inc.insert("worker process failed".into(), failed);
    }
    let mut o = String::from("{");
    o.push_str(&format!("\"harness\":{},\"wall_s\":{:.3},\"parse_s\":{:.3},\"procs\":{},\"mass\":{:.12},", jstr(h), wall.as_secs_f64(), parse.as_secs_f64(), nproc, mass));
    o.push_str(&format!("\"z3\":{},", jstr(&z3::version())));
    o.push_str("\"stats\":{");
    o.push_str(&stats.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(","));
    o.push_str("},\"reach\":{");
    o.push_str(&reach.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(","));
    o.push_str("},\"inconclusive\":{");
    o.push_str(&inc.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(","));
    o.push_str("},\"stubs\":{");
    o.push_str(&stub.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(","));
    o.push_str("},\"violations\":[");
    o.push_str(
        &viols
            .iter()
            .map(|v| {
                let f: Vec<&str> = v.split('\t').collect();
                format!("{{\"kind\":{},\"id\":{},\"input\":{},\"what\":{},\"stack\":[{}]}}", jstr(f[0]), f[1], jstr(f[2]), jstr(f[3]), f[4].split('\x1f').map(jstr).collect::<Vec<_>>().join(","))
            })
            .collect::<Vec<_>>()
            .join(","),
    );
    o.push_str("],\"traces\":[");
    o.push_str(&traces.iter().map(|(a, b)| format!("[{},{}]", jstr(a), jstr(b))).collect::<Vec<_>>().join(","));
    o.push_str("],\"functions\":[");
    o.push_str(&funcs.iter().map(|v| jstr(v)).collect::<Vec<_>>().join(","));
    o.push_str("]}\n");
    let mut f = std::fs::OpenOptions::new().create(true).append(true).open(out).expect("out");
    f.write_all(o.as_bytes()).expect("out");
    eprintln!(
        "rsym: {} paths={} steps={} viol={} inc={:?} mass={:.9} z3={} ({:.2}s) audit={} wall={:.2}s procs={}",
        h,
        stats.get("paths").unwrap_or(&0),
        stats.get("steps").unwrap_or(&0),
        viols.len(),
        inc,
        mass,
        stats.get("z3_sat").unwrap_or(&0) + stats.get("z3_unsat").unwrap_or(&0),
        *stats.get("z3_us").unwrap_or(&0) as f64 / 1e6,
        stats.get("audit").unwrap_or(&0),
        wall.as_secs_f64(),
        nproc
    );
    if viols.is_empty() {
        0
    } else {
        1
    }
}

mod exec;
mod expr;
mod ir;
mod solver;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn json(x: &exec::Exec, wall: f64) -> String {
    let s = &x.st;
    let mut o = String::from("{");
    let status = if s.violation.is_some() {
        "violation"
    } else if s.error.is_some() {
        "error"
    } else if s.incomplete.is_some() {
        "incomplete"
    } else {
        "ok"
    };
    let _ = write!(o, "\"status\":{}", esc(status));
    for (k, v) in [
        ("paths", s.paths),
        ("infeasible", s.infeasible),
        ("forks", s.forks),
        ("instructions", s.steps),
        ("checks", s.checks),
        ("checks_smt", s.checks_smt),
        ("branch_table", s.branch_dom),
        ("max_tape", s.max_tape),
        ("queries", x.s.queries),
        ("sat", x.s.sat),
        ("unsat", x.s.unsat),
        ("unknown", x.s.unknown),
        ("cache_hits", x.s.cache_hits),
        ("closed", s.closed),
        ("open", s.open),
        ("closed_paths", s.closed_paths),
    ] {
        let _ = write!(o, ",\"{}\":{}", k, v);
    }
    let _ = write!(o, ",\"solver_s\":{:.3},\"wall_s\":{:.3}", x.s.time, wall);
    if let Some(e) = &s.error {
        let _ = write!(o, ",\"error\":{}", esc(e));
    }
    if let Some(e) = &s.incomplete {
        let _ = write!(o, ",\"incomplete\":{}", esc(e));
    }
    if let Some((k, d, t)) = &s.violation {
        let _ = write!(o, ",\"violation\":{{\"kind\":{},\"detail\":{},\"tape\":{}}}", esc(k), esc(d), esc(&hex(t)));
    }
    let m = |o: &mut String, name: &str, m: &BTreeMap<String, u64>| {
        let _ = write!(o, ",\"{}\":{{", name);
        for (i, (k, v)) in m.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            let _ = write!(o, "{}:{}", esc(k), v);
        }
        o.push('}');
    };
    m(&mut o, "covers", &s.covers);
    m(&mut o, "funcs", &s.funcs);
    o.push_str(",\"samples\":[");
    for (i, (t, ob, e)) in s.samples.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        let obs: Vec<String> = ob.iter().map(|x| format!("\"{}\"", x)).collect();
        let _ = write!(o, "{{\"tape\":{},\"obs\":[{}],\"end\":{}}}", esc(&hex(t)), obs.join(","), esc(e));
    }
    o.push_str("]}");
    o
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() > 1 && a[1] == "selftest" {
        let n: usize = a.get(2).and_then(|x| x.parse().ok()).unwrap_or(500);
        match expr::selftest(0xC0FFEE, n) {
            Ok(k) => println!("selftest ok: {} comparisons", k),
            Err(e) => {
                println!("selftest FAILED: {}", e);
                std::process::exit(1)
            }
        }
        return;
    }
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let ll = get("--ll").expect("--ll");
    let func = get("--fn").expect("--fn");
    let out = get("--out");
    let workers: usize = get("--workers").map(|x| x.parse().unwrap()).unwrap_or(1);
    let time: u64 = get("--time").map(|x| x.parse().unwrap()).unwrap_or(600);
    let t0 = Instant::now();
    let m = match ir::Module::load(&ll) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("load: {}", e);
            std::process::exit(2)
        }
    };
    if a.iter().any(|x| x == "--const-hash") {
        exec::CONST_HASH.store(true, std::sync::atomic::Ordering::Relaxed);
    }
    let mut x = exec::Exec::new(m);
    x.param = get("--param").map(|x| x.parse().unwrap()).unwrap_or(0);
    x.nsamples = get("--samples").map(|x| x.parse().unwrap()).unwrap_or(12);
    x.max_steps = get("--max-steps").map(|x| x.parse().unwrap()).unwrap_or(30_000_000);
    x.trace = a.iter().any(|x| x == "--trace");
    if let Some(t) = get("--tape") {
        x.fixed_tape = Some((0..t.len() / 2).map(|i| u8::from_str_radix(&t[2 * i..2 * i + 2], 16).unwrap()).collect());
    }
    if let Err(e) = x.start(&func) {
        eprintln!("start: {}", e);
        std::process::exit(2);
    }
    let deadline = t0 + Duration::from_secs(time);
    let emit = |s: &str| match &out {
        Some(o) => std::fs::write(o, s).unwrap(),
        None => println!("{}", s),
    };
    if workers <= 1 {
        x.explore(None, deadline, &|| false);
        let n = x.st.paths;
        x.close(&[], vec![], n);
        x.finish_stats();
        emit(&json(&x, t0.elapsed().as_secs_f64()));
        return;
    }
    x.explore(Some(workers * 40), deadline, &|| false);
    let pending: Vec<exec::State> = x.work.drain(..).collect();
    let roots = pending.iter().map(|s| x.leaf(s)).collect();
    x.work.extend(pending);
    let n = x.st.paths;
    x.close(&[], roots, n);
    if x.work.is_empty() || x.st.violation.is_some() || x.st.error.is_some() || x.st.incomplete.is_some() {
        x.finish_stats();
        emit(&json(&x, t0.elapsed().as_secs_f64()));
        return;
    }
    // share the frontier between forked workers
    let shared = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) };
    let next = unsafe { &*(shared as *const std::sync::atomic::AtomicUsize) };
    let stopf = unsafe { &*(shared.add(64) as *const std::sync::atomic::AtomicUsize) };
    use std::sync::atomic::Ordering::SeqCst;
    let mut states: Vec<Option<exec::State>> = x.work.drain(..).map(Some).collect();
    // deterministic shuffle so that neighbouring (similar-cost) states spread out
    let mut r = 0x1234_5678_9abc_def1u64;
    for i in (1..states.len()).rev() {
        r ^= r << 13;
        r ^= r >> 7;
        r ^= r << 17;
        states.swap(i, (r % (i as u64 + 1)) as usize);
    }
    let base = out.clone().unwrap_or_else(|| format!("/tmp/rsym.{}", std::process::id()));
    let mut pids = vec![];
    for w in 0..workers {
        let p = unsafe { fork() };
        if p == 0 {
            // children report only their own work
            let keep = x.st.samples.clone();
            if w > 0 {
                x.st = exec::Stats::default();
                x.zero_called();
                let q = &mut x.s;
                q.queries = 0;
                q.sat = 0;
                q.unsat = 0;
                q.unknown = 0;
                q.cache_hits = 0;
                q.time = 0.0;
            } else {
                x.st.samples = keep;
            }
            loop {
                let i = next.fetch_add(1, SeqCst);
                if i >= states.len() || stopf.load(SeqCst) != 0 {
                    break;
                }
                let s = states[i].take().unwrap();
                let root = x.leaf(&s);
                let before = x.st.paths;
                x.work.push_back(s);
                x.explore(None, deadline, &|| stopf.load(SeqCst) != 0);
                if !x.work.is_empty() {
                    break;
                }
                let n = x.st.paths - before;
                x.close(&root, vec![], n);
                if x.st.violation.is_some() || x.st.error.is_some() || x.st.incomplete.is_some() {
                    stopf.store(1, SeqCst);
                    break;
                }
            }
            x.finish_stats();
            let _ = std::fs::write(format!("{}.{}", base, w), json(&x, t0.elapsed().as_secs_f64()));
            unsafe { _exit(0) }
        }
        pids.push(p);
    }
    let mut bad = 0;
    for p in pids {
        let mut st = 0;
        unsafe { waitpid(p, &mut st, 0) };
        if st != 0 {
            bad += 1;
        }
    }
    // the driver merges the per-worker files
    emit(&format!("{{\"status\":\"split\",\"workers\":{},\"failed\":{},\"frontier\":{},\"wall_s\":{:.3}}}", workers, bad, states.len(), t0.elapsed().as_secs_f64()));
}

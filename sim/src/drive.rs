//! Parent / worker / replay driver.
use crate::core::*;
use crate::{scenarios, seam};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, opt: i32) -> i32;
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn open(p: *const i8, flags: i32, ...) -> i32;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn _exit(code: i32) -> !;
    fn setrlimit(which: i32, lim: *const [u64; 2]) -> i32;
}

fn find(id: &str) -> Box<dyn DynScenario> {
    for s in scenarios() {
        if s.meta().id == id {
            return s;
        }
    }
    eprintln!("unknown property {id}");
    std::process::exit(2);
}

pub fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    match cmd {
        "check" => std::process::exit(check(&args[2])),
        "selftest" => std::process::exit(selftest(&args[2..])),
        "worker" => worker(&args),
        "one" => one(&args[2]),
        "replay" => std::process::exit(replay(&args[2])),
        "plan" => {
            // sim plan C01 seed idx
            let s = find(&args[2]);
            let seed: u64 = args[3].parse().unwrap();
            let idx: u64 = args[4].parse().unwrap();
            let rs = run_seed(seed, &args[2], idx);
            let p = s.gen_json(&mut Rng::new(rs), idx, false);
            println!("{}", serde_json::to_string_pretty(&json!({"property": args[2], "plans": [{"seed": rs.to_string(), "plan": p}]})).unwrap());
        }
        "list" => {
            for s in scenarios() {
                println!("{}", s.meta().id);
            }
        }
        _ => {
            eprintln!("usage: sim check|replay|worker|one|plan|selftest|list ...");
            std::process::exit(2);
        }
    }
}

// ---- executing one run ----------------------------------------------------------------------
struct Done {
    idx: u64,
    run: Run,
    res: Res,
    steps: u64,
    cov: (u64, usize),
    harness_error: Option<String>,
}

fn exec(
    s: &'static dyn DynScenario,
    idx: u64,
    rs: u64,
    keep: bool,
    thorough: bool,
    plan: Option<Value>,
) -> Option<Done> {
    seam::cov_reset(s.meta().step_limit);
    seam::MEM_FAULT.store(0, Relaxed);
    seam::QUARANTINE.store(false, Relaxed);
    let h = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let mut run = Run::new(rs, keep);
            let mut rng = Rng::new(rs);
            seam::set_hash_seed(rs);
            seam::set_counting(true);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match &plan {
                None => Some(s.gen_run(&mut rng, idx, thorough, &mut run)),
                Some(p) => s.run_json(p, &mut run),
            }));
            seam::set_counting(false);
            let mut harness_error = None;
            let res = match r {
                Ok(None) => return None,
                Ok(Some(r)) => r,
                Err(_) => {
                    let (loc, msg) = last_panic();
                    if loc.starts_with("src/") || loc.contains("/sim/src/") {
                        harness_error = Some(format!("{msg} at {loc}"));
                        Ok(())
                    } else {
                        Err(Violation { class: "unexpected-panic".into(), detail: format!("the code under test panicked: {msg} at {}", short_loc(&loc)) })
                    }
                }
            };
            Some((run, res, harness_error))
        })
        .unwrap();
    let (run, mut res, harness_error) = match h.join() {
        Ok(Some(x)) => x,
        Ok(None) => return None,
        Err(_) => return None,
    };
    let steps = seam::steps();
    let mut cov = seam::cov_signature();
    if let Some(s) = run.sig {
        cov.0 = s;
    }
    let mf = seam::MEM_FAULT.load(Relaxed);
    if mf != 0 && res.is_ok() {
        let k = ["", "double-free", "wild-free", "wrong-layout-free", "write-after-free"][mf as usize];
        res = Err(Violation { class: format!("memory-{k}"), detail: format!("the allocator ledger saw a {k}") });
    }
    Some(Done { idx, run, res, steps, cov, harness_error })
}

fn emit(fd: i32, line: &str) {
    let mut b = line.as_bytes().to_vec();
    b.push(b'\n');
    let mut o = 0;
    while o < b.len() {
        let n = unsafe { write(fd, b.as_ptr().add(o), b.len() - o) };
        if n <= 0 {
            unsafe { _exit(3) }
        }
        o += n as usize;
    }
}
fn emit_done(fd: i32, d: &Done) {
    if let Some(e) = &d.harness_error {
        emit(fd, &format!("H {} {}", d.idx, e.replace('\n', " ")));
    }
    if let Err(v) = &d.res {
        emit(fd, &format!("V {} {}", d.idx, serde_json::to_string(v).unwrap()));
    }
    emit(
        fd,
        &format!(
            "R {} {:x} {:x} {} {} {} {} {}",
            d.idx,
            d.run.hash,
            d.cov.0,
            d.steps,
            d.run.events,
            d.run.nontrivial as u8,
            serde_json::to_string(&d.run.faults).unwrap(),
            serde_json::to_string(&d.run.probes).unwrap(),
        ),
    );
}

fn quiet_fds() -> i32 {
    unsafe {
        let fd = dup(1);
        let null = open(b"/dev/null\0".as_ptr() as *const i8, 1);
        dup2(null, 1);
        if std::env::var("SIM_STDERR").is_err() {
            dup2(null, 2);
        }
        setrlimit(4, &[0, 0]); // no core files
        fd
    }
}

/// Fills the lazily made tables of the libraries before the first run, so that a run in a process
/// of its own starts from the same state as one in the middle of a batch.
fn warm() {
    // the pools of the regex crate keep one stack of (hash-map holding) caches per thread number modulo 8
    for _ in 0..10 {
        let _ = std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(|| {
                seam::set_hash_seed(1);
                let _ = std::panic::catch_unwind(|| {
                    let t = "const k = 1\nguess 1 for x\nkeep x on [0, 9]\nif k > 3:\nx = 1\nelse:\nx = 2 * [ft->m]\nend // c\ny = #g + x\n";
                    let _ = nexsys::solve_with_preprocessors(t, 1e-6, 50);
                    let _ = nexsys::units::convert("ft", "m");
                    let _ = geqslib::shunting::eval_str("sin(1) + 1");
                });
            })
            .unwrap()
            .join();
    }
}

fn worker(args: &[String]) {
    // worker ID seed tier from to
    let s: &'static dyn DynScenario = Box::leak(find(&args[2]));
    let seed: u64 = args[3].parse().unwrap();
    let thorough = args[4] == "thorough";
    let (a, b): (u64, u64) = (args[5].parse().unwrap(), args[6].parse().unwrap());
    install_panic_hook();
    let fd = quiet_fds();
    let m = s.meta();
    let mut edges: HashSet<u32> = HashSet::new();
    if !m.fork {
        warm();
    }
    for idx in a..b {
        emit(fd, &format!("B {idx}"));
        let rs = run_seed(seed, m.id, idx);
        if m.fork {
            let pid = unsafe { fork() };
            if pid == 0 {
                let d = exec(s, idx, rs, false, thorough, None);
                if let Some(d) = d {
                    emit_done(fd, &d);
                    let mut t = seam::touched_edges();
                    t.sort();
                    emit(fd, &format!("E {}", serde_json::to_string(&t).unwrap()));
                }
                unsafe { _exit(0) }
            }
            let mut st = 0;
            unsafe { waitpid(pid, &mut st, 0) };
            if st != 0 {
                let (code, sig) = ((st >> 8) & 0xff, st & 0x7f);
                emit(fd, &format!("C {idx} {code} {sig}"));
            }
        } else {
            let d = exec(s, idx, rs, false, thorough, None).expect("run");
            emit_done(fd, &d);
            for e in seam::touched_edges() {
                edges.insert(e);
            }
            if d.res.is_err() {
                break; // the process may be damaged: stop here
            }
        }
    }
    if !m.fork {
        emit(fd, &format!("E {}", serde_json::to_string(&edges.iter().collect::<Vec<_>>()).unwrap()));
    }
    emit(fd, "F");
    unsafe { _exit(0) }
}

/// Runs the plans of a file in order in this process; prints "N" (no violation) or "V <json>".
fn one(path: &str) {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    let s: &'static dyn DynScenario = Box::leak(find(v["property"].as_str().unwrap()));
    install_panic_hook();
    let fd = quiet_fds();
    let plans = v["plans"].as_array().unwrap().clone();
    let n = plans.len();
    if !s.meta().fork {
        warm();
    }
    for (i, p) in plans.into_iter().enumerate() {
        let last = i + 1 == n;
        let rs: u64 = p["seed"].as_str().unwrap().parse().unwrap();
        let plan = if p["plan"].is_null() {
            let idx = p["idx"].as_u64().unwrap();
            s.gen_json(&mut Rng::new(rs), idx, p["thorough"].as_bool().unwrap_or(false))
        } else {
            p["plan"].clone()
        };
        match exec(s, 0, rs, last, false, Some(plan)) {
            None => {
                emit(fd, "I");
                unsafe { _exit(0) }
            }
            Some(d) => {
                if last {
                    if let Some(e) = d.harness_error {
                        emit(fd, &format!("H {e}"));
                    } else if let Err(v) = d.res {
                        emit(fd, &format!("V {}", serde_json::to_string(&json!({"v": v, "hash": format!("{:x}", d.run.hash), "log": d.run.log})).unwrap()));
                    } else {
                        emit(fd, &format!("N {:x}", d.run.hash));
                    }
                }
            }
        }
    }
    unsafe { _exit(0) }
}

enum One {
    None,
    Invalid,
    Viol(Violation, String, Vec<String>),
    Error(String),
}
fn crash_violation(code: i32, sig: i32) -> Violation {
    if code == seam::EXIT_STEPS {
        Violation { class: "no-progress".into(), detail: "the run exceeded its step budget (the code under test does not terminate)".into() }
    } else if code == seam::EXIT_DEADLOCK {
        Violation { class: "deadlock".into(), detail: "no simulated thread can run".into() }
    } else {
        Violation { class: format!("crash-signal-{sig}-exit-{code}"), detail: format!("the process died: signal {sig}, exit status {code} (11 = invalid memory access, 6 = abort)") }
    }
}
fn run_one_file(path: &str, timeout: Duration) -> One {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().unwrap();
    let mut ch = Command::new(exe).arg("one").arg(path).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
    let mut so = ch.stdout.take().unwrap();
    let t = std::thread::spawn(move || {
        let mut b = String::new();
        let _ = std::io::Read::read_to_string(&mut so, &mut b);
        b
    });
    let t0 = Instant::now();
    let st = loop {
        if let Some(st) = ch.try_wait().unwrap() {
            break st;
        }
        if t0.elapsed() > timeout {
            let _ = ch.kill();
            let _ = ch.wait();
            let _ = t.join();
            return One::Viol(Violation { class: "hang".into(), detail: "the run did not finish within its wall-clock limit".into() }, String::new(), vec![]);
        }
        std::thread::sleep(Duration::from_millis(2));
    };
    let out = t.join().unwrap_or_default();
    if !st.success() {
        return One::Viol(crash_violation(st.code().unwrap_or(-1), st.signal().unwrap_or(0)), String::new(), vec![]);
    }
    let l = out.lines().next().unwrap_or("");
    if let Some(j) = l.strip_prefix("V ") {
        let v: Value = serde_json::from_str(j).unwrap();
        let viol: Violation = serde_json::from_value(v["v"].clone()).unwrap();
        let log = v["log"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
        return One::Viol(viol, v["hash"].as_str().unwrap().into(), log);
    }
    if l.starts_with("N") {
        One::None
    } else if l.starts_with("I") {
        One::Invalid
    } else {
        One::Error(l.to_string())
    }
}

// ---- batch -----------------------------------------------------------------------------------
#[derive(Default)]
struct Agg {
    runs: u64,
    hashes: HashSet<u64>,
    covs: HashSet<u64>,
    nontrivial: HashSet<u64>,
    edges: HashSet<u64>,
    steps: u64,
    events: u64,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    by_idx: BTreeMap<u64, (u64, u64)>,
    viols: Vec<(u64, u64, Violation)>, // idx, chunk start
    herrs: Vec<String>,
}
fn parse_line(agg: &Mutex<Agg>, l: &str, start: u64) {
    let (k, rest) = l.split_at(1);
    let rest = rest.trim_start();
    match k {
        "R" => {
            let mut it = rest.splitn(8, ' ');
            let idx: u64 = it.next().unwrap().parse().unwrap();
            let h = u64::from_str_radix(it.next().unwrap(), 16).unwrap();
            let c = u64::from_str_radix(it.next().unwrap(), 16).unwrap();
            let steps: u64 = it.next().unwrap().parse().unwrap();
            let events: u64 = it.next().unwrap().parse().unwrap();
            let nt = it.next().unwrap() == "1";
            let f: BTreeMap<String, u64> = serde_json::from_str(it.next().unwrap()).unwrap();
            let p: BTreeMap<String, u64> = serde_json::from_str(it.next().unwrap()).unwrap();
            let mut a = agg.lock().unwrap();
            a.runs += 1;
            a.hashes.insert(h);
            a.covs.insert(c);
            if nt {
                a.nontrivial.insert(h);
            }
            a.steps += steps;
            a.events += events;
            for (k, v) in f {
                *a.faults.entry(k).or_insert(0) += v;
            }
            for (k, v) in p {
                *a.probes.entry(k).or_insert(0) += v;
            }
            a.by_idx.insert(idx, (h, c));
        }
        "V" => {
            let mut it = rest.splitn(2, ' ');
            let idx: u64 = it.next().unwrap().parse().unwrap();
            let v: Violation = serde_json::from_str(it.next().unwrap()).unwrap();
            agg.lock().unwrap().viols.push((idx, start, v));
        }
        "C" => {
            let f: Vec<i64> = rest.split(' ').map(|x| x.parse().unwrap()).collect();
            agg.lock().unwrap().viols.push((f[0] as u64, start, crash_violation(f[1] as i32, f[2] as i32)));
        }
        "E" => {
            let e: Vec<u64> = serde_json::from_str(rest).unwrap();
            agg.lock().unwrap().edges.extend(e);
        }
        "H" => agg.lock().unwrap().herrs.push(rest.to_string()),
        _ => {}
    }
}
fn run_chunk(id: &str, seed: u64, tier: &str, a: u64, b: u64, agg: &Mutex<Agg>, run_timeout: Duration) {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().unwrap();
    let mut ch = Command::new(exe)
        .args(["worker", id, &seed.to_string(), tier, &a.to_string(), &b.to_string()])
        .stdout(Stdio::piped())
        .stderr(Stdio::inherit())
        .spawn()
        .unwrap();
    let so = ch.stdout.take().unwrap();
    let last = Arc::new(Mutex::new(Instant::now()));
    let fin = Arc::new(AtomicBool::new(false));
    let pid = ch.id();
    let hung = Arc::new(AtomicBool::new(false));
    let (l2, f2, h2) = (last.clone(), fin.clone(), hung.clone());
    let wd = std::thread::spawn(move || {
        while !f2.load(Relaxed) {
            std::thread::sleep(Duration::from_millis(50));
            if l2.lock().unwrap().elapsed() > run_timeout {
                h2.store(true, Relaxed);
                let _ = Command::new("kill").args(["-9", &pid.to_string()]).status();
                return;
            }
        }
    });
    let mut cur = a;
    let mut open_run = false;
    let mut finished = false;
    for l in BufReader::new(so).lines() {
        let l = match l {
            Ok(l) => l,
            Err(_) => break,
        };
        *last.lock().unwrap() = Instant::now();
        if let Some(x) = l.strip_prefix("B ") {
            cur = x.parse().unwrap();
            open_run = true;
            continue;
        }
        if l.starts_with('R') || l.starts_with('C') {
            open_run = false;
        }
        if l == "F" {
            finished = true;
            continue;
        }
        parse_line(agg, &l, a);
    }
    fin.store(true, Relaxed);
    let st = ch.wait().unwrap();
    let _ = wd.join();
    if !finished {
        if hung.load(Relaxed) {
            agg.lock().unwrap().viols.push((cur, a, Violation { class: "hang".into(), detail: "the run did not finish within its wall-clock limit".into() }));
        } else if open_run {
            agg.lock().unwrap().viols.push((cur, a, crash_violation(st.code().unwrap_or(-1), st.signal().unwrap_or(0))));
        } else {
            agg.lock().unwrap().herrs.push(format!("worker {a}..{b} ended early: {st:?}"));
        }
    }
}
fn run_batch(id: &str, seed: u64, tier: &str, chunks: Vec<(u64, u64)>, cap: Duration, workers: usize, run_timeout: Duration) -> Agg {
    let agg = Arc::new(Mutex::new(Agg::default()));
    let next = Arc::new(AtomicU64::new(0));
    let chunks = Arc::new(chunks);
    let t0 = Instant::now();
    let mut hs = vec![];
    for _ in 0..workers {
        let (agg, next, chunks, id, tier) = (agg.clone(), next.clone(), chunks.clone(), id.to_string(), tier.to_string());
        hs.push(std::thread::spawn(move || loop {
            let i = next.fetch_add(1, Relaxed) as usize;
            if i >= chunks.len() || t0.elapsed() > cap {
                return;
            }
            {
                let a = agg.lock().unwrap();
                if !a.viols.is_empty() || a.herrs.len() > 3 {
                    return;
                }
            }
            let (a, b) = chunks[i];
            run_chunk(&id, seed, &tier, a, b, &agg, run_timeout);
        }));
    }
    for h in hs {
        let _ = h.join();
    }
    Arc::try_unwrap(agg).ok().unwrap().into_inner().unwrap()
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}
fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}

fn check(id: &str) -> i32 {
    let t0 = Instant::now();
    let s = find(id);
    let m = s.meta();
    let seed = env_u64("VERIF_SEED", 1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let runs = env_u64("SIM_RUNS", if thorough { m.thorough_runs } else { m.quick_runs });
    let cap = Duration::from_secs(env_u64("SIM_CAP_S", if thorough { 660 } else { 150 }));
    println!("[{id}] VERIF_SEED={seed} tier={tier} runs={runs}");
    let mut chunks = vec![];
    let mut a = 0;
    while a < runs {
        let b = (a + m.chunk).min(runs);
        chunks.push((a, b));
        a = b;
    }
    let workers = env_u64("SIM_WORKERS", 8) as usize;
    let rt = Duration::from_secs(if m.fork || matches!(m.id, "C15" | "C16") { 240 } else { 90 });
    let agg = run_batch(id, seed, &tier, chunks.clone(), cap, workers, rt);
    let sim_s = t0.elapsed().as_secs_f64();
    let mut det = json!(null);
    let mut code = 0;
    let mut nviol = agg.viols.len();
    if let Some(e) = agg.herrs.first() {
        eprintln!("[{id}] HARNESS ERROR: {e}");
        code = 2;
    }
    if agg.viols.is_empty() && code == 0 {
        // determinism: repeat a sample of the chunks in fresh processes at another worker count
        let done: Vec<(u64, u64)> = chunks.iter().filter(|c| (c.0..c.1).all(|i| agg.by_idx.contains_key(&i))).cloned().collect();
        let want = (done.len() / 16).max(2).min(12);
        let mut sample: Vec<(u64, u64)> = vec![];
        for k in 0..want {
            if let Some(c) = done.get(k * done.len().max(1) / want) {
                if !sample.contains(c) {
                    sample.push(*c);
                }
            }
        }
        let ag2 = run_batch(id, seed, &tier, sample, Duration::from_secs(60), 5, rt);
        let mism: Vec<u64> = ag2.by_idx.iter().filter(|(i, v)| agg.by_idx.get(i) != Some(v)).map(|(i, _)| *i).collect();
        det = json!({"reruns": ag2.by_idx.len(), "mismatches": mism.len()});
        if !mism.is_empty() {
            eprintln!("[{id}] WARNING: {} of {} re-runs differ, e.g. run {}", mism.len(), ag2.by_idx.len(), mism[0]);
        }
    } else if let Some((idx, start, v)) = agg.viols.iter().min_by_key(|x| x.0).cloned() {
        println!("[{id}] run {idx}: {} - {}", v.class, v.detail);
        let path = report(&*s, id, seed, thorough, idx, start, v);
        match path {
            Some((p, known)) => {
                if let Some(k) = known {
                    println!("KNOWN-FINDING: property={id} {k}");
                    nviol = 0;
                } else {
                    println!("VIOLATION property={id} replay={p}");
                    code = 1;
                }
            }
            None => {
                eprintln!("[{id}] HARNESS ERROR: the replay file could not be written");
                code = 2;
            }
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let mut samples = vec![];
    for i in 0..2u64.min(agg.runs) {
        let rs = run_seed(seed, id, i);
        samples.push(json!({"run": i, "run_seed": rs.to_string(), "plan": s.gen_json(&mut Rng::new(rs), i, thorough)}));
    }
    let ev = json!({
        "property": id, "tier": tier, "seed": seed, "level": "exploration",
        "wall_s": wall, "violations": nviol,
        "assumptions": m.assumptions,
        "coverage": {
            "evaluations": agg.runs,
            "distinct_nontrivial": agg.nontrivial.len(),
            "rule": m.rule,
            "samples": samples,
            "exhaustive": false,
            "distinct_traces": agg.hashes.len(),
            "distinct_coverage_signatures": agg.covs.len(),
            "coverage_signature_measure": if id == "C17" { "set of (previous event, event, panel shown, number of file items up to 4, number of tabs up to 3, text added or not), per run" } else { "set of executed basic-block edges of gmatlib/geqslib/nexsys/neapolitan with log2 hit-count buckets, per run" },
            "edges_reached": agg.edges.len(),
            "edges_instrumented": seam::N_EDGES.load(Relaxed),
            "runs_per_hour": (agg.runs as f64 / sim_s * 3600.0) as u64,
            "seeds_per_hour": (agg.runs as f64 / sim_s * 3600.0) as u64,
            "simulated_time": {"unit": "basic-block steps of the code under test (the code reads no clock)", "steps": agg.steps},
            "events": agg.events,
            "faults_injected": agg.faults,
            "probes": agg.probes,
            "components_real": m.real,
            "components_stub": m.stub,
            "determinism_resample": det,
            "worker_processes": agg.runs.div_ceil(m.chunk),
        }
    });
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{dir}/{id}.json"), serde_json::to_string_pretty(&ev).unwrap()) {
        eprintln!("cannot write evidence: {e}");
        code = 2;
    }
    println!("[{id}] {} runs, {} distinct traces, {} coverage signatures, {:.1}s, faults {:?}, probes {:?}", agg.runs, ev["coverage"]["distinct_traces"], ev["coverage"]["distinct_coverage_signatures"], wall, ev["coverage"]["faults_injected"].to_string(), ev["coverage"]["probes"].to_string());
    code
}

// ---- minimisation ----------------------------------------------------------------------------
struct Shrinker {
    id: String,
    class: String,
    dir: String,
    n: u64,
    t0: Instant,
    cap: Duration,
    timeout: Duration,
}
impl Shrinker {
    fn test_many(&mut self, cands: &[Vec<Value>]) -> Option<usize> {
        let base = self.n;
        self.n += cands.len() as u64;
        let mut hs = vec![];
        for (i, c) in cands.iter().enumerate() {
            let path = format!("{}/c{}.json", self.dir, base + i as u64);
            std::fs::write(&path, serde_json::to_string(&json!({"property": self.id, "plans": c})).unwrap()).unwrap();
            let (class, to) = (self.class.clone(), self.timeout);
            hs.push(std::thread::spawn(move || {
                let r = run_one_file(&path, to);
                let _ = std::fs::remove_file(&path);
                matches!(r, One::Viol(v, _, _) if v.class == class)
            }));
        }
        let rs: Vec<bool> = hs.into_iter().map(|h| h.join().unwrap_or(false)).collect();
        rs.iter().position(|x| *x)
    }
    fn left(&self) -> bool {
        self.t0.elapsed() < self.cap
    }
    fn pass(&mut self, cur: &mut Vec<Value>, cands: Vec<Vec<Value>>) -> bool {
        for ch in cands.chunks(8) {
            if !self.left() {
                return false;
            }
            if let Some(i) = self.test_many(ch) {
                *cur = ch[i].clone();
                return true;
            }
        }
        false
    }
    fn minimise(&mut self, mut cur: Vec<Value>) -> Vec<Value> {
        // 1. drop earlier runs
        let mut size = cur.len() / 2;
        while size >= 1 && cur.len() > 1 && self.left() {
            let mut cands = vec![];
            let mut i = 0;
            while i + 1 < cur.len() {
                let e = (i + size).min(cur.len() - 1);
                let mut c = cur.clone();
                c.drain(i..e);
                cands.push(c);
                i = e;
            }
            if !self.pass(&mut cur, cands) {
                size /= 2;
            } else {
                size = size.min(cur.len() / 2).max(1);
            }
        }
        // 2. structural shrinking of the plans (last one first)
        loop {
            let mut progress = false;
            for k in (0..cur.len()).rev() {
                loop {
                    let cands: Vec<Vec<Value>> = shrink_json(&cur[k]["plan"])
                        .into_iter()
                        .map(|p| {
                            let mut c = cur.clone();
                            c[k]["plan"] = p;
                            c
                        })
                        .collect();
                    if !self.pass(&mut cur, cands) {
                        break;
                    }
                    progress = true;
                }
            }
            if !progress || !self.left() {
                break;
            }
        }
        cur
    }
}
fn walk(v: &Value, path: &mut Vec<String>, f: &mut dyn FnMut(&Vec<String>, &Value)) {
    f(path, v);
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                path.push(i.to_string());
                walk(x, path, f);
                path.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                path.push(k.clone());
                walk(x, path, f);
                path.pop();
            }
        }
        _ => {}
    }
}
fn at<'a>(v: &'a mut Value, path: &[String]) -> &'a mut Value {
    let mut cur = v;
    for p in path {
        cur = match cur {
            Value::Array(a) => &mut a[p.parse::<usize>().unwrap()],
            Value::Object(o) => o.get_mut(p).unwrap(),
            _ => unreachable!(),
        };
    }
    cur
}
/// simpler variants of a plan, most aggressive first
fn shrink_json(p: &Value) -> Vec<Value> {
    let mut arrays: Vec<(Vec<String>, usize)> = vec![];
    let mut leaves: Vec<(Vec<String>, Value)> = vec![];
    walk(p, &mut vec![], &mut |path, v| match v {
        Value::Array(a) if !a.is_empty() => arrays.push((path.clone(), a.len())),
        Value::Number(_) | Value::String(_) | Value::Bool(true) => leaves.push((path.clone(), v.clone())),
        _ => {}
    });
    arrays.sort_by_key(|x| (x.0.len(), std::cmp::Reverse(x.1)));
    let mut out = vec![];
    let mut sizes: Vec<usize> = vec![];
    let mx = arrays.iter().map(|a| a.1).max().unwrap_or(0);
    let mut s = mx;
    while s >= 1 {
        sizes.push(s);
        s /= 2;
    }
    for s in sizes {
        for (path, n) in &arrays {
            if *n < s || (s > 1 && *n < 2) {
                continue;
            }
            let mut i = 0;
            while i < *n {
                let e = (i + s).min(*n);
                let mut c = p.clone();
                if let Value::Array(a) = at(&mut c, path) {
                    a.drain(i..e);
                }
                out.push(c);
                i = e;
            }
        }
    }
    for (path, v) in &leaves {
        let reps: Vec<Value> = match v {
            Value::Bool(true) => vec![json!(false)],
            Value::Number(n) => {
                if let Some(i) = n.as_u64() {
                    let mut r = vec![];
                    for c in [0, 1, i / 2, i.saturating_sub(1)] {
                        if c < i && !r.contains(&json!(c)) {
                            r.push(json!(c));
                        }
                    }
                    r
                } else {
                    vec![json!(0)]
                }
            }
            Value::String(s) => match s.parse::<f64>() {
                Ok(x) if x.is_finite() && x != 0.0 && x != 1.0 => {
                    let mut r = vec![json!("0.0"), json!("1.0")];
                    if x.fract() != 0.0 {
                        r.push(json!(format!("{:?}", x.trunc())));
                    }
                    r
                }
                _ => vec![],
            },
            _ => vec![],
        };
        for rv in reps {
            let mut c = p.clone();
            *at(&mut c, path) = rv;
            out.push(c);
        }
    }
    out
}

fn report(s: &dyn DynScenario, id: &str, seed: u64, thorough: bool, idx: u64, start: u64, v: Violation) -> Option<(String, Option<String>)> {
    let dir = format!("{}/replays", verif_dir());
    let tmp = format!("{dir}/tmp.{}", std::process::id());
    std::fs::create_dir_all(&tmp).ok()?;
    let mk = |i: u64, full: bool| {
        let rs = run_seed(seed, id, i);
        if full {
            json!({"seed": rs.to_string(), "idx": i, "plan": s.gen_json(&mut Rng::new(rs), i, thorough)})
        } else {
            json!({"seed": rs.to_string(), "idx": i, "thorough": thorough, "plan": Value::Null})
        }
    };
    let timeout = Duration::from_secs(if v.class == "hang" { 150 } else { 100 });
    let mut sh = Shrinker {
        id: id.into(),
        class: v.class.clone(),
        dir: tmp.clone(),
        n: 0,
        t0: Instant::now(),
        cap: Duration::from_secs(env_u64("SIM_SHRINK_S", if v.class == "hang" { 5 } else { 45 })),
        timeout,
    };
    let single = vec![mk(idx, true)];
    let mut cur = None;
    if sh.test_many(&[single.clone()]).is_some() {
        cur = Some(single);
    } else {
        // needs the history of the runs before it in the same process
        let seq: Vec<Value> = (start..=idx).map(|i| mk(i, true)).collect();
        if sh.test_many(&[seq.clone()]).is_some() {
            cur = Some(seq);
        }
    }
    let cur = match cur {
        Some(c) => c,
        None => {
            // the execution depends on something outside of the simulator's control: report what was seen
            let _ = std::fs::remove_dir_all(&tmp);
            return unreproduced(s, id, seed, thorough, idx, start, &v, &dir);
        }
    };
    let min = sh.minimise(cur.clone());
    // confirm in a fresh process, keep the trace
    let path = format!("{dir}/{id}.seed{seed}.run{idx}.json");
    for cand in [min, cur] {
        std::fs::write(&path, serde_json::to_string(&json!({"property": id, "plans": cand})).unwrap()).ok()?;
        if let One::Viol(v2, hash, log) = run_one_file(&path, timeout) {
            if v2.class == v.class {
                let _ = std::fs::remove_dir_all(&tmp);
                let f = json!({"property": id, "class": v2.class, "detail": v2.detail, "verif_seed": seed, "run": idx, "trace_hash": hash,
                    "plans": cand, "trace": log, "shrink_evaluations": sh.n,
                    "how_to_replay": "bin/check replay <this file>"});
                std::fs::write(&path, serde_json::to_string_pretty(&f).unwrap()).ok()?;
                println!("[{id}] minimised ({} evaluations): {} - {}", sh.n, v2.class, v2.detail);
                let known = known_finding(id, &v2);
                return Some((path, known));
            }
        }
    }
    let _ = std::fs::remove_dir_all(&tmp);
    unreproduced(s, id, seed, thorough, idx, start, &v, &dir)
}
#[allow(clippy::too_many_arguments)]
fn unreproduced(s: &dyn DynScenario, id: &str, seed: u64, thorough: bool, idx: u64, start: u64, v: &Violation, dir: &str) -> Option<(String, Option<String>)> {
    eprintln!("[{id}] WARNING: the violation was seen in the batch but not again on replay; the code under test behaves differently from run to run");
    let plans: Vec<Value> = (start..=idx)
        .map(|i| {
            let rs = run_seed(seed, id, i);
            json!({"seed": rs.to_string(), "idx": i, "plan": s.gen_json(&mut Rng::new(rs), i, thorough)})
        })
        .collect();
    let path = format!("{dir}/{id}.seed{seed}.run{idx}.json");
    let f = json!({"property": id, "class": v.class, "detail": v.detail, "verif_seed": seed, "run": idx, "plans": plans, "reproduced": false,
        "how_to_replay": "bin/check replay <this file>"});
    std::fs::write(&path, serde_json::to_string_pretty(&f).unwrap()).ok()?;
    let known = known_finding(id, v);
    Some((path, known))
}
/// "finding: property=<id> class=<class> match=<substring of the detail> :: text"
fn known_finding(id: &str, v: &Violation) -> Option<String> {
    let t = std::fs::read_to_string(format!("{}/known_findings.txt", verif_dir())).ok()?;
    for l in t.lines() {
        if let Some(r) = l.strip_prefix("finding: ") {
            let (head, text) = r.split_once(" :: ")?;
            let want = format!("property={id} class={} match=", v.class);
            if let Some(m) = head.strip_prefix(&want) {
                if v.detail.contains(m) {
                    return Some(text.to_string());
                }
            }
        }
    }
    None
}

fn replay(path: &str) -> i32 {
    let v: Value = match std::fs::read_to_string(path).ok().and_then(|t| serde_json::from_str(&t).ok()) {
        Some(v) => v,
        None => {
            eprintln!("cannot read {path}");
            return 2;
        }
    };
    let id = v["property"].as_str().unwrap_or("?").to_string();
    match run_one_file(path, Duration::from_secs(240)) {
        One::Viol(x, hash, log) => {
            for l in log {
                println!("  {l}");
            }
            println!("trace hash {hash} (recorded {})", v["trace_hash"].as_str().unwrap_or("-"));
            println!("{}: {}", x.class, x.detail);
            println!("VIOLATION property={id} replay={path}");
            1
        }
        One::None => {
            println!("[{id}] no violation");
            0
        }
        One::Invalid => {
            println!("[{id}] not a valid plan");
            2
        }
        One::Error(e) => {
            println!("[{id}] harness error {e}");
            2
        }
    }
}

/// Determinism self-test: many seeds, each batch run twice at different worker counts.
fn selftest(args: &[String]) -> i32 {
    let only: Vec<String> = args.to_vec();
    let mut bad = 0;
    for s in scenarios() {
        let m = s.meta();
        if !only.is_empty() && !only.iter().any(|x| x == m.id) {
            continue;
        }
        let mut n = 0;
        let mut mism = 0;
        for seed in 100..100 + env_u64("SIM_SEEDS", 6) {
            let per = m.chunk.min(m.quick_runs / 8).max(4);
            let ch: Vec<(u64, u64)> = (0..8).map(|k| (k * per, (k + 1) * per)).collect();
            let a = run_batch(m.id, seed, "quick", ch.clone(), Duration::from_secs(300), 8, Duration::from_secs(120));
            let ch2: Vec<(u64, u64)> = ch.iter().rev().cloned().collect();
            let b = run_batch(m.id, seed, "quick", ch2, Duration::from_secs(300), 3, Duration::from_secs(120));
            n += a.by_idx.len();
            for (i, v) in &a.by_idx {
                if b.by_idx.get(i) != Some(v) {
                    mism += 1;
                    if mism <= 2 {
                        println!("  {} seed {seed} run {i}: {:?} vs {:?}", m.id, v, b.by_idx.get(i));
                    }
                }
            }
            for e in a.herrs.iter().chain(b.herrs.iter()) {
                println!("  {} harness error {e}", m.id);
                mism += 1;
            }
            if !a.viols.is_empty() {
                println!("  {} seed {seed} VIOLATION {:?}", m.id, a.viols[0]);
                bad += 1;
            }
        }
        println!("{}: {n} runs repeated, {mism} mismatches", m.id);
        bad += mism;
        let _ = std::io::stdout().flush();
    }
    if bad > 0 {
        1
    } else {
        0
    }
}

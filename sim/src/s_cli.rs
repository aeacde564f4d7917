//! C15, C16: the command-line tools, run as shipped under a preloaded shim that asks the simulator
//! before every file and standard-output operation. The simulator decides faults, kills, hash seeds
//! and, where several tools run at once, the order of their operations.
use crate::core::*;
use crate::net::*;
use crate::s_net::model_json;
use crate::s_text::{check_full, gen_p2, p2_lines, reference, P2};
use crate::text::render;
use crate::{bail, check, seam};
use crate::expr::F;
use neapolitan::modelling::NodalAnalysisModel;
use neapolitan::NodalAnalysisStudyBuilder;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::{BTreeMap, HashMap};
use std::io::{Read, Write};
use std::os::fd::AsRawFd;
use std::os::unix::net::UnixStream;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};

pub struct C15;
pub struct C16;

#[derive(Clone, Serialize, Deserialize)]
pub enum Src {
    Prog(P2),
    /// model and the way it is written down
    Net(Net, u8),
    /// the first so many thousandths of a valid input
    CutNet(Net, u16),
    Text(String),
    Bytes(Vec<u8>),
    Missing,
    Dir,
}
#[derive(Clone, Serialize, Deserialize)]
pub struct Input {
    pub name: String,
    pub src: Src,
}
#[derive(Clone, Serialize, Deserialize)]
pub struct Opt {
    pub name: String,
    pub val: Option<String>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Fault {
    Err(i64),
    Short(u64),
    KillBefore,
    KillAfter(u64),
    /// from here on the disk takes this many bytes
    Full(u64),
}
#[derive(Clone, Serialize, Deserialize)]
pub struct Call {
    pub file: usize,
    pub opts: Vec<Opt>,
    pub hash: u64,
    pub faults: Vec<(u32, Fault)>,
}
#[derive(Clone, Serialize, Deserialize)]
pub struct Group {
    pub sched: u64,
    /// the user changes an input before the calls
    pub edit: Option<(usize, Src)>,
    pub calls: Vec<Call>,
}
#[derive(Clone, Serialize, Deserialize)]
pub struct Plan {
    pub files: Vec<Input>,
    pub decoys: Vec<(String, String)>,
    pub groups: Vec<Group>,
}

// ---- the tools ----------------------------------------------------------------------------------
struct Tool {
    nxc: bool,
}
const BAD_TEXT: &[&str] = &["x + = 3", "x = sin(", "x = 1 * [ft->parsec]\n", "x + y = 3", "x^2 = 0-4\n", "y = #nosuch", "x = 2\nx = foo(3)\n", "x = 1 +\n", "if x\nq = 3"];
const BAD_MODEL: &[&str] = &[
    "", "{", "[]", "null", "{}", "not json", "{\"model_type\": \"dc_circuit\"}",
    "{\"model_type\":\"dc_circuit\",\"nodes\":-1,\"configuration\":{},\"elements\":[]}",
    "{\"model_type\":\"hydraulic\",\"nodes\":1,\"configuration\":{},\"elements\":[]}",
    "{\"model_type\":\"dc_circuit\",\"nodes\":2,\"configuration\":{},\"elements\":[{\"element_type\":\"pump\",\"input\":0,\"output\":1,\"gain\":[1.0]}]}",
    "{\"model_type\":\"dc_circuit\",\"nodes\":2,\"configuration\":{},\"elements\":[{\"element_type\":\"resistor\",\"input\":0,\"output\":7,\"gain\":[1.0]}]}",
    "{\"model_type\":\"dc_circuit\",\"nodes\":2,\"configuration\":{},\"elements\":[{\"element_type\":\"resistor\",\"input\":0,\"output\":1,\"gain\":\"1\"}]}",
    "{\"model_type\":\"dc_circuit\",\"nodes\":1,\"configuration\":{},\"elements\":[]} x",
    "{\"model_type\":\"dc_circuit\",\"nodes\":1,\"configuration\":{\"0\":{\"potential\":[\"a\"],\"is_locked\":true,\"metadata\":null}},\"elements\":[]}",
];
fn content(s: &Src) -> Option<Vec<u8>> {
    Some(match s {
        Src::Prog(p) => render(&p2_lines(p)).into_bytes(),
        Src::Net(n, style) => {
            let v = model_json(n);
            match style % 3 {
                0 => serde_json::to_string(&v).ok()?,
                1 => serde_json::to_string_pretty(&v).ok()?,
                _ => {
                    let mut v = v;
                    v["$schema"] = "./neapolitan_model_schema.json".into();
                    format!("\n {}\n\n", serde_json::to_string_pretty(&v).ok()?.replace('\n', "\r\n"))
                }
            }
            .into_bytes()
        }
        Src::CutNet(n, k) => {
            let t = serde_json::to_string_pretty(&model_json(n)).ok()?.into_bytes();
            let keep = (t.len() - 1) * (*k as usize).min(999) / 999;
            t[..keep].to_vec()
        }
        Src::Text(t) => t.clone().into_bytes(),
        Src::Bytes(b) => b.clone(),
        Src::Missing | Src::Dir => return None,
    })
}
impl Tool {
    fn bin(&self) -> PathBuf {
        let d = std::env::var("NEEDS_DIR").unwrap_or_else(|_| "/verif/build".into());
        PathBuf::from(d).join("cli/debug").join(if self.nxc { "nxc" } else { "neapolitan" })
    }
    fn output(&self, name: &str) -> String {
        if self.nxc {
            format!("{}.txt", name.strip_suffix(".nxs").unwrap_or(name))
        } else {
            format!("{}.soln.json", name.strip_suffix(".json").unwrap_or(name))
        }
    }
    /// None: the options are refused; otherwise margin, limit and whether a file is asked for
    fn options(&self, o: &[Opt]) -> Option<(f64, usize, bool)> {
        let (mut m, mut l, mut f) = (1e-4, 100usize, !self.nxc);
        for o in o {
            match o.name.as_str() {
                "--margin" | "-tol" | "--precision" | "-p" => m = o.val.as_ref()?.parse().ok()?,
                "--max-iterations" | "-max" | "--iterations" | "-i" => l = o.val.as_ref()?.parse().ok()?,
                "--output-file" | "--to-file" | "-o" => f = true,
                _ => {}
            }
        }
        Some((m, l, f))
    }
}
/// what the libraries make of an input: a verdict every hash order agrees upon, and the result if all agree on it
struct Lib {
    all_ok: bool,
    all_err: bool,
    vals: Option<BTreeMap<String, f64>>,
    log: Option<String>,
}
fn flat(v: &Value, at: &str, m: &mut BTreeMap<String, f64>) {
    match v {
        Value::Object(o) => o.iter().for_each(|(k, v)| flat(v, &format!("{at}/{k}"), m)),
        Value::Array(a) => a.iter().enumerate().for_each(|(i, v)| flat(v, &format!("{at}/{i}"), m)),
        Value::Null => drop(m.insert(at.into(), f64::NAN)),
        v => drop(m.insert(at.into(), v.as_f64().unwrap_or(f64::NAN))),
    }
}
fn close(a: f64, b: f64, rel: f64) -> bool {
    (a.is_nan() && b.is_nan()) || a == b || (a - b).abs() <= rel * (1.0 + a.abs().max(b.abs()))
}
/// two results agree, given the largest magnitude in them
fn near(a: &BTreeMap<String, f64>, b: &BTreeMap<String, f64>, rel: f64, abs: f64) -> bool {
    let big = a.values().chain(b.values()).filter(|x| x.is_finite()).fold(1.0f64, |m, x| m.max(x.abs()));
    a.len() == b.len() && a.iter().all(|(k, x)| b.get(k).is_some_and(|y| close(*x, *y, rel) || (x - y).abs() <= rel * big + abs))
}
type Out = Option<(BTreeMap<String, f64>, String)>;
fn ask_library(nxc: bool, text: &[u8], margin: f64, limit: usize, s: u64) -> Out {
    let text = text.to_vec();
    let h = std::thread::Builder::new().stack_size(32 << 20).spawn(move || {
        seam::set_hash_seed(s);
        let text = String::from_utf8(text).ok()?;
        if nxc {
            guard(|| nexsys::solve_with_preprocessors(&text, margin, limit).ok().map(|(log, v)| (v.into_iter().collect::<BTreeMap<_, _>>(), log.join("\n")))).ok()?
        } else {
            let m: NodalAnalysisModel = serde_json::from_str(&text).ok()?;
            let r = guard(|| NodalAnalysisStudyBuilder::from_model_with_default_config(m).run_study(margin, limit).ok()).ok()??;
            let mut v = BTreeMap::new();
            flat(&serde_json::to_value(r).ok()?, "", &mut v);
            Some((v, String::new()))
        }
    });
    h.unwrap().join().unwrap_or(None)
}
/// The hash order changes rounding, and with it, now and then, whether an iteration ends in time: a
/// verdict counts when it also holds for a somewhat harder or easier demand.
fn library(t: &Tool, text: &[u8], margin: f64, limit: usize, seeds: &[u64]) -> Lib {
    let outs: Vec<Out> = seeds.iter().map(|s| ask_library(t.nxc, text, margin, limit, *s)).collect();
    let mut lib = Lib { all_ok: outs.iter().all(|o| o.is_some()), all_err: outs.iter().all(|o| o.is_none()), vals: None, log: None };
    if lib.all_ok {
        let f = outs[0].as_ref().unwrap();
        if outs.iter().flatten().all(|o| near(&o.0, &f.0, 1e-13, 0.0)) {
            lib.vals = Some(f.0.clone());
        }
        if outs.iter().flatten().all(|o| o.1 == f.1) {
            lib.log = Some(f.1.clone());
        }
        let less = if limit < 20 { limit.saturating_sub(2) } else { limit / 2 };
        lib.all_ok = ask_library(t.nxc, text, margin / 8.0, less, seeds[0] ^ 4).is_some();
    } else if lib.all_err {
        lib.all_err = ask_library(t.nxc, text, margin * 8.0, limit.saturating_mul(2).saturating_add(2), seeds[0] ^ 4).is_none();
    }
    lib
}

// ---- the machine --------------------------------------------------------------------------------
struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn scratch() -> Scratch {
    let d = std::env::var("NEEDS_DIR").unwrap_or_else(|_| "/verif/build".into());
    let p = PathBuf::from(d).join(format!("scratch/{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&p);
    std::fs::create_dir_all(p.join("w")).expect("scratch");
    Scratch(p)
}
fn snapshot(d: &Path, at: &str, m: &mut BTreeMap<String, Option<Vec<u8>>>) {
    if let Ok(it) = std::fs::read_dir(d) {
        for e in it.flatten() {
            let n = format!("{at}{}", e.file_name().to_string_lossy());
            if e.path().is_dir() {
                m.insert(n.clone(), None);
                snapshot(&e.path(), &format!("{n}/"), m);
            } else {
                m.insert(n, std::fs::read(e.path()).ok());
            }
        }
    }
}
const OPS: &[&str] = &["", "open-for-reading", "open-for-writing", "read", "write", "rename", "unlink", "sync", "truncate", "mkdir"];
struct Req {
    op: u8,
    out: bool,
    len: u64,
    path: String,
}
struct Proc {
    ch: Child,
    sock: UnixStream,
    pending: Option<Req>,
    ops: u32,
    log: Vec<String>,
    fired: bool,
    killed: bool,
    status: Option<std::process::ExitStatus>,
    out: PathBuf,
}
extern "C" {
    fn fcntl(fd: i32, cmd: i32, arg: i32) -> i32;
}
fn start(t: &Tool, sc: &Path, k: usize, args: &[String], hash: u64) -> std::io::Result<Proc> {
    let (a, b) = UnixStream::pair()?;
    a.set_read_timeout(Some(std::time::Duration::from_secs(200)))?;
    unsafe { fcntl(b.as_raw_fd(), 2, 0) };
    let out = sc.join(format!("o{k}"));
    let d = std::env::var("NEEDS_DIR").unwrap_or_else(|_| "/verif/build".into());
    let ch = Command::new(t.bin())
        .args(args)
        .current_dir(sc.join("w"))
        .env_clear()
        .env("LD_PRELOAD", format!("{d}/shim.so"))
        .env("SIM_FD", b.as_raw_fd().to_string())
        .env("SIM_HASH", hash.to_string())
        .stdin(Stdio::null())
        .stdout(std::fs::File::create(&out)?)
        .stderr(Stdio::null())
        .spawn()?;
    Ok(Proc { ch, sock: a, pending: None, ops: 0, log: vec![], fired: false, killed: false, status: None, out })
}
/// waits for the next request of a running tool, or its end
fn advance(p: &mut Proc) -> Result<(), Violation> {
    let mut b = [0u8; 128];
    let mut got = 0;
    while got < 128 {
        match p.sock.read(&mut b[got..]) {
            Ok(0) => break,
            Ok(n) => got += n,
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
            Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => {
                let _ = p.ch.kill();
                let _ = p.ch.wait();
                bail!("hang", "the tool neither ended nor asked for anything within 200 s; operations: {}", p.log.join(", "));
            }
            Err(_) => break,
        }
    }
    if got < 128 {
        p.status = p.ch.wait().ok();
        return Ok(());
    }
    let path = &b[16..];
    let end = path.iter().position(|x| *x == 0).unwrap_or(path.len());
    p.pending = Some(Req { op: b[0], out: b[1] != 0, len: u64::from_le_bytes(b[8..16].try_into().unwrap()), path: String::from_utf8_lossy(&path[..end]).into_owned() });
    Ok(())
}
const GO: i32 = 0;
const FAIL: i32 = 1;
const SHORT: i32 = 2;
const KILLB: i32 = 3;
const KILLA: i32 = 4;
/// grants the pending request of `p`, applying the fault planned for it
fn grant(p: &mut Proc, c: &Call, disk: &mut Option<u64>, r: &mut Run) {
    let q = p.pending.take().unwrap();
    let data = q.op == 3 || q.op == 4;
    let (mut kind, mut arg) = (GO, 0i64);
    let mut note = String::new();
    if let Some((_, f)) = c.faults.iter().find(|f| f.0 == p.ops) {
        match f {
            Fault::Err(e) => {
                (kind, arg) = (FAIL, *e);
                r.fault(match (q.op, q.out, *e) {
                    (_, _, 4) => "interrupted_call",
                    (1, _, _) => "open_input_error",
                    (2, _, _) => "open_output_error",
                    (3, _, _) => "read_error",
                    (4, true, _) => "stdout_error",
                    (4, false, _) => "write_error",
                    _ => "other_error",
                });
            }
            Fault::Short(n) if data && q.len > (*n).max(1) => {
                (kind, arg) = (SHORT, (*n).max(1) as i64);
                r.fault(if q.op == 3 { "short_read" } else { "short_write" });
            }
            Fault::Short(_) => {}
            Fault::KillBefore => {
                kind = KILLB;
                r.fault("kill");
            }
            Fault::KillAfter(n) => {
                (kind, arg) = (KILLA, (*n).min(q.len) as i64);
                r.fault(if q.op == 4 && *n < q.len { "kill_in_write" } else { "kill" });
            }
            Fault::Full(n) => *disk = Some(*n),
        }
    }
    if q.op == 4 && !q.out && kind == GO {
        if let Some(b) = disk {
            if *b == 0 {
                (kind, arg) = (FAIL, 28);
                r.fault("disk_full");
            } else if *b < q.len {
                (kind, arg) = (SHORT, *b as i64);
                r.fault("disk_full_partial");
                *b = 0;
            } else {
                *b -= q.len;
            }
        }
    }
    if kind != GO {
        p.fired = true;
        p.killed |= kind >= KILLB;
        note = format!(" !{}", match kind {
            FAIL => format!("errno {arg}"),
            SHORT => format!("only {arg} bytes"),
            KILLB => "killed before".into(),
            _ => format!("killed after {arg} bytes"),
        });
    }
    let what = if q.path.is_empty() { if q.out { "stdout".to_string() } else { "file".into() } } else { q.path.clone() };
    p.log.push(format!("{} {what}{}{note}", OPS.get(q.op as usize).unwrap_or(&"?"), if q.op == 4 { format!(" {} bytes", q.len) } else { String::new() }));
    p.ops += 1;
    let mut b = [0u8; 16];
    b[..4].copy_from_slice(&kind.to_le_bytes());
    b[8..].copy_from_slice(&arg.to_le_bytes());
    let _ = p.sock.write_all(&b);
}
/// "name = value" lines and the procedure of a report
fn parse_text_report(t: &str, file: &str) -> Option<(BTreeMap<String, f64>, String)> {
    let start = t.find("[->] Nexsys - ")?;
    let t = &t[start..];
    let head = t.strip_prefix(&format!("[->] Nexsys - {file} results:\n\nSolution:\n+=======+\n"))?;
    let (s, log) = head.split_once("\nProcedure:\n+========+\n")?;
    let mut m = BTreeMap::new();
    for l in s.lines() {
        let (k, v) = l.split_once(" = ")?;
        if m.insert(k.to_string(), v.parse().ok()?).is_some() {
            return None;
        }
    }
    if !log.ends_with('\n') {
        return None;
    }
    Some((m, log.trim_end_matches('\n').to_string()))
}

fn run(t: &Tool, p: &Plan, r: &mut Run) -> Res {
    if p.files.is_empty() || p.files.len() > 6 || p.groups.len() > 12 {
        return Ok(());
    }
    // no two inputs share a name, an output or play both parts
    let mut seen: Vec<String> = vec![];
    for f in &p.files {
        for n in [f.name.clone(), t.output(&f.name)] {
            let n = n.trim_start_matches("./").to_string();
            if n.starts_with('/') || n.contains("..") || seen.contains(&n) {
                return Ok(());
            }
            seen.push(n);
        }
    }
    let sc = scratch();
    let w = sc.0.join("w");
    let mut srcs: Vec<Src> = p.files.iter().map(|f| f.src.clone()).collect();
    let put = |name: &str, s: &Src| {
        let path = w.join(name);
        if let Some(d) = path.parent() {
            let _ = std::fs::create_dir_all(d);
        }
        match (s, content(s)) {
            (Src::Dir, _) => drop(std::fs::create_dir_all(&path)),
            (_, Some(b)) => drop(std::fs::write(&path, b)),
            _ => drop(std::fs::remove_file(&path)),
        }
    };
    for f in &p.files {
        put(&f.name, &f.src);
    }
    for (n, b) in &p.decoys {
        if n.starts_with('/') || n.contains("..") || p.files.iter().any(|f| f.name.trim_start_matches("./") == n) {
            return Ok(());
        }
        put(n, &Src::Text(b.clone()));
    }
    let mut hist: Vec<String> = vec![];
    let mut refs: HashMap<String, Lib> = HashMap::new();
    let mut owned: Vec<String> = vec![];
    for (gi, g) in p.groups.iter().enumerate() {
        if g.calls.is_empty() || g.calls.len() > 4 || g.calls.iter().any(|c| c.file >= p.files.len()) {
            return Ok(());
        }
        if let Some((k, s)) = &g.edit {
            if *k >= srcs.len() || matches!(srcs[*k], Src::Dir) || matches!(s, Src::Dir) {
                return Ok(());
            }
            put(&p.files[*k].name, s);
            srcs[*k] = s.clone();
            hist.push(format!("{} is rewritten", p.files[*k].name));
            r.probe("edited");
        }
        for (i, c) in g.calls.iter().enumerate() {
            if g.calls[..i].iter().any(|d| d.file == c.file) {
                return Ok(());
            }
        }
        let mut before = BTreeMap::new();
        snapshot(&w, "", &mut before);
        let mut procs: Vec<Proc> = vec![];
        for (i, c) in g.calls.iter().enumerate() {
            let mut args = vec![p.files[c.file].name.clone()];
            for o in &c.opts {
                args.push(o.name.clone());
                args.extend(o.val.clone());
            }
            hist.push(format!("{}{} {}", if g.calls.len() > 1 { format!("(together, {i}) ") } else { String::new() }, if t.nxc { "nxc" } else { "neapolitan" }, args.join(" ")));
            procs.push(match start(t, &sc.0, gi * 10 + i, &args, c.hash) {
                Ok(p) => p,
                Err(e) => panic!("the simulator cannot start the tool: {e}"),
            });
        }
        let mut rng = Rng::new(g.sched);
        let mut disk = None;
        loop {
            let mut ready = vec![];
            let mut hung = None;
            for (i, q) in procs.iter_mut().enumerate() {
                if q.status.is_none() && q.pending.is_none() {
                    if let Err(v) = advance(q) {
                        hung = Some(v);
                    }
                }
                if q.pending.is_some() {
                    ready.push(i);
                }
                if q.ops > 20_000 {
                    hung = Some(Violation { class: "hang".into(), detail: format!("20000 operations and no end, the last ones: {}", q.log[q.log.len() - 10..].join(", ")) });
                }
            }
            if let Some(mut v) = hung {
                for q in procs.iter_mut() {
                    let _ = q.ch.kill();
                    let _ = q.ch.wait();
                }
                v.detail = format!("{}\n{}", hist.join("\n"), v.detail);
                return Err(v);
            }
            if ready.is_empty() {
                break;
            }
            let i = *rng.pick(&ready);
            if ready.len() > 1 {
                r.fault("schedule");
            }
            grant(&mut procs[i], &g.calls[i], &mut disk, r);
            if procs.len() > 1 {
                r.ev(format!("turn {i}"));
            }
        }
        let mut after = BTreeMap::new();
        snapshot(&w, "", &mut after);
        let clean = procs.iter().all(|q| !q.fired);
        let mut may: Vec<String> = vec![];
        for (q, c) in procs.iter().zip(&g.calls) {
            for l in &q.log {
                r.ev(l);
            }
            hist.push(format!("  operations: {}", q.log.join(", ")));
            let name = &p.files[c.file].name;
            let text = content(&srcs[c.file]);
            let o = t.options(&c.opts);
            let out = t.output(name).trim_start_matches("./").to_string();
            let st = q.status;
            let code = st.and_then(|s| s.code());
            r.ev(format!("exit {code:?} {:?}", st.and_then(|s| s.signal())));
            hist.push(format!("  {}", match (code, st.and_then(|s| s.signal())) { (Some(c), _) => format!("exit status {c}"), (_, s) => format!("ended by signal {}", s.unwrap_or(0)) }));
            if !t.nxc || o.is_none_or(|o| o.2) {
                may.push(out.clone());
            }
            if q.killed {
                r.nontrivial = true;
                continue;
            }
            let sig = st.and_then(|s| s.signal());
            check!(!matches!(sig, Some(24) | Some(9)), "hang", "{}\nthe tool used up its CPU time", hist.join("\n"));
            let show = || {
                let t = text.as_ref().map_or("(no file)".into(), |b| String::from_utf8_lossy(b).into_owned());
                format!("input {name}:\n{t}\n{}", hist.join("\n"))
            };
            if q.fired {
                r.nontrivial = true;
            }
            let (o, text) = match (o, &text) {
                (Some(o), Some(t)) => (o, t),
                _ => {
                    check!(code != Some(0), "false-success", "{}\nthe tool reports success although its options or its input are invalid", show());
                    r.probe("refused_input");
                    continue;
                }
            };
            let key = format!("{:?}/{:x}/{}/{}", c.file, o.0.to_bits(), o.1, String::from_utf8_lossy(text));
            let lib = refs.entry(key).or_insert_with(|| library(t, text, o.0, o.1, &[c.hash ^ 1, c.hash ^ 2, c.hash ^ 3]));
            r.nontrivial = true;
            if code != Some(0) {
                if !q.fired && lib.all_ok && clean {
                    bail!("refused", "{}\nthe tool fails although the input can be solved and nothing went wrong", show());
                }
                r.probe(if q.fired { "failed_by_fault" } else { "failed" });
                continue;
            }
            check!(!lib.all_err, "false-success", "{}\nthe tool reports success for an input that cannot be solved", show());
            // success: the whole result has to be where it belongs
            let got: BTreeMap<String, f64>;
            if t.nxc {
                let body = if o.2 { after.get(&out).cloned().flatten() } else { std::fs::read(&q.out).ok() };
                let body = String::from_utf8_lossy(&body.unwrap_or_default()).into_owned();
                let Some((v, log)) = parse_text_report(&body, name) else {
                    bail!("incomplete", "{}\nthe tool reports success, but {} holds no complete report:\n{body}", show(), if o.2 { out.as_str() } else { "standard output" })
                };
                if o.2 {
                    check!(body.starts_with("[->] Nexsys"), "incomplete", "{}\n{out} does not start with the report:\n{body}", show());
                }
                if let Some(l) = &lib.log {
                    check!(&log == l, "procedure", "{}\nthe procedure is reported as\n{log}\nbut was\n{l}", show());
                    r.probe("procedure_compared");
                }
                if let Src::Prog(p2) = &srcs[c.file] {
                    if (1e-9..=1e-3).contains(&o.0) && o.1 >= 50 {
                        let mut p2 = p2.clone();
                        p2.margin = F(o.0);
                        p2.limit = o.1 as u64;
                        if let Some(truth) = reference(&p2) {
                            let m: HashMap<String, f64> = v.iter().map(|(k, v)| (k.clone(), *v)).collect();
                            if let Err(mut e) = check_full(&show(), &p2, &truth, &m) {
                                e.detail = format!("{}\nthe report says {v:?}", e.detail);
                                return Err(e);
                            }
                            r.probe("truth_compared");
                        }
                    }
                }
                got = v;
            } else {
                let body = after.get(&out).cloned().flatten().unwrap_or_default();
                let v: Value = match serde_json::from_slice(&body) {
                    Ok(v) => v,
                    Err(e) => bail!("incomplete", "{}\nthe tool reports success, but {out} is not a JSON document ({e}):\n{}", show(), String::from_utf8_lossy(&body)),
                };
                if let Src::Net(n, _) = &srcs[c.file] {
                    let res = parse_result(n, &v)?;
                    let posed = n.sane() && n.grounded() && matches!(n.sources(), Sources::Fine(_));
                    if let (true, Some(want)) = (posed && (1e-7..=1e-3).contains(&o.0), n.reference()) {
                        if want.cond < 1e5 && want.v.iter().flatten().all(|v| v.abs() < 1e6) {
                            if let Err(mut e) = agrees(n, &res, &want, o.0) {
                                e.detail = format!("{}\n{}", show(), e.detail);
                                return Err(e);
                            }
                            r.probe("truth_compared");
                        }
                    }
                }
                let mut m = BTreeMap::new();
                flat(&v, "", &mut m);
                got = m;
            }
            for (k, x) in &got {
                r.ev(format!("{k} {}", fx(*x)));
            }
            if let Some(v) = &lib.vals {
                check!(near(&got, v, if t.nxc { 1e-7 } else { 1e-6 }, if t.nxc { 0.0 } else { 10.0 * o.0 }), "options", "{}\nwith margin {:e} and at most {} iterations the result is {v:?}, the tool reports {got:?}", show(), o.0, o.1);
                r.probe("library_compared");
            }
            r.probe(if q.fired { "survived_fault" } else { "succeeded" });
            if procs.len() > 1 {
                r.probe("succeeded_together");
            }
        }
        // nothing else changes
        for (n, b) in &before {
            if !may.contains(n) && !owned.contains(n) && after.get(n) != Some(b) {
                bail!("altered", "{}\n{n} was {} by this", hist.join("\n"), if after.contains_key(n) { "changed" } else { "removed" });
            }
        }
        if clean {
            for n in after.keys() {
                check!(may.contains(n) || before.contains_key(n), "altered", "{}\n{n} was created by this", hist.join("\n"));
            }
        } else {
            // what an interrupted tool leaves behind is its own, and must not get in the way later
            for n in after.keys() {
                if !may.contains(n) && !before.contains_key(n) {
                    r.probe("left_behind");
                    owned.push(n.clone());
                }
            }
        }
    }
    Ok(())
}

// ---- generation ---------------------------------------------------------------------------------
fn gen_fault(r: &mut Rng, nxc: bool) -> (u32, Fault) {
    let wide = r.chance(0.8);
    let k = r.below(if wide { 8 } else { 14 }) as u32;
    let f = match r.below(12) {
        0..=3 => Fault::Err(*r.pick(&[5, 28, 13, 24, 2, 30, 122, 27, 12, 32, 11, 4, 4, 4])),
        4..=6 => Fault::Short(*r.pick(&[1, 1, 2, 7, 20, 30, 64, 100, 200])),
        7 => Fault::KillBefore,
        8 | 9 => Fault::KillAfter(*r.pick(&[0, 1, 10, 40, 100, 150, 250, 400])),
        _ => Fault::Full(*r.pick(&[0, 0, 1, 10, 50, 100, 150, 200, 250, 300, 500])),
    };
    let _ = nxc;
    (k, f)
}
fn gen_src(r: &mut Rng, nxc: bool, thorough: bool) -> Src {
    if nxc {
        match r.below(20) {
            0 => Src::Text(r.pick(BAD_TEXT).to_string()),
            1 => Src::Bytes(vec![b'x', b' ', b'=', b' ', 0xff, 0xfe, b'\n']),
            2 => {
                let mut t = format!("// {}\nx = 1\n", "long comment ".repeat(r.below(3000)));
                t.push_str(&format!("y = x + {}\n", r.range(1, 9)));
                Src::Text(t)
            }
            3 => match r.below(4) {
                0 => Src::Missing,
                1 => Src::Dir,
                _ => Src::Text(String::new()),
            },
            4 | 5 => Src::Text(format!("a^3 + a = {}\nb * b * a = {}\nguess {} for a\n", r.range(3, 90), r.range(2, 50), r.range(1, 9))),
            _ => {
                let mut p = gen_p2(r, if thorough { 9 } else { 5 }, 1);
                p.margin = F(1e-4);
                p.limit = 100;
                Src::Prog(p)
            }
        }
    } else {
        let gn = GenNet { heat: r.chance(0.5), dim: 1, max_nodes: if thorough { 14 } else { 7 }, custom: false, grounded: true };
        match r.below(20) {
            0 => Src::Text(r.pick(BAD_MODEL).to_string()),
            1 => Src::CutNet(gen_net(r, &gn), r.below(1000) as u16),
            2 => Src::Bytes(vec![b'{', 0xff, b'}']),
            3 => match r.below(3) {
                0 => Src::Missing,
                1 => Src::Dir,
                _ => {
                    // a source between two held nodes
                    let net = Net {
                        heat: false,
                        dim: 1,
                        nodes: 2,
                        cfg: (0..2).map(|i| NodeCfg { node: i, v: vec![F(i as f64)], locked: true, meta: None }).collect(),
                        elems: vec![El { kind: SRC, a: 0, b: 1, g: vec![F(3.0)] }],
                    };
                    Src::Net(net, 1)
                }
            },
            _ => {
                let mut gn = gn;
                if r.chance(0.05) {
                    gn.max_nodes = 60;
                }
                Src::Net(gen_net(r, &gn), r.below(3) as u8)
            }
        }
    }
}
fn gen_opts(r: &mut Rng, nxc: bool) -> Vec<Opt> {
    let mut v = vec![];
    let n = *r.pick(&[0, 0, 1, 1, 2, 3, 4]);
    for _ in 0..n {
        let o = |n: &str, v: Option<&str>| Opt { name: n.into(), val: v.map(|s| s.into()) };
        v.push(match r.below(if nxc { 12 } else { 8 }) {
            0..=2 => o(
                *r.pick(if nxc { &["--margin", "-tol"] } else { &["--precision", "-p"] }),
                Some(*r.pick(&["1e-6", "0.00001", "1e-8", "1e-3", "0.5", "20", "1e-7", ".001", "1E-05", "0", "-0.001", "-1", "nan", "abc", ""])),
            ),
            3..=5 => o(
                *r.pick(if nxc { &["--max-iterations", "-max"] } else { &["--iterations", "-i"] }),
                Some(*r.pick(&["1", "2", "3", "4", "6", "20", "50", "200", "500", "+60", "0", "-1", "2.5", "many"])),
            ),
            6 if !nxc || r.chance(0.2) => o(*r.pick(&["-x", "--help-me", "7"]), None),
            6..=9 if nxc => o(*r.pick(&["-o", "--output-file", "--to-file"]), None),
            10 | 11 => o(*r.pick(&["-v", "--verbose"]), None),
            _ => o("--quiet", None),
        });
    }
    if nxc && r.chance(0.35) {
        let at = r.below(v.len() + 1);
        v.insert(at, Opt { name: r.pick(&["-o", "--output-file", "--to-file"]).to_string(), val: None });
    }
    if r.chance(0.02) {
        v.push(Opt { name: r.pick(if nxc { &["-tol", "-max"] } else { &["-p", "-i"] }).to_string(), val: None });
    }
    v
}
fn gen(r: &mut Rng, nxc: bool, thorough: bool) -> Plan {
    let t = Tool { nxc };
    let names: &[&str] = if nxc {
        &["prog.nxs", "a", "sub/deep/p.nxs", "./here.nxs", "two words.nxs", "x.nxs.nxs", "notes.txt", "p.v2.nxs", ".nxs", "UPPER.NXS", "nxs", "q.nxs.bak", "help.nxs", "helper", "\u{e9}t\u{e9}.nxs", "txt.nxs"]
    } else {
        &["model.json", "m", "sub/deep/m.json", "./here.json", "two words.json", "x.json.json", "circuit.txt", "m.v2.json", ".json", "UPPER.JSON", "json", "m.json.bak", "help.json", "helper", "\u{e9}t\u{e9}.json", "old.soln.json"]
    };
    let mut names: Vec<&str> = names.to_vec();
    r.shuffle(&mut names);
    let nf = 1 + r.below(3);
    let files: Vec<Input> = names[..nf].iter().map(|n| Input { name: n.to_string(), src: gen_src(r, nxc, thorough) }).collect();
    let mut decoys = vec![];
    for f in &files {
        // an older result, longer or shorter than the new one
        if r.chance(0.5) {
            decoys.push((t.output(&f.name), "old result\n".repeat(r.below(200))));
        }
        for s in [".tmp", ".bak", "~", ".txt", ".soln", ".json", ".nxs", ".part"] {
            let n = format!("{}{s}", f.name);
            if r.chance(0.1) && !files.iter().any(|g| g.name == n || t.output(&g.name) == n) {
                decoys.push((n, "somebody else's".into()));
            }
        }
    }
    for n in ["out.txt", "result.json", "soln.json", "tmp", "output.tmp"] {
        if r.chance(0.1) && !files.iter().any(|g| g.name == n || t.output(&g.name) == n) {
            decoys.push((n.into(), "somebody else's".into()));
        }
    }
    let ng = 2 + r.below(if thorough { 6 } else { 4 });
    let mut groups: Vec<Group> = vec![];
    for gi in 0..ng {
        let together = nf > 1 && r.chance(0.3);
        let k = if together { 2 + r.below(nf - 1) } else { 1 };
        let mut pick: Vec<usize> = (0..nf).collect();
        r.shuffle(&mut pick);
        let calls = pick[..k.min(nf)]
            .iter()
            .map(|f| Call {
                file: *f,
                opts: gen_opts(r, nxc),
                hash: r.u64() >> 16,
                // the last group runs without faults
                faults: if gi + 1 == ng || r.chance(0.3) { vec![] } else { (0..1 + r.below(3)).map(|_| gen_fault(r, nxc)).collect() },
            })
            .collect();
        let edit = (gi > 0 && r.chance(0.25)).then(|| (r.below(nf), gen_src(r, nxc, thorough))).filter(|(k, s)| !matches!(s, Src::Dir) && !matches!(files[*k].src, Src::Dir));
        groups.push(Group { sched: r.u64() >> 16, edit, calls });
    }
    // the same call again once the faults are over
    if let Some(g) = groups.iter().rev().nth(1).cloned() {
        let mut g = g;
        g.edit = None;
        g.calls.iter_mut().for_each(|c| c.faults.clear());
        groups.push(g);
    }
    // a large input that is to be solved to no avail, for as long as it is allowed, only costs time
    let large = |s: &Src| match s {
        Src::Net(n, _) | Src::CutNet(n, _) => n.nodes * n.dim > 24,
        Src::Prog(p) => p2_lines(p).len() > 40,
        _ => false,
    };
    if files.iter().map(|f| &f.src).chain(groups.iter().filter_map(|g| g.edit.as_ref().map(|e| &e.1))).any(large) {
        for o in groups.iter_mut().flat_map(|g| g.calls.iter_mut()).flat_map(|c| c.opts.iter_mut()) {
            if matches!(o.val.as_deref(), Some("0" | "-1" | "-0.001" | "nan" | "200" | "500")) {
                o.val = Some("1e-6".into());
            }
        }
    }
    Plan { files, decoys, groups }
}
fn meta(id: &'static str, nxc: bool) -> Meta {
    Meta {
        id,
        rule: "one run = one directory with 1-3 input files and bystanders, and 3-7 rounds of one tool call or several at once (different inputs), with options, edits in between, errors, interruptions, short transfers, a full disk and kills at seeded operations, the last rounds fault-free; exit status, result and every file checked after each round; counted when a call was decided; distinct by trace hash",
        real: if nxc { "the nxc program as cargo builds it (dev profile) from /repo, its own process, Rust's standard library" } else { "the neapolitan program as cargo builds it (dev profile) from /repo, its own process, Rust's standard library" },
        stub: "open, read, write, rename, sync, truncate and getrandom of libc go through a preloaded shim that asks the simulator first; files live in a scratch directory on the real file system",
        assumptions: &["a kill ends the process; the file system keeps what was written (no power loss)", "errors reported only by close are not injected (Rust's standard library ignores them by design)", "standard output is open"],
        quick_runs: if nxc { 2500 } else { 3000 },
        thorough_runs: 60000,
        chunk: 40,
        step_limit: u64::MAX,
        fork: false,
    }
}
impl Scenario for C15 {
    type Plan = Plan;
    fn meta(&self) -> Meta {
        meta("C15", false)
    }
    fn gen(&self, r: &mut Rng, _idx: u64, thorough: bool) -> Plan {
        gen(r, false, thorough)
    }
    fn run(&self, p: &Plan, r: &mut Run) -> Res {
        run(&Tool { nxc: false }, p, r)
    }
}
impl Scenario for C16 {
    type Plan = Plan;
    fn meta(&self) -> Meta {
        meta("C16", true)
    }
    fn gen(&self, r: &mut Rng, _idx: u64, thorough: bool) -> Plan {
        gen(r, true, thorough)
    }
    fn run(&self, p: &Plan, r: &mut Run) -> Res {
        run(&Tool { nxc: true }, p, r)
    }
}

//! C17: the user interface. Plans are made, minimised and recorded here; sim/ui/ui.mjs executes them
//! on the application's own modules with a simulated document.
use crate::bail;
use crate::core::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::io::{BufRead, BufReader, Write};
use std::path::PathBuf;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::Mutex;

pub struct C17;

/// numbers are taken modulo what there is at that moment
#[derive(Clone, Serialize, Deserialize)]
pub enum Step {
    Add(String),
    Files,
    Model,
    Item(u32),
    Close(u32),
    Tab(u32),
    Stray(u32),
    Double(u32),
    Drag(u32, u32),
    Hover(u32),
    Note(String),
    Gen,
    Reserve(u32),
    Build(u32, u32),
    Press(u32),
    Drop(u32),
    Remove(u32),
}
#[derive(Clone, Serialize, Deserialize)]
pub struct Plan {
    /// 0: modules compiled from the sources, 1: the compiled modules kept in the repository
    pub variant: u8,
    pub order: u32,
    pub steps: Vec<Step>,
}

struct Page {
    ch: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
    runs: u32,
}
static PAGE: Mutex<Option<Page>> = Mutex::new(None);
fn dirs() -> (PathBuf, PathBuf, PathBuf, PathBuf) {
    let d = PathBuf::from(std::env::var("NEEDS_DIR").unwrap_or_else(|_| "/verif/build".into()));
    let v = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()));
    ("/repo/index.html".into(), d.join("ui"), "/repo/ngineer_js/target".into(), v.join("sim/ui/ui.mjs"))
}
fn open() -> Page {
    let (html, src, target, js) = dirs();
    let mut ch = Command::new("node")
        .args(["--experimental-vm-modules", "--no-warnings"])
        .args([&js, &html, &src, &target])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("node");
    Page { to: ch.stdin.take().unwrap(), from: BufReader::new(ch.stdout.take().unwrap()), ch, runs: 0 }
}
fn close(p: Page) {
    let Page { mut ch, to, .. } = p;
    drop(to);
    let _ = ch.kill();
    let _ = ch.wait();
}
fn ask(plan: &Plan) -> Option<Value> {
    let line = serde_json::to_string(plan).ok()?;
    let mut g = PAGE.lock().unwrap_or_else(|e| e.into_inner());
    if g.as_ref().is_some_and(|p| p.runs >= 400) {
        close(g.take().unwrap());
    }
    let p = g.get_or_insert_with(open);
    p.runs += 1;
    // an endless loop in the page ends here
    let pid = p.ch.id();
    let (tx, rx) = std::sync::mpsc::channel::<()>();
    let guard = std::thread::spawn(move || {
        if rx.recv_timeout(std::time::Duration::from_secs(60)) == Err(std::sync::mpsc::RecvTimeoutError::Timeout) {
            let _ = Command::new("kill").args(["-9", &pid.to_string()]).status();
        }
    });
    let mut s = String::new();
    let ok = writeln!(p.to, "{line}").and_then(|_| p.to.flush()).and_then(|_| p.from.read_line(&mut s)).is_ok() && !s.is_empty();
    let _ = tx.send(());
    let _ = guard.join();
    if !ok {
        close(g.take().unwrap());
        return None;
    }
    serde_json::from_str(&s).ok()
}

const NAMES: &[&str] = &[
    "a.nxs", "b.nxs", "circuit.json", "long name with blanks.json", "a", "a.nxs.bak", "a-filename", "x-tab", "x", "X", "\u{e9}t\u{e9}.nxs", "o'brien.nxs", "say \"hi\".nxs", "<b>bold</b>.nxs", "r&d.json", "r&amp;d.json",
    "1 < 2 > 0.nxs", "files", "model", "left-ribbon", "proj-tabs-bar", "proj", "registered-html-tag-0", "registered-html-tag-1", "__proto__", "constructor", "toString", "null", "undefined", "0", "C:\\work\\p.nxs", "sub/dir/m.json", "a.nxs-tab",
    "\u{1f525}.nxs", "X.nxs", "top", "debug", "a'>b", "&amp;&lt;.nxs", "a&b&amp;c", "<<i>>", "''q''", "\"\"", "&&gt;",
];
impl Scenario for C17 {
    type Plan = Plan;
    fn meta(&self) -> Meta {
        Meta {
            id: "C17",
            rule: "one run = a fresh page and 5-120 seeded user and application events, the whole document compared with a model after each, then a final round that opens and closes everything; counted when a panel switch or a tab operation took effect; distinct by event trace hash",
            real: "all modules of ngineer_js/src compiled by tsc as the project does, the compiled modules kept in ngineer_js/target when they differ, and index.html",
            stub: "the browser: a small document with HTML parser, serializer and event dispatch (sim/ui/dom.mjs), run by node",
            assumptions: &["events are dispatched one after another, as in a browser", "file items are added while the Files panel is shown", "no layout: an element counts as visible when it is in the document"],
            quick_runs: 12_000,
            thorough_runs: 300_000,
            chunk: 400,
            step_limit: u64::MAX,
            fork: false,
        }
    }
    fn gen(&self, r: &mut Rng, _idx: u64, thorough: bool) -> Plan {
        let mut names: Vec<&str> = NAMES.to_vec();
        r.shuffle(&mut names);
        let many = r.chance(0.2);
        names.truncate(1 + r.below(if many { 12 } else { 5 }));
        let n = match r.below(10) {
            0 => 1 + r.below(5),
            9 => 60 + r.below(if thorough { 300 } else { 60 }),
            _ => 5 + r.below(35),
        };
        // each run leans towards some kinds of event
        let w: Vec<f64> = (0..17).map(|_| if r.chance(0.3) { 0.1 } else if r.chance(0.2) { 6.0 } else { 1.0 }).collect();
        let base = [4.0, 3.0, 3.0, 5.0, 3.0, 1.0, 1.0, 0.7, 0.5, 0.3, 1.0, 1.0, 0.7, 1.0, 0.7, 0.3, 0.5];
        let c: Vec<f64> = w.iter().zip(base).map(|(a, b)| a * b).collect();
        let sum: f64 = c.iter().sum();
        let k = |r: &mut Rng| if r.chance(0.3) { r.below(3) as u32 } else { r.below(1000) as u32 };
        let steps = (0..n)
            .map(|_| {
                let mut x = r.f01() * sum;
                let i = c.iter().position(|w| { x -= w; x < 0.0 }).unwrap_or(0);
                match i {
                    0 => Step::Add(r.pick(&names).to_string()),
                    1 => Step::Files,
                    2 => Step::Model,
                    3 => Step::Item(k(r)),
                    4 => Step::Close(k(r)),
                    5 => Step::Tab(k(r)),
                    6 => Step::Stray(k(r)),
                    7 => Step::Double(k(r)),
                    8 => Step::Drag(k(r), k(r)),
                    9 => Step::Hover(k(r)),
                    10 => Step::Note(r.pick(&["resistor", "5 < 6", "pipe & pump", "use <node> 1"]).to_string()),
                    11 => Step::Gen,
                    12 => Step::Reserve(k(r)),
                    13 => Step::Build(k(r), k(r)),
                    14 => Step::Press(k(r)),
                    15 => Step::Drop(k(r)),
                    _ => Step::Remove(k(r)),
                }
            })
            .collect();
        Plan { variant: (std::env::var("UI_DIFFERS").is_ok() && r.chance(0.5)) as u8, order: r.below(1000) as u32, steps }
    }
    fn run(&self, p: &Plan, r: &mut Run) -> Res {
        if p.variant > 1 {
            return Ok(());
        }
        // the page ends without an answer only when it hangs or node dies: the second attempt decides
        let Some(v) = ask(p).or_else(|| ask(p)) else {
            bail!("hang", "the page does not answer within a minute: {}", serde_json::to_string(p).unwrap_or_default());
        };
        for e in v["ev"].as_array().into_iter().flatten() {
            r.ev(e.as_str().unwrap_or(""));
        }
        for (what, faults) in [("probes", false), ("faults", true)] {
            for (k, n) in v[what].as_object().into_iter().flatten() {
                for _ in 0..n.as_u64().unwrap_or(0) {
                    if faults { r.fault(k) } else { r.probe(k) }
                }
            }
        }
        r.sig = v["sig"].as_str().map(|s| {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            std::hash::Hash::hash(s, &mut h);
            std::hash::Hasher::finish(&h)
        });
        r.nontrivial = ["switched_to_model", "switched_to_files", "opened", "closed"].iter().any(|k| r.probes.contains_key(*k));
        if let Some(c) = v["cls"].as_str() {
            bail!(c, "{}{}", if p.variant == 1 { "(compiled modules in ngineer_js/target)\n" } else { "" }, v["detail"].as_str().unwrap_or(""));
        }
        Ok(())
    }
}

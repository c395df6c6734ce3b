//! Runs many seeds in worker processes, confirms and reduces what they report, writes evidence.
use crate::plan::*;
use crate::rng::{hash2, hash_bytes};
use crate::shrink::{self, Verdict};
use crate::{gen, props, run, sys};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::mpsc;
use std::time::{Duration, Instant};

pub const ERRS: [&str; 16] = ["open", "create", "read", "write", "stat", "lock", "unlink", "rmdir", "mkdir", "rename", "opendir", "readdir", "truncate", "sync", "close", "other"];
/// A run normally takes a few milliseconds of real time.
const HANG_S: u64 = 25;

pub fn plan_seed(seed: u64, prop: &str, i: u64) -> u64 {
    hash2(hash_bytes(seed, prop.as_bytes()), i)
}
/// Runs from here on are for the simulator built with the library's codecs written in Rust.
pub const PURE_BASE: u64 = 1 << 40;
/// Properties which depend on codecs.
const PURE_PROPS: [&str; 8] = ["C01", "C02", "C03", "C15", "C18", "C19", "C20", "C21"];
pub fn plan_at(prop: &str, seed: u64, i: u64) -> Plan {
    crate::types::PURE.store(i >= PURE_BASE, Ordering::SeqCst);
    let mut p = gen::generate(prop, plan_seed(seed, prop, i));
    p.pure = i >= PURE_BASE;
    p
}

pub fn judge(p: &Plan, trace: bool) -> (Verdict, Outcome, Option<props::Info>) {
    let o = match catch_unwind(AssertUnwindSafe(|| run::run_plan(p, trace))) {
        Ok(o) => o,
        Err(e) => {
            return (Verdict { class: Some("HARNESS".into()), msg: format!("harness failed while running: {} {}", crate::ops::panic_text(&e), run::panic_at()), ..Default::default() }, Outcome::default(), None)
        }
    };
    let mut v = Verdict {
        log_hash: o.log_hash,
        fired: o.phases.iter().map(|p| p.fired.clone()).collect(),
        taken: o.phases.iter().map(|p| p.taken.clone()).collect(),
        ..Default::default()
    };
    let mut info = None;
    match catch_unwind(AssertUnwindSafe(|| props::check(p, &o))) {
        Ok(Ok(i)) => {
            if let Some((k, m)) = &i.known {
                v.class = Some(format!("known:{}", k));
                v.msg = m.clone();
            }
            info = Some(i);
        }
        Ok(Err(e)) => {
            v.class = Some(e.class);
            v.msg = e.msg;
        }
        Err(e) => {
            v.class = Some("HARNESS".into());
            v.msg = format!("harness failed while judging: {} {}", crate::ops::panic_text(&e), run::panic_at());
        }
    }
    (v, o, info)
}

fn limits() {
    unsafe {
        let l = libc::rlimit { rlim_cur: 4 << 30, rlim_max: 4 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
    }
}
static CURRENT: AtomicU64 = AtomicU64::new(u64::MAX);
/// Ends the process when one run takes far longer than any run should.
fn watchdog() {
    std::thread::spawn(|| {
        let mut last = (u64::MAX, sys::now_ns());
        loop {
            unsafe {
                let ts = libc::timespec { tv_sec: 0, tv_nsec: 200_000_000 };
                sys::raw(libc::SYS_nanosleep, &ts as *const _ as i64, 0, 0, 0, 0, 0);
            }
            let c = CURRENT.load(Ordering::SeqCst);
            let now = sys::now_ns();
            if c != last.0 {
                last = (c, now);
            } else if c != u64::MAX && now - last.1 > HANG_S * 1_000_000_000 {
                unsafe {
                    sys::raw(libc::SYS_exit_group, 97, 0, 0, 0, 0, 0);
                }
            }
        }
    });
}

#[derive(Default)]
struct Tally {
    runs: u64,
    nontrivial: u64,
    decided: u64,
    stats: crate::world::Stats,
    sim_ns: u128,
    phases: u64,
    ops: u64,
    all: HashSet<u64>,
    nontriv: HashSet<u64>,
    variants: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    opkinds: BTreeMap<String, u64>,
}
impl Tally {
    fn add(&mut self, p: &Plan, o: &Outcome, info: &Option<props::Info>) {
        self.runs += 1;
        *self.variants.entry(if p.pure { format!("{}, codecs in Rust", p.variant) } else { p.variant.clone() }).or_insert(0) += 1;
        let s = &o.stats;
        let t = &mut self.stats;
        t.syscalls += s.syscalls;
        t.atomics += s.atomics;
        t.switches += s.switches;
        t.blocked += s.blocked;
        t.kills += s.kills;
        for i in 0..16 {
            t.errs[i] += s.errs[i];
        }
        t.short_r += s.short_r;
        t.short_w += s.short_w;
        t.intr += s.intr;
        t.torn += s.torn;
        t.enospc += s.enospc;
        t.erofs += s.erofs;
        self.sim_ns += o.sim_ns as u128;
        self.phases += o.phases.len() as u64;
        for ph in &o.phases {
            self.ops += ph.recs.len() as u64;
            for r in &ph.recs {
                let d = format!("{:?}", r.op);
                let n = d.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string();
                let out = match r.res {
                    Res::Ok(_) => "ok",
                    Res::Err(..) => "err",
                    Res::Panic(_) => "panic",
                    Res::Killed => "killed",
                };
                *self.opkinds.entry(format!("{}.{}", n, out)).or_insert(0) += 1;
            }
        }
        for (k, v) in &o.probes {
            *self.probes.entry(k.to_string()).or_insert(0) += v;
        }
        self.all.insert(o.log_hash);
        if let Some(i) = info {
            self.decided += i.decided;
            if i.nontrivial {
                self.nontrivial += 1;
                self.nontriv.insert(o.log_hash);
            }
        }
    }
    fn json(&self) -> Value {
        let h = |s: &HashSet<u64>| s.iter().map(|x| format!("{:x}", x)).collect::<Vec<_>>().join(" ");
        let s = &self.stats;
        json!({"runs": self.runs, "nontrivial": self.nontrivial, "decided": self.decided, "sim_ns": self.sim_ns.to_string(),
            "phases": self.phases, "ops": self.ops, "all": h(&self.all), "nt": h(&self.nontriv), "variants": self.variants, "probes": self.probes, "opkinds": self.opkinds,
            "stats": [s.syscalls, s.switches, s.blocked, s.kills, s.short_r, s.short_w, s.intr, s.torn, s.enospc, s.erofs, s.atomics], "errs": s.errs})
    }
    fn merge(&mut self, v: &Value) {
        let n = |k: &str| v[k].as_u64().unwrap_or(0);
        self.runs += n("runs");
        self.nontrivial += n("nontrivial");
        self.decided += n("decided");
        self.phases += n("phases");
        self.ops += n("ops");
        self.sim_ns += v["sim_ns"].as_str().and_then(|s| s.parse::<u128>().ok()).unwrap_or(0);
        for (k, set) in [("all", &mut self.all), ("nt", &mut self.nontriv)] {
            for x in v[k].as_str().unwrap_or("").split(' ') {
                if let Ok(x) = u64::from_str_radix(x, 16) {
                    set.insert(x);
                }
            }
        }
        for (k, m) in [("variants", &mut self.variants), ("probes", &mut self.probes), ("opkinds", &mut self.opkinds)] {
            if let Some(o) = v[k].as_object() {
                for (a, b) in o {
                    *m.entry(a.clone()).or_insert(0) += b.as_u64().unwrap_or(0);
                }
            }
        }
        let a: Vec<u64> = v["stats"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0)).collect()).unwrap_or_default();
        if a.len() == 11 {
            let s = &mut self.stats;
            for (f, x) in [
                &mut s.syscalls, &mut s.switches, &mut s.blocked, &mut s.kills, &mut s.short_r, &mut s.short_w, &mut s.intr, &mut s.torn, &mut s.enospc, &mut s.erofs, &mut s.atomics,
            ]
            .into_iter()
            .zip(a)
            {
                *f += x;
            }
        }
        if let Some(e) = v["errs"].as_array() {
            for (i, x) in e.iter().enumerate().take(16) {
                self.stats.errs[i] += x.as_u64().unwrap_or(0);
            }
        }
    }
}

/// Runs plans i = start, start+stride, ... < end and reports on stdout, one JSON value per line.
pub fn worker(prop: &str, seed: u64, start: u64, stride: u64, end: u64, secs: u64, progress: &str) {
    limits();
    watchdog();
    let pf = std::fs::OpenOptions::new().create(true).write(true).open(progress).expect("progress file");
    use std::os::unix::io::AsRawFd;
    let fd = pf.as_raw_fd();
    let mut out = std::io::stdout();
    let mut t = Tally::default();
    let t0 = Instant::now();
    let mut reported: HashMap<String, u32> = HashMap::new();
    let mut i = start;
    while i < end && t0.elapsed().as_secs() < secs {
        let b = i.to_le_bytes();
        unsafe {
            sys::raw(libc::SYS_pwrite64, fd as i64, b.as_ptr() as i64, 8, 0, 0, 0);
        }
        CURRENT.store(i, Ordering::SeqCst);
        let p = plan_at(prop, seed, i);
        let (v, o, info) = judge(&p, false);
        t.add(&p, &o, &info);
        if let Some(c) = v.class {
            let n = reported.entry(c.clone()).or_insert(0);
            *n += 1;
            // Enough of each for the smallest to be worth reducing.
            if *n <= 3 || (c.starts_with("known:") && *n % 64 == 0) {
                let _ = writeln!(out, "{}", json!({"v": c, "msg": v.msg, "i": i, "s": p.seed, "size": shrink::size(&p)}));
                let _ = out.flush();
            }
        }
        if i / stride % 997 == 0 {
            let _ = writeln!(out, "{}", json!({"d": i, "hash": format!("{:x}", o.log_hash)}));
        }
        i += stride;
    }
    CURRENT.store(u64::MAX, Ordering::SeqCst);
    let known: BTreeMap<&String, &u32> = reported.iter().filter(|(k, _)| k.starts_with("known:")).collect();
    let _ = writeln!(out, "{}", json!({"end": t.json(), "known": known, "wall_ms": t0.elapsed().as_millis() as u64}));
    let _ = out.flush();
    unsafe { libc::_exit(0) }
}

/// Runs the plan in a file once; verdict on stdout.
pub fn eval(path: &str) {
    limits();
    watchdog();
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    let p: Plan = serde_json::from_value(if v["plan"].is_object() { v["plan"].clone() } else { v }).unwrap();
    CURRENT.store(1, Ordering::SeqCst);
    let (v, _, _) = judge(&p, false);
    println!("{}", verdict_json(&v));
    use std::io::stdout;
    let _ = stdout().flush();
    unsafe { libc::_exit(0) }
}
fn verdict_json(v: &Verdict) -> Value {
    json!({"class": v.class, "msg": v.msg, "hash": format!("{:x}", v.log_hash), "fired": v.fired, "taken": v.taken})
}
fn verdict_of(v: &Value) -> Verdict {
    Verdict {
        class: v["class"].as_str().map(String::from),
        msg: v["msg"].as_str().unwrap_or("").into(),
        log_hash: u64::from_str_radix(v["hash"].as_str().unwrap_or("0"), 16).unwrap_or(0),
        fired: serde_json::from_value(v["fired"].clone()).unwrap_or_default(),
        taken: serde_json::from_value(v["taken"].clone()).unwrap_or_default(),
    }
}
fn me() -> PathBuf {
    std::env::current_exe().unwrap()
}
/// This simulator built with the library's codecs written in Rust, or with the default ones.
fn exe(pure: bool) -> PathBuf {
    if pure == cfg!(feature = "pure") {
        return me();
    }
    let release = me().parent().unwrap().to_path_buf();
    let target = release.parent().unwrap();
    target.with_file_name(if pure { "target-pure" } else { "target" }).join("release").join("zsim")
}
/// The verdict on a plan, reached in a process of its own: ending abnormally is a verdict too.
pub fn eval_fresh(p: &Plan, dir: &Path) -> Verdict {
    let f = dir.join(format!("eval-{}.json", std::process::id()));
    std::fs::write(&f, serde_json::to_string(p).unwrap()).unwrap();
    let o = Command::new(exe(p.pure)).arg("eval").arg(&f).stdin(Stdio::null()).stderr(Stdio::piped()).output().unwrap();
    let _ = std::fs::remove_file(&f);
    abnormal(&o.status, &o.stderr).unwrap_or_else(|| {
        let s = String::from_utf8_lossy(&o.stdout);
        s.lines().rev().find_map(|l| serde_json::from_str::<Value>(l).ok()).map(|v| verdict_of(&v)).unwrap_or_else(|| Verdict {
            class: Some("HARNESS".into()),
            msg: "no verdict".into(),
            ..Default::default()
        })
    })
}
fn abnormal(st: &std::process::ExitStatus, err: &[u8]) -> Option<Verdict> {
    use std::os::unix::process::ExitStatusExt;
    if st.code() == Some(97) {
        return Some(Verdict { class: Some("hang".into()), msg: format!("an operation did not return within {} s of computation, making no system calls", HANG_S), ..Default::default() });
    }
    if let Some(s) = st.signal() {
        if s == libc::SIGKILL || s == libc::SIGTERM {
            return Some(Verdict { class: Some("HARNESS".into()), msg: format!("ended by signal {} from outside", s), ..Default::default() });
        }
        let e = String::from_utf8_lossy(err);
        let e: String = e.lines().filter(|l| !l.is_empty()).take(4).collect::<Vec<_>>().join("; ");
        return Some(Verdict { class: Some("abort".into()), msg: format!("the process was ended by signal {}: {}", s, e), ..Default::default() });
    }
    None
}

struct Rep {
    class: String,
    msg: String,
    i: u64,
    size: usize,
}
enum Ev {
    Line(usize, String),
    Eof(usize),
}

fn spawn(tx: &mpsc::Sender<Ev>, id: usize, pure: bool, args: &[String]) -> Child {
    let mut c = Command::new(exe(pure)).args(args).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().expect("worker");
    let o = c.stdout.take().unwrap();
    let tx = tx.clone();
    std::thread::spawn(move || {
        for l in BufReader::new(o).lines() {
            match l {
                Ok(l) => {
                    let _ = tx.send(Ev::Line(id, l));
                }
                Err(_) => break,
            }
        }
        let _ = tx.send(Ev::Eof(id));
    });
    c
}

struct Known {
    property: String,
    id: String,
    what: String,
}
/// Lines `finding: property=<id> id=<class> <what fails>`; other lines (`fixed: ...`, comments) suppress nothing.
fn known_findings(root: &Path) -> Vec<Known> {
    let t = std::fs::read_to_string(root.join("known-findings.txt")).unwrap_or_default();
    t.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("finding: property=")?;
            let mut w = l.splitn(3, ' ');
            Some(Known { property: w.next()?.into(), id: w.next()?.strip_prefix("id=")?.into(), what: w.next()?.into() })
        })
        .collect()
}

pub struct Tier {
    pub name: &'static str,
    pub runs: u64,
    pub secs: u64,
    pub shrink_s: u64,
}
pub fn tier(name: &str, prop: &str) -> Tier {
    let _ = prop;
    if name == "thorough" {
        Tier { name: "thorough", runs: 3_000_000, secs: 600, shrink_s: 90 }
    } else {
        Tier { name: "quick", runs: 100_000, secs: 150, shrink_s: 45 }
    }
}

pub fn check(prop: &str, tier: Tier, seed: u64, root: &Path, workers: usize) -> i32 {
    let t0 = Instant::now();
    let work = root.join("work").join(format!("{}-{}", prop, std::process::id()));
    let replays = root.join("work").join("replays");
    std::fs::create_dir_all(&work).unwrap();
    std::fs::create_dir_all(&replays).unwrap();
    std::fs::create_dir_all(root.join("evidence")).unwrap();
    let known = known_findings(root);
    let (tx, rx) = mpsc::channel();
    let mut kids: Vec<Option<Child>> = vec![];
    let pfile = |w: usize| work.join(format!("progress-{}", w));
    // The last worker's runs are those with the codecs written in Rust, where these matter.
    let with_pure = PURE_PROPS.contains(&prop) && workers > 1 && exe(true).exists();
    if PURE_PROPS.contains(&prop) && !with_pure {
        eprintln!("note: without the library built with its codecs written in Rust");
    }
    let main_workers = if with_pure { workers - 1 } else { workers };
    let is_pure = |w: usize| w >= main_workers;
    let (main_runs, pure_runs) = if with_pure { (tier.runs - tier.runs / 8, tier.runs / 8) } else { (tier.runs, 0) };
    let stride = |w: usize| if is_pure(w) { 1 } else { main_workers as u64 };
    let args = |w: usize, from: u64, left: u64| -> Vec<String> {
        let end = if is_pure(w) { PURE_BASE + pure_runs } else { main_runs };
        vec!["worker".into(), prop.into(), seed.to_string(), from.to_string(), stride(w).to_string(), end.to_string(), left.to_string(), pfile(w).display().to_string()]
    };
    for w in 0..workers {
        let from = if is_pure(w) { PURE_BASE } else { w as u64 };
        kids.push(Some(spawn(&tx, w, is_pure(w), &args(w, from, tier.secs))));
    }
    let mut tally = Tally::default();
    let mut reps: Vec<Rep> = vec![];
    let mut hashes: Vec<(u64, String)> = vec![];
    let mut knowns: BTreeMap<String, u64> = BTreeMap::new();
    let mut known_reps: HashMap<String, Rep> = HashMap::new();
    let mut harness: Vec<String> = vec![];
    let mut restarts = 0;
    let mut live = workers;
    let mut stop_at: Option<Instant> = None;
    let mut stopped = false;
    let mut broke_off = vec![];
    while live > 0 {
        let wait = stop_at.map_or(Duration::from_secs(3600), |s| s.saturating_duration_since(Instant::now()));
        match rx.recv_timeout(wait) {
            Ok(Ev::Line(_, l)) => {
                let v: Value = match serde_json::from_str(&l) {
                    Ok(v) => v,
                    Err(_) => continue,
                };
                if let Some(c) = v["v"].as_str() {
                    let r = Rep { class: c.into(), msg: v["msg"].as_str().unwrap_or("").into(), i: v["i"].as_u64().unwrap(), size: v["size"].as_u64().unwrap() as usize };
                    if c == "HARNESS" {
                        harness.push(format!("run {}: {}", r.i, r.msg));
                        if harness.len() > 3 && stop_at.is_none() {
                            stop_at = Some(Instant::now());
                        }
                        continue;
                    }
                    if let Some(id) = c.strip_prefix("known:") {
                        if known.iter().any(|k| k.property == prop && k.id == id) {
                            let e = known_reps.entry(id.to_string());
                            match e {
                                std::collections::hash_map::Entry::Occupied(mut e) => {
                                    if e.get().size > r.size {
                                        e.insert(r);
                                    }
                                }
                                std::collections::hash_map::Entry::Vacant(e) => {
                                    e.insert(r);
                                }
                            }
                            continue;
                        }
                    }
                    reps.push(r);
                    if stop_at.is_none() {
                        stop_at = Some(Instant::now() + Duration::from_millis(1500));
                    }
                } else if v["d"].is_u64() {
                    hashes.push((v["d"].as_u64().unwrap(), v["hash"].as_str().unwrap_or("").into()));
                } else if v["end"].is_object() {
                    tally.merge(&v["end"]);
                    if let Some(o) = v["known"].as_object() {
                        for (k, n) in o {
                            *knowns.entry(k.trim_start_matches("known:").to_string()).or_insert(0) += n.as_u64().unwrap_or(0);
                        }
                    }
                }
            }
            Ok(Ev::Eof(w)) => {
                let c = match kids[w].take() {
                    Some(c) => c,
                    None => continue,
                };
                live -= 1;
                let o = c.wait_with_output().unwrap();
                if stopped {
                    continue;
                }
                if !o.status.success() {
                    let i = std::fs::read(pfile(w)).ok().filter(|b| b.len() == 8).map(|b| u64::from_le_bytes([b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]]));
                    let e: String = String::from_utf8_lossy(&o.stderr).lines().take(4).collect::<Vec<_>>().join("; ");
                    broke_off.push((i, format!("{:?} {}", o.status, e)));
                    if let Some(i) = i {
                        // What was running may or may not be the cause: ask it alone.
                        let p = plan_at(prop, seed, i);
                        let v = eval_fresh(&p, &work);
                        match v.class {
                            Some(c) if c == "abort" || c == "hang" => {
                                reps.push(Rep { class: c, msg: v.msg, i, size: shrink::size(&p) });
                                if stop_at.is_none() {
                                    stop_at = Some(Instant::now() + Duration::from_millis(1500));
                                }
                            }
                            _ if restarts < 16 => {
                                restarts += 1;
                                let left = tier.secs.saturating_sub(t0.elapsed().as_secs());
                                kids[w] = Some(spawn(&tx, w, is_pure(w), &args(w, i + stride(w), left)));
                                live += 1;
                            }
                            _ => harness.push(format!("worker ended with {:?} and its run {} alone does not", o.status, i)),
                        }
                    } else {
                        harness.push(format!("worker ended with {:?} {}", o.status, e));
                    }
                }
            }
            Err(mpsc::RecvTimeoutError::Timeout) => {
                stopped = true;
                for c in kids.iter_mut().flatten() {
                    let _ = c.kill();
                }
                stop_at = Some(Instant::now() + Duration::from_secs(30));
            }
            Err(mpsc::RecvTimeoutError::Disconnected) => break,
        }
    }
    let explored = t0.elapsed();

    // The same seeds in another process, all in one, in reverse order: identical executions.
    let (mut again, mut same) = (0u64, 0u64);
    if reps.is_empty() {
        let want: HashMap<u64, &String> = hashes.iter().map(|h| (h.0, &h.1)).collect();
        for pure in [false, true] {
            let list: Vec<String> = hashes.iter().rev().filter(|h| (h.0 >= PURE_BASE) == pure).take(64).map(|h| h.0.to_string()).collect();
            if list.is_empty() {
                continue;
            }
            let o = match Command::new(exe(pure)).arg("hashes").arg(prop).arg(seed.to_string()).args(&list).output() {
                Ok(o) => o,
                Err(_) => continue,
            };
            for l in String::from_utf8_lossy(&o.stdout).lines() {
                let mut w = l.split(' ');
                if let (Some(i), Some(h)) = (w.next().and_then(|x| x.parse::<u64>().ok()), w.next()) {
                    again += 1;
                    if want.get(&i).map_or(false, |x| *x == h) {
                        same += 1;
                    } else {
                        eprintln!("warning: run {} of {} took a different course when repeated", i, prop);
                    }
                }
            }
        }
    }

    // Reduce one failure per class.
    let mut lines = vec![];
    let mut found = vec![];
    let mut classes: Vec<String> = vec![];
    reps.sort_by_key(|r| r.size);
    for r in &reps {
        if !classes.contains(&r.class) {
            classes.push(r.class.clone());
        }
    }
    for c in classes.iter().take(3) {
        let mut done = false;
        for r in reps.iter().filter(|r| &r.class == c).take(3) {
            let plan = plan_at(prop, seed, r.i);
            let limit = Duration::from_secs(tier.shrink_s / (1 + found.len() as u64));
            if let Some((path, msg, n)) = reduce(prop, seed, r.i, &plan, c, limit, &work, &replays) {
                lines.push(format!("VIOLATION property={} replay={}", prop, path.display()));
                eprintln!("{} [{}] {} (reduced in {} tries; run {} of seed {})", prop, c, msg, n, r.i, seed);
                found.push(json!({"class": c, "message": msg, "replay": path.display().to_string(), "run": r.i}));
                done = true;
                break;
            }
        }
        if !done {
            harness.push(format!("failure of class {} was not seen again when its run was repeated", c));
        }
    }
    let mut known_out = vec![];
    for k in known.iter().filter(|k| k.property == prop) {
        let n = knowns.get(&k.id).copied().unwrap_or(0);
        if n > 0 || known_reps.contains_key(&k.id) {
            println!("KNOWN-FINDING: property={} {} ({}; shown by {} of {} runs)", prop, k.what, k.id, n, tally.runs);
        }
        known_out.push(json!({"id": k.id, "what": k.what, "runs": n}));
    }
    for l in &lines {
        println!("{}", l);
    }
    for h in &harness {
        eprintln!("harness: {}", h);
    }
    let wall = t0.elapsed().as_secs_f64();
    let ev = evidence(prop, &tier, seed, &tally, explored.as_secs_f64(), wall, workers, again, same, &found, &known_out, &broke_off, restarts);
    std::fs::write(root.join("evidence").join(format!("{}.json", prop)), serde_json::to_string_pretty(&ev).unwrap() + "\n").unwrap();
    let _ = std::fs::remove_dir_all(&work);
    eprintln!(
        "{} {}: {} runs ({} distinct), {} nontrivial, {} answers decided, {:.1} s",
        prop, tier.name, tally.runs, tally.all.len(), tally.nontrivial, tally.decided, wall
    );
    if !lines.is_empty() {
        1
    } else if !harness.is_empty() {
        2
    } else {
        0
    }
}

/// Prints `<run> <hash>` for the given runs.
pub fn hashes(prop: &str, seed: u64, list: &[String]) {
    limits();
    watchdog();
    for i in list {
        let i: u64 = i.parse().unwrap();
        CURRENT.store(i, Ordering::SeqCst);
        let (_, o, _) = judge(&plan_at(prop, seed, i), false);
        println!("{} {:x}", i, o.log_hash);
    }
    unsafe { libc::_exit(0) }
}

fn reduce(prop: &str, seed: u64, i: u64, plan: &Plan, class: &str, limit: Duration, work: &Path, replays: &Path) -> Option<(PathBuf, String, u32)> {
    // Reduction happens in a process of its own, so that a run ending it loses only that attempt.
    let first = eval_fresh(plan, work);
    if first.class.as_deref() != Some(class) {
        return None;
    }
    let (best, tries) = if class == "abort" || class == "hang" {
        let lim = if class == "hang" { 4 } else { 200 };
        shrink::shrink(&mut |p| eval_fresh(p, work), plan, class, limit, lim)
    } else {
        let f = work.join("shrink.json");
        std::fs::write(&f, serde_json::to_string(plan).unwrap()).unwrap();
        let o = Command::new(exe(plan.pure)).arg("shrink").arg(&f).arg(class).arg(limit.as_secs().to_string()).stderr(Stdio::null()).output().unwrap();
        match serde_json::from_slice::<Value>(&o.stdout) {
            Ok(v) => (serde_json::from_value(v["plan"].clone()).ok()?, v["tries"].as_u64().unwrap_or(0) as u32),
            Err(_) => (plan.clone(), 0),
        }
    };
    let mut best = best;
    let mut v = eval_fresh(&best, work);
    if v.class.as_deref() != Some(class) {
        best = plan.clone();
        v = first;
    }
    let name = format!("{}-{}-{}.json", prop, seed, i);
    let path = replays.join(name);
    let doc = json!({"format": 1, "property": prop, "class": class, "message": v.msg, "verif_seed": seed, "run": i, "plan_seed": plan.seed,
        "log_hash": format!("{:x}", v.log_hash), "size": shrink::size(&best), "original_size": shrink::size(plan), "plan": best});
    std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).unwrap();
    let t = Command::new(me()).arg("replay").arg(&path).stderr(Stdio::null()).output().ok()?;
    std::fs::write(path.with_extension("trace.txt"), &t.stdout).ok()?;
    let repro = String::from_utf8_lossy(&t.stdout).lines().any(|l| l.starts_with("REPRODUCED"));
    if !repro && class != "abort" && class != "hang" {
        return None;
    }
    Some((path, v.msg, tries))
}

pub fn shrink_cmd(path: &str, class: &str, secs: u64) {
    limits();
    watchdog();
    let p: Plan = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    let mut n = 0;
    let (best, tries) = shrink::shrink(
        &mut |p| {
            n += 1;
            CURRENT.store(n, Ordering::SeqCst);
            judge(p, false).0
        },
        &p,
        class,
        Duration::from_secs(secs),
        4000,
    );
    println!("{}", json!({"plan": best, "tries": tries}));
    let _ = std::io::stdout().flush();
    unsafe { libc::_exit(0) }
}

/// Re-executes a replay file: trace, verdict, and whether the execution is the recorded one. Exit 1 when it shows the violation.
pub fn replay(path: &str) -> i32 {
    let doc: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("replay file");
    let class = doc["class"].as_str().unwrap_or("").to_string();
    let prop = doc["property"].as_str().unwrap_or("").to_string();
    let p: Plan = serde_json::from_value(doc["plan"].clone()).expect("plan");
    if p.pure != cfg!(feature = "pure") {
        let st = Command::new(exe(p.pure)).arg("replay").arg(path).status().expect("the other build of the simulator");
        return st.code().unwrap_or(2);
    }
    if class == "abort" || class == "hang" {
        let d = std::env::temp_dir().join(format!("zsim-replay-{}", std::process::id()));
        std::fs::create_dir_all(&d).unwrap();
        let v = eval_fresh(&p, &d);
        let _ = std::fs::remove_dir_all(&d);
        if v.class.as_deref() == Some(&class) {
            println!("REPRODUCED [{}] {}", class, v.msg);
            println!("VIOLATION property={} replay={}", prop, path);
            return 1;
        }
        println!("NOT REPRODUCED: {:?} {}", v.class, v.msg);
        return 0;
    }
    limits();
    let (v, o, _) = judge(&p, true);
    println!("property {} variant {} plan seed {}", prop, p.variant, p.seed);
    println!("{}", serde_json::to_string(&p.env).unwrap());
    for (i, m) in p.metas.iter().enumerate() {
        println!("meta {}: {}", i, m);
    }
    for l in &o.trace {
        println!("{}", l);
    }
    let exact = format!("{:x}", v.log_hash) == doc["log_hash"].as_str().unwrap_or("");
    if v.class.as_deref() == Some(&class) {
        println!("REPRODUCED{} [{}] {}", if exact { " exactly" } else { " (a different execution: the code under test has changed)" }, class, v.msg);
        println!("VIOLATION property={} replay={}", prop, path);
        1
    } else {
        println!("NOT REPRODUCED: {} {}", v.class.clone().unwrap_or_else(|| "the property holds in this execution".into()), v.msg);
        if v.class.is_some() {
            1
        } else {
            0
        }
    }
}

fn evidence(
    prop: &str, tier: &Tier, seed: u64, t: &Tally, explored: f64, wall: f64, workers: usize, again: u64, same: u64, found: &[Value], known: &[Value],
    broke: &[(Option<u64>, String)], restarts: u32,
) -> Value {
    let s = &t.stats;
    let mut faults = serde_json::Map::new();
    for (i, n) in s.errs.iter().enumerate() {
        if *n > 0 {
            faults.insert(format!("error_{}", ERRS[i]), json!(n));
        }
    }
    for (k, n) in [
        ("process_killed", s.kills),
        ("write_torn_by_kill", s.torn),
        ("short_read", s.short_r),
        ("short_write", s.short_w),
        ("interrupted_call", s.intr),
        ("disk_full", s.enospc),
        ("read_only_file_system", s.erofs),
    ] {
        if n > 0 {
            faults.insert(k.into(), json!(n));
        }
    }
    let sample = |i: u64| -> Value {
        let p = plan_at(prop, seed, i);
        let (v, o, _) = judge(&p, false);
        let hist: Vec<String> = o
            .phases
            .iter()
            .flat_map(|ph| ph.recs.iter())
            .take(40)
            .map(|r| format!("phase {} t{} #{} {:?} -> {} ({} calls, {} errors injected)", r.phase, r.tid, r.idx, r.op, run::brief(&r.res), r.syscalls, r.hard))
            .collect();
        json!({"run": i, "plan_seed": p.seed, "variant": p.variant, "array_metadata": p.metas, "history": hist, "verdict": v.class.unwrap_or_else(|| "held".into()), "log_hash": format!("{:x}", o.log_hash)})
    };
    let mut samples = vec![];
    for i in 0..2 {
        // Only when nothing failed: a failing run may end this process.
        if found.is_empty() && broke.is_empty() {
            samples.push(sample(i));
        }
    }
    if samples.is_empty() {
        samples.extend(found.iter().cloned());
    }
    json!({
        "property": prop, "tier": tier.name, "seed": seed, "level": "exploration", "wall_s": wall, "violations": found.len(),
        "coverage": {
            "evaluations": t.runs,
            "distinct_nontrivial": t.nontriv.len(),
            "rule": rule(prop),
            "samples": samples,
            "runs_per_hour": (t.runs as f64 / explored * 3600.0) as u64,
            "seeds_per_hour": (t.runs as f64 / explored * 3600.0) as u64,
            "worker_processes": workers,
            "simulated_seconds": (t.sim_ns / 1_000_000_000) as u64,
            "simulated_system_calls": s.syscalls,
            "scheduling_points_at_atomic_operations": s.atomics,
            "simulated_phases": t.phases,
            "operations": t.ops,
            "operations_by_kind_and_outcome": t.opkinds,
            "answers_compared_with_a_definite_expectation": t.decided,
            "distinct_executions": t.all.len(),
            "distinct_executions_measure": "hash over the whole sequence of simulated system calls: which thread made it, its arguments, its result, and each injected fault",
            "thread_switches": s.switches,
            "blocked_waits": s.blocked,
            "faults_injected": faults,
            "probes": t.probes,
            "variants": t.variants,
            "repeated_in_another_process": again,
            "repeated_identically": same,
            "known_findings": known,
            "violations_found": found,
            "worker_restarts": restarts,
            "real_components": "the zarr crate as built from /repo (filesystem store, storage traits, hierarchy operations, chunk encoding, codecs, ndarray layer, metadata), the codec libraries (C and, in the runs labelled \"codecs in Rust\", those the lz_pure and gzip_pure features select), serde_json, fs2, walkdir, Rust std; custom-backend runs use the crate's storage traits over a store written for the simulation",
            "stubbed_components": "kernel file system, advisory locks, clock, process table, thread scheduling, randomness (all interposed at the libc boundary)"
        },
        "assumptions": [
            "the simulated kernel behaves as Linux with a POSIX file system; `zsim fidelity` compares it with the real one on random call sequences",
            "threads are interrupted at system calls and at the atomic operations of the library (so at locks too), not between two of these; atomic operations are sequentially consistent",
            "storage faults are those of faults_injected; loss of completed writes on power failure is outside what the library promises",
            "a pass means that no explored execution violated the property, not that none exists"
        ]
    })
}
fn rule(prop: &str) -> &'static str {
    match prop {
        "C02" | "C03" | "C18" => "Every run is a plan drawn from its seed (metadata, operations, schedule, faults). It is non-trivial when at least one storage error was injected inside an operation and at least one answer had a definite expected value; distinct when the hash of its sequence of system calls differs.",
        "C04" => "Every run is a plan drawn from its seed (metadata, operations, schedule, crash points). It is non-trivial when a process was killed; distinct when the hash of its sequence of system calls differs.",
        "C09" | "C13" => "Every run is a plan drawn from its seed (metadata, operations, schedule, faults). It is non-trivial when answers were decided and threads were switched, a process was killed or an error was injected; distinct when the hash of its sequence of system calls differs.",
        "C01" | "C08" | "C10" | "C12" | "C16" | "C19" | "C20" | "C21" => "Every run is a plan drawn from its seed (metadata, operations, schedule, faults). It is non-trivial when at least one answer of the library was compared with a definite expected value; distinct when the hash of its sequence of system calls differs.",
        _ => "Every run is a plan drawn from its seed (metadata, operations, schedule, faults). It is non-trivial when the scheduler switched between threads, or the property's own rule (see DESIGN.md) counted it; distinct when the hash of its sequence of system calls differs.",
    }
}

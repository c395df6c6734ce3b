//! The simulated machine: kernel (file system, descriptors, locks, clock), processes, thread scheduler, fault engine.
//!
//! Exactly one thread runs at any time (the one holding the token, or the controller), so the world is a plain global.
use crate::rng::{hash2, hash_bytes, Rng};
use crate::sys;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::{AtomicU32, Ordering};

pub type Ino = usize;
pub const VFD_BASE: i32 = 1_000_000;
pub const ROOT: Ino = 1;

thread_local! {
    /// Index of the simulated thread running on this OS thread, or -1.
    pub static TID: Cell<i32> = const { Cell::new(-1) };
    /// Set while harness code (not code under test) runs on a simulated thread.
    pub static HARNESS: Cell<bool> = const { Cell::new(false) };
}

#[inline]
pub fn simulated() -> bool {
    TID.with(|t| t.get() >= 0) && !HARNESS.with(|h| h.get())
}

static mut WORLD: *mut World = std::ptr::null_mut();
#[allow(static_mut_refs)]
pub fn world() -> &'static mut World {
    unsafe { &mut *WORLD }
}
pub fn have_world() -> bool {
    unsafe { !WORLD.is_null() }
}
pub fn install(w: World) {
    unsafe {
        if !WORLD.is_null() {
            drop(Box::from_raw(WORLD));
        }
        WORLD = Box::into_raw(Box::new(w));
    }
}

// ---------------------------------------------------------------- faults

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub enum Cls {
    Open,
    Creat,
    Read,
    Write,
    Stat,
    Lock,
    Unlink,
    Rmdir,
    Mkdir,
    Rename,
    Opendir,
    Readdir,
    Trunc,
    Sync,
    Close,
    Other,
}
pub const NCLS: usize = 16;
impl Cls {
    pub fn bit(self) -> u32 {
        1 << (self as u32)
    }
    pub fn errnos(self) -> &'static [i32] {
        use libc::*;
        match self {
            Cls::Open => &[EIO, EMFILE, EACCES, ENFILE, ESTALE],
            Cls::Creat => &[EIO, ENOSPC, EMFILE, EACCES, EROFS],
            Cls::Read => &[EIO, ESTALE],
            Cls::Write => &[ENOSPC, EIO, EDQUOT],
            Cls::Stat => &[EIO, EACCES, ESTALE],
            Cls::Lock => &[ENOLCK, EIO, EINTR],
            Cls::Unlink => &[EIO, EACCES, EROFS],
            Cls::Rmdir => &[EIO, EACCES],
            Cls::Mkdir => &[ENOSPC, EIO, EACCES],
            Cls::Rename => &[EIO, ENOSPC, EACCES],
            Cls::Opendir => &[EIO, EMFILE, EACCES],
            Cls::Readdir => &[EIO],
            Cls::Trunc => &[EIO, ENOSPC],
            Cls::Sync => &[EIO, ENOSPC],
            Cls::Close => &[],
            Cls::Other => &[],
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum FKind {
    /// Fail with the i-th errno of the call's class.
    Err(u32),
    /// Transfer only part (per mille) of the bytes.
    Short(u32),
    /// Fail with EINTR before transferring anything.
    Intr,
    /// The process dies before the call.
    Kill,
    /// A write stores part of its bytes, then the process dies.
    KillPartial(u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct Fault {
    pub phase: usize,
    pub tid: usize,
    pub op: usize,
    pub k: u32,
    pub kind: FKind,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Rates {
    pub seed: u64,
    pub err: f64,
    pub kill: f64,
    pub short: f64,
    pub intr: f64,
    /// Upper bound on errors plus kills in the phase.
    pub max_hard: u32,
    /// Call classes that errors may hit (bit set), 0 = all.
    pub classes: u32,
    /// Threads that errors and kills may hit (bit set), 0 = all.
    pub tids: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Sched {
    /// Switch away with probability p at each scheduling point.
    Walk { seed: u64, p: f64 },
    /// Random priorities, demoted at d random points of the first n.
    Pct { seed: u64, d: u32, n: u32 },
    /// Decisions that differ from the default (keep running; else lowest id).
    Explicit(Vec<(u64, usize)>),
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub syscalls: u64,
    pub atomics: u64,
    pub switches: u64,
    pub blocked: u64,
    pub kills: u64,
    pub errs: [u64; NCLS],
    pub short_r: u64,
    pub short_w: u64,
    pub intr: u64,
    pub torn: u64,
    pub enospc: u64,
    pub erofs: u64,
}

// ---------------------------------------------------------------- kernel objects

pub enum Kind {
    File(Vec<u8>),
    Dir(BTreeMap<Vec<u8>, Ino>),
    Link(Vec<u8>),
}
pub struct Inode {
    pub kind: Kind,
    pub nlink: u32,
    pub opens: u32,
    pub parent: Ino,
    pub mode: u32,
    pub mtime: u64,
    pub locks: Vec<(usize, bool)>,
}
pub struct Ofd {
    pub ino: Ino,
    pub pos: u64,
    pub read: bool,
    pub write: bool,
    pub append: bool,
    pub refs: u32,
    pub path: String,
}
#[derive(Clone)]
pub struct FdEnt {
    pub ofd: usize,
    pub proc_: usize,
    pub tid: usize,
    pub op: usize,
}
#[derive(Clone, Debug)]
pub struct Proc {
    pub dead: bool,
    pub pid: i32,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum St {
    Run,
    Flock(Ino),
    Futex(usize),
    Sleep(u64),
    Join(usize),
    Done,
}
pub struct Th {
    pub proc_: usize,
    pub sem: Box<AtomicU32>,
    pub st: St,
    pub op: usize,
    pub k: u32,
    pub opsys: u32,
    pub zsteps: u32,
    pub prio: u64,
    pub hard_in_op: u32,
    pub hard_cls: u32,
    pub soft_in_op: u32,
    pub timeout: u64,
    pub is_client: bool,
    pub handle: u64,
}

#[derive(Clone, Debug)]
pub struct Escape {
    pub tid: usize,
    pub op: usize,
    pub what: &'static str,
    pub path: String,
}

#[repr(C)]
pub struct SimDir {
    pub magic: u64,
    pub ents: Vec<(Vec<u8>, Ino, u8)>,
    pub idx: usize,
    pub fd: i32,
    pub ent: libc::dirent64,
}
pub const DIR_MAGIC: u64 = 0x5a53_494d_4449_5231;

pub struct World {
    pub inodes: Vec<Option<Inode>>,
    pub ofds: Vec<Option<Ofd>>,
    pub fds: HashMap<i32, FdEnt>,
    pub next_fd: i32,
    pub procs: Vec<Proc>,
    pub threads: Vec<Th>,
    pub cur: usize,
    pub ctl: AtomicU32,
    pub phase: usize,
    pub clock: u64,
    pub step: u64,
    pub max_step: u64,
    pub spins: u32,
    pub decision: u64,
    pub sched_base: u64,
    pub seq: u64,
    pub sched: Sched,
    pub sched_rng: Rng,
    pub sched_map: HashMap<u64, usize>,
    pub pct_points: Vec<u64>,
    pub taken: Vec<(u64, usize)>,
    pub frng: Rng,
    pub rates: Option<Rates>,
    pub list: HashMap<(usize, usize, u32), FKind>,
    pub fired: Vec<Fault>,
    pub hard: u32,
    pub stats: Stats,
    pub env_rng: Rng,
    pub dir_seed: u64,
    pub dt_unknown: bool,
    pub readonly: bool,
    pub capacity: Option<u64>,
    pub used: u64,
    pub base: Option<Ino>,
    /// Where the base directory is, for it to be recognised when it is created again.
    pub base_at: Option<(Ino, Vec<u8>)>,
    pub monitor: bool,
    pub escapes: Vec<Escape>,
    pub mutations: u64,
    pub deadlock: bool,
    pub livelock: bool,
    pub log_hash: u64,
    pub trace: Option<Vec<String>>,
    pub cwd: Ino,
    pub pid_collide: bool,
    pub live: usize,
    pub probes: BTreeMap<&'static str, u64>,
    pub max_open: usize,
    pub mem: BTreeMap<String, std::sync::Arc<Vec<u8>>>,
    pub mem_buf: usize,
    pub mem_max: usize,
    pub mem_style: u32,
    pub mem_entry: Option<String>,
}

pub type R<T> = Result<T, i32>;

pub enum Dec {
    Normal,
    Short(u32),
    Torn(u32),
}

impl World {
    pub fn new(seed: u64) -> World {
        let mut w = World {
            inodes: vec![None],
            ofds: vec![],
            fds: HashMap::new(),
            next_fd: VFD_BASE,
            procs: vec![],
            threads: vec![],
            cur: 0,
            ctl: AtomicU32::new(0),
            phase: 0,
            clock: 1_700_000_000_000_000_000,
            step: 0,
            max_step: 2_000_000,
            spins: 0,
            decision: 0,
            sched_base: 0,
            seq: 0,
            sched: Sched::Explicit(vec![]),
            sched_rng: Rng::new(0),
            sched_map: HashMap::new(),
            pct_points: vec![],
            taken: vec![],
            frng: Rng::new(0),
            rates: None,
            list: HashMap::new(),
            fired: vec![],
            hard: 0,
            stats: Stats::default(),
            env_rng: Rng::new(seed),
            dir_seed: hash2(seed, 77),
            dt_unknown: false,
            readonly: false,
            capacity: None,
            used: 0,
            base: None,
            base_at: None,
            monitor: false,
            escapes: vec![],
            mutations: 0,
            deadlock: false,
            livelock: false,
            log_hash: 0xcbf2_9ce4_8422_2325,
            trace: None,
            cwd: ROOT,
            pid_collide: false,
            live: 0,
            probes: BTreeMap::new(),
            max_open: 0,
            mem: BTreeMap::new(),
            mem_buf: 0,
            mem_max: usize::MAX,
            mem_style: 0,
            mem_entry: None,
        };
        w.inodes.push(Some(Inode {
            kind: Kind::Dir(BTreeMap::new()),
            nlink: 2,
            opens: 0,
            parent: ROOT,
            mode: 0o755,
            mtime: w.clock,
            locks: vec![],
        }));
        w
    }

    // ------------------------------------------------------------ direct access for the controller (no faults)

    pub fn ino(&self, i: Ino) -> &Inode {
        self.inodes[i].as_ref().unwrap()
    }
    pub fn ino_mut(&mut self, i: Ino) -> &mut Inode {
        self.inodes[i].as_mut().unwrap()
    }
    fn new_inode(&mut self, kind: Kind, parent: Ino, mode: u32) -> Ino {
        let nlink = if matches!(kind, Kind::Dir(_)) { 2 } else { 1 };
        let n = Inode { kind, nlink, opens: 0, parent, mode, mtime: self.clock, locks: vec![] };
        self.inodes.push(Some(n));
        self.inodes.len() - 1
    }
    pub fn dir(&self, i: Ino) -> R<&BTreeMap<Vec<u8>, Ino>> {
        match &self.ino(i).kind {
            Kind::Dir(d) => Ok(d),
            _ => Err(libc::ENOTDIR),
        }
    }
    fn dir_mut(&mut self, i: Ino) -> &mut BTreeMap<Vec<u8>, Ino> {
        match &mut self.ino_mut(i).kind {
            Kind::Dir(d) => d,
            _ => unreachable!(),
        }
    }
    pub fn mkdirs(&mut self, path: &str) -> Ino {
        let mut cur = ROOT;
        for c in path.split('/').filter(|c| !c.is_empty()) {
            cur = match self.dir(cur).unwrap().get(c.as_bytes()) {
                Some(i) => *i,
                None => {
                    let n = self.new_inode(Kind::Dir(BTreeMap::new()), cur, 0o755);
                    self.dir_mut(cur).insert(c.as_bytes().to_vec(), n);
                    n
                }
            };
        }
        cur
    }
    pub fn put_file(&mut self, path: &str, data: &[u8]) {
        let (d, n) = path.rsplit_once('/').unwrap();
        let d = self.mkdirs(d);
        if let Some(&i) = self.dir(d).unwrap().get(n.as_bytes()) {
            let old = match &self.ino(i).kind {
                Kind::File(f) => f.len() as u64,
                _ => 0,
            };
            self.used = self.used - old + data.len() as u64;
            self.ino_mut(i).kind = Kind::File(data.to_vec());
        } else {
            let i = self.new_inode(Kind::File(data.to_vec()), d, 0o644);
            self.used += data.len() as u64;
            self.dir_mut(d).insert(n.as_bytes().to_vec(), i);
        }
    }
    pub fn put_link(&mut self, path: &str, to: &str) {
        let (d, n) = path.rsplit_once('/').unwrap();
        let d = self.mkdirs(d);
        let i = self.new_inode(Kind::Link(to.as_bytes().to_vec()), d, 0o777);
        self.dir_mut(d).insert(n.as_bytes().to_vec(), i);
    }
    pub fn remove_file(&mut self, path: &str) {
        let (d, n) = path.rsplit_once('/').unwrap();
        let d = self.mkdirs(d);
        if let Some(i) = self.dir_mut(d).remove(n.as_bytes()) {
            self.ino_mut(i).nlink -= 1;
            self.reap(i);
        }
    }
    pub fn lookup(&self, path: &str) -> Option<Ino> {
        self.resolve(ROOT, path.as_bytes(), true).ok().and_then(|r| r.2)
    }
    pub fn get_file(&self, path: &str) -> Option<Vec<u8>> {
        match &self.ino(self.lookup(path)?).kind {
            Kind::File(f) => Some(f.clone()),
            _ => None,
        }
    }
    /// All paths below `path`: directories as None, files and links as contents.
    pub fn image(&self, path: &str) -> BTreeMap<String, Option<Vec<u8>>> {
        let mut out = BTreeMap::new();
        if let Some(i) = self.lookup(path) {
            self.image_rec(i, String::new(), &mut out);
        }
        out
    }
    fn image_rec(&self, i: Ino, at: String, out: &mut BTreeMap<String, Option<Vec<u8>>>) {
        match &self.ino(i).kind {
            Kind::File(f) => {
                out.insert(at, Some(f.clone()));
            }
            Kind::Link(f) => {
                out.insert(at + "@", Some(f.clone()));
            }
            Kind::Dir(d) => {
                if !at.is_empty() {
                    out.insert(format!("{}/", at), None);
                }
                for (n, c) in d {
                    let name = String::from_utf8_lossy(n).into_owned();
                    let p = if at.is_empty() { name } else { format!("{}/{}", at, name) };
                    self.image_rec(*c, p, out);
                }
            }
        }
    }
    pub fn inside_base(&self, mut dir: Ino) -> bool {
        let b = match self.base {
            Some(b) => b,
            None => return true,
        };
        loop {
            if dir == b {
                return true;
            }
            if dir == ROOT {
                return false;
            }
            dir = self.ino(dir).parent;
        }
    }
    pub fn path_of(&self, mut i: Ino) -> String {
        let mut parts = vec![];
        while i != ROOT {
            let p = self.ino(i).parent;
            let n = match self.dir(p) {
                Ok(d) => d.iter().find(|(_, v)| **v == i).map(|(k, _)| String::from_utf8_lossy(k).into_owned()),
                _ => None,
            };
            parts.push(n.unwrap_or_else(|| "?".into()));
            i = p;
            if parts.len() > 64 {
                break;
            }
        }
        parts.reverse();
        format!("/{}", parts.join("/"))
    }

    // ------------------------------------------------------------ path resolution

    /// Path lookup as for stat: (parent directory, last component, inode if present). A last component that is
    /// not a name is returned as "." or "..".
    pub fn resolve(&self, start: Ino, path: &[u8], follow: bool) -> R<(Ino, Vec<u8>, Option<Ino>)> {
        let (p, n, i, slash) = self.resolve3(start, path, follow, true, &std::cell::Cell::new(0))?;
        if slash && i.map_or(false, |i| !matches!(self.ino(i).kind, Kind::Dir(_))) {
            return Err(libc::ENOTDIR);
        }
        Ok((p, n, i))
    }
    /// Lookup for creating, removing and renaming: the last component is never followed; the last field tells
    /// whether slashes follow it.
    pub fn resolve_parent(&self, start: Ino, path: &[u8]) -> R<(Ino, Vec<u8>, Option<Ino>, bool)> {
        self.resolve3(start, path, false, false, &std::cell::Cell::new(0))
    }
    /// `follow`: a last component that is a link is followed; `slash_follow`: the same where slashes follow it.
    fn resolve3(
        &self,
        start: Ino,
        path: &[u8],
        follow: bool,
        slash_follow: bool,
        links: &std::cell::Cell<u32>,
    ) -> R<(Ino, Vec<u8>, Option<Ino>, bool)> {
        if path.is_empty() {
            return Err(libc::ENOENT);
        }
        if path.len() > 4095 {
            return Err(libc::ENAMETOOLONG);
        }
        let mut cur = if path[0] == b'/' { ROOT } else { start };
        let slash = path.ends_with(b"/");
        let comps: Vec<&[u8]> = path.split(|c| *c == b'/').filter(|c| !c.is_empty()).collect();
        if comps.is_empty() {
            return Ok((cur, b".".to_vec(), Some(cur), false));
        }
        for (n, c) in comps.iter().enumerate() {
            let last = n + 1 == comps.len();
            let d = self.dir(cur)?;
            if c.len() > 255 {
                return Err(libc::ENAMETOOLONG);
            }
            if *c == b".." || *c == b"." {
                if *c == b".." {
                    cur = self.ino(cur).parent;
                }
                if last {
                    return Ok((cur, c.to_vec(), Some(cur), slash));
                }
                continue;
            }
            match d.get(*c) {
                None => {
                    if last {
                        return Ok((cur, c.to_vec(), None, slash));
                    }
                    return Err(libc::ENOENT);
                }
                Some(&i) => {
                    if let Kind::Link(t) = &self.ino(i).kind {
                        if !last || if slash { slash_follow } else { follow } {
                            if links.get() >= 40 {
                                return Err(libc::ELOOP);
                            }
                            links.set(links.get() + 1);
                            let r = self.resolve3(cur, t, true, !last || slash_follow, links)?;
                            if last {
                                return Ok((r.0, r.1, r.2, r.3 || slash));
                            }
                            cur = r.2.ok_or(libc::ENOENT)?;
                            continue;
                        }
                    }
                    if last {
                        return Ok((cur, c.to_vec(), Some(i), slash));
                    }
                    cur = i;
                }
            }
        }
        unreachable!()
    }
    pub fn at(&self, dirfd: i32) -> R<Ino> {
        if dirfd == libc::AT_FDCWD {
            return Ok(self.cwd);
        }
        let o = self.ofd(dirfd)?;
        Ok(self.ofds[o].as_ref().unwrap().ino)
    }
    pub fn ofd(&self, fd: i32) -> R<usize> {
        self.fds.get(&fd).map(|e| e.ofd).ok_or(libc::EBADF)
    }

    // ------------------------------------------------------------ scheduling

    pub fn th(&mut self) -> &mut Th {
        let c = self.cur;
        &mut self.threads[c]
    }
    pub fn cur_dead(&self) -> bool {
        self.procs[self.threads[self.cur].proc_].dead
    }
    fn runnable(&self) -> Vec<usize> {
        (0..self.threads.len()).filter(|i| self.threads[*i].st == St::Run).collect()
    }
    fn choose(&mut self, run: &[usize]) -> usize {
        let cur = self.cur;
        let cur_ok = run.contains(&cur);
        let default = if cur_ok { cur } else { run[0] };
        let d = self.decision;
        self.decision += 1;
        if run.len() == 1 {
            return run[0];
        }
        let pick = match &self.sched {
            Sched::Explicit(_) => match self.sched_map.get(&d) {
                Some(t) if run.contains(t) => *t,
                _ => default,
            },
            Sched::Walk { p, .. } => {
                let p = *p;
                if !cur_ok || self.sched_rng.chance(p) {
                    run[self.sched_rng.usize(run.len())]
                } else {
                    cur
                }
            }
            Sched::Pct { .. } => {
                if self.pct_points.contains(&d) && cur_ok {
                    self.demote();
                }
                *run.iter().max_by_key(|t| self.threads[**t].prio).unwrap()
            }
        };
        if pick != default {
            let rel = d - self.sched_base;
            self.taken.push((rel, pick));
        }
        pick
    }
    pub fn demote(&mut self) {
        let lo = self.threads.iter().map(|t| t.prio).min().unwrap_or(1);
        let cur = self.cur;
        self.threads[cur].prio = lo.saturating_sub(1);
    }
    /// The controller hands the token to the first thread.
    pub fn start(&mut self) {
        self.cur = 0;
        let run = self.runnable();
        let n = self.choose(&run);
        self.cur = n;
        let s: *const AtomicU32 = &*self.threads[n].sem;
        unsafe {
            (*s).store(1, Ordering::SeqCst);
            sys::futex_wake(&*s);
        }
    }
    fn wake_sleepers(&mut self) {
        let now = self.clock;
        for t in &mut self.threads {
            match t.st {
                St::Sleep(u) if u <= now => t.st = St::Run,
                St::Futex(_) if t.timeout != 0 && t.timeout <= now => t.st = St::Run,
                _ => {}
            }
        }
    }
    fn next_after_block(&mut self) -> Option<usize> {
        loop {
            self.wake_sleepers();
            let run = self.runnable();
            if !run.is_empty() {
                return Some(self.choose(&run));
            }
            let next = self
                .threads
                .iter()
                .filter_map(|t| match t.st {
                    St::Sleep(u) => Some(u),
                    St::Futex(_) if t.timeout != 0 => Some(t.timeout),
                    _ => None,
                })
                .min();
            if let Some(u) = next {
                self.clock = self.clock.max(u);
                continue;
            }
            if self.threads.iter().all(|t| t.st == St::Done) {
                return None;
            }
            // Nobody can run: a deadlock. Record it and let every process die so that the run ends.
            self.deadlock = true;
            let names: Vec<String> = self.threads.iter().enumerate().map(|(i, t)| format!("t{}:{:?}", i, t.st)).collect();
            self.note(|| format!("DEADLOCK {}", names.join(" ")));
            for p in 0..self.procs.len() {
                self.kill_proc(p);
            }
            let run = self.runnable();
            if run.is_empty() {
                return None;
            }
        }
    }
    pub fn add_thread(&mut self, proc_: usize, is_client: bool) -> usize {
        let prio = self.sched_rng.u64() >> 8 | (1 << 40);
        self.threads.push(Th {
            proc_,
            sem: Box::new(AtomicU32::new(0)),
            st: St::Run,
            op: 0,
            k: 0,
            opsys: 0,
            zsteps: 0,
            prio,
            hard_in_op: 0,
            hard_cls: 0,
            soft_in_op: 0,
            timeout: 0,
            is_client,
            handle: 0,
        });
        self.threads.len() - 1
    }
    pub fn add_proc(&mut self) -> usize {
        let n = self.procs.len();
        let pid = if self.pid_collide { 1000 } else { 1000 + n as i32 };
        self.procs.push(Proc { dead: false, pid });
        n
    }
    pub fn set_sched(&mut self, s: &Sched) {
        self.sched = s.clone();
        self.sched_base = self.decision;
        self.sched_map.clear();
        self.pct_points.clear();
        match s {
            Sched::Walk { seed, .. } => self.sched_rng = Rng::new(*seed),
            Sched::Pct { seed, d, n } => {
                self.sched_rng = Rng::new(*seed);
                for _ in 0..*d {
                    let p = self.sched_rng.below(*n as u64);
                    self.pct_points.push(self.decision + p);
                }
            }
            Sched::Explicit(v) => {
                self.sched_rng = Rng::new(0);
                let base = self.decision;
                for (d, t) in v {
                    self.sched_map.insert(base + d, *t);
                }
            }
        }
        self.taken.clear();
    }
    pub fn kill_proc(&mut self, p: usize) {
        if self.procs[p].dead {
            return;
        }
        self.procs[p].dead = true;
        let fds: Vec<i32> = {
            let mut v: Vec<i32> = self.fds.iter().filter(|(_, e)| e.proc_ == p).map(|(f, _)| *f).collect();
            v.sort();
            v
        };
        for f in fds {
            self.close_fd(f);
        }
        for t in &mut self.threads {
            if t.proc_ == p && t.st != St::Done {
                t.st = St::Run;
            }
        }
        self.note(|| format!("KILL process {}", p));
    }

    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.trace.is_some() {
            let s = format!("[{:6}] t{} op{} {}", self.step, self.cur, self.threads.get(self.cur).map_or(0, |t| t.op), f());
            self.trace.as_mut().unwrap().push(s);
        }
    }
    fn hashlog(&mut self, x: u64) {
        self.log_hash = (self.log_hash ^ x).wrapping_mul(0x100_0000_01b3).rotate_left(17);
    }
    pub fn log_ret(&mut self, name: &'static str, ret: i64, desc: impl FnOnce() -> String) {
        let h = hash_bytes(self.cur as u64, name.as_bytes()) ^ (ret as u64).wrapping_mul(0x9E37_79B9);
        self.hashlog(h);
        self.note(|| {
            let d = desc();
            if ret < 0 {
                format!("{}({}) = {}", name, d, errname((-ret) as i32))
            } else {
                format!("{}({}) = {}", name, d, ret)
            }
        });
    }

    /// Fault decision for the call the current thread is making.
    fn decide(&mut self, cls: Cls, len: usize) -> R<Dec> {
        let tid = self.cur;
        let (op, k, client) = {
            let t = self.th();
            t.opsys += 1;
            let k = t.k;
            t.k += 1;
            (t.op, k, t.is_client)
        };
        let mut kind = self.list.get(&(tid, op, k)).copied();
        if kind.is_none() && client {
            if let Some(r) = self.rates.clone() {
                let hard_ok = self.hard < r.max_hard && (r.tids == 0 || r.tids >> tid & 1 == 1);
                // Always draw the same number of values per call.
                let a = self.frng.u64();
                let b = self.frng.u64();
                let u = (a >> 11) as f64 / (1u64 << 53) as f64;
                let cls_ok = r.classes == 0 || r.classes & cls.bit() != 0;
                let mut x = u;
                if x < r.err {
                    if hard_ok && cls_ok {
                        kind = Some(FKind::Err((b % 7) as u32));
                    }
                } else if {
                    x -= r.err;
                    x < r.kill
                } {
                    if hard_ok {
                        kind = Some(if cls == Cls::Write && b & 1 == 1 {
                            FKind::KillPartial((b >> 8) as u32 % 1000)
                        } else {
                            FKind::Kill
                        });
                    }
                } else if {
                    x -= r.kill;
                    x < r.short
                } {
                    kind = Some(FKind::Short((b >> 8) as u32 % 1000));
                } else if {
                    x -= r.short;
                    x < r.intr
                } {
                    kind = Some(FKind::Intr);
                }
            }
        }
        let kind = match kind {
            None => return Ok(Dec::Normal),
            Some(k) => k,
        };
        let phase = self.phase;
        let rec = Fault { phase, tid, op, k, kind };
        match kind {
            FKind::Err(i) => {
                let t = cls.errnos();
                if t.is_empty() {
                    return Ok(Dec::Normal);
                }
                let e = t[i as usize % t.len()];
                self.stats.errs[cls as usize] += 1;
                self.hard += 1;
                self.th().hard_in_op += 1;
                if e != libc::EINTR {
                    self.th().hard_cls |= cls.bit();
                }
                self.fired.push(rec);
                self.note(|| format!("FAULT {} in {:?}", errname(e), cls));
                Err(e)
            }
            FKind::Kill => {
                self.hard += 1;
                self.stats.kills += 1;
                self.fired.push(rec);
                let p = self.th().proc_;
                self.kill_proc(p);
                Err(libc::EIO)
            }
            FKind::KillPartial(f) => {
                self.hard += 1;
                self.fired.push(rec);
                if cls == Cls::Write {
                    self.stats.torn += 1;
                    self.stats.kills += 1;
                    return Ok(Dec::Torn(f));
                }
                self.stats.kills += 1;
                let p = self.th().proc_;
                self.kill_proc(p);
                Err(libc::EIO)
            }
            FKind::Short(f) => {
                if len < 2 {
                    return Ok(Dec::Normal);
                }
                match cls {
                    Cls::Read => self.stats.short_r += 1,
                    Cls::Write => self.stats.short_w += 1,
                    _ => return Ok(Dec::Normal),
                }
                self.th().soft_in_op += 1;
                self.fired.push(rec);
                Ok(Dec::Short(f))
            }
            FKind::Intr => {
                match cls {
                    Cls::Read | Cls::Write => {}
                    _ => return Ok(Dec::Normal),
                }
                self.stats.intr += 1;
                self.th().soft_in_op += 1;
                self.fired.push(rec);
                self.note(|| "FAULT EINTR".to_string());
                Err(libc::EINTR)
            }
        }
    }
    // ------------------------------------------------------------ file operations (already past `enter`)

    fn reap(&mut self, i: Ino) {
        let n = self.ino(i);
        let gone = match n.kind {
            Kind::Dir(_) => false,
            _ => n.nlink == 0 && n.opens == 0,
        };
        if gone {
            if let Kind::File(f) = &self.ino(i).kind {
                self.used -= f.len() as u64;
            }
            self.inodes[i] = None;
        }
    }
    pub fn close_fd(&mut self, fd: i32) -> R<()> {
        let e = self.fds.remove(&fd).ok_or(libc::EBADF)?;
        let o = self.ofds[e.ofd].as_mut().unwrap();
        o.refs -= 1;
        if o.refs == 0 {
            let ino = o.ino;
            self.ofds[e.ofd] = None;
            self.unlock(e.ofd, ino);
            self.ino_mut(ino).opens -= 1;
            self.reap(ino);
        }
        Ok(())
    }
    fn unlock(&mut self, ofd: usize, ino: Ino) {
        let n = self.ino_mut(ino);
        let before = n.locks.len();
        n.locks.retain(|l| l.0 != ofd);
        if n.locks.len() != before {
            for t in &mut self.threads {
                if t.st == St::Flock(ino) {
                    t.st = St::Run;
                }
            }
        }
    }
    fn escape(&mut self, what: &'static str, dir: Ino, name: &[u8]) {
        if self.monitor && !self.inside_base(dir) {
            let path = format!("{}/{}", self.path_of(dir), String::from_utf8_lossy(name));
            let (tid, op) = (self.cur, self.th().op);
            self.escapes.push(Escape { tid, op, what, path });
        }
    }
    fn watch(&mut self, what: &'static str, dir: Ino, name: &[u8], ino: Option<Ino>) {
        if !self.monitor || self.base.is_none() {
            return;
        }
        // The base directory itself is inside.
        if self.base_at.as_ref().map_or(false, |b| b.0 == dir && b.1 == name) {
            return;
        }
        if let Some(i) = ino {
            if Some(i) == self.base {
                return;
            }
            if matches!(self.ino(i).kind, Kind::Dir(_)) {
                if !self.inside_base(i) {
                    self.escape(what, i, b"");
                }
                return;
            }
        }
        self.escape(what, dir, name);
    }

    pub fn find_base(&mut self, path: &str) {
        self.base = self.lookup(path);
        if let (Some(_), Some(i)) = (self.base, path.rfind('/')) {
            self.base_at = self.lookup(&path[..i.max(1)]).map(|d| (d, path[i + 1..].as_bytes().to_vec()));
        }
    }
    pub fn new_fd(&mut self, ofd: usize) -> i32 {
        let fd = self.next_fd;
        self.next_fd += 1;
        let (tid, op, proc_) = {
            let c = self.cur;
            let t = self.th();
            (c, t.op, t.proc_)
        };
        self.fds.insert(fd, FdEnt { ofd, proc_, tid, op });
        self.max_open = self.max_open.max(self.fds.len());
        fd
    }
    pub fn do_open(&mut self, dir: Ino, path: &[u8], flags: i32, mode: u32) -> R<i32> {
        use libc::*;
        let acc = flags & O_ACCMODE;
        let (rd, wr) = (acc == O_RDONLY || acc == O_RDWR, acc == O_WRONLY || acc == O_RDWR);
        if flags & 0o20000000 != 0 {
            return Err(EOPNOTSUPP); // O_TMPFILE
        }
        let creat = flags & O_CREAT != 0;
        let excl = flags & O_EXCL != 0;
        let follow = flags & O_NOFOLLOW == 0 && !(creat && excl);
        let isdir = flags & O_DIRECTORY != 0;
        if creat && isdir {
            return Err(EINVAL);
        }
        let (parent, name, ino, slash) = self.resolve3(dir, path, follow, !creat, &std::cell::Cell::new(0))?;
        self.watch("open", parent, &name, ino);
        if creat && slash && name != b"." && name != b".." {
            return Err(EISDIR);
        }
        let ino = match ino {
            Some(i) => {
                if creat && excl {
                    return Err(EEXIST);
                }
                match &self.ino(i).kind {
                    Kind::Link(_) => return Err(if isdir || slash { ENOTDIR } else { ELOOP }),
                    Kind::Dir(_) => {
                        if wr || creat {
                            return Err(EISDIR);
                        }
                    }
                    Kind::File(_) => {
                        if isdir || slash {
                            return Err(ENOTDIR);
                        }
                    }
                }
                if (wr || flags & O_TRUNC != 0) && self.readonly {
                    self.stats.erofs += 1;
                    return Err(EROFS);
                }
                i
            }
            None => {
                if !creat {
                    return Err(ENOENT);
                }
                if self.ino(parent).nlink == 0 {
                    return Err(ENOENT);
                }
                if self.readonly {
                    self.stats.erofs += 1;
                    return Err(EROFS);
                }
                let i = self.new_inode(Kind::File(vec![]), parent, mode & 0o777);
                self.dir_mut(parent).insert(name.clone(), i);
                self.mutations += 1;
                i
            }
        };
        if flags & O_TRUNC != 0 {
            self.set_len(ino, 0);
        }
        self.ino_mut(ino).opens += 1;
        let o = Ofd {
            ino,
            pos: 0,
            read: rd,
            write: wr,
            append: flags & O_APPEND != 0,
            refs: 1,
            path: if self.trace.is_some() { String::from_utf8_lossy(path).into_owned() } else { String::new() },
        };
        let id = match self.ofds.iter().position(|x| x.is_none()) {
            Some(p) => {
                self.ofds[p] = Some(o);
                p
            }
            None => {
                self.ofds.push(Some(o));
                self.ofds.len() - 1
            }
        };
        Ok(self.new_fd(id))
    }
    pub fn set_len(&mut self, ino: Ino, len: usize) {
        let clock = self.clock;
        let mut delta: i64 = 0;
        let n = self.ino_mut(ino);
        if let Kind::File(f) = &mut n.kind {
            delta = len as i64 - f.len() as i64;
            f.resize(len, 0);
            n.mtime = clock;
        }
        if delta != 0 {
            self.mutations += 1;
        }
        self.used = (self.used as i64 + delta) as u64;
    }
    pub fn do_ftruncate(&mut self, fd: i32, len: i64) -> R<()> {
        let o = self.ofd(fd)?;
        let o = self.ofds[o].as_ref().unwrap();
        if !o.write || len < 0 {
            return Err(libc::EINVAL);
        }
        let ino = o.ino;
        if let (Some(c), Kind::File(f)) = (self.capacity, &self.ino(ino).kind) {
            if len as usize > f.len() && self.used + (len as u64 - f.len() as u64) > c {
                self.stats.enospc += 1;
                self.th().hard_in_op += 1;
                return Err(libc::ENOSPC);
            }
        }
        self.set_len(ino, len as usize);
        Ok(())
    }
    pub fn do_read(&mut self, fd: i32, buf: &mut [u8], at: Option<u64>, dec: Dec) -> R<usize> {
        let oi = self.ofd(fd)?;
        let o = self.ofds[oi].as_ref().unwrap();
        if !o.read {
            return Err(libc::EBADF);
        }
        let pos = at.unwrap_or(o.pos) as usize;
        let n = match &self.ino(o.ino).kind {
            Kind::File(f) => {
                let avail = f.len().saturating_sub(pos);
                let mut n = avail.min(buf.len());
                if let Dec::Short(p) = dec {
                    if n > 1 {
                        n = 1 + (n - 1) * p as usize / 1000;
                    }
                }
                if n > 0 {
                    buf[..n].copy_from_slice(&f[pos..pos + n]);
                }
                n
            }
            Kind::Dir(_) => return Err(libc::EISDIR),
            Kind::Link(_) => return Err(libc::EINVAL),
        };
        if at.is_none() {
            self.ofds[oi].as_mut().unwrap().pos += n as u64;
        }
        Ok(n)
    }
    pub fn do_write(&mut self, fd: i32, buf: &[u8], at: Option<u64>, dec: Dec) -> R<usize> {
        let oi = self.ofd(fd)?;
        let o = self.ofds[oi].as_ref().unwrap();
        if !o.write {
            return Err(libc::EBADF);
        }
        let ino = o.ino;
        let size = match &self.ino(ino).kind {
            Kind::File(f) => f.len(),
            _ => return Err(libc::EINVAL),
        };
        let pos = match at {
            // Linux: O_APPEND wins over the offset of pwrite.
            _ if o.append => size,
            Some(p) => p as usize,
            None => o.pos as usize,
        };
        let mut n = buf.len();
        let mut die = false;
        match dec {
            Dec::Short(p) if n > 1 => n = 1 + (n - 1) * p as usize / 1000,
            Dec::Torn(p) => {
                n = n * p as usize / 1000;
                die = true;
            }
            _ => {}
        }
        if let Some(c) = self.capacity {
            let room = c.saturating_sub(self.used) as usize + size.saturating_sub(pos);
            if n > room {
                self.stats.enospc += 1;
                self.th().hard_in_op += 1;
                self.th().hard_cls |= Cls::Write.bit();
                if room == 0 && !die {
                    return Err(libc::ENOSPC);
                }
                n = room;
            }
        }
        if n > 0 {
            if pos + n > size {
                self.set_len(ino, pos + n);
            }
            let clock = self.clock;
            let node = self.ino_mut(ino);
            node.mtime = clock;
            if let Kind::File(f) = &mut node.kind {
                f[pos..pos + n].copy_from_slice(&buf[..n]);
            }
            self.mutations += 1;
        }
        if at.is_none() && n > 0 {
            self.ofds[oi].as_mut().unwrap().pos = (pos + n) as u64;
        }
        if die {
            let p = self.th().proc_;
            self.kill_proc(p);
            return Err(libc::EIO);
        }
        Ok(n)
    }
    pub fn do_lseek(&mut self, fd: i32, off: i64, whence: i32) -> R<i64> {
        let oi = self.ofd(fd)?;
        let (ino, pos) = {
            let o = self.ofds[oi].as_ref().unwrap();
            (o.ino, o.pos as i64)
        };
        let size = match &self.ino(ino).kind {
            Kind::File(f) => f.len() as i64,
            _ => 0,
        };
        let np = match whence {
            libc::SEEK_SET => off,
            libc::SEEK_CUR => pos + off,
            libc::SEEK_END => size + off,
            _ => return Err(libc::EINVAL),
        };
        if np < 0 {
            return Err(libc::EINVAL);
        }
        self.ofds[oi].as_mut().unwrap().pos = np as u64;
        Ok(np)
    }
    fn unlink_name(&mut self, parent: Ino, name: &[u8], i: Ino) {
        self.dir_mut(parent).remove(name);
        self.mutations += 1;
        let c = self.clock;
        self.ino_mut(parent).mtime = c;
        self.ino_mut(i).nlink -= 1;
        if self.ino(i).opens > 0 && self.monitor_probes() {
            *self.probes.entry("unlink_while_open").or_insert(0) += 1;
        }
        self.reap(i);
    }
    fn monitor_probes(&self) -> bool {
        true
    }
    pub fn do_unlink(&mut self, dir: Ino, path: &[u8]) -> R<()> {
        let (parent, name, ino, slash) = self.resolve_parent(dir, path)?;
        self.watch("unlink", parent, &name, ino);
        let i = ino.ok_or(libc::ENOENT)?;
        if matches!(self.ino(i).kind, Kind::Dir(_)) {
            return Err(libc::EISDIR);
        }
        if slash {
            return Err(libc::ENOTDIR);
        }
        if self.readonly {
            self.stats.erofs += 1;
            return Err(libc::EROFS);
        }
        self.unlink_name(parent, &name, i);
        Ok(())
    }
    pub fn do_rmdir(&mut self, dir: Ino, path: &[u8]) -> R<()> {
        let (parent, name, ino, _) = self.resolve_parent(dir, path)?;
        self.watch("rmdir", parent, &name, ino);
        let i = ino.ok_or(libc::ENOENT)?;
        if name == b"." || name == b".." {
            return Err(if name == b".." { libc::ENOTEMPTY } else { libc::EINVAL });
        }
        if !self.dir(i)?.is_empty() {
            return Err(libc::ENOTEMPTY);
        }
        if self.readonly {
            self.stats.erofs += 1;
            return Err(libc::EROFS);
        }
        self.dir_mut(parent).remove(&name);
        self.mutations += 1;
        // Keep the inode: open directory streams and parent walks may still use it.
        self.ino_mut(i).nlink = 0;
        Ok(())
    }
    pub fn do_mkdir(&mut self, dir: Ino, path: &[u8], mode: u32) -> R<()> {
        let (parent, name, ino, _) = self.resolve_parent(dir, path)?;
        self.watch("mkdir", parent, &name, ino);
        if ino.is_some() {
            return Err(libc::EEXIST);
        }
        if self.ino(parent).nlink == 0 {
            return Err(libc::ENOENT);
        }
        if self.readonly {
            self.stats.erofs += 1;
            return Err(libc::EROFS);
        }
        if let Some(c) = self.capacity {
            if self.used >= c {
                self.stats.enospc += 1;
                self.th().hard_in_op += 1;
                return Err(libc::ENOSPC);
            }
        }
        let n = self.new_inode(Kind::Dir(BTreeMap::new()), parent, mode & 0o777);
        if self.base_at.as_ref().map_or(false, |b| b.0 == parent && b.1[..] == name[..]) {
            self.base = Some(n);
        }
        self.dir_mut(parent).insert(name, n);
        self.mutations += 1;
        Ok(())
    }
    pub fn do_rename(&mut self, d1: Ino, p1: &[u8], d2: Ino, p2: &[u8], noreplace: bool) -> R<()> {
        let (pa, na, ia, sa) = self.resolve_parent(d1, p1)?;
        let (pb, nb, ib, sb) = self.resolve_parent(d2, p2)?;
        self.watch("rename", pa, &na, ia);
        self.watch("rename", pb, &nb, ib);
        let dots = |n: &[u8]| n == b"." || n == b"..";
        if dots(&na) {
            return Err(libc::EBUSY);
        }
        if dots(&nb) {
            return Err(if noreplace { libc::EEXIST } else { libc::EBUSY });
        }
        let ia = ia.ok_or(libc::ENOENT)?;
        if noreplace && ib.is_some() {
            return Err(libc::EEXIST);
        }
        if self.readonly {
            self.stats.erofs += 1;
            return Err(libc::EROFS);
        }
        let a_dir = matches!(self.ino(ia).kind, Kind::Dir(_));
        if !a_dir && (sa || sb) {
            return Err(libc::ENOTDIR);
        }
        let above = |low: Ino, high: Ino| {
            let mut x = low;
            while x != ROOT && x != high {
                x = self.ino(x).parent;
            }
            x == high
        };
        if a_dir && above(pb, ia) {
            return Err(libc::EINVAL);
        }
        if let Some(ib) = ib {
            if matches!(self.ino(ib).kind, Kind::Dir(_)) && above(pa, ib) {
                return Err(libc::ENOTEMPTY);
            }
            if ia == ib {
                return Ok(());
            }
            match (&self.ino(ib).kind, a_dir) {
                (Kind::Dir(_), false) => return Err(libc::EISDIR),
                (Kind::Dir(d), true) => {
                    if !d.is_empty() {
                        return Err(libc::ENOTEMPTY);
                    }
                }
                (_, true) => return Err(libc::ENOTDIR),
                _ => {}
            }
        }
        if self.ino(pb).nlink == 0 {
            return Err(libc::ENOENT);
        }
        self.dir_mut(pa).remove(&na);
        let old = self.dir_mut(pb).insert(nb, ia);
        self.ino_mut(ia).parent = pb;
        if let Some(o) = old {
            if matches!(self.ino(o).kind, Kind::Dir(_)) {
                self.ino_mut(o).nlink = 0;
            } else {
                self.ino_mut(o).nlink -= 1;
                if self.ino(o).opens > 0 {
                    *self.probes.entry("replaced_while_open").or_insert(0) += 1;
                }
                self.reap(o);
            }
        }
        self.mutations += 1;
        Ok(())
    }
    pub fn do_link(&mut self, d1: Ino, p1: &[u8], d2: Ino, p2: &[u8]) -> R<()> {
        let (_, _, ia) = self.resolve(d1, p1, false)?;
        let ia = ia.ok_or(libc::ENOENT)?;
        let (pb, nb, ib, slash) = self.resolve_parent(d2, p2)?;
        self.watch("link", pb, &nb, ib);
        if ib.is_some() {
            return Err(libc::EEXIST);
        }
        if slash || self.ino(pb).nlink == 0 {
            return Err(libc::ENOENT);
        }
        if self.readonly {
            return Err(libc::EROFS);
        }
        if matches!(self.ino(ia).kind, Kind::Dir(_)) {
            return Err(libc::EPERM);
        }
        self.ino_mut(ia).nlink += 1;
        self.dir_mut(pb).insert(nb, ia);
        self.mutations += 1;
        Ok(())
    }
    pub fn do_symlink(&mut self, target: &[u8], d: Ino, p: &[u8]) -> R<()> {
        let (pb, nb, ib, slash) = self.resolve_parent(d, p)?;
        self.watch("symlink", pb, &nb, ib);
        if ib.is_some() {
            return Err(libc::EEXIST);
        }
        if slash || target.is_empty() || self.ino(pb).nlink == 0 {
            return Err(libc::ENOENT);
        }
        if self.readonly {
            return Err(libc::EROFS);
        }
        let i = self.new_inode(Kind::Link(target.to_vec()), pb, 0o777);
        self.dir_mut(pb).insert(nb, i);
        self.mutations += 1;
        Ok(())
    }
    pub fn do_opendir_ino(&mut self, ino: Ino) -> R<Vec<(Vec<u8>, Ino, u8)>> {
        let d = self.dir(ino)?;
        let mut v: Vec<(Vec<u8>, Ino, u8)> = d
            .iter()
            .map(|(n, i)| {
                let t = match self.ino(*i).kind {
                    Kind::File(_) => libc::DT_REG,
                    Kind::Dir(_) => libc::DT_DIR,
                    Kind::Link(_) => libc::DT_LNK,
                };
                (n.clone(), *i, if self.dt_unknown { libc::DT_UNKNOWN } else { t })
            })
            .collect();
        v.push((b".".to_vec(), ino, libc::DT_DIR));
        v.push((b"..".to_vec(), self.ino(ino).parent, libc::DT_DIR));
        let s = self.dir_seed;
        v.sort_by_key(|e| hash_bytes(s, &e.0));
        Ok(v)
    }
    /// Whether a name listed when the directory was opened is (still) returned.
    pub fn readdir_live(&self, dir: Ino, name: &[u8]) -> bool {
        if name == b"." || name == b".." {
            return true;
        }
        match self.dir(dir) {
            Ok(d) => d.contains_key(name) || hash_bytes(self.dir_seed ^ 5, name) & 1 == 0,
            _ => false,
        }
    }
    pub fn open_fds_of(&self, tid: usize) -> Vec<i32> {
        let mut v: Vec<i32> = self.fds.iter().filter(|(_, e)| e.tid == tid).map(|(f, _)| *f).collect();
        v.sort();
        v
    }
    pub fn any_locks(&self) -> usize {
        self.inodes.iter().flatten().map(|i| i.locks.len()).sum()
    }
}

// ---------------------------------------------------------------- functions that may pass the token on
// These take no reference to the world: other threads change it while they wait.

/// Hand the token to `next` and wait until it comes back.
fn switch(next: usize) {
    let (mine, theirs): (*const AtomicU32, *const AtomicU32) = {
        let w = world();
        let me = w.cur;
        if next == me {
            return;
        }
        w.stats.switches += 1;
        w.cur = next;
        (&*w.threads[me].sem, &*w.threads[next].sem)
    };
    unsafe {
        (*theirs).store(1, Ordering::SeqCst);
        sys::futex_wake(&*theirs);
        wait_sem(&*mine);
    }
}
pub fn preempt() {
    let n = {
        let w = world();
        w.wake_sleepers();
        let run = w.runnable();
        w.choose(&run)
    };
    switch(n);
}
/// The current thread cannot go on in state `st`; returns when it is runnable again.
pub fn block(st: St) {
    let n = {
        let w = world();
        w.stats.blocked += 1;
        let me = w.cur;
        w.threads[me].st = st;
        w.next_after_block()
    };
    if let Some(n) = n {
        switch(n);
    }
}
/// The current simulated thread ends and gives the token away for good.
pub fn finish() {
    let s: *const AtomicU32 = {
        let w = world();
        let me = w.cur;
        w.threads[me].st = St::Done;
        for t in &mut w.threads {
            if t.st == St::Join(me) {
                t.st = St::Run;
            }
        }
        match w.next_after_block() {
            Some(n) => {
                w.cur = n;
                &*w.threads[n].sem
            }
            None => &w.ctl,
        }
    };
    unsafe {
        (*s).store(1, Ordering::SeqCst);
        sys::futex_wake(&*s);
    }
}
/// A call made by a thread whose process has been killed: no effect.
fn zombie() -> i32 {
    let z = {
        let t = world().th();
        t.zsteps += 1;
        t.zsteps
    };
    if z > 20_000 {
        // The dead thread does not stop by itself; abandon it.
        finish();
        let forever = AtomicU32::new(0);
        loop {
            sys::futex_wait(&forever, 0);
        }
    }
    libc::EIO
}
/// Every simulated system call starts here: scheduling point, then fault decision.
pub fn enter(cls: Cls, len: usize) -> R<Dec> {
    {
        let w = world();
        if w.cur_dead() {
            return Err(zombie());
        }
        w.step += 1;
        w.spins = 0;
        w.stats.syscalls += 1;
        w.clock += 500 + (hash2(w.step, w.dir_seed) % 200_000);
        if w.step > w.max_step && !w.livelock {
            w.livelock = true;
            for p in 0..w.procs.len() {
                w.kill_proc(p);
            }
            return Err(libc::EIO);
        }
    }
    preempt();
    if world().cur_dead() {
        return Err(zombie());
    }
    world().decide(cls, len)
}
/// An atomic operation of the library on a simulated thread: a scheduling point at which nothing can fail.
pub fn atomic_point() {
    if !simulated() || !have_world() {
        return;
    }
    {
        let w = world();
        w.step += 1;
        w.stats.atomics += 1;
        // A thread that spins gives way to those with lower priority.
        w.spins += 1;
        if w.spins > 256 {
            w.spins = 0;
            w.demote();
        }
        if w.step > w.max_step {
            if !w.livelock {
                w.livelock = true;
                for p in 0..w.procs.len() {
                    w.kill_proc(p);
                }
            }
            return;
        }
    }
    preempt();
}
/// flock; blocks. Fails with EIO when the process dies while waiting.
pub fn do_flock(fd: i32, op: i32) -> R<()> {
    let nb = op & libc::LOCK_NB != 0;
    let what = op & !libc::LOCK_NB;
    let oi = world().ofd(fd)?;
    let ino = world().ofds[oi].as_ref().unwrap().ino;
    if what == libc::LOCK_UN {
        world().unlock(oi, ino);
        return Ok(());
    }
    let ex = match what {
        libc::LOCK_EX => true,
        libc::LOCK_SH => false,
        _ => return Err(libc::EINVAL),
    };
    // A conversion drops the old lock first.
    if world().ino(ino).locks.iter().any(|l| l.0 == oi && l.1 != ex) {
        world().unlock(oi, ino);
    }
    loop {
        {
            let w = world();
            let n = w.ino_mut(ino);
            let conflict = n.locks.iter().any(|l| l.0 != oi && (l.1 || ex));
            if !conflict {
                if !n.locks.iter().any(|l| l.0 == oi) {
                    n.locks.push((oi, ex));
                }
                return Ok(());
            }
            if nb {
                return Err(libc::EWOULDBLOCK);
            }
            *w.probes.entry("flock_wait").or_insert(0) += 1;
            w.note(|| "flock waits".to_string());
        }
        block(St::Flock(ino));
        if world().cur_dead() {
            return Err(libc::EIO);
        }
    }
}

pub unsafe fn wait_sem(s: &AtomicU32) {
    loop {
        if s.swap(0, Ordering::SeqCst) == 1 {
            return;
        }
        sys::futex_wait(s, 0);
    }
}

pub fn errname(e: i32) -> String {
    use libc::*;
    let s = match e {
        EIO => "EIO",
        ENOENT => "ENOENT",
        ENOSPC => "ENOSPC",
        EINTR => "EINTR",
        EEXIST => "EEXIST",
        ENOTDIR => "ENOTDIR",
        EISDIR => "EISDIR",
        EACCES => "EACCES",
        EROFS => "EROFS",
        EMFILE => "EMFILE",
        ENFILE => "ENFILE",
        ENOTEMPTY => "ENOTEMPTY",
        EINVAL => "EINVAL",
        EBADF => "EBADF",
        ENOLCK => "ENOLCK",
        EDQUOT => "EDQUOT",
        ESTALE => "ESTALE",
        EAGAIN => "EAGAIN",
        ENOSYS => "ENOSYS",
        _ => return format!("errno {}", e),
    };
    s.to_string()
}

//! Executes a plan: one simulated world, phases of processes and client threads, everything recorded.
use crate::memstore::SimStore;
use crate::ops::*;
use crate::plan::*;
use crate::sys;
use crate::types::*;
use crate::world::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use zarr::prelude::FilesystemHierarchy;

thread_local! {
    static PANIC_AT: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("ZSIM_PANIC").is_some() { crate::world::HARNESS.with(|h| h.set(true)); eprintln!("panic {} {:?}", i, std::backtrace::Backtrace::force_capture().to_string().lines().filter(|l| l.contains("zsim::")||l.contains("zarr")).take(12).collect::<Vec<_>>()); crate::world::HARNESS.with(|h| h.set(false)); }
        if TID.with(|t| t.get()) < 0 {
            eprintln!("{}", i);
        }
        let _ = PANIC_AT.try_with(|p| *p.borrow_mut() = at);
    }));
}
pub fn panic_at() -> String {
    PANIC_AT.with(|p| p.borrow().clone())
}

pub fn run_plan(p: &Plan, trace: bool) -> Outcome {
    if p.env.mem {
        exec::<SimStore>(p, trace)
    } else {
        exec::<FilesystemHierarchy>(p, trace)
    }
}

pub type Job = Box<dyn FnOnce(usize) + Send>;

/// Runs one simulated thread per job until all have ended.
pub fn run_threads(jobs: Vec<(usize, Job)>, client: bool, limit: u64) {
    {
        let w = world();
        w.threads.clear();
        w.deadlock = false;
        w.max_step = w.step + limit;
        for (p, _) in &jobs {
            w.add_thread(*p, client);
        }
    }
    if jobs.is_empty() {
        return;
    }
    let mut hs = vec![];
    for (i, (_, job)) in jobs.into_iter().enumerate() {
        let sem: usize = &*world().threads[i].sem as *const _ as usize;
        let h = std::thread::Builder::new()
            .spawn(move || {
                unsafe { wait_sem(&*(sem as *const std::sync::atomic::AtomicU32)) };
                TID.with(|t| t.set(i as i32));
                job(i);
                TID.with(|t| t.set(-1));
                finish();
            })
            .expect("harness: cannot start a thread");
        hs.push(h);
    }
    let w = world();
    w.start();
    unsafe { wait_sem(&world().ctl) };
    for (i, h) in hs.into_iter().enumerate() {
        if world().threads[i].zsteps > 20_000 {
            continue;
        }
        let _ = h.join();
    }
}

fn hexs(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
}
pub fn to_hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn at(base: &str, p: &str) -> String {
    if p.starts_with('/') {
        p.to_string()
    } else {
        format!("{}/{}", base, p)
    }
}

fn env_read(plan: &Plan, path: &str) -> Option<Vec<u8>> {
    let w = world();
    if plan.env.mem {
        w.mem.get(path).map(|d| d.to_vec())
    } else {
        w.get_file(&at(&plan.env.base, path))
    }
}
fn env_write(plan: &Plan, path: &str, data: Option<&[u8]>) {
    let w = world();
    if plan.env.mem {
        match data {
            Some(d) => {
                w.mem.insert(path.to_string(), Arc::new(d.to_vec()));
            }
            None => {
                w.mem.remove(path);
            }
        }
    } else {
        let p = at(&plan.env.base, path);
        match data {
            Some(d) => w.put_file(&p, d),
            None => w.remove_file(&p),
        }
    }
}
fn apply_env(plan: &Plan, e: &EnvOp, out: &mut PhaseOut) {
    let pick = |len: usize, pm: u32| (len * pm as usize / 1000).min(len.saturating_sub(1));
    let (path, new): (String, Option<Vec<u8>>) = match e {
        EnvOp::Put { path, hex } => (path.clone(), Some(hexs(hex))),
        EnvOp::PutText { path, text } => (path.clone(), Some(text.clone().into_bytes())),
        EnvOp::PutChunk { meta, pos, vid, node, .. } => {
            let d = &plan.metas[*meta];
            let (ty, be) = dtype_of(d);
            let raw = to_bytes(&ty, be, &values(&ty, *vid, nel(d)));
            (chunk_key(node, d, pos), Some(encode(codec_of(d), &raw, *vid)))
        }
        EnvOp::Truncate { path, permille } => match env_read(plan, path) {
            Some(mut b) if !b.is_empty() => {
                let n = pick(b.len(), *permille);
                b.truncate(n);
                (path.clone(), Some(b))
            }
            _ => return,
        },
        EnvOp::Flip { path, permille, mask } => match env_read(plan, path) {
            Some(mut b) if !b.is_empty() => {
                let n = pick(b.len(), *permille);
                b[n] ^= (*mask).max(1);
                (path.clone(), Some(b))
            }
            _ => return,
        },
        EnvOp::Overwrite { path, permille, hex } => match env_read(plan, path) {
            Some(mut b) if !b.is_empty() => {
                let n = pick(b.len(), *permille);
                for (i, x) in hexs(hex).into_iter().enumerate() {
                    if n + i < b.len() {
                        b[n + i] = x;
                    }
                }
                (path.clone(), Some(b))
            }
            _ => return,
        },
        EnvOp::Insert { path, permille, hex } => match env_read(plan, path) {
            Some(mut b) => {
                let n = pick(b.len(), *permille);
                let tail = b.split_off(n);
                b.extend(hexs(hex));
                b.extend(tail);
                (path.clone(), Some(b))
            }
            _ => return,
        },
        EnvOp::Append { path, hex } => match env_read(plan, path) {
            Some(mut b) => {
                b.extend(hexs(hex));
                (path.clone(), Some(b))
            }
            _ => return,
        },
        EnvOp::Delete { path } => (path.clone(), None),
        EnvOp::Mkdir { path } => {
            if !plan.env.mem {
                world().mkdirs(&at(&plan.env.base, path));
            }
            return;
        }
        EnvOp::Link { path, to } => {
            if !plan.env.mem {
                world().put_link(&at(&plan.env.base, path), to);
            }
            return;
        }
    };
    let old = env_read(plan, &path);
    if old == new {
        return;
    }
    env_write(plan, &path, new.as_deref());
    out.env_changes.push((path, old, new));
}
fn image(plan: &Plan) -> BTreeMap<String, Option<Vec<u8>>> {
    let w = world();
    if plan.env.mem {
        w.mem.iter().map(|(k, v)| (k.clone(), Some(v.to_vec()))).collect()
    } else {
        w.image(&plan.env.base)
    }
}

/// Everything the plan's operations mention.
#[derive(Default)]
pub struct Universe {
    pub nodes: BTreeSet<String>,
    pub chunks: BTreeSet<(String, usize, Vec<u64>)>,
    pub arrays: BTreeSet<(String, usize)>,
    pub kv: BTreeSet<String>,
}
impl Universe {
    pub fn of(plan: &Plan) -> Universe {
        let mut u = Universe::default();
        for ph in &plan.phases {
            for e in &ph.env {
                if let EnvOp::PutChunk { meta, pos, node, .. } = e {
                    u.chunks.insert((canon(node), *meta, pos.clone()));
                }
            }
            for p in &ph.procs {
                for c in &p.clients {
                    for s in c {
                        u.add(plan, &s.op);
                    }
                }
            }
        }
        u
    }
    fn node(&mut self, p: &str) {
        if p == "*all*" || p.contains("..") {
            return;
        }
        let c = canon(p);
        let mut cur = String::new();
        self.nodes.insert(cur.clone());
        for x in c.split('/').filter(|x| !x.is_empty()) {
            if !cur.is_empty() {
                cur.push('/');
            }
            cur.push_str(x);
            self.nodes.insert(cur.clone());
        }
    }
    fn add(&mut self, plan: &Plan, op: &Op) {
        match op {
            Op::CreateArray { path, .. }
            | Op::CreateGroup { path }
            | Op::SetAttrs { path, .. }
            | Op::SetAttr { path, .. }
            | Op::ListAttrs { path }
            | Op::GetMeta { path }
            | Op::KAttrs { path, .. }
            | Op::UseMeta { path }
            | Op::UseMetaWrite { path, .. }
            | Op::Exists { path }
            | Op::ArrayExists { path }
            | Op::ListNodes { path }
            | Op::Remove { path } => self.node(path),
            Op::Write { path, meta, pos, .. } | Op::Read { path, meta, pos, .. } | Op::Delete { path, meta, pos } => {
                self.node(path);
                if pos.len() == shape_of(&plan.metas[*meta]).len() {
                    self.chunks.insert((canon(path), *meta, pos.clone()));
                }
            }
            Op::WriteRegion { path, meta, off, shape, .. } | Op::ReadRegion { path, meta, off, shape, .. } => {
                self.node(path);
                let d = &plan.metas[*meta];
                if off.len() == shape_of(d).len() {
                    self.arrays.insert((canon(path), *meta));
                    for p in chunks_of_box(d, off, shape) {
                        self.chunks.insert((canon(path), *meta, p));
                    }
                }
            }
            Op::KGet { key } | Op::KDoc { key } | Op::KExists { key } | Op::KSet { key, .. } | Op::KErase { key } => {
                self.kv.insert(canon(key));
            }
            _ => {}
        }
    }
    pub fn snapshot(&self, plan: &Plan, bits: u32) -> Vec<Step> {
        let mut v = vec![];
        if bits & SNAP_LISTS != 0 {
            for n in &self.nodes {
                v.push(step(Op::ListNodes { path: n.clone() }));
            }
        }
        if bits & SNAP_NODES != 0 {
            for n in &self.nodes {
                v.push(step(Op::Exists { path: n.clone() }));
                v.push(step(Op::ArrayExists { path: n.clone() }));
                v.push(step(Op::GetMeta { path: n.clone() }));
                v.push(step(Op::ListAttrs { path: n.clone() }));
            }
        }
        if bits & SNAP_CHUNKS != 0 {
            for (i, (p, m, pos)) in self.chunks.iter().enumerate() {
                let g = grid_of(&plan.metas[*m]);
                if pos.iter().zip(&g).all(|(a, b)| a < b) {
                    v.push(step(Op::Read { path: p.clone(), meta: *m, pos: pos.clone(), how: (i % 3) as u8 }));
                }
            }
        }
        if bits & SNAP_REGIONS != 0 {
            for (i, (p, m)) in self.arrays.iter().enumerate() {
                let s = shape_of(&plan.metas[*m]);
                if s.iter().fold(1u64, |a, b| a.saturating_mul((*b).max(1))) > 20_000 {
                    continue;
                }
                v.push(step(Op::ReadRegion { path: p.clone(), meta: *m, off: vec![0; s.len()], shape: s, how: (i % 4) as u8 }));
            }
        }
        if bits & SNAP_KV != 0 {
            for k in &self.kv {
                v.push(step(Op::KGet { key: k.clone() }));
                v.push(step(Op::KExists { key: k.clone() }));
            }
        }
        v
    }
}
/// Grid positions of the chunks inside the array that a box touches.
pub fn chunks_of_box(d: &serde_json::Value, off: &[u64], shape: &[u64]) -> Vec<Vec<u64>> {
    let s = shape_of(d);
    let c = cshape_of(d);
    let mut out = vec![vec![]];
    if (0..s.len()).any(|i| off[i].saturating_add(shape[i]).min(s[i]) <= off[i]) {
        return vec![];
    }
    for i in 0..s.len() {
        let lo = off[i];
        let hi = (off[i].saturating_add(shape[i])).min(s[i]);
        let mut n: Vec<Vec<u64>> = vec![];
        if lo < hi {
            for p in &out {
                for g in lo / c[i]..(hi - 1) / c[i] + 1 {
                    let mut q: Vec<u64> = p.clone();
                    q.push(g);
                    n.push(q);
                }
            }
        }
        out = n;
    }
    out
}

/// Bytes of all chunks that the plan's region operations touch.
fn region_bytes(plan: &Plan) -> u64 {
    let mut n = 0u64;
    for st in plan.phases.iter().flat_map(|p| &p.procs).flat_map(|p| p.clients.iter().flatten()) {
        if let Op::WriteRegion { meta, off, shape, .. } | Op::ReadRegion { meta, off, shape, .. } = &st.op {
            let d = &plan.metas[*meta];
            let (s, c) = (shape_of(d), cshape_of(d));
            if off.len() != s.len() || shape.len() != s.len() {
                continue;
            }
            let mut chunks = 1u64;
            for i in 0..s.len() {
                let hi = off[i].saturating_add(shape[i]).min(s[i]);
                chunks = chunks.saturating_mul(if off[i] < hi { (hi - 1) / c[i].max(1) - off[i] / c[i].max(1) + 1 } else { 0 });
            }
            n = n.saturating_add(chunks.saturating_mul(8 * nel(d) as u64));
        }
    }
    n
}

pub fn exec<H: Backend>(plan: &Plan, trace: bool) -> Outcome {
    let mut w = World::new(plan.env.seed);
    w.dt_unknown = plan.env.dt_unknown;
    w.pid_collide = plan.env.pid_collide;
    w.mem_buf = plan.env.mem_buf;
    w.mem_max = if plan.env.mem_max == 0 { usize::MAX } else { plan.env.mem_max };
    w.mem_style = plan.env.mem_style;
    w.mem_entry = plan.env.mem_entry.clone();
    if trace {
        w.trace = Some(vec![]);
    }
    // Codecs may move a big chunk element by element.
    let most = plan.metas.iter().map(nel).max().unwrap_or(0) as u64;
    let limit = 400_000 + 100 * most + 8 * region_bytes(plan).min(2_000_000);
    install(w);
    let clock0 = world().clock;
    let metas = Arc::new(Metas::build(&plan.metas));
    let ext = Arc::new(crate::ext::Ext::new(plan));
    {
        let w = world();
        // The library creates the directories leading to the hierarchy (except where its surroundings are compared).
        let cut = if plan.prop == "C14" { plan.env.base.rfind('/') } else { plan.env.base[1..].find('/').map(|i| i + 1) };
        w.mkdirs(&plan.env.base[..cut.unwrap_or(0)]);
        for (p, t) in &plan.env.files {
            if let Some(to) = t.strip_prefix("LINK:") {
                w.put_link(&at(&plan.env.base, p), to);
            } else if p.ends_with('/') {
                w.mkdirs(&at(&plan.env.base, p));
            } else {
                w.put_file(&at(&plan.env.base, p), t.as_bytes());
            }
        }
        if let Some(e) = &plan.env.entry {
            if !plan.env.mem {
                w.put_file(&format!("{}/zarr.json", plan.env.base), e.as_bytes());
            }
        }
    }
    let outside = |w: &World| -> BTreeMap<String, Option<Vec<u8>>> {
        if plan.prop != "C14" {
            return BTreeMap::new();
        }
        let b = plan.env.base.trim_start_matches('/').to_string();
        let bs = format!("{}/", b);
        w.image("/").into_iter().filter(|(k, _)| *k != b && !k.starts_with(&bs)).collect()
    };
    let mut out = Outcome { outside_before: outside(world()), ..Default::default() };
    let uni = Universe::of(plan);
    for (pi, ph) in plan.phases.iter().enumerate() {
        let mut po = PhaseOut::default();
        for e in &ph.env {
            apply_env(plan, e, &mut po);
        }
        {
            let w = world();
            w.phase = pi;
            w.list.clear();
            w.rates = None;
            w.hard = 0;
            w.fired.clear();
            w.readonly = false;
            w.capacity = None;
            w.find_base(&plan.env.base);
            w.monitor = false;
            w.livelock = false;
            w.note(|| format!("=== phase {} {}", pi, ph.label));
        }
        po.before = image(plan);
        let procs: Vec<usize> = ph.procs.iter().map(|_| world().add_proc()).collect();
        // Dynamic steps of the first client.
        let mut extra: Vec<Step> = vec![];
        if ph.retry && pi > 0 {
            // The most recent phase that changed anything.
            let last = (0..pi).rev().find(|i| out.phases[*i].recs.iter().any(|r| r.op.mutates())).unwrap_or(0);
            let mut prev: Vec<&Rec> = out.phases[last]
                .recs
                .iter()
                .filter(|r| r.op.mutates() && (matches!(r.res, Res::Killed) || (matches!(r.res, Res::Err(..) | Res::Panic(_)) && r.hard > 0)))
                .collect();
            prev.sort_by_key(|r| r.inv);
            extra.extend(prev.iter().map(|r| step(r.op.clone())));
        }
        if ph.snapshot != 0 {
            extra.extend(uni.snapshot(plan, ph.snapshot));
        }
        // Round 1: every process opens its handles, one process after the other, undisturbed.
        let opened: Arc<Mutex<Vec<Vec<Arc<H>>>>> = Arc::new(Mutex::new(vec![vec![]; ph.procs.len()]));
        let errs: Arc<Mutex<Vec<String>>> = Arc::new(Mutex::new(vec![]));
        if !ph.no_open {
            world().readonly = ph.readonly && pi > 0;
            world().set_sched(&Sched::Explicit(vec![]));
            let mut jobs: Vec<(usize, Job)> = vec![];
            for (k, pp) in ph.procs.iter().enumerate() {
                let n = pp.slots.max(1) * if pp.share { 1 } else { pp.clients.len().max(1) };
                let (opened, errs, base) = (opened.clone(), errs.clone(), plan.env.base.clone());
                jobs.push((
                    procs[k],
                    Box::new(move |_| {
                        for s in 0..n {
                            let create = pi == 0 || (pi + s) % 2 == 0;
                            let r = catch_unwind(AssertUnwindSafe(|| if create { H::create_at(&base) } else { H::open_at(&base) }));
                            match r {
                                Ok(Ok(h)) => opened.lock().unwrap()[k].push(Arc::new(h)),
                                Ok(Err(e)) => {
                                    errs.lock().unwrap().push(format!("{}: {}", if create { "open_or_create" } else { "open" }, e))
                                }
                                Err(_) => errs.lock().unwrap().push(format!("panic at {}", panic_at())),
                            }
                        }
                    }),
                ));
            }
            run_threads(jobs, false, limit);
        }
        po.open_err = errs.lock().unwrap().clone();
        // Round 2: the clients.
        {
            let w = world();
            w.set_sched(&ph.sched);
            w.find_base(&plan.env.base);
            w.monitor = !plan.env.mem && !ph.no_open;
            w.readonly = ph.readonly;
            w.capacity = ph.capacity.map(|c| w.used + c);
            w.rates = ph.rates.clone();
            w.frng = crate::rng::Rng::new(ph.rates.as_ref().map_or(0, |r| r.seed));
            for f in &ph.faults {
                if f.phase == pi {
                    w.list.insert((f.tid, f.op, f.k), f.kind);
                }
            }
            w.mutations = 0;
        }
        let recs: Arc<Mutex<Vec<Rec>>> = Arc::new(Mutex::new(vec![]));
        let mut jobs: Vec<(usize, Job)> = vec![];
        let mut extra = Some(extra);
        for (k, pp) in ph.procs.iter().enumerate() {
            let handles = opened.lock().unwrap()[k].clone();
            let slots = pp.slots.max(1);
            for (ci, steps) in pp.clients.iter().enumerate() {
                let mine: Vec<Option<Arc<H>>> = (0..slots)
                    .map(|s| handles.get(if pp.share { s } else { ci * slots + s }).cloned())
                    .collect();
                let mut steps = steps.clone();
                if let Some(e) = extra.take() {
                    let mut e = e;
                    for (i, s) in e.iter_mut().enumerate() {
                        s.h = i % slots;
                    }
                    steps.extend(e);
                }
                let (metas, recs, base, pr, ext) = (metas.clone(), recs.clone(), plan.env.base.clone(), procs[k], ext.clone());
                jobs.push((pr, Box::new(move |tid| client(tid, pr, pi, Client { slots: mine, bufs: vec![], base, held: vec![] }, steps, metas, recs, &ext))));
            }
            drop(handles);
        }
        opened.lock().unwrap().clear();
        run_threads(jobs, true, limit);
        {
            let w = world();
            po.deadlock = w.deadlock;
            po.livelock = w.livelock;
            po.escapes = w.escapes.drain(..).map(|e| format!("t{} op{} {} {}", e.tid, e.op, e.what, e.path)).collect();
            po.fired = std::mem::take(&mut w.fired);
            po.taken = std::mem::take(&mut w.taken);
            po.locks_left = w.any_locks();
            po.fds_left = w.fds.len();
            po.mutations = w.mutations;
            for p in procs {
                w.kill_proc(p);
            }
            w.readonly = false;
            w.capacity = None;
            w.rates = None;
            w.list.clear();
        }
        po.recs = std::mem::take(&mut *recs.lock().unwrap());
        po.recs.sort_by_key(|r| r.ret);
        po.after = image(plan);
        out.phases.push(po);
    }
    let w = world();
    out.outside_after = outside(w);
    out.log_hash = w.log_hash;
    out.stats = w.stats.clone();
    out.sim_ns = w.clock - clock0;
    out.probes = w.probes.clone();
    out.trace = w.trace.take().unwrap_or_default();
    out
}

fn client<H: Backend>(tid: usize, proc_: usize, phase: usize, mut c: Client<H>, steps: Vec<Step>, metas: Arc<Metas>, recs: Arc<Mutex<Vec<Rec>>>, ext: &crate::ext::Ext) {
    for (idx, st) in steps.iter().enumerate() {
        if world().procs[proc_].dead {
            break;
        }
        let inv = {
            let w = world();
            let t = &mut w.threads[tid];
            t.op = idx;
            t.k = 0;
            t.opsys = 0;
            t.hard_in_op = 0;
            t.hard_cls = 0;
            t.soft_in_op = 0;
            w.seq += 1;
            w.note(|| format!("BEGIN h{}{} {:?}", st.h, if st.ext { " (by another implementation)" } else { "" }, st.op));
            w.seq
        };
        let r = catch_unwind(AssertUnwindSafe(|| if st.ext { ext.exec(&st.op) } else { H::exec(&mut c, &metas, st) }));
        let w = world();
        let dead = w.procs[proc_].dead;
        let res = match r {
            _ if dead => Res::Killed,
            Ok(Ok(v)) => Res::Ok(v),
            Ok(Err(e)) => Res::Err(format!("{:?}", e.kind()), e.to_string()),
            Err(p) => Res::Panic(format!("{} at {}", panic_text(&p), panic_at())),
        };
        w.seq += 1;
        let left = if dead { 0 } else { w.fds.values().filter(|e| e.tid == tid && e.op == idx).count() };
        // The file of a reader that was asked for.
        let kept = left > 0 && matches!((&st.op, &res), (Op::Hold { .. }, Res::Ok(Val::Bool(true))));
        let t = &w.threads[tid];
        let rec = Rec {
            phase,
            tid,
            idx,
            h: st.h,
            op: st.op.clone(),
            inv,
            ret: w.seq,
            hard: t.hard_in_op,
            hard_cls: t.hard_cls,
            soft: t.soft_in_op,
            syscalls: t.opsys,
            leaked: left - kept as usize,
            kept,
            res,
        };
        w.note(|| format!("END {}", brief(&rec.res)));
        recs.lock().unwrap().push(rec);
    }
    drop(c);
    let _ = sys::now_ns;
}
pub fn brief(r: &Res) -> String {
    let mut s = format!("{:?}", r);
    if s.len() > 300 {
        let mut n = 300;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        s.truncate(n);
        s.push_str("...");
    }
    s
}

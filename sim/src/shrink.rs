//! Reduces a failing plan while the same class of violation remains.
use crate::plan::*;
use crate::world::{FKind, Sched};
use std::time::{Duration, Instant};

/// What running a plan showed.
#[derive(Clone, Debug, Default)]
pub struct Verdict {
    pub class: Option<String>,
    pub msg: String,
    pub log_hash: u64,
    pub fired: Vec<Vec<crate::world::Fault>>,
    pub taken: Vec<Vec<(u64, usize)>>,
}

pub fn size(p: &Plan) -> usize {
    let mut n = p.env.files.len();
    for ph in &p.phases {
        n += 2 + ph.env.len() + ph.faults.len();
        n += ph.procs.iter().map(|x| 1 + x.clients.iter().map(|c| 1 + 3 * c.len()).sum::<usize>()).sum::<usize>();
        n += match &ph.sched {
            Sched::Explicit(v) => v.len(),
            _ => 20,
        };
        n += ph.rates.is_some() as usize * 10 + ph.readonly as usize + ph.capacity.is_some() as usize + ph.snapshot.count_ones() as usize + ph.retry as usize;
    }
    n
}

/// The same execution with every choice written out.
pub fn explicit(p: &Plan, v: &Verdict) -> Plan {
    let mut q = p.clone();
    for (i, ph) in q.phases.iter_mut().enumerate() {
        if i >= v.fired.len() {
            break;
        }
        ph.rates = None;
        ph.faults = v.fired[i].clone();
        ph.sched = Sched::Explicit(v.taken[i].clone());
    }
    q
}

fn drop_phase(p: &Plan, i: usize) -> Plan {
    let mut q = p.clone();
    q.phases.remove(i);
    for (j, ph) in q.phases.iter_mut().enumerate() {
        for f in &mut ph.faults {
            f.phase = j;
        }
    }
    q
}
fn drop_client(p: &Plan, i: usize, k: usize, c: usize) -> Plan {
    let mut q = p.clone();
    let ph = &mut q.phases[i];
    let tid = ph.procs[..k].iter().map(|x| x.clients.len()).sum::<usize>() + c;
    ph.procs[k].clients.remove(c);
    if ph.procs[k].clients.is_empty() {
        ph.procs.remove(k);
    }
    ph.faults.retain(|f| f.tid != tid);
    for f in &mut ph.faults {
        if f.tid > tid {
            f.tid -= 1;
        }
    }
    if let Sched::Explicit(v) = &mut ph.sched {
        v.retain(|d| d.1 != tid);
        for d in v {
            if d.1 > tid {
                d.1 -= 1;
            }
        }
    }
    q
}
fn drop_steps(p: &Plan, i: usize, k: usize, c: usize, a: usize, b: usize) -> Plan {
    let mut q = p.clone();
    let ph = &mut q.phases[i];
    let tid = ph.procs[..k].iter().map(|x| x.clients.len()).sum::<usize>() + c;
    ph.procs[k].clients[c].drain(a..b);
    ph.faults.retain(|f| f.tid != tid || f.op < a || f.op >= b);
    for f in &mut ph.faults {
        if f.tid == tid && f.op >= b {
            f.op -= b - a;
        }
    }
    q
}

pub struct Shrinker<'a> {
    pub run: &'a mut dyn FnMut(&Plan) -> Verdict,
    pub class: String,
    pub best: Plan,
    pub tries: u32,
    pub deadline: Instant,
    pub max_tries: u32,
}

impl<'a> Shrinker<'a> {
    fn over(&self) -> bool {
        self.tries >= self.max_tries || Instant::now() > self.deadline
    }
    fn attempt(&mut self, q: Plan) -> bool {
        if self.over() {
            return false;
        }
        self.tries += 1;
        let v = (self.run)(&q);
        if v.class.as_deref() == Some(&self.class) {
            self.best = q;
            true
        } else {
            false
        }
    }
    /// Removes ranges of `len(best)` items, halving the range.
    fn ranges(&mut self, len: &dyn Fn(&Plan) -> usize, cut: &dyn Fn(&Plan, usize, usize) -> Plan) -> bool {
        let mut any = false;
        let mut chunk = len(&self.best);
        while chunk > 0 {
            let mut at = 0;
            while at < len(&self.best) {
                if self.over() {
                    return any;
                }
                let b = (at + chunk).min(len(&self.best));
                let q = cut(&self.best, at, b);
                if self.attempt(q) {
                    any = true;
                } else {
                    at = b;
                }
            }
            chunk /= 2;
        }
        any
    }
    pub fn run(&mut self) {
        let v = (self.run)(&self.best.clone());
        let q = explicit(&self.best, &v);
        self.attempt(q);
        loop {
            let before = size(&self.best);
            self.pass();
            if size(&self.best) >= before || self.over() {
                break;
            }
        }
    }
    fn pass(&mut self) {
        // Schedules first: without preemptions everything after is easier.
        for i in 0..self.best.phases.len() {
            let mut q = self.best.clone();
            q.phases[i].sched = Sched::Explicit(vec![]);
            self.attempt(q);
        }
        let mut i = 0;
        while i < self.best.phases.len() && self.best.phases.len() > 1 {
            let q = drop_phase(&self.best, i);
            if !self.attempt(q) {
                i += 1;
            }
            if self.over() {
                return;
            }
        }
        for i in 0..self.best.phases.len() {
            // Whole clients, then their steps.
            let mut k = 0;
            while k < self.best.phases[i].procs.len() {
                let mut c = 0;
                while k < self.best.phases[i].procs.len() && c < self.best.phases[i].procs[k].clients.len() {
                    let q = drop_client(&self.best, i, k, c);
                    let n = q.phases[i].procs.len();
                    let same = n == self.best.phases[i].procs.len();
                    if n > 0 && self.attempt(q) {
                        if !same {
                            break;
                        }
                    } else {
                        c += 1;
                    }
                    if self.over() {
                        return;
                    }
                }
                k += 1;
            }
            for k in 0..self.best.phases[i].procs.len() {
                for c in 0..self.best.phases[i].procs[k].clients.len() {
                    self.ranges(&|p| p.phases[i].procs[k].clients[c].len(), &|p, a, b| drop_steps(p, i, k, c, a, b));
                }
            }
            self.ranges(&|p| p.phases[i].faults.len(), &|p, a, b| {
                let mut q = p.clone();
                q.phases[i].faults.drain(a..b);
                q
            });
            self.ranges(
                &|p| match &p.phases[i].sched {
                    Sched::Explicit(v) => v.len(),
                    _ => 0,
                },
                &|p, a, b| {
                    let mut q = p.clone();
                    if let Sched::Explicit(v) = &mut q.phases[i].sched {
                        v.drain(a..b);
                    }
                    q
                },
            );
            self.ranges(&|p| p.phases[i].env.len(), &|p, a, b| {
                let mut q = p.clone();
                q.phases[i].env.drain(a..b);
                q
            });
            // Settings.
            for bit in 0..5 {
                if self.best.phases[i].snapshot >> bit & 1 == 1 {
                    let mut q = self.best.clone();
                    q.phases[i].snapshot &= !(1 << bit);
                    self.attempt(q);
                }
            }
            for what in 0..6 {
                let mut q = self.best.clone();
                let ph = &mut q.phases[i];
                let changed = match what {
                    0 => std::mem::replace(&mut ph.retry, false),
                    1 => std::mem::replace(&mut ph.readonly, false),
                    2 => ph.capacity.take().is_some(),
                    3 => ph.rates.take().is_some(),
                    4 => {
                        let mut any = false;
                        for pp in &mut ph.procs {
                            any |= pp.slots > 1;
                            pp.slots = 1;
                        }
                        any
                    }
                    _ => {
                        // Torn writes at the simplest place, and kills before the call rather than in it.
                        let mut any = false;
                        for f in &mut ph.faults {
                            if let FKind::KillPartial(_) = f.kind {
                                f.kind = FKind::Kill;
                                any = true;
                            }
                        }
                        any
                    }
                };
                if changed {
                    self.attempt(q);
                }
            }
            if self.over() {
                return;
            }
        }
        self.ranges(&|p| p.env.files.len(), &|p, a, b| {
            let mut q = p.clone();
            q.env.files.drain(a..b);
            q
        });
        // Metadata nobody refers to any more is not shown; attributes and extensions of the rest may go.
        for m in 0..self.best.metas.len() {
            for key in ["attributes", "extensions"] {
                let mut q = self.best.clone();
                let empty = if key == "attributes" { serde_json::json!({}) } else { serde_json::json!([]) };
                if !q.metas[m][key].is_null() && q.metas[m][key] != empty {
                    q.metas[m][key] = empty;
                    self.attempt(q);
                }
            }
            let mut q = self.best.clone();
            if q.metas[m].get("compressor").map_or(false, |c| !c.is_null()) {
                q.metas[m].as_object_mut().unwrap().remove("compressor");
                self.attempt(q);
            }
        }
        for what in 0..4 {
            let mut q = self.best.clone();
            let e = &mut q.env;
            let changed = match what {
                0 => std::mem::replace(&mut e.dt_unknown, false),
                1 => std::mem::replace(&mut e.pid_collide, false),
                2 => std::mem::replace(&mut e.mem_buf, 0) != 0,
                _ => std::mem::replace(&mut e.mem_style, 0) != 0,
            };
            if changed {
                self.attempt(q);
            }
        }
    }
}

pub fn shrink(run: &mut dyn FnMut(&Plan) -> Verdict, plan: &Plan, class: &str, limit: Duration, max_tries: u32) -> (Plan, u32) {
    let mut s = Shrinker { run, class: class.to_string(), best: plan.clone(), tries: 0, deadline: Instant::now() + limit, max_tries };
    s.run();
    (s.best, s.tries)
}

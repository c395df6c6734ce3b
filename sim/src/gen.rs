//! Plans: one seeded generator per property.
use crate::plan::*;
use crate::rng::{hash2, Rng};
use crate::run::to_hex;
use crate::types::*;
use crate::world::{Cls, FKind, Fault, Rates, Sched};
use serde_json::{json, Value};

const NAMES: &[&str] = &[
    "a", "ab", "a.b", "b", "foo", "foobar", "foo-1", "x.y", ".hid", "é", "data", "meta", "root", "A b", "0", "a.group", "zarr.json", "foo.json", "q.array.json", "q.group.json", "b.array", "a.", ".zarr-b",
];
const ODD: &[&str] = &[
    "a", "A", "b", "B", "._", "_", ".", "-", " ", "%", "%20", "~", "#", "é", "É", "e\u{301}", "\u{1F980}", "0", "00", "x", "X", "jso", "\\", "\n", "*", "?", ":", "tmp", "__", "$", "\"", "'", "&", "+", "=", "@", "root",
];
/// Files that are nobody's node among the metadata documents.
const STRAYS: &[&str] = &[
    "long-named-notes.json", "notes.json", "a.json", "array.json", "xarray.json", "group.json", "foo.array.json~", "foo.group.jsonx", "README.md", "b.array.bak", "a_group.json", "foo.array", ".json",
];
fn leftover(dir: &str, k: u64) -> EnvOp {
    EnvOp::PutText { path: format!("{}.zarr-{}-{}.tmp", dir, [1, 2, 99999][k as usize % 3], k % 2), text: "{\"extensi".into() }
}

pub struct G {
    pub r: Rng,
    vid: u64,
    /// The storage tells doubled slashes apart.
    strict: bool,
}

fn slot(h: usize, op: Op) -> Step {
    Step { h, ext: false, op }
}
fn one(steps: Vec<Step>, slots: usize) -> Vec<ProcPlan> {
    vec![ProcPlan { clients: vec![steps], share: false, slots }]
}
fn phase(label: &str, procs: Vec<ProcPlan>) -> Phase {
    Phase {
        label: label.into(),
        procs,
        env: vec![],
        readonly: false,
        capacity: None,
        rates: None,
        faults: vec![],
        sched: Sched::Explicit(vec![]),
        no_open: false,
        retry: false,
        snapshot: 0,
    }
}
fn snap(bits: u32, slots: usize) -> Phase {
    let mut p = phase("check", one(vec![], slots));
    p.snapshot = bits;
    p
}
fn retry(bits: u32) -> Phase {
    let mut p = phase("retry", one(vec![], 1));
    p.retry = true;
    p.snapshot = bits;
    p
}

impl G {
    fn new(seed: u64) -> G {
        let mut r = Rng::new(seed);
        let vid = r.below(1000) * 100;
        G { r, vid, strict: false }
    }
    fn vid(&mut self) -> u64 {
        self.vid += 1;
        self.vid
    }
    fn env(&mut self) -> Env {
        let r = &mut self.r;
        Env {
            seed: r.u64(),
            base: (*r.pick(&["/w/h.zarr", "/w/deep/er/h", "/w/h"])).into(),
            dt_unknown: r.chance(0.2),
            pid_collide: r.chance(0.2),
            ..Default::default()
        }
    }
    fn plan(&mut self, prop: &str, seed: u64, variant: &str, metas: Vec<Value>, phases: Vec<Phase>) -> Plan {
        Plan { prop: prop.into(), pure: false, seed, variant: variant.into(), env: self.env(), metas, phases }
    }
    fn sched(&mut self) -> Sched {
        let r = &mut self.r;
        if r.chance(0.55) {
            Sched::Walk { seed: r.u64(), p: *r.pick(&[0.03, 0.1, 0.25, 0.5, 0.9]) }
        } else {
            Sched::Pct { seed: r.u64(), d: r.range(1, 5) as u32, n: *r.pick(&[20, 60, 150, 400]) }
        }
    }
    fn rates(&mut self) -> Rates {
        let r = &mut self.r;
        let mut x = Rates { seed: r.u64(), ..Default::default() };
        if r.chance(0.7) {
            x.short = *r.pick(&[0.05, 0.3, 0.9]);
            x.intr = *r.pick(&[0.0, 0.03, 0.2]);
        }
        x
    }
    fn soft(&mut self) -> Option<Rates> {
        Some(self.rates())
    }
    fn hard(&mut self, classes: u32) -> Option<Rates> {
        let mut x = self.rates();
        let r = &mut self.r;
        if r.chance(0.5) {
            x.short = 0.0;
            x.intr = 0.0;
        }
        x.err = *r.pick(&[0.01, 0.04, 0.1, 0.3]);
        x.max_hard = *r.pick(&[1, 1, 2, 4, 8, 30]);
        x.classes = classes;
        Some(x)
    }
    fn kills(&mut self, with_err: bool) -> Option<Rates> {
        let mut x = self.rates();
        let r = &mut self.r;
        x.kill = *r.pick(&[0.004, 0.01, 0.03, 0.1]);
        x.max_hard = *r.pick(&[1, 1, 2, 3]);
        if with_err && r.chance(0.3) {
            x.err = 0.02;
            x.max_hard += 2;
        }
        Some(x)
    }
    /// Explicit faults at call k of operation op.
    fn faults(&mut self, phase: usize, clients: usize, ops: usize, n: usize, kinds: &[FKind]) -> Vec<Fault> {
        let r = &mut self.r;
        (0..n)
            .map(|_| {
                let top = *r.pick(&[4, 8, 12, 25]);
                let k = r.below(top) as u32;
                let mut kind = *r.pick(kinds);
                match &mut kind {
                    FKind::Err(i) => *i = r.below(5) as u32,
                    FKind::Short(p) | FKind::KillPartial(p) => *p = *r.pick(&[0, 1, 300, 500, 999]),
                    _ => {}
                }
                Fault { phase, tid: r.usize(clients), op: r.usize(ops.max(1)), k, kind }
            })
            .collect()
    }
    /// Errors at seeded rates or at chosen calls.
    /// Symbolic links below the data (or metadata) of nodes: to other nodes' directories, to files, to nothing.
    fn links(&mut self, nodes: &[String]) -> Vec<EnvOp> {
        let mut v = vec![];
        for i in 0..self.r.range(1, 3) {
            let (a, b) = (self.r.pick(nodes).clone(), self.r.pick(nodes).clone());
            let (a, b) = (a.trim_matches('/'), b.trim_matches('/'));
            let up = "../".repeat(if a.is_empty() { 0 } else { a.split('/').count() });
            let to = match self.r.below(6) {
                0 => format!("{}{}/c0", up, b),
                1 => "nothing".to_string(),
                2 => format!("{}../../meta/root/{}", up, b),
                3 => format!("{}../../meta/root/{}.array.json", up, b),
                _ => format!("{}{}", up, b),
            };
            v.push(EnvOp::Link { path: format!("data/root/{}/zz{}", a, i).replace("//", "/"), to });
        }
        v
    }
    fn hard_into(&mut self, ph: &mut Phase, idx: usize, classes: u32) {
        let ops = ph.procs[0].clients[0].len();
        if self.r.chance(0.6) {
            ph.rates = self.hard(classes);
        } else {
            let n = self.r.range(1, 3) as usize;
            ph.faults = self.faults(idx, 1, ops, n, &[FKind::Err(0)]);
            ph.rates = self.soft();
        }
    }
    fn kill_into(&mut self, ph: &mut Phase, idx: usize, with_err: bool) {
        let clients: usize = ph.procs.iter().map(|p| p.clients.len()).sum();
        let ops = ph.procs[0].clients[0].len();
        if self.r.chance(0.5) {
            ph.rates = self.kills(with_err);
        } else {
            ph.faults = self.faults(idx, clients, ops, 1, &[FKind::Kill, FKind::KillPartial(0)]);
            ph.rates = self.soft();
        }
    }
    /// Look, then repeat what failed, then look again; or repeat at once.
    fn tail(&mut self, phases: &mut Vec<Phase>, bits: u32) {
        match self.r.below(4) {
            0 => phases.push(snap(bits, 1)),
            1 => phases.push(retry(bits)),
            _ => {
                phases.push(snap(bits, 1));
                phases.push(retry(bits));
            }
        }
    }
    fn name(&mut self) -> String {
        if self.r.chance(0.1) {
            return self.odd_name();
        }
        (*self.r.pick(NAMES)).to_string()
    }
    /// Any name a node can have that none of the store's own keys may have.
    fn odd_name(&mut self) -> String {
        let mut s = String::new();
        for _ in 0..self.r.range(1, 3) {
            s.push_str(*self.r.pick(ODD));
        }
        if s.chars().all(|c| c == '.') {
            s.push('a');
        }
        s
    }
    /// A name much like another one.
    fn like(&mut self, n: &str) -> String {
        match self.r.below(8) {
            0 | 1 => n.to_uppercase(),
            2 => n.to_lowercase(),
            3 => format!("{} ", n),
            4 => format!("{}~", n),
            5 => format!(".{}", n),
            6 => format!("._{}", n),
            _ => format!("{}{}", n, n),
        }
    }
    /// n distinct node paths, siblings and descendants of each other.
    fn tree(&mut self, n: usize) -> Vec<String> {
        let mut v: Vec<String> = vec![];
        let mut tries = 0;
        if n > 1 && self.r.chance(0.08) {
            v.push(String::new());
        }
        while v.len() < n && tries < 50 {
            tries += 1;
            let mut name = self.name();
            if !v.is_empty() && self.r.chance(0.1) {
                // Beside a node of a similar name.
                let q = self.r.pick(&v).clone();
                let (dir, last) = q.rsplit_once('/').unwrap_or(("", &q));
                if !last.is_empty() {
                    name = self.like(last);
                    let p = if dir.is_empty() { name } else { format!("{}/{}", dir, name) };
                    if !v.contains(&p) {
                        v.push(p);
                    }
                    continue;
                }
            }
            let p = if !v.is_empty() && self.r.chance(0.45) {
                let q = self.r.pick(&v).clone();
                if q.is_empty() || q.split('/').count() >= 3 {
                    continue;
                }
                format!("{}/{}", q, name)
            } else {
                name
            };
            if !v.contains(&p) {
                v.push(p);
            }
        }
        v
    }
    fn spell(&mut self, p: &str) -> String {
        let r = &mut self.r;
        match r.below(10) {
            0 => format!("/{}", p),
            1 => format!("{}/", p),
            2 => format!("/{}/", p),
            3 if !self.strict => p.replace('/', "//"),
            4 => format!("//{}//", p),
            _ => p.to_string(),
        }
    }
    fn meta(&mut self) -> Value {
        if self.r.chance(0.04) {
            // Grid positions that need more than 32 bits.
            let e = 1 << *self.r.pick(&[17, 33, 36, 41, 62]);
            return gen_meta(&mut self.r, &MetaOpts { max_rank: 3, max_extent: e, max_chunk: 5, max_nel: 64, codecs: ALL_CODECS, raw_ext: false });
        }
        match self.r.below(20) {
            0 => gen_meta(&mut self.r, &MetaOpts { max_rank: 7, max_extent: 2, max_chunk: 2, max_nel: 64, codecs: ALL_CODECS, raw_ext: false }),
            1 | 2 => gen_meta(&mut self.r, &MetaOpts { max_rank: 1, max_extent: 9000, max_chunk: 5000, max_nel: 5000, codecs: ALL_CODECS, raw_ext: false }),
            3 => gen_meta(&mut self.r, &MetaOpts { max_rank: 2, max_extent: 100, max_chunk: 60, max_nel: 2000, codecs: ALL_CODECS, raw_ext: false }),
            _ => gen_meta(&mut self.r, &DEFAULT_OPTS),
        }
    }
    /// Metadata whose arrays have at least one chunk.
    fn meta1(&mut self) -> Value {
        loop {
            let m = self.meta();
            if grid_of(&m).iter().all(|g| *g > 0) {
                return m;
            }
        }
    }
    /// For concurrency: values that differ reliably, small rank.
    fn meta_c(&mut self) -> Value {
        loop {
            let (mc, mn) = if self.r.chance(0.25) { (3000, 3000) } else { (6, 30) };
            let o = MetaOpts { max_rank: 2, max_extent: mc * 2, max_chunk: mc, max_nel: mn, codecs: ALL_CODECS, raw_ext: false };
            let m = gen_meta(&mut self.r, &o);
            let t = dtype_of(&m).0;
            if grid_of(&m).iter().all(|g| *g > 0) && width(&t) >= 4 {
                return m;
            }
        }
    }
    /// Metadata of uninterpreted elements, or (rarely) of chunks larger than the buffers on the way to storage.
    fn spice(&mut self, m: &mut Value, big: bool) {
        if self.r.chance(0.06) {
            m["data_type"] = json!(*self.r.pick(&RAWS));
            m["fill_value"] = Value::Null;
        }
        if big && self.r.chance(0.008) {
            let top = *self.r.pick(&[40_000, 120_000, 300_000]);
            let n = self.r.range(20_000, top);
            m["shape"] = json!([n * 2 - 1]);
            m["chunk_grid"]["chunk_shape"] = json!([n]);
            if width(&dtype_of(m).0) > 2 {
                m["data_type"] = json!(*self.r.pick(&["u1", "i1", "bool", "<u2", ">i2", "r8"]));
                m["fill_value"] = Value::Null;
            }
        }
    }
    fn spiced(&mut self, n: usize, big: bool) -> Vec<Value> {
        let mut v = self.some_metas(n);
        for m in v.iter_mut() {
            self.spice(m, big);
        }
        v
    }
    fn pos(&mut self, m: &Value) -> Vec<u64> {
        let hot = self.r.chance(0.7);
        let r = &mut self.r;
        grid_of(m)
            .iter()
            .map(|g| {
                if *g > 1 << 16 {
                    // Positions that agree in their low bits.
                    let k = *r.pick(&[0u64, 1 << 16, 1 << 31, 1 << 32, 1 << 33, 1 << 40, 1 << 62]);
                    (k.wrapping_add(r.below(2))).min(*g - 1 - r.below(2))
                } else if hot {
                    r.below((*g).min(2))
                } else {
                    r.below(*g)
                }
            })
            .collect()
    }
    fn attrs(&mut self) -> Value {
        gen_attrs(&mut self.r)
    }
    fn bad_write(&mut self, path: &str, metas: &[Value], mi: usize, pos: Vec<u64>) -> Op {
        let n0 = nel(&metas[mi]);
        let t0 = dtype_of(&metas[mi]).0;
        let vid = self.vid();
        if !t0.starts_with('r') && self.r.chance(0.2) {
            return Op::Write { path: path.into(), meta: mi, pos, vid, ty: Some("!".into()), n: None };
        }
        let (ty, n) = match self.r.below(4) {
            0 if t0.starts_with('r') || self.r.chance(0.2) => (Some((*self.r.pick(&RAWS)).to_string()), None),
            0 => (Some((*self.r.pick(&TYPES)).to_string()), None),
            1 => (None, Some(n0 - 1)),
            2 => (None, Some(n0 + 1)),
            _ => (None, Some(self.r.usize(2 * n0 + 2))),
        };
        let ok = ty.as_ref().map_or(true, |t| *t == t0) && n.map_or(true, |n| n == n0);
        let n = if ok { Some(n0 + 3) } else { n };
        Op::Write { path: path.into(), meta: mi, pos, vid, ty, n }
    }
    /// A box on (and sometimes beyond) an array.
    fn bbox(&mut self, m: &Value, wild: bool) -> (Vec<u64>, Vec<u64>) {
        let s = shape_of(m);
        let c = cshape_of(m);
        let (mut off, mut sh) = (vec![], vec![]);
        let whole = self.r.chance(0.15);
        let align = self.r.chance(0.25);
        let budget = if s.iter().any(|n| *n > 1 << 20) { 400u64 } else { 4000 };
        let mut n = 1u64;
        for i in 0..s.len() {
            let r = &mut self.r;
            let (mut o, mut l) = if whole {
                (0, s[i])
            } else if align {
                let g = (s[i] / c[i]).max(1);
                let a = r.below(g);
                (a * c[i], c[i] * r.range(1, 2))
            } else {
                let o = if s[i] > 1 << 20 {
                    let k = *r.pick(&[0u64, 1 << 16, 1 << 32, 1 << 53, 1 << 62]);
                    (k + r.below(6)).min(s[i] - 1 - r.below(6))
                } else {
                    r.below(s[i].max(1))
                };
                (o, r.range(0, (s[i] + 2 - o).max(1)))
            };
            if r.chance(0.03) {
                l = 0;
            }
            if wild && r.chance(0.12) {
                match r.below(5) {
                    0 => o = s[i],
                    1 => o = s[i] + r.below(3 * c[i]),
                    2 => o = u64::MAX - r.below(4),
                    3 => o = (1 << 63) - 1 + r.below(3),
                    _ => l += r.below(2 * c[i]),
                }
            }
            if !wild {
                l = l.min(s[i] - o.min(s[i]));
            }
            l = l.min((budget / n).max(1)).min(400);
            n *= l.max(1);
            off.push(o);
            sh.push(l);
        }
        (off, sh)
    }
    fn mix(&mut self, metas: &[Value], arrs: &[(String, usize)], groups: &[String], n: usize, w: &[(u32, &str)], slots: usize) -> Vec<Step> {
        let ws: Vec<u32> = w.iter().map(|x| x.0).collect();
        let all: Vec<String> = arrs.iter().map(|a| a.0.clone()).chain(groups.iter().cloned()).collect();
        let mut v = vec![];
        while v.len() < n {
            let k = w[self.r.weighted(&ws)].1;
            let h = self.r.usize(slots);
            let op = match k {
                "array" | "write" | "badwrite" | "read" | "del" | "wr" | "rr" | "uri" => {
                    if arrs.is_empty() {
                        continue;
                    }
                    let (p, m) = self.r.pick(arrs).clone();
                    let md = metas[m].clone();
                    if k != "array" && k != "wr" && k != "rr" && grid_of(&md).iter().any(|g| *g == 0) {
                        continue;
                    }
                    // Regions need the library's own chunk type.
                    if (k == "wr" || k == "rr") && is_raw(&md) {
                        continue;
                    }
                    let sp = self.spell(&p);
                    match k {
                        "array" => Op::CreateArray { path: sp, meta: m },
                        "write" => Op::Write { path: sp, meta: m, pos: self.pos(&md), vid: self.vid(), ty: None, n: None },
                        "badwrite" => {
                            let pos = self.pos(&md);
                            self.bad_write(&sp, metas, m, pos)
                        }
                        "read" => Op::Read { path: sp, meta: m, pos: self.pos(&md), how: self.r.below(3) as u8 },
                        "uri" => Op::Uri { path: sp, meta: m, pos: self.pos(&md) },
                        "del" => Op::Delete { path: sp, meta: m, pos: self.pos(&md) },
                        "wr" => {
                            let (off, shape) = self.bbox(&md, false);
                            Op::WriteRegion { path: sp, meta: m, off, shape, vid: self.vid(), how: self.r.below(3) as u8 }
                        }
                        _ => {
                            let (off, shape) = self.bbox(&md, false);
                            Op::ReadRegion { path: sp, meta: m, off, shape, how: self.r.below(4) as u8 }
                        }
                    }
                }
                "group" => {
                    if groups.is_empty() {
                        continue;
                    }
                    let p = self.r.pick(groups).clone();
                    Op::CreateGroup { path: self.spell(&p) }
                }
                _ => {
                    if all.is_empty() {
                        continue;
                    }
                    let p = self.r.pick(&all).clone();
                    let sp = self.spell(&p);
                    let par = p.rsplit_once('/').map_or(String::new(), |x| x.0.to_string());
                    match k {
                        "attrs" => Op::SetAttrs { path: sp, attrs: self.attrs() },
                        "attr" => Op::SetAttr { path: sp, key: gen_str(&mut self.r), value: gen_json(&mut self.r, 2) },
                        "la" => Op::ListAttrs { path: sp },
                        "meta" => Op::GetMeta { path: sp },
                        "doc" => Op::KAttrs { path: sp, array: if arrs.iter().any(|a| a.0 == p) { self.r.chance(0.9) } else { self.r.chance(0.1) } },
                        "exists" => Op::Exists { path: sp },
                        "aexists" => Op::ArrayExists { path: sp },
                        "list" => Op::ListNodes { path: self.spell(&par) },
                        "listself" => Op::ListNodes { path: sp },
                        "remove" => Op::Remove { path: sp },
                        "anycreate" => {
                            if self.r.chance(0.5) || metas.is_empty() {
                                Op::CreateGroup { path: sp }
                            } else {
                                Op::CreateArray { path: sp, meta: self.r.usize(metas.len()) }
                            }
                        }
                        k => panic!("harness: op kind {}", k),
                    }
                }
            };
            v.push(slot(h, op));
        }
        v
    }
    /// Creates everything and stores some chunks.
    fn populate(&mut self, metas: &[Value], arrs: &[(String, usize)], groups: &[String], chunks: usize) -> Vec<Step> {
        let mut v: Vec<Step> = vec![];
        for (p, m) in arrs {
            v.push(step(Op::CreateArray { path: p.clone(), meta: *m }));
        }
        for p in groups {
            v.push(step(Op::CreateGroup { path: p.clone() }));
        }
        self.r.shuffle(&mut v);
        let w = self.mix(metas, arrs, groups, chunks, &[(6, "write"), (2, "attrs")], 1);
        v.extend(w);
        v
    }
    fn split(&mut self, paths: Vec<String>, metas: usize) -> (Vec<(String, usize)>, Vec<String>) {
        let (mut a, mut g) = (vec![], vec![]);
        for p in paths {
            if self.r.chance(0.6) {
                a.push((p, self.r.usize(metas)));
            } else {
                g.push(p);
            }
        }
        if a.is_empty() {
            a.push(("arr".into(), 0));
        }
        (a, g)
    }
    fn some_metas(&mut self, n: usize) -> Vec<Value> {
        (0..n)
            .map(|_| {
                let mut m = self.meta1();
                if self.r.chance(0.2) {
                    m["attributes"] = gen_attrs(&mut self.r);
                }
                if self.r.chance(0.1) {
                    let mut l = vec![json!({"extension": "http://example.org/e", "must_understand": false})];
                    if self.r.chance(0.5) {
                        let k = self.r.usize(2);
                        l.insert(k, json!({"extension": "http://example.org/f", "must_understand": false, "configuration": gen_attrs(&mut self.r)}));
                    }
                    m["extensions"] = json!(l);
                }
                if self.r.chance(0.08) && m["data_type"].is_string() {
                    // A type of an extension, stored as its fallback.
                    m["data_type"] = json!({"extension": "http://example.org/t", "type": *self.r.pick(&["t", "<M8[ns]", ""]), "fallback": m["data_type"]});
                }
                m
            })
            .collect()
    }
}

pub fn generate(prop: &str, seed: u64) -> Plan {
    let mut g = G::new(hash2(seed, crate::rng::hash_bytes(3, prop.as_bytes())));
    let mut p = match prop {
        "C01" => c01(&mut g, seed),
        "C02" => c02(&mut g, seed),
        "C03" => c03(&mut g, seed),
        "C04" => c04(&mut g, seed),
        "C05" => c05(&mut g, seed),
        "C06" => c06(&mut g, seed),
        "C07" => c07(&mut g, seed),
        "C08" => c08(&mut g, seed),
        "C09" => c09(&mut g, seed),
        "C10" => c10(&mut g, seed),
        "C11" => c11(&mut g, seed),
        "C12" => c12(&mut g, seed),
        "C13" => c13(&mut g, seed),
        "C14" => c14(&mut g, seed),
        "C15" => c15(&mut g, seed),
        "C16" => c16(&mut g, seed),
        "C17" => c17(&mut g, seed),
        "C18" => c18(&mut g, seed),
        "C19" => c19(&mut g, seed),
        "C20" => c20(&mut g, seed),
        "C21" => c21(&mut g, seed),
        _ => panic!("harness: property {}", prop),
    };
    p.env.seed = hash2(p.env.seed, 1);
    if matches!(prop, "C06" | "C12" | "C16") && g.r.chance(0.2) {
        let n = g.r.range(1, 4);
        for _ in 0..n {
            let e = if g.r.chance(0.3) {
                let d = *g.r.pick(&["", "meta/root/", "data/root/"]);
                leftover(d, g.r.below(6))
            } else {
                EnvOp::PutText { path: format!("meta/root/{}", g.r.pick(STRAYS)), text: "{}".into() }
            };
            p.phases[0].env.push(e);
        }
    }
    if !matches!(prop, "C19" | "C20" | "C14" | "C15") && g.r.chance(0.15) {
        // The nodes are those of another implementation.
        for ph in p.phases.iter_mut().filter(|p| p.label == "populate") {
            for st in ph.procs.iter_mut().flat_map(|p| p.clients.iter_mut()).flatten() {
                st.ext |= matches!(st.op, Op::CreateArray { .. } | Op::CreateGroup { .. });
            }
        }
    } else if matches!(prop, "C01" | "C05" | "C08" | "C10" | "C12" | "C13" | "C18" | "C19" | "C21") && g.r.chance(0.3) {
        let q = *g.r.pick(&[0.06, 0.2, 0.5]);
        let no_array: Vec<bool> = p.metas.iter().map(|d| !crate::model::describes_array(d)).collect();
        for ph in p.phases.iter_mut().filter(|p| !p.readonly && !p.no_open) {
            for st in ph.procs.iter_mut().flat_map(|p| p.clients.iter_mut()).flatten() {
                st.ext = crate::ext::Ext::supports(&st.op) && g.r.chance(q) && !matches!(&st.op, Op::CreateArray { meta, .. } if no_array[*meta]);
            }
        }
    }
    p
}

// ---------------------------------------------------------------- C01

fn c01(g: &mut G, seed: u64) -> Plan {
    let nm = g.r.range(1, 3) as usize;
    let metas = g.spiced(nm, true);
    let paths = g.tree(nm);
    let arrs: Vec<(String, usize)> = paths.into_iter().enumerate().map(|(i, p)| (p, i % nm)).collect();
    let mut phases = vec![];
    let np = g.r.range(1, 3);
    let w = [(10, "write"), (8, "read"), (3, "del"), (2, "badwrite"), (1, "attrs"), (1, "uri")];
    for i in 0..np {
        let slots = g.r.range(1, 3) as usize;
        let n = g.r.range(4, 18) as usize;
        let mut st = if i == 0 { g.populate(&metas, &arrs, &[], 0) } else { vec![] };
        st.extend(g.mix(&metas, &arrs, &[], n, &w, slots));
        let mut ph = phase("chunks", one(st, slots));
        ph.rates = g.soft();
        phases.push(ph);
    }
    let mut s = snap(SNAP_CHUNKS, 2);
    s.rates = g.soft();
    phases.push(s);
    g.plan("C01", seed, "history", metas, phases)
}

// ---------------------------------------------------------------- C02

const ALL_W: [(u32, &str); 7] = [(8, "write"), (3, "wr"), (2, "del"), (4, "anycreate"), (4, "attrs"), (1, "attr"), (2, "remove")];

fn c02(g: &mut G, seed: u64) -> Plan {
    if g.r.chance(0.12) {
        // Creating the hierarchy itself.
        let n = g.r.range(1, 3) as usize;
        let mut ph = phase("create", one((0..n).map(|_| step(Op::OpenOrCreate)).collect(), 1));
        ph.no_open = true;
        if g.r.chance(0.2) {
            ph.capacity = Some(g.r.below(300));
        } else {
            g.hard_into(&mut ph, 0, 0);
        }
        let mut p2 = phase("open", one(vec![step(Op::OpenOrCreate), step(Op::Open), step(Op::CreateGroup { path: "g".into() })], 1));
        p2.no_open = true;
        let p3 = snap(SNAP_NODES, 1);
        return g.plan("C02", seed, "create", vec![], vec![ph, p2, p3]);
    }
    let nm = g.r.range(1, 2) as usize;
    let metas = g.spiced(nm, true);
    let t = g.tree(4);
    let (arrs, groups) = g.split(t, nm);
    let n = g.r.range(0, 4) as usize;
    let mut phases = vec![phase("populate", one(g.populate(&metas, &arrs, &groups, n), 1))];
    let np = g.r.range(1, 2);
    for i in 0..np {
        let slots = 1;
        let n = g.r.range(2, 10) as usize;
        let st = g.mix(&metas, &arrs, &groups, n, &ALL_W, slots);
        let mut ph = phase("faults", one(st, slots));
        match g.r.below(10) {
            0 => ph.readonly = true,
            1 | 2 => {
                let top = *g.r.pick(&[40, 400, 5000, 30000]);
                ph.capacity = Some(g.r.below(top));
                ph.rates = g.soft();
            }
            _ => g.hard_into(&mut ph, i as usize + 1, 0),
        }
        phases.push(ph);
    }
    phases.push(snap(SNAP_CHUNKS | SNAP_NODES | SNAP_LISTS, 1));
    g.plan("C02", seed, "faults", metas, phases)
}

// ---------------------------------------------------------------- C03

fn c03(g: &mut G, seed: u64) -> Plan {
    let nm = g.r.range(1, 2) as usize;
    let metas = g.spiced(nm, true);
    let t = g.tree(4);
    let (arrs, groups) = g.split(t, nm);
    // Not everything exists beforehand.
    let n = g.r.range(1, 6) as usize;
    let mut pop = g.populate(&metas, &arrs, &groups, n);
    if g.r.chance(0.5) && pop.len() > 2 {
        let i = g.r.usize(pop.len().min(arrs.len() + groups.len()));
        pop.remove(i);
    }
    // Attribute updates of a node that does not exist are refused; fine either way.
    let mut phases = vec![phase("populate", one(pop, 1))];
    let n = g.r.range(1, 8) as usize;
    let st = g.mix(&metas, &arrs, &groups, n, &[(8, "write"), (3, "badwrite"), (3, "anycreate"), (4, "attrs"), (2, "attr")], 1);
    let mut ph = phase("faults", one(st, 1));
    match g.r.below(10) {
        0 => ph.readonly = true,
        1 | 2 => {
            let top = *g.r.pick(&[40, 400, 5000, 30000]);
            ph.capacity = Some(g.r.below(top));
            ph.rates = g.soft();
        }
        _ => g.hard_into(&mut ph, 1, 0),
    }
    phases.push(ph);
    let bits = SNAP_CHUNKS | SNAP_NODES | SNAP_LISTS;
    g.tail(&mut phases, bits);
    g.plan("C03", seed, "faults", metas, phases)
}

// ---------------------------------------------------------------- C04

fn c04(g: &mut G, seed: u64) -> Plan {
    if g.r.chance(0.08) {
        let mut ph = phase("create", vec![]);
        for _ in 0..g.r.range(1, 3) {
            ph.procs.push(ProcPlan { clients: vec![vec![step(Op::OpenOrCreate), step(Op::CreateGroup { path: "g".into() })]], share: false, slots: 1 });
        }
        ph.no_open = true;
        ph.sched = g.sched();
        g.kill_into(&mut ph, 0, false);
        let mut s = phase("check", one(vec![step(Op::OpenOrCreate)], 1));
        s.no_open = true;
        s.snapshot = SNAP_NODES;
        return g.plan("C04", seed, "create", vec![], vec![ph, s]);
    }
    let nm = g.r.range(1, 2) as usize;
    let metas = g.spiced(nm, false);
    let clients = *g.r.pick(&[1usize, 1, 2, 3]);
    let mut procs = vec![];
    let mut pop = vec![];
    let w = [(8, "write"), (2, "wr"), (3, "del"), (3, "anycreate"), (4, "attrs"), (1, "attr"), (2, "remove"), (2, "read")];
    let mut lens = vec![];
    for c in 0..clients {
        // Each client owns a subtree.
        let t: Vec<String> = g.tree(3).into_iter().map(|p| if clients > 1 { format!("own{}/{}", c, p) } else { p }).collect();
        let (arrs, groups) = g.split(t, nm);
        let arrs: Vec<(String, usize)> = arrs.into_iter().map(|(p, m)| (if clients > 1 && !p.starts_with("own") { format!("own{}/{}", c, p) } else { p }, m)).collect();
        let n = g.r.range(0, 5) as usize;
        pop.extend(g.populate(&metas, &arrs, &groups, n));
        let n = g.r.range(1, 7) as usize;
        let st = g.mix(&metas, &arrs, &groups, n, &w, 1);
        lens.push(st.len());
        if c > 0 && g.r.chance(0.4) {
            let last: &mut ProcPlan = procs.last_mut().unwrap();
            last.clients.push(st);
        } else {
            procs.push(ProcPlan { clients: vec![st], share: g.r.chance(0.5), slots: 1 });
        }
    }
    let mut ph = phase("kill", procs);
    ph.sched = g.sched();
    g.kill_into(&mut ph, 1, false);
    let bits = SNAP_CHUNKS | SNAP_NODES | SNAP_LISTS;
    let mut phases = vec![phase("populate", one(pop, 1)), ph];
    g.tail(&mut phases, bits);
    g.plan("C04", seed, "kill", metas, phases)
}

// ---------------------------------------------------------------- C05

fn c05(g: &mut G, seed: u64) -> Plan {
    let metas = vec![g.meta_c()];
    let m = metas[0].clone();
    let path = g.name();
    let npos = g.r.range(1, 2) as usize;
    let poss: Vec<Vec<u64>> = (0..npos).map(|_| grid_of(&m).iter().map(|x| g.r.below(*x)).collect()).collect();
    let mut pop = vec![step(Op::CreateArray { path: path.clone(), meta: 0 })];
    if g.r.chance(0.6) {
        pop.push(step(Op::Write { path: path.clone(), meta: 0, pos: poss[0].clone(), vid: g.vid() * 5 + 3, ty: None, n: None }));
    }
    let clients = g.r.range(2, 4) as usize;
    let nproc = g.r.range(1, clients.min(3) as u64) as usize;
    let mut procs: Vec<ProcPlan> = (0..nproc).map(|_| ProcPlan { clients: vec![], share: g.r.chance(0.6), slots: 1 }).collect();
    let w = match g.r.below(4) {
        0 => [5, 5, 0, 0, 0],
        1 => [4, 4, 4, 0, 0],
        2 => [2, 6, 2, 1, 1],
        _ => [3, 3, 3, 2, 2],
    };
    for c in 0..clients {
        let n = g.r.range(1, 4);
        let st = (0..n)
            .map(|_| {
                let pos = g.r.pick(&poss).clone();
                let p = path.clone();
                let off: Vec<u64> = pos.iter().zip(cshape_of(&m)).map(|(a, b)| a * b).collect();
                let inside = off.iter().zip(cshape_of(&m)).zip(shape_of(&m)).all(|((o, c), s)| o + c <= s);
                let sh = cshape_of(&m);
                step(match g.r.weighted(&w) {
                    0 => Op::Write { path: p, meta: 0, pos, vid: g.vid() * 5 + 2 + g.r.below(3), ty: None, n: None },
                    1 => Op::Read { path: p, meta: 0, pos, how: g.r.below(3) as u8 },
                    2 => Op::Delete { path: p, meta: 0, pos },
                    3 if inside => Op::WriteRegion { path: p, meta: 0, off, shape: sh, vid: g.vid() * 5 + 3, how: g.r.below(3) as u8 },
                    4 if inside => Op::ReadRegion { path: p, meta: 0, off, shape: sh, how: g.r.below(4) as u8 },
                    _ => Op::Read { path: p, meta: 0, pos, how: 0 },
                })
            })
            .collect();
        procs[c % nproc].clients.push(st);
    }
    let mut ph = phase("race", procs);
    ph.sched = g.sched();
    ph.rates = if g.r.chance(0.15) { g.kills(false) } else { g.soft() };
    let phases = vec![phase("populate", one(pop, 1)), ph, snap(SNAP_CHUNKS, 1)];
    g.plan("C05", seed, "race", metas, phases)
}

// ---------------------------------------------------------------- C06

fn c06(g: &mut G, seed: u64) -> Plan {
    let nm = g.r.range(1, 2) as usize;
    let mut metas: Vec<Value> = (0..nm).map(|_| g.meta_c()).collect();
    // One shared array whose chunks are divided among the clients.
    let mut sm = g.meta_c();
    sm["shape"] = json!([40, 6]);
    sm["chunk_grid"]["chunk_shape"] = json!([3, 4]);
    metas.push(sm);
    let si = metas.len() - 1;
    let clients = g.r.range(2, 4) as usize;
    let nproc = g.r.range(1, clients.min(3) as u64) as usize;
    let mut procs: Vec<ProcPlan> = (0..nproc).map(|_| ProcPlan { clients: vec![], share: g.r.chance(0.6), slots: 1 }).collect();
    let sh = *g.r.pick(&["sh", "sh/deep", ""]);
    let pre = if sh.is_empty() { String::new() } else { format!("{}/", sh) };
    let shared = format!("{}arr", pre);
    let mut pop = vec![];
    if g.r.chance(0.5) {
        pop.push(step(Op::CreateArray { path: shared.clone(), meta: si }));
    }
    if !sh.is_empty() && g.r.chance(0.4) {
        pop.push(step(Op::CreateGroup { path: sh.into() }));
    }
    for k in 0..g.r.below(3) {
        pop.push(step(Op::CreateGroup { path: format!("{}still{}", pre, k) }));
    }
    let stem = *g.r.pick(&["p", "p", "x."]);
    for c in 0..clients {
        let own = format!("{}{}{}", pre, stem, if c == 1 { 10 } else { c });
        let mut st = vec![];
        if g.r.chance(0.6) {
            // First-time creation of shared directories right away.
            let m = g.r.usize(nm);
            st.push(step(Op::CreateArray { path: own.clone(), meta: m }));
            let pos = g.pos(&metas[m].clone());
            st.push(step(Op::Write { path: own.clone(), meta: m, pos, vid: g.vid(), ty: None, n: None }));
            let arrs = vec![(own.clone(), m)];
            let n = g.r.range(0, 4) as usize;
            st.extend(g.mix(&metas, &arrs, &[format!("{}/sub", own)], n, &[(3, "write"), (2, "read"), (1, "del"), (2, "attrs"), (2, "group"), (1, "la"), (1, "meta"), (1, "remove"), (1, "exists")], 1));
        } else {
            let n = g.r.range(1, 5) as usize;
            for _ in 0..n {
                let pos = vec![g.r.below(3) * clients as u64 + c as u64, g.r.below(2)];
                let p = shared.clone();
                st.push(step(match g.r.below(4) {
                    0 | 1 => Op::Write { path: p, meta: si, pos, vid: g.vid(), ty: None, n: None },
                    2 => Op::Read { path: p, meta: si, pos, how: g.r.below(3) as u8 },
                    _ => Op::Delete { path: p, meta: si, pos },
                }));
            }
        }
        if g.r.chance(0.4) {
            let at = g.r.usize(st.len() + 1);
            st.insert(at, step(Op::ListNodes { path: sh.into() }));
        }
        procs[c % nproc].clients.push(st);
    }
    let mut ph = phase("parallel", procs);
    ph.sched = g.sched();
    ph.rates = g.soft();
    let phases = vec![phase("populate", one(pop, 1)), ph, snap(SNAP_CHUNKS | SNAP_NODES | SNAP_LISTS, 2)];
    g.plan("C06", seed, "parallel", metas, phases)
}

// ---------------------------------------------------------------- C07

pub fn entry_doc(version: &str, suffix: &str, ext: Value) -> String {
    json!({
        "zarr_format": format!("https://purl.org/zarr/spec/protocol/core/{}", version),
        "metadata_encoding": "https://purl.org/zarr/spec/protocol/core/3.0",
        "metadata_key_suffix": suffix,
        "extensions": ext,
    })
    .to_string()
}
/// Extensions of a hierarchy, one of which must be understood if asked for.
fn entry_extensions(g: &mut G, must: bool) -> Value {
    let n = if must { g.r.range(1, 3) } else { g.r.below(3) };
    let k = g.r.below(n.max(1));
    let mut v = vec![];
    for i in 0..n {
        let mut e = json!({"extension": format!("http://example.org/e{}", i), "must_understand": must && i == k});
        if g.r.chance(0.5) {
            e["configuration"] = json!({"a": 1, "must_understand": i != k});
        }
        v.push(e);
    }
    Value::Array(v)
}
fn c07(g: &mut G, seed: u64) -> Plan {
    let mut entry = None;
    let variant = match g.r.below(10) {
        0..=4 => "fresh",
        5 | 6 => {
            let sfx = *g.r.pick(&[".json", ".js", "json", ".meta.json"]);
            let ext = entry_extensions(g, false);
            let mut d = entry_doc(*g.r.pick(&["3.0", "3.0", "3", "3.0.0"]), sfx, ext);
            if g.r.chance(0.3) {
                // The same version, named otherwise.
                d = d.replace("spec/protocol/core/3", g.r.pick(&["spec/core/3", "3", "spec/protocol/core/v3/3"]));
            }
            if g.r.chance(0.3) {
                d = format!("\n{}  \n", d.replace(',', " ,\n"));
            }
            entry = Some(d);
            "existing"
        }
        7 => {
            entry = Some(entry_doc(*g.r.pick(&["2.0", "4.0", "1", "3.1-x", "nonsense", ""]), ".json", json!([])));
            "version"
        }
        8 => {
            let ext = entry_extensions(g, true);
            entry = Some(entry_doc("3.0", ".json", ext));
            "extension"
        }
        _ => {
            let full = entry_doc("3.0", ".json", json!([]));
            entry = Some(full[..g.r.usize(full.len())].to_string());
            "torn"
        }
    };
    let clients = g.r.range(1, 5) as usize;
    let mut procs: Vec<ProcPlan> = vec![];
    let only_open = g.r.chance(0.25);
    for c in 0..clients {
        let mut st = vec![];
        for _ in 0..g.r.range(1, 2) {
            st.push(step(if only_open || g.r.chance(0.25) { Op::Open } else { Op::OpenOrCreate }));
        }
        if matches!(st.last().unwrap().op, Op::OpenOrCreate) && g.r.chance(0.4) {
            st.push(step(Op::CreateGroup { path: format!("g{}", c) }));
            st.push(step(Op::Exists { path: format!("g{}", c) }));
        }
        if c > 0 && g.r.chance(0.5) {
            procs.last_mut().unwrap().clients.push(st);
        } else {
            procs.push(ProcPlan { clients: vec![st], share: false, slots: 1 });
        }
    }
    let mut ph = phase("openers", procs);
    ph.no_open = true;
    ph.sched = g.sched();
    match g.r.below(10) {
        0..=2 => g.kill_into(&mut ph, 0, false),
        3..=5 => {
            let cl = if g.r.chance(0.7) { Cls::Stat.bit() | Cls::Open.bit() | Cls::Read.bit() | Cls::Lock.bit() } else { 0 };
            ph.rates = g.hard(cl);
        }
        _ => ph.rates = g.soft(),
    }
    let mut phases = vec![ph];
    let mut p2 = phase("again", one(vec![step(Op::OpenOrCreate), step(Op::Open), step(Op::CreateGroup { path: "z".into() }), step(Op::Exists { path: "z".into() })], 1));
    p2.no_open = true;
    if only_open {
        p2.procs[0].clients[0].remove(0);
        p2.procs[0].clients[0].truncate(1);
    }
    phases.push(p2);
    let mut p = g.plan("C07", seed, variant, vec![], phases);
    p.env.entry = entry;
    if g.r.chance(0.3) && p.env.entry.is_none() {
        p.env.files.push(("".into(), "".into()));
        p.env.files[0].0 = "/w/other/".into();
        if g.r.chance(0.5) {
            // The directory exists, even with things in it, but no hierarchy.
            p.env.files.push(("notes.txt".into(), "keep".into()));
            if g.r.chance(0.4) {
                // A creator was killed here.
                p.env.files.push((".zarr-1-0.tmp".into(), "{\"zarr_fo".into()));
            }
        }
    }
    p
}

// ---------------------------------------------------------------- C08

fn region_meta(g: &mut G) -> Value {
    loop {
        if g.r.chance(0.05) {
            let e = 1 << *g.r.pick(&[33, 41, 54, 62]);
            return gen_meta(&mut g.r, &MetaOpts { max_rank: 2, max_extent: e, max_chunk: 5, max_nel: 64, codecs: &["raw"], raw_ext: false });
        }
        let m = match g.r.below(20) {
            0 => gen_meta(&mut g.r, &MetaOpts { max_rank: 6, max_extent: 3, max_chunk: 2, max_nel: 64, codecs: ALL_CODECS, raw_ext: false }),
            1 => gen_meta(&mut g.r, &MetaOpts { max_rank: 1, max_extent: 3000, max_chunk: 1500, max_nel: 1500, codecs: ALL_CODECS, raw_ext: false }),
            2..=8 => gen_meta(&mut g.r, &MetaOpts { max_rank: 3, max_extent: 7, max_chunk: 4, max_nel: 64, codecs: &["raw"], raw_ext: false }),
            _ => gen_meta(&mut g.r, &MetaOpts { max_rank: 3, max_extent: 8, max_chunk: 5, max_nel: 64, codecs: ALL_CODECS, raw_ext: false }),
        };
        return m;
    }
}
fn c08(g: &mut G, seed: u64) -> Plan {
    let nm = g.r.range(1, 2) as usize;
    let metas: Vec<Value> = (0..nm).map(|_| region_meta(g)).collect();
    let paths = g.tree(nm);
    let arrs: Vec<(String, usize)> = paths.into_iter().enumerate().map(|(i, p)| (p, i % nm)).collect();
    let mut phases = vec![];
    let np = g.r.range(1, 3);
    for i in 0..np {
        let slots = g.r.range(1, 2) as usize;
        let mut st = if i == 0 { g.populate(&metas, &arrs, &[], 0) } else { vec![] };
        for _ in 0..g.r.range(3, 14) {
            let (p, m) = g.r.pick(&arrs).clone();
            let md = metas[m].clone();
            let h = g.r.usize(slots);
            let has = grid_of(&md).iter().all(|x| *x > 0);
            let op = match g.r.below(12) {
                0..=4 => {
                    let (mut off, shape) = g.bbox(&md, true);
                    if g.r.chance(0.02) {
                        if g.r.chance(0.5) {
                            off.push(0);
                        } else {
                            off.pop();
                        }
                    }
                    Op::WriteRegion { path: p, meta: m, off, shape, vid: g.vid(), how: g.r.below(3) as u8 }
                }
                5..=9 => {
                    let (off, shape) = g.bbox(&md, true);
                    Op::ReadRegion { path: p, meta: m, off, shape, how: g.r.below(4) as u8 }
                }
                10 if has => Op::Write { path: p, meta: m, pos: g.pos(&md), vid: g.vid(), ty: None, n: None },
                11 if has => Op::Delete { path: p, meta: m, pos: g.pos(&md) },
                _ => continue,
            };
            st.push(slot(h, op));
        }
        let mut ph = phase("regions", one(st, slots));
        ph.rates = g.soft();
        phases.push(ph);
    }
    phases.push(snap(SNAP_REGIONS | SNAP_CHUNKS, 1));
    g.plan("C08", seed, "regions", metas, phases)
}

// ---------------------------------------------------------------- C09

fn c09(g: &mut G, seed: u64) -> Plan {
    let mut m = loop {
        let m = region_meta(g);
        if !shape_of(&m).is_empty() && grid_of(&m).iter().all(|x| *x > 0) {
            break m;
        }
    };
    let clients = *g.r.pick(&[1usize, 1, 2, 3]);
    if clients > 1 {
        // Enough slabs along the first axis.
        let c0 = cshape_of(&m)[0].min(200);
        m["chunk_grid"]["chunk_shape"][0] = json!(c0);
        let s0 = c0 * g.r.range(clients as u64, 2 * clients as u64 + 1) - g.r.below(c0);
        m["shape"][0] = json!(s0);
    }
    let metas = vec![m.clone()];
    let path = g.name();
    let mut pop = vec![step(Op::CreateArray { path: path.clone(), meta: 0 })];
    let wild = g.r.chance(0.4);
    for _ in 0..g.r.below(5) {
        if g.r.chance(0.4) {
            pop.push(step(Op::Write { path: path.clone(), meta: 0, pos: g.pos(&m), vid: g.vid(), ty: None, n: None }));
            continue;
        }
        let (off, shape) = g.bbox(&m, wild);
        pop.push(step(Op::WriteRegion { path: path.clone(), meta: 0, off, shape, vid: g.vid(), how: 0 }));
    }
    let g0 = grid_of(&m)[0];
    let c0 = cshape_of(&m)[0];
    let per = (g0 / clients as u64).max(1);
    let mut procs: Vec<ProcPlan> = vec![];
    for c in 0..clients as u64 {
        let (lo, hi) = (c * per * c0, (((c + 1) * per) * c0).min(shape_of(&m)[0]));
        let mut st = vec![];
        for _ in 0..g.r.range(1, 3) {
            let (mut off, mut shape) = g.bbox(&m, wild);
            if clients > 1 {
                if hi <= lo {
                    continue;
                }
                off[0] = lo + g.r.below(hi - lo);
                shape[0] = g.r.range(1, (hi - off[0]).min(60));
                if g.r.chance(0.4) {
                    off[0] = lo;
                    shape[0] = (hi - lo).min(60);
                }
            }
            st.push(step(Op::WriteRegion { path: path.clone(), meta: 0, off: off.clone(), shape: shape.clone(), vid: g.vid(), how: g.r.below(3) as u8 }));
            if g.r.chance(0.4) {
                st.push(step(Op::ReadRegion { path: path.clone(), meta: 0, off, shape, how: g.r.below(4) as u8 }));
            }
        }
        if c > 0 && g.r.chance(0.5) {
            procs.last_mut().unwrap().clients.push(st);
        } else {
            procs.push(ProcPlan { clients: vec![st], share: g.r.chance(0.5), slots: 1 });
        }
    }
    let mut ph = phase("regions", procs);
    ph.sched = g.sched();
    match g.r.below(10) {
        0..=4 => g.kill_into(&mut ph, 1, false),
        5..=7 => g.hard_into(&mut ph, 1, 0),
        _ => ph.rates = g.soft(),
    }
    let mut phases = vec![phase("populate", one(pop, 1)), ph];
    g.tail(&mut phases, SNAP_CHUNKS | SNAP_REGIONS);
    g.plan("C09", seed, "regions", metas, phases)
}

// ---------------------------------------------------------------- C10

fn c10(g: &mut G, seed: u64) -> Plan {
    if g.r.chance(0.25) {
        return c10_foreign(g, seed);
    }
    let nm = g.r.range(1, 2) as usize;
    let mut metas = g.spiced(nm, false);
    for m in metas.iter_mut() {
        if g.r.chance(0.4) {
            m["attributes"] = gen_attrs(&mut g.r);
        }
    }
    let mut t = g.tree(3);
    if g.r.chance(0.2) {
        t.retain(|p| !p.is_empty());
        t.push("".into());
    }
    let (arrs, groups) = g.split(t, nm);
    let mut phases = vec![];
    let np = g.r.range(1, 3);
    for i in 0..np {
        let slots = g.r.range(1, 2) as usize;
        let n = g.r.range(3, 14) as usize;
        let mut st = if i == 0 { g.populate(&metas, &arrs, &groups, 2) } else { vec![] };
        st.extend(g.mix(&metas, &arrs, &groups, n, &[(8, "attrs"), (4, "attr"), (8, "la"), (1, "anycreate"), (2, "meta"), (1, "write"), (1, "remove")], slots));
        let mut ph = phase("attributes", one(st, slots));
        ph.rates = g.soft();
        if i > 0 {
            match g.r.below(6) {
                0 => g.hard_into(&mut ph, i as usize, 0),
                1 => g.kill_into(&mut ph, i as usize, false),
                _ => {}
            }
        }
        phases.push(ph);
    }
    phases.push(snap(SNAP_CHUNKS | SNAP_NODES, 2));
    g.plan("C10", seed, "attributes", metas, phases)
}

/// Updates documents written by another implementation, with fields this one does not know.
fn c10_foreign(g: &mut G, seed: u64) -> Plan {
    let nm = g.r.range(1, 2) as usize;
    let mut metas = g.some_metas(nm);
    for m in metas.iter_mut() {
        if g.r.chance(0.5) {
            m["attributes"] = gen_attrs(&mut g.r);
        }
    }
    let mut t = g.tree(3);
    if g.r.chance(0.2) {
        t.retain(|p| !p.is_empty());
        t.push("".into());
    }
    let (arrs, groups) = g.split(t, nm);
    let n = g.r.range(2, 10) as usize;
    let slots = g.r.range(1, 2) as usize;
    let st = g.mix(&metas, &arrs, &groups, n, &[(8, "attrs"), (4, "attr"), (6, "la"), (2, "meta"), (1, "exists"), (1, "write")], slots);
    let mut ph = phase("attributes", one(st, slots));
    for (path, doc, kind) in arrs
        .iter()
        .map(|(p, m)| (p, metas[*m].clone(), "array"))
        .chain(groups.iter().map(|p| (p, json!({"extensions": []}), "group")))
        .collect::<Vec<_>>()
    {
        let mut d = doc;
        if kind == "group" && g.r.chance(0.8) {
            d["attributes"] = g.attrs();
        }
        for k in ["dimension_names", "attribute", "x-other", "Attributes", ""] {
            if g.r.chance(0.3) {
                d[k] = gen_json(&mut g.r, 2);
            }
        }
        if kind == "array" && d.get("compressor").is_none() && g.r.chance(0.4) {
            d["compressor"] = json!({"codec": "raw", "configuration": null});
        }
        let text = if g.r.chance(0.5) { serde_json::to_string_pretty(&d).unwrap() } else { d.to_string() };
        ph.env.push(EnvOp::PutText { path: meta_key(path, kind), text });
    }
    ph.rates = g.soft();
    if g.r.chance(0.3) {
        g.hard_into(&mut ph, 1, 0);
    }
    let phases = vec![phase("create", one(vec![], 1)), ph, snap(SNAP_CHUNKS | SNAP_NODES, 2)];
    g.plan("C10", seed, "foreign", metas, phases)
}

// ---------------------------------------------------------------- C11

fn c11(g: &mut G, seed: u64) -> Plan {
    let mut metas = vec![g.meta1(), g.meta1()];
    for m in metas.iter_mut() {
        if g.r.chance(0.4) {
            m["attributes"] = json!({"k": g.r.below(100), "own": "x"});
        }
    }
    let path = g.name();
    let exists = g.r.chance(0.6);
    let mut pop = vec![];
    if exists {
        pop.push(step(if g.r.chance(0.5) { Op::CreateArray { path: path.clone(), meta: 0 } } else { Op::CreateGroup { path: path.clone() } }));
        if g.r.chance(0.5) {
            pop.push(step(Op::SetAttrs { path: path.clone(), attrs: json!({"init": 1}) }));
        }
    }
    let removed = g.r.chance(0.18);
    let clients = g.r.range(2, 4) as usize;
    let nproc = g.r.range(1, clients.min(3) as u64) as usize;
    let mut procs: Vec<ProcPlan> = (0..nproc).map(|_| ProcPlan { clients: vec![], share: g.r.chance(0.6), slots: 1 }).collect();
    // How many clients may update at once; alone, everything must be exact.
    let writers = g.r.range(1, clients as u64) as usize;
    let mut uniq = 0u64;
    for c in 0..clients {
        let n = g.r.range(1, 4);
        let st = (0..n)
            .map(|_| {
                uniq += 1;
                let p = path.clone();
                let k = g.r.below(10);
                if removed && c == 0 && g.r.chance(0.5) {
                    return step(Op::Remove { path: p });
                }
                step(if c >= writers || k >= 6 {
                    match k % 3 {
                        0 => Op::GetMeta { path: p },
                        _ => Op::ListAttrs { path: p },
                    }
                } else if k < 2 {
                    if g.r.chance(0.6) {
                        Op::CreateArray { path: p, meta: g.r.usize(2) }
                    } else {
                        Op::CreateGroup { path: p }
                    }
                } else {
                    let key = if g.r.chance(0.5) { format!("k{}", uniq) } else { (*g.r.pick(&["k", "l"])).to_string() };
                    let pad = if g.r.chance(0.1) { "x".repeat(20000) } else { String::new() };
                    Op::SetAttr { path: p, key, value: json!([uniq, pad]) }
                })
            })
            .collect();
        procs[c % nproc].clients.push(st);
    }
    let mut ph = phase("race", procs);
    ph.sched = g.sched();
    ph.rates = g.soft();
    let phases = vec![phase("populate", one(pop, 1)), ph, snap(SNAP_NODES, 1)];
    g.plan("C11", seed, if removed { "removed" } else { "race" }, metas, phases)
}

// ---------------------------------------------------------------- C12

fn c12(g: &mut G, seed: u64) -> Plan {
    let nm = g.r.range(1, 2) as usize;
    let metas = g.spiced(nm, false);
    let n = g.r.range(3, 8) as usize;
    let t = g.tree(n);
    let mut phases = vec![];
    let np = g.r.range(1, 3);
    // Any path may become an array or a group.
    let w = [(10, "anycreate"), (4, "remove"), (5, "exists"), (3, "aexists"), (6, "list"), (5, "listself"), (2, "meta"), (1, "attrs"), (1, "la")];
    for _ in 0..np {
        let slots = g.r.range(1, 2) as usize;
        let n = g.r.range(5, 20) as usize;
        let mut st = g.mix(&metas, &[], &t, n, &w, slots);
        if g.r.chance(0.25) {
            for _ in 0..g.r.range(1, 3) {
                let p = g.r.pick(&t).clone();
                let op = match g.r.below(4) {
                    0 => Op::KList,
                    1 => Op::KListPrefix { key: (*g.r.pick(&["meta", "/meta/", "meta/root", "/", "data", ""])).to_string() },
                    2 => Op::KListDir { key: (*g.r.pick(&["meta/root/", "/", "", "/meta/root", "data/root/"])).to_string() },
                    _ => Op::KListDir { key: format!("meta/root/{}/", p.trim_matches('/')) },
                };
                let at = g.r.usize(st.len() + 1);
                st.insert(at, slot(g.r.usize(slots), op));
            }
        }
        let mut ph = phase("nodes", one(st, slots));
        ph.rates = g.soft();
        phases.push(ph);
    }
    phases.push(snap(SNAP_NODES | SNAP_LISTS, 1));
    let mut p = g.plan("C12", seed, "nodes", metas, phases);
    if g.r.chance(0.35) {
        let sfx = *g.r.pick(&[".json", "json", ".js", ".meta.json", ".x", ".tmp"]);
        p.env.entry = Some(entry_doc("3.0", sfx, json!([])));
    }
    p
}

// ---------------------------------------------------------------- C13

fn c13(g: &mut G, seed: u64) -> Plan {
    let nm = g.r.range(1, 2) as usize;
    let metas = g.spiced(nm, false);
    let n = g.r.range(3, 7) as usize;
    let t = g.tree(n);
    let (arrs, groups) = g.split(t, nm);
    let n = g.r.range(2, 8) as usize;
    let mut st = g.populate(&metas, &arrs, &groups, n);
    let slots = *g.r.pick(&[1usize, 1, 2, 3]);
    for s in st.iter_mut() {
        s.h = g.r.usize(slots);
    }
    // Groups that exist only because something is below them can be removed as well.
    let mut all: Vec<String> = arrs.iter().map(|a| a.0.clone()).chain(groups.iter().cloned()).collect();
    let mut more = vec![];
    for p in &all {
        if let Some((q, _)) = p.rsplit_once('/') {
            more.push(q.to_string());
        }
    }
    all.extend(more);
    let mut phases = vec![];
    let faulty = g.r.chance(0.6);
    if faulty {
        phases.push(phase("populate", one(st, slots)));
        st = vec![];
    }
    let links = if g.r.chance(0.2) { g.links(&all) } else { vec![] };
    let root = g.r.chance(0.15);
    for i in 0..g.r.range(1, 3) {
        let p = if root && i == 0 { (*g.r.pick(&["*all*", "", "/"])).to_string() } else { g.r.pick(&all).clone() };
        // Something named like the document of a node.
        let p = if !p.is_empty() && p != "*all*" && p != "/" && g.r.chance(0.06) { format!("{}.{}.json", p, g.r.pick(&["array", "group"])) } else { p };
        let sp = if p == "*all*" { p } else { g.spell(&p) };
        let h = g.r.usize(slots);
        st.push(slot(h, Op::Remove { path: sp }));
        if g.r.chance(0.6) {
            // Recreated nodes start empty.
            let n = g.r.range(1, 4) as usize;
            st.extend(g.mix(&metas, &arrs, &groups, n, &[(3, "array"), (2, "group"), (1, "la"), (2, "read"), (1, "attrs"), (3, "write"), (1, "del")], slots));
        }
    }
    let mut ph = phase("remove", one(st, slots));
    ph.env = links;
    if faulty {
        if g.r.chance(0.5) {
            g.kill_into(&mut ph, 1, false);
        } else {
            g.hard_into(&mut ph, 1, 0);
        }
        phases.push(ph);
        let bits = SNAP_CHUNKS | SNAP_NODES | SNAP_LISTS;
        g.tail(&mut phases, bits);
    } else {
        ph.rates = g.soft();
        phases.push(ph);
    }
    let mut st = g.mix(&metas, &arrs, &groups, 3, &[(3, "array"), (2, "group"), (2, "la")], 1);
    if g.r.chance(0.3) {
        st.clear();
    }
    let mut last = phase("after", one(st, 1));
    last.snapshot = SNAP_CHUNKS | SNAP_NODES | SNAP_LISTS;
    phases.push(last);
    g.plan("C13", seed, if faulty { "faults" } else { "plain" }, metas, phases)
}

// ---------------------------------------------------------------- C14

fn c14(g: &mut G, seed: u64) -> Plan {
    let metas = g.some_metas(1);
    let comps = ["..", "..", "..", ".", "a", "b", "secret", "x", "", "zarr.json", "...", "..a", "etc", "....", "...." , "%2e%2e", "..\\..", "a..", ".. ", " ..", "~", "$HOME"];
    let mut nasty = || {
        let r = &mut g.r;
        let n = r.range(1, 7);
        let mut v: Vec<String> = (0..n).map(|_| (*r.pick(&comps)).to_string()).collect();
        match r.below(8) {
            0 => v.insert(0, "".into()),
            1 => v = vec!["".into(), "".into(), "w".into(), "secret".into()],
            2 => {
                v.insert(0, "..".into());
                v.insert(0, "..".into());
            }
            3 => {
                v.insert(0, "..".into());
                v.insert(0, "..".into());
                v.insert(0, "..".into());
            }
            4 => v.push("..".into()),
            _ => {}
        }
        v.join("/")
    };
    let paths: Vec<String> = (0..12).map(|_| nasty()).collect();
    let mut st = vec![];
    st.push(step(Op::CreateArray { path: "a".into(), meta: 0 }));
    st.push(step(Op::CreateGroup { path: "a/b".into() }));
    let n = g.r.range(6, 20);
    for _ in 0..n {
        let p = g.r.pick(&paths).clone();
        let key = match g.r.below(3) {
            0 => p.clone(),
            1 => format!("/{}", p),
            _ => format!("data/root/{}", p),
        };
        let pos = g.pos(&metas[0].clone());
        let (off, shape) = g.bbox(&metas[0].clone(), false);
        let op = match g.r.below(25) {
            0 => Op::CreateArray { path: p, meta: 0 },
            1 => Op::CreateGroup { path: p },
            2 => Op::SetAttrs { path: p, attrs: json!({"x": 1}) },
            3 => Op::ListAttrs { path: p },
            4 => Op::GetMeta { path: p },
            5 => Op::Exists { path: p },
            6 => Op::ArrayExists { path: p },
            7 => Op::ListNodes { path: p },
            8 | 9 => Op::Remove { path: p },
            10 => Op::Write { path: p, meta: 0, pos, vid: 7, ty: None, n: None },
            11 => Op::Read { path: p, meta: 0, pos, how: 0 },
            12 => Op::Delete { path: p, meta: 0, pos },
            13 => Op::WriteRegion { path: p, meta: 0, off, shape, vid: 9, how: 0 },
            14 => Op::ReadRegion { path: p, meta: 0, off, shape, how: 0 },
            15 => Op::Uri { path: p, meta: 0, pos },
            16 => Op::KGet { key },
            17 => Op::KExists { key },
            18 => Op::KSet { key, vid: 3, len: 10 },
            19 | 20 => Op::KErase { key },
            21 => Op::KErasePrefix { key },
            22 => Op::KListPrefix { key },
            23 => Op::KDoc { key },
            _ => Op::KListDir { key },
        };
        st.push(step(op));
    }
    let linked = g.r.chance(0.15);
    if linked {
        // Removal of nodes below which someone placed links to the outside.
        st.truncate(2);
        for _ in 0..g.r.range(1, 4) {
            st.push(step(match g.r.below(7) {
                0 | 1 => Op::Remove { path: "a".into() },
                2 => Op::Remove { path: "a/b".into() },
                3 => Op::Remove { path: "*all*".into() },
                4 => Op::KErasePrefix { key: "data/root".into() },
                5 => Op::KErasePrefix { key: "data".into() },
                _ => Op::KErase { key: (*g.r.pick(&["data/root/a/zz0", "data/root/a/b/zz0", "data/root/a/zz1"])).into() },
            }));
        }
    }
    let mut ph = phase("paths", one(st, 1));
    if g.r.chance(0.3) {
        ph.rates = g.hard(0);
    }
    if linked {
        for i in 0..g.r.range(1, 3) {
            ph.env.push(EnvOp::Link {
                path: format!("data/root/{}/zz{}", g.r.pick(&["a", "a/b"]), i),
                to: (*g.r.pick(&["/w/secret", "/w/secret/x", "/etc", "../../../..", "/nothing", "/w", "/w/data/root/a.array.json"])).into(),
            });
        }
    }
    let mut p = g.plan("C14", seed, if linked { "links" } else { "paths" }, metas, vec![ph]);
    p.env.base = (*g.r.pick(&["/w/h.zarr", "/w/h/base", "/w/a/b/c"])).into();
    p.env.files = vec![];
    // Populated surroundings, some named like the hierarchy's own parts.
    for dir in ["/w", "/w/secret", "/w/data/root", "/w/meta/root", "/w/a", "/etc", "/secret", "/w/h", "/data/root/x", "/meta/root"] {
        for f in ["zarr.json", "x", "secret.txt", "a.array.json", "a.group.json", "c0", "c0.0", "b.group.json"] {
            if g.r.chance(0.5) {
                p.env.files.push((format!("{}/{}", dir, f), "outside".into()));
            }
        }
    }
    p
}

// ---------------------------------------------------------------- C15

fn damage(g: &mut G, path: &str, chunk: bool, checksum: bool) -> EnvOp {
    let p = path.to_string();
    let pm = g.r.below(1001) as u32;
    let hex = |g: &mut G, n: usize| -> String {
        let b: Vec<u8> = (0..n).map(|_| g.r.u64() as u8).collect();
        to_hex(&b)
    };
    if chunk && !checksum {
        return match g.r.below(4) {
            0 => EnvOp::Append { path: p, hex: hex(g, 5) },
            _ => EnvOp::Truncate { path: p, permille: pm },
        };
    }
    match g.r.below(10) {
        0 | 1 => EnvOp::Truncate { path: p, permille: pm },
        2..=5 => EnvOp::Flip { path: p, permille: pm, mask: if g.r.chance(0.5) { 1 << g.r.below(8) } else { g.r.range(1, 255) as u8 } },
        6 | 7 => {
            let n = g.r.range(1, 4) as usize;
            EnvOp::Overwrite { path: p, permille: pm, hex: hex(g, n) }
        }
        8 => {
            let n = g.r.range(1, 9) as usize;
            EnvOp::Append { path: p, hex: hex(g, n) }
        }
        _ => {
            if chunk {
                EnvOp::Truncate { path: p, permille: 990 + g.r.below(11) as u32 }
            } else {
                EnvOp::Insert { path: p, permille: pm, hex: to_hex((*g.r.pick(&["{", "}", "[", "\"", "null", "-", "1e999", "\u{0}", "\\u12"])).as_bytes()) }
            }
        }
    }
}
const HOSTILE_DT: &[&str] = &[
    "", "<", ">", "r", "r8", "r7", "r-8", "r99999999999999999999", "<r8", "<é", "é", "<i3", "i4", "<", "<u", "<x8", "b", "<f16", "f", "<\u{1F980}", "bool1", "i", "u", "r8x", "<i4 ", "null", "\u{20ac}", "\u{e9}a", "a\u{e9}", "<\u{e9}", "\u{7ff}8", "r\u{e9}", "\u{20ac}\u{20ac}", "\u{1F980}", "\u{1F980}4", "r\u{20ac}", "|u1", "=i4", "<i8\u{0}", "bool\u{20ac}", "r 8", "r08", "r+8", "<u1", ">i1", "!b1",
];
fn hostile_doc(g: &mut G, doc: &Value) -> Value {
    let mut d = doc.clone();
    for _ in 0..g.r.range(1, 2) {
        if !d["chunk_grid"].is_object() {
            d["chunk_grid"] = doc["chunk_grid"].clone();
        }
        match g.r.below(17) {
            0 | 1 => d["data_type"] = json!(*g.r.pick(HOSTILE_DT)),
            2 => d["data_type"] = json!({"extension": "http://x", "type": "<M8[ns]", "fallback": null}),
            3 => d["data_type"] = json!({"extension": "http://x", "type": "<M8[ns]"}),
            4 => d["data_type"] = json!({"extension": "http://x", "type": "t", "fallback": *g.r.pick(HOSTILE_DT)}),
            5 => d["chunk_grid"]["chunk_shape"] = json!(vec![0; shape_of(doc).len()]),
            6 => d["chunk_grid"]["chunk_shape"] = json!([1, 2, 3, 4, 5]),
            7 => d["shape"] = json!([5]),
            8 => d["shape"] = json!([-1, 1e30, "x"]),
            9 => d["compressor"] = json!({"codec": *g.r.pick(&["nope", "", "gzip"]), "configuration": {"level": 1}}),
            10 => d["fill_value"] = json!(*g.r.pick(&["NaN", "x", ""])),
            11 => d["attributes"] = json!([1]),
            14 | 15 => {
                // Codec settings no encoder accepts.
                let n = *g.r.pick(&[0i64, -1, 10, 11, 96, 255, 256, 6 + (1 << 31), i32::MAX as i64, i32::MIN as i64, i64::MAX]);
                let c = *g.r.pick(&["xz", "bzip2", "lz4", "https://purl.org/zarr/spec/codec/gzip/1.0", "raw"]);
                d["compressor"] = json!({"codec": c, "configuration": {"preset": n, "block_size": n, "blockSize": n, "level": n}});
                if g.r.chance(0.3) {
                    d["compressor"]["configuration"] = gen_json(&mut g.r, 1);
                }
            }
            16 => {
                let n = *g.r.pick(&[1u64 << 31, (1 << 32) - 1, 1 << 32, 1 << 63, u64::MAX]);
                let i = g.r.usize(shape_of(doc).len().max(1));
                let mut v = if g.r.chance(0.5) { shape_of(doc) } else { cshape_of(doc) };
                if i < v.len() {
                    v[i] = n;
                }
                if g.r.chance(0.5) {
                    d["shape"] = json!(v);
                } else {
                    d["chunk_grid"]["chunk_shape"] = json!(v);
                }
            }
            12 => d["extensions"] = json!([{"extension": "http://e", "must_understand": true}]),
            _ => {
                let keys: Vec<String> = d.as_object().unwrap().keys().cloned().collect();
                let k = g.r.pick(&keys).clone();
                if g.r.chance(0.5) {
                    d.as_object_mut().unwrap().remove(&k);
                } else {
                    d[k] = gen_json(&mut g.r, 2);
                }
            }
        }
    }
    d
}
fn c15(g: &mut G, seed: u64) -> Plan {
    let nm = g.r.range(1, 2) as usize;
    let metas = g.some_metas(nm);
    let t = g.tree(3);
    let (arrs, groups) = g.split(t, nm);
    let mut pop = g.populate(&metas, &arrs, &groups, 3);
    // One array that certainly has a chunk.
    let (p0, m0) = arrs[0].clone();
    let pos0 = g.pos(&metas[m0].clone());
    pop.push(step(Op::Write { path: p0.clone(), meta: m0, pos: pos0.clone(), vid: g.vid(), ty: None, n: None }));
    let cod = codec_of(&metas[m0]).to_string();
    // LZ4 frames carry a checksum as this library writes them; gzip, bzip2 and xz always do.
    let checksum = cod != "raw";
    let mut env = vec![];
    let variant = match g.r.below(10) {
        0..=5 => {
            env.push(damage(g, &chunk_key(&p0, &metas[m0], &pos0), true, checksum));
            "chunk"
        }
        6 | 7 => {
            let k = if !groups.is_empty() && g.r.chance(0.4) { meta_key(&groups[0], "group") } else { meta_key(&p0, "array") };
            if g.r.chance(0.25) {
                let t = (*g.r.pick(&["[]", "\"x\"", "3", "true", "null", "[{}]", "[[\"attributes\"]]", "\"attributes\"", "{}", "{\"attributes\":[]}", "{\"attributes\":null}", "{\"attributes\":\"x\"}", "-1.5e300", "[\"shape\",[1]]"])).to_string();
                env.push(EnvOp::PutText { path: k, text: t });
            } else {
                env.push(damage(g, &k, false, false));
            }
            "meta"
        }
        8 => {
            let d = hostile_doc(g, &metas[m0].clone());
            env.push(EnvOp::PutText { path: meta_key(&p0, "array"), text: d.to_string() });
            "hostile"
        }
        _ => {
            if g.r.chance(0.5) {
                env.push(damage(g, "zarr.json", false, false));
            } else {
                let t = (*g.r.pick(&["", "null", "[]", "{}", "{\"zarr_format\":\"\"}", "\"x\"", "{\"zarr_format\":\"a/b\",\"metadata_encoding\":\"\",\"metadata_key_suffix\":\"\",\"extensions\":[]}", "[[[[[[[[[[[[[[[["])).to_string();
                env.push(EnvOp::PutText { path: "zarr.json".into(), text: t });
            }
            "entry"
        }
    };
    let mut st = vec![];
    if variant == "entry" {
        st.push(step(Op::Open));
        st.push(step(Op::OpenOrCreate));
    } else {
        for how in 0..3 {
            st.push(step(Op::Read { path: p0.clone(), meta: m0, pos: pos0.clone(), how }));
        }
        let (off, shape) = g.bbox(&metas[m0].clone(), false);
        st.push(step(Op::ReadRegion { path: p0.clone(), meta: m0, off, shape, how: g.r.below(4) as u8 }));
        st.push(step(Op::GetMeta { path: p0.clone() }));
        st.push(step(Op::UseMeta { path: p0.clone() }));
        st.push(step(Op::ListAttrs { path: p0.clone() }));
        st.push(step(Op::ArrayExists { path: p0.clone() }));
        st.push(step(Op::Exists { path: p0.clone() }));
        st.push(step(Op::ListNodes { path: "".into() }));
        if variant != "chunk" && g.r.chance(0.5) {
            st.push(step(Op::SetAttr { path: p0.clone(), key: "k".into(), value: json!(1) }));
            st.push(step(Op::CreateGroup { path: p0.clone() }));
        }
        if g.r.chance(0.6) {
            g.r.shuffle(&mut st);
        }
    }
    let mut ph = phase("damaged", one(st, 1));
    ph.env = env;
    ph.no_open = variant == "entry";
    if variant != "entry" {
        ph.snapshot = SNAP_CHUNKS | SNAP_NODES;
    }
    ph.rates = g.soft();
    let mut pp = phase("populate", one(pop, 1));
    pp.rates = g.soft();
    let mut phases = vec![pp, ph];
    if variant == "meta" || variant == "hostile" {
        // Using what was read for writing.
        let mut st = vec![];
        for _ in 0..g.r.range(1, 2) {
            st.push(step(Op::UseMetaWrite { path: p0.clone(), vid: g.vid() }));
            st.push(step(Op::UseMeta { path: p0.clone() }));
        }
        phases.push(phase("use", one(st, 1)));
    }
    g.plan("C15", seed, variant, metas, phases)
}

// ---------------------------------------------------------------- C16

const READS: [(u32, &str); 10] =
    [(8, "read"), (4, "rr"), (3, "la"), (3, "meta"), (2, "doc"), (3, "exists"), (2, "aexists"), (4, "list"), (3, "listself"), (1, "uri")];

fn c16(g: &mut G, seed: u64) -> Plan {
    let nm = g.r.range(1, 2) as usize;
    let metas = g.spiced(nm, false);
    let t = g.tree(5);
    let missing: Vec<String> = g.tree(2).into_iter().map(|p| format!("missing-{}", p)).collect();
    let (arrs, groups) = g.split(t, nm);
    let n = g.r.range(2, 8) as usize;
    let pop = g.populate(&metas, &arrs, &groups, n);
    let mut phases = vec![phase("populate", one(pop, 1))];
    let mut a2 = arrs.clone();
    for m in &missing {
        a2.push((m.clone(), 0));
    }
    for i in 0..g.r.range(1, 2) {
        let clients = g.r.range(1, 3) as usize;
        let mut procs = vec![];
        for _ in 0..clients {
            let slots = g.r.range(1, 2) as usize;
            let n = g.r.range(3, 12) as usize;
            let mut st = g.mix(&metas, &a2, &groups, n, &READS, slots);
            if g.r.chance(0.3) {
                st.insert(0, step(Op::Open));
            }
            if g.r.chance(0.2) {
                st.push(step(Op::OpenOrCreate));
            }
            procs.push(ProcPlan { clients: vec![st], share: false, slots });
        }
        let mut ph = phase("read", procs);
        ph.sched = g.sched();
        match g.r.below(4) {
            0 | 1 => ph.readonly = true,
            2 => {
                let cl = Cls::Stat.bit() | Cls::Open.bit() | Cls::Read.bit() | Cls::Opendir.bit() | Cls::Readdir.bit() | Cls::Lock.bit();
                ph.rates = g.hard(cl);
            }
            _ => ph.rates = g.soft(),
        }
        if i == 0 && ph.readonly && g.r.chance(0.5) {
            ph.rates = g.soft();
        }
        phases.push(ph);
    }
    g.plan("C16", seed, "reads", metas, phases)
}

// ---------------------------------------------------------------- C17

const LASTING: [Cls; 13] = [
    Cls::Open, Cls::Creat, Cls::Read, Cls::Write, Cls::Stat, Cls::Lock, Cls::Unlink, Cls::Rmdir, Cls::Mkdir, Cls::Rename, Cls::Opendir, Cls::Readdir, Cls::Trunc,
];

/// Clients keep readers of values that others replace and delete.
fn c17_held(g: &mut G, seed: u64) -> Plan {
    let meta = loop {
        let m = g.meta1();
        if grid_of(&m).iter().all(|x| *x > 0) {
            break m;
        }
    };
    let metas = vec![meta];
    let arr = g.name();
    let arrs = vec![(arr.clone(), 0)];
    let pos: Vec<Vec<u64>> = (0..2).map(|_| g.pos(&metas[0])).collect();
    let kv = ["kv/a", "kv/b"];
    let mut pop = vec![step(Op::CreateArray { path: arr.clone(), meta: 0 })];
    for p in &pos {
        if g.r.chance(0.8) {
            pop.push(step(Op::Write { path: arr.clone(), meta: 0, pos: p.clone(), vid: g.vid(), ty: None, n: None }));
        }
    }
    for k in kv {
        if g.r.chance(0.8) {
            pop.push(step(Op::KSet { key: k.into(), vid: g.vid(), len: *g.r.pick(&[0, 1, 40, 9000]) }));
        }
    }
    let mut keys: Vec<String> = kv.iter().map(|k| k.to_string()).collect();
    keys.extend(pos.iter().map(|p| chunk_key(&arr, &metas[0], p)));
    keys.push(meta_key(&arr, "array"));
    let (hk, hp) = (g.r.pick(&keys).clone(), g.r.pick(&pos).clone());
    // What a holder may do meanwhile: nothing that waits for readers.
    let shared = |g: &mut G, writes: bool| -> Op {
        let p = if g.r.chance(0.6) { hp.clone() } else { pos[0].clone() };
        let k = if g.r.chance(0.5) { hk.clone() } else { g.r.pick(&keys).clone() };
        let kk = if k.starts_with("kv") { k.clone() } else { kv[g.r.usize(2)].to_string() };
        match g.r.below(if writes { 13 } else { 8 }) {
            0 | 1 => Op::KGet { key: k },
            2 => Op::KExists { key: k },
            3 => Op::Read { path: arr.clone(), meta: 0, pos: p, how: g.r.below(3) as u8 },
            4 => Op::GetMeta { path: arr.clone() },
            5 => Op::ListAttrs { path: arr.clone() },
            6 => Op::KListDir { key: "kv/".into() },
            7 => Op::ListNodes { path: "".into() },
            8 | 9 => Op::KSet { key: kk, vid: g.vid(), len: *g.r.pick(&[0, 1, 50, 9000]) },
            10 | 11 => Op::Write { path: arr.clone(), meta: 0, pos: p, vid: g.vid(), ty: None, n: None },
            _ => Op::SetAttrs { path: arr.clone(), attrs: g.attrs() },
        }
    };
    let holders = g.r.range(1, 2) as usize;
    let others = g.r.range(1, 2) as usize;
    let nproc = g.r.range(1, 3) as usize;
    let writes = g.r.chance(0.5);
    let mut procs: Vec<ProcPlan> = (0..nproc).map(|_| ProcPlan { clients: vec![], share: g.r.chance(0.6), slots: 1 }).collect();
    for c in 0..holders + others {
        let mut st = vec![];
        if c < holders {
            let k = if g.r.chance(0.8) { hk.clone() } else { g.r.pick(&keys).clone() };
            if g.r.chance(0.3) {
                st.push(step(shared(g, writes)));
            }
            st.push(step(Op::Hold { key: k.clone() }));
            for _ in 0..g.r.below(4) {
                st.push(step(shared(g, writes)));
            }
            if g.r.chance(0.9) {
                st.push(step(Op::Release { key: k }));
            }
        } else {
            for _ in 0..g.r.range(1, 3) {
                let own = if hk.starts_with("kv") { hk.clone() } else { kv[0].to_string() };
                let op = match g.r.below(8) {
                    _ if g.r.chance(0.25) => shared(g, writes),
                    0..=2 if hk.starts_with("kv") => Op::KErase { key: hk.clone() },
                    0..=2 if hk == meta_key(&arr, "array") => Op::Remove { path: arr.clone() },
                    0..=2 => {
                        let p = pos.iter().find(|p| chunk_key(&arr, &metas[0], p) == hk).unwrap_or(&hp).clone();
                        Op::Delete { path: arr.clone(), meta: 0, pos: p }
                    }
                    3 => Op::KErase { key: own },
                    4 => Op::KErasePrefix { key: (*g.r.pick(&["kv", "kv/", "/kv"])).into() },
                    5 => Op::KErasePrefix { key: hk.clone() },
                    6 => Op::Delete { path: arr.clone(), meta: 0, pos: hp.clone() },
                    _ => Op::Remove { path: arr.clone() },
                };
                st.push(step(op));
            }
        }
        procs[c % nproc].clients.push(st);
    }
    procs.retain(|p| !p.clients.is_empty());
    let mut ph = phase("held", procs);
    ph.sched = g.sched();
    match g.r.below(10) {
        0..=4 => ph.rates = g.soft(),
        5 | 6 => ph.rates = g.hard(0),
        7 | 8 => ph.rates = g.kills(true),
        _ => {}
    }
    let mut last = phase("after", one(vec![], 1));
    last.snapshot = SNAP_CHUNKS | SNAP_LISTS;
    g.plan("C17", seed, "held", metas, phases3(phase("populate", one(pop, 1)), ph, last))
}
fn c17(g: &mut G, seed: u64) -> Plan {
    if g.r.chance(0.25) {
        return c17_held(g, seed);
    }
    let nm = g.r.range(1, 2) as usize;
    let metas: Vec<Value> = (0..nm).map(|_| g.meta_c()).collect();
    let t = g.tree(4);
    let (arrs, groups) = g.split(t, nm);
    let pop = g.populate(&metas, &arrs, &groups, 4);
    let clients = g.r.range(2, 4) as usize;
    let nproc = g.r.range(1, clients.min(3) as u64) as usize;
    let mut procs: Vec<ProcPlan> = (0..nproc).map(|_| ProcPlan { clients: vec![], share: g.r.chance(0.6), slots: 1 }).collect();
    let w = [
        (6, "write"), (6, "read"), (4, "del"), (3, "wr"), (3, "rr"), (3, "anycreate"), (4, "attrs"), (2, "la"), (4, "remove"), (2, "list"), (1, "exists"), (1, "meta"), (1, "doc"), (1, "badwrite"),
    ];
    for c in 0..clients {
        let n = g.r.range(1, 6) as usize;
        let st = g.mix(&metas, &arrs, &groups, n, &w, 1);
        procs[c % nproc].clients.push(st);
    }
    let mut ph = phase("mixed", procs);
    ph.sched = g.sched();
    match g.r.below(10) {
        0..=3 => ph.rates = g.soft(),
        4..=6 => ph.rates = g.hard(0),
        _ => ph.rates = g.kills(true),
    }
    // Conditions that do not pass: a full disk, a read-only one, one kind of call that keeps failing.
    match g.r.below(20) {
        0..=2 => {
            let room = *g.r.pick(&[40, 400, 5000]);
            ph.capacity = Some(g.r.below(room));
            ph.rates = g.soft();
        }
        3 => {
            ph.readonly = true;
            ph.rates = g.soft();
        }
        4 => {
            let cl = *g.r.pick(&LASTING);
            ph.rates = Some(Rates { seed: g.r.u64(), err: *g.r.pick(&[1.0, 0.9]), max_hard: u32::MAX, classes: cl.bit(), ..Default::default() });
        }
        _ => {}
    }
    let mut last = phase("after", one(vec![], 1));
    last.snapshot = SNAP_CHUNKS | SNAP_LISTS;
    let p = phases3(phase("populate", one(pop, 1)), ph, last);
    g.plan("C17", seed, "mixed", metas, p)
}
fn phases3(a: Phase, b: Phase, c: Phase) -> Vec<Phase> {
    vec![a, b, c]
}

// ---------------------------------------------------------------- C18

fn c18(g: &mut G, seed: u64) -> Plan {
    let nm = g.r.range(1, 2) as usize;
    let metas = g.spiced(nm, false);
    let t = g.tree(5);
    let (arrs, groups) = g.split(t, nm);
    let n = g.r.range(3, 9) as usize;
    let pop = g.populate(&metas, &arrs, &groups, n);
    let keys = ["kv/a", "kv/b/c", "kv/b/d", "kv/e/f/g"];
    let mut pop = pop;
    for k in keys {
        if g.r.chance(0.6) {
            pop.push(step(Op::KSet { key: k.into(), vid: g.vid(), len: *g.r.pick(&[0, 1, 40]) }));
        }
    }
    pop.push(step(Op::KSet { key: "kv/keep/this".into(), vid: g.vid(), len: 5 }));
    let mut w = READS.to_vec();
    w.extend([(3, "wr"), (3, "anycreate"), (3, "attrs"), (2, "del"), (1, "write")]);
    if g.r.chance(0.3) {
        w.push((2, "remove"));
    }
    let n = g.r.range(3, 12) as usize;
    let mut st = g.mix(&metas, &arrs, &groups, n, &w, 1);
    for _ in 0..g.r.below(4) {
        let at = g.r.usize(st.len() + 1);
        let k = (*g.r.pick(&keys)).to_string();
        let op = match g.r.below(8) {
            0 | 1 => Op::KList,
            2 => Op::KListPrefix { key: (*g.r.pick(&["kv", "/kv/", "meta", "/meta/", "kv/keep"])).into() },
            3 => Op::KListDir { key: (*g.r.pick(&["kv/", "meta/root/", "/kv/keep/"])).into() },
            4 => Op::KGet { key: k },
            5 => Op::KExists { key: k },
            6 if g.r.chance(0.4) => Op::KErasePrefix { key: (*g.r.pick(&["kv/b", "kv/b/", "/kv/e/f", "kv/a", "kv/a/", "kv/none/"])).into() },
            6 => Op::KErase { key: k },
            _ => Op::KSet { key: k, vid: g.vid(), len: 7 },
        };
        st.insert(at, step(op));
    }
    let mut ph = phase("read faults", one(st, 1));
    let all = Cls::Stat.bit() | Cls::Open.bit() | Cls::Read.bit() | Cls::Opendir.bit() | Cls::Readdir.bit() | Cls::Lock.bit();
    let cl = match g.r.below(4) {
        0 => Cls::Stat.bit(),
        1 => Cls::Opendir.bit() | Cls::Readdir.bit() | Cls::Stat.bit(),
        2 => Cls::Open.bit() | Cls::Lock.bit(),
        _ => all,
    };
    ph.rates = g.hard(cl);
    let phases = vec![phase("populate", one(pop, 1)), ph, snap(SNAP_CHUNKS | SNAP_NODES | SNAP_LISTS | SNAP_KV, 1)];
    g.plan("C18", seed, "read faults", metas, phases)
}

// ---------------------------------------------------------------- C19

fn c19(g: &mut G, seed: u64) -> Plan {
    let nm = g.r.range(1, 3) as usize;
    let mut metas: Vec<Value> = vec![];
    for _ in 0..nm {
        let mut m = gen_meta(&mut g.r, &MetaOpts { max_rank: 7, max_extent: 1 << 40, max_chunk: 70000, max_nel: 1 << 31, codecs: ALL_CODECS, raw_ext: true });
        if g.r.chance(0.15) {
            m["chunk_grid"]["separator"] = json!(gen_str(&mut g.r));
        }
        let rank = shape_of(&m).len();
        if rank > 0 && g.r.chance(0.2) {
            let i = g.r.usize(rank);
            let k = g.r.below(1 << 20);
            m["shape"][i] = json!(*g.r.pick(&[(1u64 << 53) + 1 + k, (1 << 62) + k, (1 << 63) - 1 + k, u64::MAX - k]));
        }
        if g.r.chance(0.4) {
            m["attributes"] = gen_attrs(&mut g.r);
        }
        if g.r.chance(0.3) {
            let mut l = vec![];
            for _ in 0..g.r.range(1, 2) {
                let mut e = json!({"extension": format!("http://example.org/{}", gen_str(&mut g.r)), "must_understand": g.r.chance(0.3)});
                if g.r.chance(0.5) {
                    e["configuration"] = gen_attrs(&mut g.r);
                }
                l.push(e);
            }
            m["extensions"] = json!(l);
        }
        metas.push(m);
    }
    let paths = g.tree(nm);
    let arrs: Vec<(String, usize)> = paths.into_iter().enumerate().map(|(i, p)| (p, i % nm)).collect();
    let mut phases = vec![];
    for i in 0..g.r.range(1, 3) {
        let slots = g.r.range(1, 2) as usize;
        let mut st: Vec<Step> = vec![];
        if i == 0 {
            st.extend(arrs.iter().map(|(p, m)| step(Op::CreateArray { path: p.clone(), meta: *m })));
        }
        let n = g.r.range(2, 9) as usize;
        st.extend(g.mix(&metas[..nm], &arrs, &[], n, &[(8, "meta"), (4, "attrs"), (2, "attr"), (2, "la"), (1, "array"), (1, "aexists"), (1, "remove")], slots));
        if g.r.chance(0.08) {
            // What describes no array.
            let mut d = metas[g.r.usize(nm)].clone();
            let c = d["chunk_grid"]["chunk_shape"].as_array_mut().unwrap();
            let n = c.len();
            if n > 1 && g.r.chance(0.3) {
                c[0] = json!(u32::MAX);
                c[n - 1] = json!(g.r.range(2, 1 << 20));
            } else if n > 0 {
                c[g.r.usize(n)] = json!(0);
            }
            metas.push(d);
            let p = if g.r.chance(0.3) { arrs[g.r.usize(arrs.len())].0.clone() } else { format!("none-{}", g.r.below(3)) };
            let at = g.r.usize(st.len() + 1);
            st.insert(at, step(Op::GetMeta { path: p.clone() }));
            st.insert(at, step(Op::CreateArray { path: p, meta: metas.len() - 1 }));
        }
        let mut ph = phase("metadata", one(st, slots));
        ph.rates = g.soft();
        phases.push(ph);
    }
    phases.push(snap(SNAP_NODES, 1));
    g.plan("C19", seed, "metadata", metas, phases)
}

// ---------------------------------------------------------------- C20

fn c20(g: &mut G, seed: u64) -> Plan {
    let nm = g.r.range(1, 2) as usize;
    let mut metas = g.some_metas(nm);
    let foreign = g.r.chance(0.35);
    for m in metas.iter_mut() {
        if !foreign {
            g.spice(m, true);
        }
        if g.r.chance(0.15) {
            m["chunk_grid"]["separator"] = json!(*g.r.pick(&["--", "__", "..", "-.", "\u{e9}", "x", " ", "_/"]));
        }
    }
    let t = g.tree(4);
    let (arrs, groups) = g.split(t, nm);
    if foreign {
        // Laid out by another implementation.
        let mut p = phase("foreign", one(vec![], 2));
        for (path, m) in &arrs {
            let mut doc = metas[*m].clone();
            if doc.get("compressor").is_none() && g.r.chance(0.5) {
                doc["compressor"] = json!({"codec": "raw", "configuration": null});
            }
            let t = if g.r.chance(0.5) { serde_json::to_string_pretty(&doc).unwrap() } else { doc.to_string() };
            p.env.push(EnvOp::PutText { path: meta_key(path, "array"), text: t });
            for _ in 0..g.r.range(1, 3) {
                let pos = g.pos(&metas[*m].clone());
                p.env.push(EnvOp::PutChunk { path: String::new(), meta: *m, pos, vid: g.vid(), node: path.clone() });
            }
        }
        for path in &groups {
            let a = g.attrs();
            p.env.push(EnvOp::PutText { path: meta_key(path, "group"), text: json!({"extensions": [], "attributes": a}).to_string() });
        }
        p.snapshot = SNAP_CHUNKS | SNAP_NODES | SNAP_LISTS | SNAP_REGIONS;
        p.rates = g.soft();
        // Phase 0 creates the hierarchy; the data appears afterwards. Mention every name.
        let mut names = vec![];
        for (path, m) in &arrs {
            names.push(step(Op::GetMeta { path: path.clone() }));
            names.push(step(Op::ReadRegion { path: path.clone(), meta: *m, off: vec![0; shape_of(&metas[*m]).len()], shape: vec![1; shape_of(&metas[*m]).len()], how: 0 }));
        }
        for path in &groups {
            names.push(step(Op::ListAttrs { path: path.clone() }));
        }
        p.procs[0].clients[0] = names;
        let ph0 = phase("create", one(vec![], 1));
        return g.plan("C20", seed, "foreign", metas, vec![ph0, p]);
    }
    let mut phases = vec![];
    for i in 0..g.r.range(1, 2) {
        let n = g.r.range(3, 12) as usize;
        let mut st = if i == 0 { g.populate(&metas, &arrs, &groups, 1) } else { vec![] };
        st.extend(g.mix(&metas, &arrs, &groups, n, &[(8, "write"), (2, "wr"), (3, "del"), (3, "attrs"), (1, "attr"), (1, "badwrite"), (1, "remove")], 1));
        let mut ph = phase("history", one(st, 1));
        ph.rates = g.soft();
        phases.push(ph);
    }
    let mut p = g.plan("C20", seed, "image", metas, phases);
    if g.r.chance(0.3) {
        p.env.entry = Some(entry_doc("3.0", *g.r.pick(&[".json", ".js", "json", ".meta.json"]), json!([])));
    }
    p
}

// ---------------------------------------------------------------- C21

fn c21(g: &mut G, seed: u64) -> Plan {
    if g.r.chance(0.2) {
        // Several clients of one backend.
        let style = g.r.below(8) as u32;
        g.strict = style & 4 != 0;
        let mut p = if g.r.chance(0.5) { c05(g, seed) } else { c06(g, seed) };
        p.prop = "C21".into();
        p.variant = format!("memory {}", p.variant);
        backend(g, &mut p, true);
        p.env.mem_style = style;
        return p;
    }
    let style = g.r.below(8) as u32;
    g.strict = style & 4 != 0;
    let nm = g.r.range(1, 2) as usize;
    let metas = g.spiced(nm, true);
    let t = g.tree(4);
    let (arrs, groups) = g.split(t, nm);
    let keys: Vec<String> = ["kv/a", "kv/ab", "kv/a/b", "kv/a/b/c", "kv/x/y", "kv/z"].iter().map(|s| s.to_string()).collect();
    let mut files: Vec<String> = vec![];
    // A file system cannot hold a key below another key.
    for k in &keys {
        if !files.iter().any(|f| k.starts_with(&format!("{}/", f)) || f.starts_with(&format!("{}/", k))) && g.r.chance(0.7) {
            files.push(k.clone());
        }
    }
    let kv = |g: &mut G, n: usize| -> Vec<Step> {
        let mut v = vec![];
        if files.is_empty() {
            return v;
        }
        for _ in 0..n {
            let k = g.r.pick(&files).clone();
            let pre = (*g.r.pick(&["kv", "/kv/", "kv/", "kv/a", "/kv/x", "kv/x/", "/kv"])).to_string();
            v.push(step(match g.r.below(9) {
                0 | 1 => Op::KSet { key: k, vid: g.vid(), len: *g.r.pick(&[0, 1, 30, 9000]) },
                2 => Op::KGet { key: k },
                3 => Op::KExists { key: k },
                4 => Op::KErase { key: k },
                5 => Op::KList,
                6 => Op::KListPrefix { key: if pre.starts_with("kv/a") || pre.contains("/x") { "kv".into() } else { pre } },
                _ => Op::KListDir { key: "kv/".into() },
            }));
        }
        v
    };
    let mut phases = vec![];
    // Something is always stored under "kv", so that listing it is well defined.
    let mut st = vec![step(Op::KSet { key: "kv/keep/this".into(), vid: g.vid(), len: 5 })];
    let n = g.r.range(0, 10) as usize;
    st.extend(kv(g, n));
    st.extend(g.populate(&metas, &arrs, &groups, 3));
    let mut ph = phase("populate", one(st, 1));
    ph.rates = g.soft();
    phases.push(ph);
    let mem = g.r.chance(0.8);
    let faulty = mem && g.r.chance(0.5);
    let w = [(8, "write"), (5, "read"), (3, "del"), (3, "wr"), (3, "rr"), (4, "attrs"), (2, "la"), (3, "anycreate"), (2, "remove"), (3, "list"), (2, "exists"), (2, "meta"), (1, "badwrite"), (1, "aexists")];
    for i in 0..g.r.range(1, 2) {
        let n = g.r.range(3, 14) as usize;
        let mut st = g.mix(&metas, &arrs, &groups, n, &w, 1);
        if g.r.chance(0.5) {
            let n = g.r.range(1, 5) as usize;
            st.extend(kv(g, n));
            g.r.shuffle(&mut st);
        }
        let mut ph = phase("history", one(st, 1));
        ph.rates = g.soft();
        if faulty && i == 0 {
            g.hard_into(&mut ph, 1, 0);
        }
        phases.push(ph);
    }
    phases.push(snap(SNAP_CHUNKS | SNAP_NODES | SNAP_LISTS | SNAP_KV, 1));
    let mut p = g.plan("C21", seed, if mem { "memory" } else { "filesystem" }, metas, phases);
    backend(g, &mut p, mem);
    p.env.mem_style = style;
    p
}
/// Settings of the in-memory backend.
fn backend(g: &mut G, p: &mut Plan, mem: bool) {
    p.env.mem = mem;
    p.env.mem_buf = *g.r.pick(&[0, 1, 64, 100_000]);
    p.env.mem_max = *g.r.pick(&[0, 1, 3, 100]);
    let most = p.metas.iter().map(|m| nel(m) * width(&dtype_of(m).0)).max().unwrap_or(0);
    if most > 1000 {
        // Keep the number of transfers of one chunk bounded.
        p.env.mem_max = p.env.mem_max.max(most as _);
        p.env.mem_max /= 10;
    }
    if mem && g.r.chance(0.3) {
        p.env.mem_entry = Some(entry_doc("3.0", *g.r.pick(&[".json", "json", ".js", ".a.b"]), json!([])));
    }
}

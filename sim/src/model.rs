//! Reference model of a hierarchy: for every name the set of states it may be in, given what the operations reported.
use crate::plan::*;
use crate::run::{brief, chunks_of_box};
use crate::types::*;
use serde_json::{Map, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

type Attrs = Rc<Map<String, Value>>;

#[derive(Clone, PartialEq, Debug)]
pub enum NS {
    Absent,
    Group(Attrs),
    Array(usize, Attrs),
    Any,
}
#[derive(PartialEq, Debug)]
pub struct Content {
    pub v: Vec<u64>,
    /// Cells about which nothing is promised (outside the array).
    pub wild: Vec<bool>,
}
#[derive(Clone, PartialEq, Debug)]
pub enum CS {
    Missing,
    Data(Rc<Content>),
    Any,
}
#[derive(Clone, PartialEq, Debug)]
pub enum KS {
    Missing,
    Data(u64, usize),
    Any,
}

#[derive(Clone, Copy, Debug)]
pub struct Opts {
    /// A failed write leaves the old value (otherwise nothing is known about it).
    pub err_keeps: bool,
    /// A failed metadata or chunk write may also have taken effect.
    pub err_may: bool,
    /// Success reported under a storage fault must be complete (otherwise old or new).
    pub ok_strict: bool,
}

pub struct Model<'a> {
    plan: &'a Plan,
    opt: Opts,
    pub nodes: BTreeMap<String, Vec<NS>>,
    pub chunks: BTreeMap<(String, Vec<u64>), Vec<CS>>,
    pub kv: BTreeMap<String, Vec<KS>>,
    once: BTreeSet<String>,
    /// Metadata used for the chunks of a path.
    metas: BTreeMap<String, BTreeSet<usize>>,
    /// Statistics: reads that were decided against a single possible state.
    pub decided: u64,
}

type V = Result<(), Violation>;

fn bad(class: &str, r: &Rec, why: String) -> V {
    Err(Violation::new(
        class,
        format!("phase {} t{} op{} {:?} -> {}: {}", r.phase, r.tid, r.idx, r.op, brief(&r.res), why),
    ))
}
fn dedup<T: PartialEq>(v: Vec<T>) -> Vec<T> {
    let mut out: Vec<T> = vec![];
    for x in v {
        if !out.contains(&x) {
            out.push(x);
        }
    }
    out
}
pub fn under(p: &str, anc: &str) -> bool {
    anc.is_empty() || p == anc || (p.len() > anc.len() && p.starts_with(anc) && p.as_bytes()[anc.len()] == b'/')
}
pub fn strictly_under(p: &str, anc: &str) -> bool {
    p != anc && under(p, anc)
}
fn child_of(p: &str, anc: &str) -> String {
    let rest = if anc.is_empty() { p } else { &p[anc.len() + 1..] };
    rest.split('/').next().unwrap().to_string()
}
/// Index of a cell in a chunk's element sequence.
pub struct CellIndex(Vec<u64>, bool);
impl CellIndex {
    pub fn new(d: &Value) -> CellIndex {
        CellIndex(cshape_of(d), is_c(d))
    }
    pub fn at(&self, local: &[u64]) -> usize {
        let c = &self.0;
        let mut i = 0;
        if self.1 {
            for k in 0..c.len() {
                i = i * c[k] + local[k];
            }
        } else {
            for k in (0..c.len()).rev() {
                i = i * c[k] + local[k];
            }
        }
        i as usize
    }
}
/// Calls f with every cell of a box, in row-major order.
pub fn cells(off: &[u64], shape: &[u64], mut f: impl FnMut(usize, &[u64])) {
    let n: u64 = shape.iter().product();
    let mut rel = vec![0; off.len()];
    let mut p = off.to_vec();
    for i in 0..n {
        f(i as usize, &p);
        for k in (0..p.len()).rev() {
            rel[k] += 1;
            if rel[k] == shape[k] {
                rel[k] = 0;
            }
            // Coordinates past the largest number are as far outside as that number.
            p[k] = off[k].saturating_add(rel[k]);
            if rel[k] != 0 {
                break;
            }
        }
    }
}
pub fn attrs_of_doc(d: &Value) -> Attrs {
    Rc::new(d["attributes"].as_object().cloned().unwrap_or_default())
}
fn merged(a: &Attrs, b: &Map<String, Value>) -> Attrs {
    let mut m = (**a).clone();
    for (k, v) in b {
        m.insert(k.clone(), v.clone());
    }
    Rc::new(m)
}
/// Whether a metadata document read back equals the one it was created from.
pub fn doc_matches(got: &Value, doc: &Value, attrs: &Map<String, Value>) -> Result<(), String> {
    for k in ["shape", "data_type", "chunk_grid", "chunk_memory_layout", "fill_value"] {
        if got.get(k).unwrap_or(&Value::Null) != doc.get(k).unwrap_or(&Value::Null) {
            return Err(format!("{} is {} instead of {}", k, got[k], doc[k]));
        }
    }
    let empty = Value::Array(vec![]);
    if got.get("extensions").unwrap_or(&empty) != doc.get("extensions").unwrap_or(&empty) {
        return Err(format!("extensions are {}", got["extensions"]));
    }
    if got["attributes"].as_object() != Some(attrs) {
        return Err(format!("attributes are {} instead of {:?}", got["attributes"], attrs));
    }
    if codec_of(got) != codec_of(doc) {
        return Err(format!("codec is {} instead of {}", codec_of(got), codec_of(doc)));
    }
    if codec_of(doc) != "raw" && got["compressor"] != doc["compressor"] {
        return Err(format!("compressor is {} instead of {}", got["compressor"], doc["compressor"]));
    }
    Ok(())
}

impl<'a> Model<'a> {
    pub fn new(plan: &'a Plan, opt: Opts) -> Model<'a> {
        Model { plan, opt, nodes: BTreeMap::new(), chunks: BTreeMap::new(), kv: BTreeMap::new(), once: BTreeSet::new(), metas: BTreeMap::new(), decided: 0 }
    }
    fn hard(&self, r: &Rec) -> bool {
        r.hard > 0 || (self.plan.phases[r.phase].readonly && r.op.mutates())
    }
    pub fn node(&self, p: &str) -> Vec<NS> {
        self.nodes.get(p).cloned().unwrap_or_else(|| vec![NS::Absent])
    }
    pub fn chunk(&self, p: &str, pos: &[u64]) -> Vec<CS> {
        self.chunks.get(&(p.to_string(), pos.to_vec())).cloned().unwrap_or_else(|| vec![CS::Missing])
    }
    fn set_node(&mut self, p: &str, v: Vec<NS>) {
        if v.iter().any(|s| *s != NS::Absent) {
            self.once.insert(p.to_string());
        }
        self.nodes.insert(p.to_string(), dedup(v));
    }
    fn set_chunk(&mut self, p: &str, pos: &[u64], v: Vec<CS>) {
        let v = dedup(v);
        let v = if v.len() > 24 { vec![CS::Any] } else { v };
        self.chunks.insert((p.to_string(), pos.to_vec()), v);
    }
    /// A node put there by another implementation.
    pub fn preset(&mut self, p: &str, s: NS) {
        self.set_node(p, vec![s]);
    }
    /// Whether something below `p` may exist or may have left directories behind.
    fn maybe_below(&self, p: &str) -> bool {
        self.once.iter().any(|q| strictly_under(q, p))
    }
    fn ancestor_maybe_array(&self, p: &str) -> bool {
        self.nodes.iter().any(|(q, s)| strictly_under(p, q) && s.iter().any(|x| matches!(x, NS::Array(..) | NS::Any)))
    }

    /// Generic node mutation: `f` gives the new state, or None where the operation must be refused.
    fn mutate_node(&mut self, r: &Rec, path: &str, lenient_absent: bool, f: impl Fn(&NS) -> Option<NS>) -> V {
        let p = canon(path);
        let old = self.node(&p);
        let new: Vec<NS> = old.iter().filter_map(|s| f(s)).collect();
        match &r.res {
            Res::Ok(_) => {
                if new.is_empty() {
                    return bad("not-refused", r, format!("must be refused in state {:?}", old));
                }
                let mut v = new;
                if self.hard(r) && !self.opt.ok_strict {
                    v.extend(old);
                }
                self.set_node(&p, v);
            }
            Res::Err(..) if self.hard(r) => {
                self.once.insert(p.clone());
                if !self.opt.err_keeps {
                    if !new.is_empty() {
                        self.set_node(&p, vec![NS::Any]);
                    }
                } else if self.opt.err_may {
                    self.set_node(&p, old.into_iter().chain(new).collect());
                }
            }
            Res::Err(..) => {
                let left: Vec<NS> = old
                    .iter()
                    .filter(|s| f(s).is_none() || matches!(s, NS::Any) || (lenient_absent && **s == NS::Absent))
                    .cloned()
                    .collect();
                if left.is_empty() {
                    return bad("unexpected-error", r, format!("no fault was injected; state {:?}", old));
                }
                self.set_node(&p, left);
            }
            Res::Killed => {
                self.once.insert(p.clone());
                self.set_node(&p, old.into_iter().chain(new).collect());
            }
            Res::Panic(m) => return bad("panic", r, m.clone()),
        }
        Ok(())
    }
    fn filter_node(&mut self, r: &Rec, path: &str, class: &str, keep: impl Fn(&NS) -> bool) -> V {
        let p = canon(path);
        let old = self.node(&p);
        if old.len() == 1 {
            self.decided += 1;
        }
        let left: Vec<NS> = old.iter().filter(|s| **s == NS::Any || keep(s)).cloned().collect();
        if left.is_empty() {
            return bad(class, r, format!("possible states {:?}", old));
        }
        self.set_node(&p, left);
        Ok(())
    }
    fn mutate_chunk(&mut self, r: &Rec, p: &str, pos: &[u64], del: bool, f: impl Fn(&CS) -> CS) {
        let old = self.chunk(p, pos);
        let new: Vec<CS> = old.iter().map(&f).collect();
        let v = match &r.res {
            Res::Ok(_) => {
                if self.hard(r) && !self.opt.ok_strict {
                    new.into_iter().chain(old).collect()
                } else {
                    new
                }
            }
            Res::Killed => old.into_iter().chain(new).collect(),
            _ if !self.opt.err_keeps => vec![CS::Any],
            _ if del || self.opt.err_may => old.into_iter().chain(new).collect(),
            _ => old,
        };
        self.set_chunk(p, pos, v);
    }

    pub fn apply(&mut self, r: &Rec) -> V {
        if let Res::Err(_, m) = &r.res {
            if m.starts_with("harness:") {
                return Err(Violation::new("harness", format!("{:?}: {}", r.op, m)));
            }
        }
        if let Res::Panic(m) = &r.res {
            return bad("panic", r, m.clone());
        }
        if let Op::Write { path, meta, .. } | Op::Read { path, meta, .. } | Op::Delete { path, meta, .. } | Op::WriteRegion { path, meta, .. } | Op::ReadRegion { path, meta, .. } = &r.op {
            self.metas.entry(canon(path)).or_default().insert(*meta);
        }
        let hard = self.hard(r);
        let self_metas = &self.plan.metas;
        // No injected error means that something is absent, so only what is absent may be reported so.
        if let (true, Res::Err(k, _)) = (hard, &r.res) {
            if k == "NotFound" {
                match &r.op {
                    Op::ListAttrs { path } | Op::SetAttrs { path, .. } | Op::SetAttr { path, .. } => {
                        self.filter_node(r, path, "absent", |s| *s == NS::Absent)?;
                    }
                    Op::GetMeta { path } | Op::KAttrs { path, array: true } => {
                        self.filter_node(r, path, "absent", |s| !matches!(s, NS::Array(..)))?;
                    }
                    Op::KAttrs { path, .. } => {
                        self.filter_node(r, path, "absent", |s| !matches!(s, NS::Group(..)))?;
                    }
                    Op::Read { .. } | Op::ReadRegion { .. } | Op::ListNodes { .. } => return bad("absent", r, "a failure is reported as something missing".into()),
                    _ => {}
                }
            }
        }
        match &r.op {
            Op::OpenOrCreate | Op::Open => {
                if matches!(r.res, Res::Err(..)) && !hard {
                    return bad("open", r, "no fault was injected".into());
                }
                Ok(())
            }
            // Metadata of no array may be refused.
            Op::CreateArray { meta, .. } if matches!(r.res, Res::Err(..)) && !describes_array(&self.plan.metas[*meta]) => Ok(()),
            Op::CreateArray { path, meta } => {
                let a = attrs_of_doc(&self.plan.metas[*meta]);
                let c = canon(path);
                let len = self.maybe_below(&c) || self.ancestor_maybe_array(&c);
                self.mutate_node(r, path, len, |s| match s {
                    NS::Absent | NS::Any => Some(NS::Array(*meta, a.clone())),
                    _ => None,
                })
            }
            Op::CreateGroup { path } => {
                let c = canon(path);
                let len = self.ancestor_maybe_array(&c);
                self.mutate_node(r, path, len, |s| match s {
                    NS::Absent => Some(NS::Group(Rc::new(Map::new()))),
                    // Success may mean that the group existed already, with any attributes.
                    NS::Group(_) | NS::Any => Some(s.clone()),
                    NS::Array(..) => None,
                })
            }
            Op::SetAttrs { path, attrs } => {
                let m = attrs.as_object().cloned().unwrap_or_default();
                self.set_attrs(r, path, m)
            }
            Op::SetAttr { path, key, value } => {
                let mut m = Map::new();
                m.insert(key.clone(), value.clone());
                self.set_attrs(r, path, m)
            }
            Op::ListAttrs { path } => match &r.res {
                Res::Ok(Val::Json(v)) => {
                    let implicit = self.maybe_below(&canon(path)) || canon(path).is_empty();
                    let v = v.as_object().cloned().unwrap_or_default();
                    self.filter_node(r, path, "attrs", |s| match s {
                        NS::Group(a) | NS::Array(_, a) => **a == v,
                        _ => implicit && v.is_empty(),
                    })
                }
                Res::Err(..) if !hard => self.filter_node(r, path, "attrs-error", |s| *s == NS::Absent),
                _ => Ok(()),
            },
            Op::KAttrs { path, array } => match &r.res {
                Res::Ok(Val::Json(v)) => {
                    let plan = self.plan;
                    self.filter_node(r, path, "document", |s| match s {
                        NS::Array(m, a) => *array && doc_matches(v, &plan.metas[*m], a).is_ok(),
                        NS::Group(a) => !*array && v["attributes"].as_object().map_or(a.is_empty(), |x| x == &**a),
                        _ => false,
                    })
                }
                Res::Err(..) if !hard => self.filter_node(r, path, "document-error", |s| !matches!((s, array), (NS::Array(..), true) | (NS::Group(_), false))),
                _ => Ok(()),
            },
            Op::GetMeta { path } => match &r.res {
                _ if matches!(r.res, Res::Err(..)) && hard => Ok(()),
                Res::Ok(Val::Json(v)) => {
                    let plan = self.plan;
                    self.filter_node(r, path, "meta", |s| match s {
                        NS::Array(m, a) => {
                            !must_understand(&plan.metas[*m])
                                && doc_matches(v, &plan.metas[*m], a).is_ok()
                                && (*a != attrs_of_doc(&plan.metas[*m]) || v["=="].as_array().map_or(false, |l| l.contains(&Value::from(*m))))
                        }
                        _ => false,
                    })
                }
                Res::Err(..) => self.filter_node(r, path, "meta-error", |s| match s {
                    NS::Array(m, _) => must_understand(&self_metas[*m]),
                    _ => true,
                }),
                _ => Ok(()),
            },
            Op::Exists { path } => match &r.res {
                Res::Ok(Val::Bool(b)) => {
                    let implicit = self.maybe_below(&canon(path)) || canon(path).is_empty();
                    self.filter_node(r, path, "exists", |s| match s {
                        NS::Group(_) | NS::Array(..) => *b,
                        _ => !*b || implicit,
                    })
                }
                Res::Err(..) if !hard => bad("exists-error", r, "no fault was injected".into()),
                _ => Ok(()),
            },
            Op::ArrayExists { path } => match &r.res {
                Res::Ok(Val::Bool(b)) => self.filter_node(r, path, "exists", |s| match s {
                    NS::Array(m, _) => *b || must_understand(&self_metas[*m]),
                    _ => !*b,
                }),
                Res::Err(..) if !hard => {
                    if self.node(&canon(path)).iter().any(|s| matches!(s, NS::Any) || matches!(s, NS::Array(m, _) if must_understand(&self_metas[*m]))) {
                        return Ok(());
                    }
                    bad("exists-error", r, "no fault was injected".into())
                }
                _ => Ok(()),
            },
            Op::ListNodes { path } => self.list(r, path),
            Op::Remove { path } => self.remove(r, path),
            Op::Write { path, meta, pos, vid, ty, n } => {
                let d = &self.plan.metas[*meta];
                let base = dtype_of(d).0;
                let rejected = ty.as_ref().map_or(false, |t| *t != base) || n.map_or(false, |n| n != nel(d));
                if rejected {
                    return match &r.res {
                        Res::Ok(_) => bad("accepted-bad-data", r, "wrong type or element count".into()),
                        _ => Ok(()),
                    };
                }
                if matches!(r.res, Res::Err(..)) && !hard {
                    return bad("unexpected-error", r, "no fault was injected".into());
                }
                let v = values(&base, *vid, nel(d));
                let w = vec![false; v.len()];
                let c = CS::Data(Rc::new(Content { v, wild: w }));
                self.mutate_chunk(r, &canon(path), pos, false, |_| c.clone());
                Ok(())
            }
            Op::Read { path, pos, .. } => match &r.res {
                Res::Ok(Val::Data(got)) => self.read_chunk(r, &canon(path), pos, got.as_ref()),
                Res::Err(..) if !hard => {
                    let p = canon(path);
                    let c = self.chunk(&p, pos);
                    if c.contains(&CS::Any) {
                        self.set_chunk(&p, pos, vec![CS::Any]);
                        Ok(())
                    } else {
                        bad("read-error", r, format!("no fault was injected; {}", show(&c)))
                    }
                }
                _ => Ok(()),
            },
            Op::Delete { path, pos, .. } => {
                match &r.res {
                    Res::Err(..) if !hard => return bad("unexpected-error", r, "no fault was injected".into()),
                    Res::Ok(Val::Bool(false)) if !hard => return bad("delete-false", r, "reports that the chunk still exists".into()),
                    Res::Ok(Val::Bool(false)) => {
                        let old = self.chunk(&canon(path), pos);
                        self.set_chunk(&canon(path), pos, old.into_iter().chain([CS::Missing]).collect());
                        return Ok(());
                    }
                    _ => {}
                }
                self.mutate_chunk(r, &canon(path), pos, true, |_| CS::Missing);
                Ok(())
            }
            Op::WriteRegion { path, meta, off, shape, vid, .. } => self.write_region(r, path, *meta, off, shape, *vid),
            Op::ReadRegion { path, meta, off, shape, .. } => self.read_region(r, path, *meta, off, shape),
            Op::Uri { .. } | Op::UseMeta { .. } | Op::UseMetaWrite { .. } => Ok(()),
            Op::KSet { key, vid, len } => {
                let k = canon(key);
                let old = self.kv.get(&k).cloned().unwrap_or_else(|| vec![KS::Missing]);
                let new = vec![KS::Data(*vid, *len)];
                let v = match &r.res {
                    Res::Ok(_) => new,
                    Res::Killed => old.into_iter().chain(new).collect(),
                    _ if !hard => return bad("unexpected-error", r, "no fault was injected".into()),
                    _ if !self.opt.err_keeps => vec![KS::Any],
                    _ if self.opt.err_may => old.into_iter().chain(new).collect(),
                    _ => old,
                };
                self.kv.insert(k, dedup(v));
                Ok(())
            }
            Op::KErase { .. } | Op::KErasePrefix { .. } => {
                let (k, pre) = match &r.op {
                    Op::KErase { key } => (canon(key), false),
                    Op::KErasePrefix { key } => (canon(key), true),
                    _ => unreachable!(),
                };
                match &r.res {
                    Res::Err(..) if !hard => return bad("unexpected-error", r, "no fault was injected".into()),
                    Res::Ok(Val::Bool(false)) if !hard => return bad("delete-false", r, "reports that it still exists".into()),
                    _ => {}
                }
                let sure = matches!(r.res, Res::Ok(Val::Bool(true)));
                let below = matches!(&r.op, Op::KErasePrefix { key } if key.ends_with('/'));
                for (q, s) in self.kv.iter_mut() {
                    if (*q == k && !below) || (*q != k && pre && under(q, &k)) {
                        if sure {
                            *s = vec![KS::Missing];
                        } else if !s.contains(&KS::Missing) {
                            s.push(KS::Missing);
                        }
                    }
                }
                Ok(())
            }
            Op::KDoc { .. } | Op::Hold { .. } | Op::Release { .. } => Ok(()),
            Op::KGet { key } => match &r.res {
                Res::Ok(Val::Bytes(b)) => self.filter_kv(r, key, |s| match (s, b) {
                    (KS::Missing, None) => true,
                    (KS::Data(v, n), Some(b)) => crate::ops::key_bytes(*v, *n) == *b,
                    _ => false,
                }),
                Res::Err(..) if !hard => bad("read-error", r, "no fault was injected".into()),
                _ => Ok(()),
            },
            Op::KExists { key } => match &r.res {
                Res::Ok(Val::Bool(b)) => self.filter_kv(r, key, |s| matches!(s, KS::Data(..)) == *b),
                Res::Err(..) if !hard => bad("exists-error", r, "no fault was injected".into()),
                _ => Ok(()),
            },
            Op::KList => self.klist(r, ""),
            Op::KListPrefix { key } => self.klist(r, key),
            Op::KListDir { key } => self.klistdir(r, key),
        }
    }
    fn set_attrs(&mut self, r: &Rec, path: &str, m: Map<String, Value>) -> V {
        let c = canon(path);
        let implicit = self.maybe_below(&c) || c.is_empty();
        self.mutate_node(r, path, implicit, |s| match s {
            NS::Group(a) => Some(NS::Group(merged(a, &m))),
            NS::Array(i, a) => Some(NS::Array(*i, merged(a, &m))),
            NS::Absent => {
                if implicit {
                    Some(NS::Any)
                } else {
                    None
                }
            }
            NS::Any => Some(NS::Any),
        })
    }
    fn filter_kv(&mut self, r: &Rec, key: &str, keep: impl Fn(&KS) -> bool) -> V {
        let k = canon(key);
        let old = self.kv.get(&k).cloned().unwrap_or_else(|| vec![KS::Missing]);
        let left: Vec<KS> = old.iter().filter(|s| **s == KS::Any || keep(s)).cloned().collect();
        if left.is_empty() {
            return bad("kv", r, format!("possible states {:?}", old));
        }
        self.decided += 1;
        self.kv.insert(k, left);
        Ok(())
    }
    /// Every key that may be in storage: 0 surely absent, 1 surely present, 2 either.
    fn keys(&self) -> BTreeMap<String, u8> {
        let mut m = BTreeMap::new();
        let yesno = |yes: bool, no: bool| if yes { 1 } else if no { 0 } else { 2 };
        if !self.plan.env.mem {
            m.insert("zarr.json".to_string(), 2);
        }
        // What others left there, other than unfinished values.
        for e in self.plan.phases.iter().flat_map(|p| &p.env) {
            if let EnvOp::PutText { path, .. } = e {
                if !path.ends_with(".tmp") {
                    m.insert(path.clone(), 2);
                }
            }
        }
        for (k, s) in &self.kv {
            m.insert(k.clone(), yesno(s.iter().all(|x| matches!(x, KS::Data(..))), s.iter().all(|x| matches!(x, KS::Missing))));
        }
        let sfx = suffix(self.plan);
        let key = |p: &str, kind: &str| {
            let k = meta_key(p, kind);
            format!("{}{}", k.strip_suffix(".json").unwrap(), sfx)
        };
        for (p, s) in &self.nodes {
            let a = yesno(s.iter().all(|x| matches!(x, NS::Array(..))), s.iter().all(|x| matches!(x, NS::Group(_) | NS::Absent)));
            let g = yesno(s.iter().all(|x| matches!(x, NS::Group(_))), s.iter().all(|x| matches!(x, NS::Array(..) | NS::Absent)));
            m.insert(key(p, "array"), a);
            m.insert(key(p, "group"), g);
        }
        for ((p, pos), s) in &self.chunks {
            for d in self.metas.get(p).into_iter().flatten() {
                let one = self.metas[p].len() == 1;
                let k = chunk_key(p, &self.plan.metas[*d], pos);
                let st = yesno(s.iter().all(|x| matches!(x, CS::Data(_))), s.iter().all(|x| matches!(x, CS::Missing)));
                m.insert(k, if one { st } else { 2 });
            }
        }
        m
    }
    fn klist(&mut self, r: &Rec, prefix: &str) -> V {
        let names = match &r.res {
            Res::Ok(Val::Names(n)) => n,
            Res::Err(..) if !self.hard(r) => return bad("list-error", r, "no fault was injected".into()),
            _ => return Ok(()),
        };
        let pre = canon(prefix);
        let got: Vec<String> = names.iter().map(|n| canon(n)).collect();
        let set: BTreeSet<&String> = got.iter().collect();
        if set.len() != got.len() {
            return bad("list", r, "a key is listed more than once".into());
        }
        for g in &got {
            if !under(g, &pre) {
                return bad("list", r, format!("{} is not under the prefix", g));
            }
        }
        self.decided += 1;
        let keys = self.keys();
        for (k, s) in &keys {
            if under(k, &pre) {
                if *s == 1 && !set.contains(k) {
                    return bad("list", r, format!("{} is missing", k));
                }
                if *s == 0 && set.contains(k) {
                    return bad("list", r, format!("{} does not exist", k));
                }
            }
        }
        for g in &got {
            if !keys.contains_key(g) {
                return bad("list", r, format!("{} was never stored", g));
            }
        }
        Ok(())
    }
    fn klistdir(&mut self, r: &Rec, prefix: &str) -> V {
        let (keys, dirs) = match &r.res {
            Res::Ok(Val::Two(a, b)) => (a, b),
            Res::Err(..) if !self.hard(r) => return bad("list-error", r, "no fault was injected".into()),
            _ => return Ok(()),
        };
        let pre = canon(prefix);
        let k: Vec<String> = keys.iter().map(|n| canon(n)).collect();
        let d: Vec<String> = dirs.iter().map(|n| canon(n)).collect();
        let ks: BTreeSet<&String> = k.iter().collect();
        let ds: BTreeSet<&String> = d.iter().collect();
        if ks.len() != k.len() || ds.len() != d.len() {
            return bad("list", r, "an entry is listed more than once".into());
        }
        self.decided += 1;
        for x in k.iter().chain(&d) {
            if !strictly_under(x, &pre) || child_of(x, &pre).len() + if pre.is_empty() { 0 } else { pre.len() + 1 } != x.len() {
                return bad("list", r, format!("{} is not a direct child of the prefix", x));
            }
        }
        let all = self.keys();
        for (q, s) in &all {
            if !strictly_under(q, &pre) {
                continue;
            }
            let child = child_of(q, &pre);
            let child = if pre.is_empty() { child } else { format!("{}/{}", pre, child) };
            if child == *q {
                if *s == 1 && !ks.contains(q) {
                    return bad("list", r, format!("{} is missing", q));
                }
                if *s == 0 && ks.contains(q) {
                    return bad("list", r, format!("{} does not exist", q));
                }
            } else if *s == 1 && !ds.contains(&child) {
                return bad("list", r, format!("prefix {} is missing", child));
            }
        }
        for g in &k {
            if !all.contains_key(g) {
                return bad("list", r, format!("{} was never stored", g));
            }
        }
        Ok(())
    }
    fn list(&mut self, r: &Rec, path: &str) -> V {
        let p = canon(path);
        let hard = self.hard(r);
        let names = match &r.res {
            Res::Ok(Val::Names(n)) => n.clone(),
            Res::Err(..) if hard => return Ok(()),
            Res::Err(k, _) => {
                // Nothing there: an error is fine. A group that exists, or has children, must be listed.
                let exists = self.node(&p).iter().all(|s| matches!(s, NS::Group(_)))
                    || self.nodes.iter().any(|(q, s)| strictly_under(q, &p) && s.iter().all(|x| matches!(x, NS::Group(_) | NS::Array(..))));
                if exists || k != "NotFound" {
                    return bad("list-error", r, "no fault was injected".into());
                }
                return Ok(());
            }
            _ => return Ok(()),
        };
        self.decided += 1;
        let set: BTreeSet<&String> = names.iter().collect();
        if set.len() != names.len() {
            return bad("list", r, "a child is listed more than once".into());
        }
        let mut may = BTreeSet::new();
        for (q, s) in &self.nodes {
            if strictly_under(q, &p) {
                let c = child_of(q, &p);
                if s.iter().all(|x| matches!(x, NS::Group(_) | NS::Array(..))) && !set.contains(&c) {
                    return bad("list", r, format!("child {:?} (for {:?}) is missing", c, q));
                }
                if s.iter().any(|x| *x != NS::Absent) {
                    may.insert(c);
                }
            }
        }
        for q in &self.once {
            if strictly_under(q, &p) {
                let c = child_of(q, &p);
                let direct = q.len() == c.len() + if p.is_empty() { 0 } else { p.len() + 1 };
                // Only an intermediate directory may outlive what was below it.
                if !direct {
                    may.insert(c);
                }
            }
        }
        for n in &names {
            if !may.contains(n) {
                return bad("list", r, format!("{:?} is not a child", n));
            }
        }
        Ok(())
    }
    fn remove(&mut self, r: &Rec, path: &str) -> V {
        let p = if path == "*all*" { String::new() } else { canon(path) };
        let hard = self.hard(r);
        if matches!(r.res, Res::Err(..)) && !hard {
            let nothing = self.nodes.iter().all(|(q, s)| !under(q, &p) || s.iter().any(|x| *x == NS::Absent))
                && self.chunks.iter().all(|((q, _), s)| !under(q, &p) || s.contains(&CS::Missing));
            if !nothing {
                return bad("unexpected-error", r, "no fault was injected".into());
            }
            return Ok(());
        }
        let sure = matches!(r.res, Res::Ok(_)) && !(hard && !self.opt.ok_strict);
        let loose = matches!(r.res, Res::Err(..)) && !self.opt.err_keeps;
        for (q, s) in self.nodes.iter_mut() {
            if under(q, &p) {
                if loose {
                    *s = vec![NS::Any];
                } else if sure {
                    *s = vec![NS::Absent];
                } else if !s.contains(&NS::Absent) {
                    s.push(NS::Absent);
                }
            }
        }
        for ((q, _), s) in self.chunks.iter_mut() {
            if under(q, &p) {
                if loose {
                    *s = vec![CS::Any];
                } else if sure {
                    *s = vec![CS::Missing];
                } else if !s.contains(&CS::Missing) {
                    s.push(CS::Missing);
                }
            }
        }
        if sure {
            // Intermediate directories above the removed node may remain.
            let any = self.once.iter().any(|q| under(q, &p));
            self.once.retain(|q| !under(q, &p));
            if any && !p.is_empty() {
                self.once.insert(p);
            }
        }
        Ok(())
    }
    fn read_chunk(&mut self, r: &Rec, p: &str, pos: &[u64], got: Option<&Vec<u64>>) -> V {
        let old = self.chunk(p, pos);
        if old.len() == 1 {
            self.decided += 1;
        }
        let left: Vec<CS> = old
            .iter()
            .filter(|s| match (s, got) {
                (CS::Any, _) => true,
                (CS::Missing, None) => true,
                (CS::Data(c), Some(g)) => c.v.len() == g.len() && (0..g.len()).all(|i| c.wild[i] || c.v[i] == g[i]),
                _ => false,
            })
            .cloned()
            .collect();
        if left.is_empty() {
            let class = match got {
                None => "missing",
                Some(_) if old.iter().all(|s| *s == CS::Missing) => "phantom",
                _ => "wrong-data",
            };
            return bad(class, r, show(&old));
        }
        let new = match got {
            None => CS::Missing,
            Some(g) => CS::Data(Rc::new(Content { v: g.clone(), wild: vec![false; g.len()] })),
        };
        // What was seen is now known, unless the chunk's state is not promised to be stable.
        if !left.contains(&CS::Any) {
            self.set_chunk(p, pos, vec![new]);
        }
        Ok(())
    }
    fn write_region(&mut self, r: &Rec, path: &str, meta: usize, off: &[u64], shape: &[u64], vid: u64) -> V {
        let plan = self.plan;
        let d = &plan.metas[meta];
        let p = canon(path);
        let s = shape_of(d);
        let hard = self.hard(r);
        if off.len() != s.len() {
            return match &r.res {
                Res::Ok(_) => bad("accepted-bad-data", r, "wrong number of dimensions".into()),
                _ => Ok(()),
            };
        }
        let list = chunks_of_box(d, off, shape);
        let any = list.iter().any(|g| self.chunk(&p, g).contains(&CS::Any));
        if matches!(r.res, Res::Err(..)) && !hard {
            if !any {
                return bad("unexpected-error", r, "no fault was injected".into());
            }
            for g in &list {
                self.set_chunk(&p, g, vec![CS::Any]);
            }
            return Ok(());
        }
        let ty = dtype_of(d).0;
        let n: u64 = shape.iter().product();
        let v = values(&ty, vid, n as usize);
        let cs = cshape_of(d);
        let fill = fill_bits(d);
        let nel = nel(d);
        let ix = CellIndex::new(d);
        for g in &list {
            // Which cells of the chunk the box covers, with which value.
            let mut put: Vec<Option<u64>> = vec![None; nel];
            let mut pad = vec![false; nel];
            let org: Vec<u64> = g.iter().zip(&cs).map(|(a, b)| a * b).collect();
            cells(&org, &cs, |_, q| {
                let local: Vec<u64> = q.iter().zip(&org).map(|(a, b)| a - b).collect();
                let i = ix.at(&local);
                pad[i] = q.iter().zip(&s).any(|(a, b)| a >= b);
                if (0..q.len()).all(|k| q[k] >= off[k] && q[k] < off[k].saturating_add(shape[k])) {
                    let mut j = 0u64;
                    for k in 0..q.len() {
                        j = j * shape[k] + (q[k] - off[k]);
                    }
                    put[i] = Some(v[j as usize]);
                }
            });
            let full = put.iter().all(|x| x.is_some());
            let f = |o: &CS| -> CS {
                let (mut nv, mut wild) = match o {
                    CS::Data(c) => (c.v.clone(), c.wild.clone()),
                    CS::Missing => (vec![fill; nel], vec![false; nel]),
                    CS::Any if !full => return CS::Any,
                    CS::Any => (vec![0; nel], vec![false; nel]),
                };
                for i in 0..nel {
                    if pad[i] {
                        wild[i] = true;
                    } else if let Some(x) = put[i] {
                        nv[i] = x;
                        wild[i] = false;
                    }
                }
                CS::Data(Rc::new(Content { v: nv, wild }))
            };
            let old = self.chunk(&p, g);
            let new: Vec<CS> = old.iter().map(f).collect();
            let nv = match &r.res {
                Res::Ok(_) if !(hard && !self.opt.ok_strict) => new,
                Res::Err(..) if !self.opt.err_keeps => vec![CS::Any],
                _ => old.into_iter().chain(new).collect(),
            };
            self.set_chunk(&p, g, nv);
        }
        Ok(())
    }
    fn read_region(&mut self, r: &Rec, path: &str, meta: usize, off: &[u64], shape: &[u64]) -> V {
        let plan = self.plan;
        let d = &plan.metas[meta];
        let p = canon(path);
        let s = shape_of(d);
        let hard = self.hard(r);
        if off.len() != s.len() {
            return match &r.res {
                Res::Ok(_) => bad("accepted-bad-data", r, "wrong number of dimensions".into()),
                _ => Ok(()),
            };
        }
        let list = chunks_of_box(d, off, shape);
        let got = match &r.res {
            Res::Ok(Val::Data(Some(g))) => g,
            Res::Err(..) if hard => return Ok(()),
            Res::Err(..) => {
                if list.iter().any(|g| self.chunk(&p, g).contains(&CS::Any)) {
                    return Ok(());
                }
                return bad("region-error", r, "no fault was injected".into());
            }
            _ => return Ok(()),
        };
        self.decided += 1;
        let fill = fill_bits(d);
        let cs = cshape_of(d);
        // Per chunk: the candidates consistent with every cell seen.
        let mut cand: BTreeMap<Vec<u64>, Vec<CS>> = list.iter().map(|g| (g.clone(), self.chunk(&p, g))).collect();
        let mut err: Option<String> = None;
        let ix = CellIndex::new(d);
        cells(off, shape, |k, q| {
            if err.is_some() {
                return;
            }
            let g: Vec<u64> = q.iter().zip(&cs).map(|(a, b)| a / b).collect();
            let inside = q.iter().zip(&s).all(|(a, b)| a < b);
            let x = got[k];
            match cand.get_mut(&g) {
                Some(c) => {
                    let local: Vec<u64> = q.iter().zip(g.iter().zip(&cs)).map(|(a, (b, c))| a - b * c).collect();
                    let i = ix.at(&local);
                    let was = std::mem::take(c);
                    *c = was.clone();
                    c.retain(|st| match st {
                        CS::Any => true,
                        CS::Missing => x == fill,
                        CS::Data(c) => c.wild[i] || c.v[i] == x || (!inside && x == fill),
                    });
                    if c.is_empty() {
                        err = Some(format!("cell {:?} reads {:#x}; its chunk {:?} {} (fill {:#x})", q, x, g, show(&was), fill));
                    }
                }
                None => {
                    if x != fill {
                        err = Some(format!("cell {:?} outside the array reads {:#x} instead of the fill value {:#x}", q, x, fill));
                    }
                }
            }
        });
        if let Some(e) = err {
            return bad("region", r, e);
        }
        for (g, c) in cand {
            self.set_chunk(&p, &g, c);
        }
        Ok(())
    }
}
/// The metadata key suffix in effect, with its dot.
pub fn suffix(plan: &Plan) -> String {
    let e = if plan.env.mem { &plan.env.mem_entry } else { &plan.env.entry };
    let s = e.as_ref().and_then(|e| serde_json::from_str::<Value>(e).ok()).and_then(|v| v["metadata_key_suffix"].as_str().map(|s| s.to_string())).unwrap_or(".json".into());
    if s.starts_with('.') {
        s
    } else {
        format!(".{}", s)
    }
}
pub fn must_understand(doc: &Value) -> bool {
    doc["extensions"].as_array().map_or(false, |l| l.iter().any(|e| e["must_understand"] == true))
}
pub fn show(c: &[CS]) -> String {
    let v: Vec<String> = c
        .iter()
        .map(|s| match s {
            CS::Missing => "missing".to_string(),
            CS::Any => "anything".to_string(),
            CS::Data(c) => {
                let n = c.v.len().min(6);
                format!("{:x?}{}", &c.v[..n], if c.v.len() > n { "..." } else { "" })
            }
        })
        .collect();
    format!("may hold {}", v.join(" or "))
}

/// Whether a document's shapes are those of an array: of one rank, with chunks of a countable number of elements.
pub fn describes_array(d: &Value) -> bool {
    let (s, c) = (d["shape"].as_array(), d["chunk_grid"]["chunk_shape"].as_array());
    match (s, c) {
        (Some(s), Some(c)) => {
            let n = c.iter().try_fold(1u64, |n, x| n.checked_mul(x.as_u64()?)).unwrap_or(0);
            s.len() == c.len() && n > 0 && n <= u32::MAX as u64
        }
        _ => false,
    }
}

//! What each property demands of a run's outcome.
use crate::lin::{self, LOp, Lin};
use crate::model::*;
use crate::plan::*;
use crate::run::brief;
use crate::types::*;
use crate::world::Cls;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Default, Clone, Debug)]
pub struct Info {
    /// Answers compared with a single expected value.
    pub decided: u64,
    pub nontrivial: bool,
    /// The run shows a listed kind of failure (its identifier and a description).
    pub known: Option<(String, String)>,
}
type Out = Result<Info, Violation>;
type V = Result<(), Violation>;

fn vio<T>(class: &str, msg: String) -> Result<T, Violation> {
    Err(Violation::new(class, msg))
}
fn bad<T>(class: &str, r: &Rec, why: &str) -> Result<T, Violation> {
    vio(class, format!("phase {} t{} op{} {:?} -> {}: {}", r.phase, r.tid, r.idx, r.op, brief(&r.res), why))
}
const STRICT: Opts = Opts { err_keeps: true, err_may: false, ok_strict: true };

pub fn check(plan: &Plan, out: &Outcome) -> Out {
    for (i, p) in out.phases.iter().enumerate() {
        if let Some(e) = p.open_err.first() {
            return vio("open", format!("phase {} ({}): opening the hierarchy failed although nothing was injected: {}", i, plan.phases[i].label, e));
        }
        if p.deadlock {
            return vio("deadlock", format!("phase {}: no client can proceed", i));
        }
        if p.livelock {
            return vio("livelock", format!("phase {}: clients still busy at the step limit", i));
        }
    }
    let mut info = match &plan.prop[..] {
        "C01" | "C08" | "C12" | "C19" => model(plan, out, STRICT),
        "C02" => c02(plan, out),
        "C03" => model(plan, out, Opts { err_keeps: true, err_may: false, ok_strict: false }),
        "C04" => model(plan, out, STRICT),
        "C05" => c05(plan, out),
        "C06" => c06(plan, out),
        "C07" => c07(plan, out),
        "C10" => c10(plan, out),
        "C09" | "C13" | "C18" => model(plan, out, Opts { err_keeps: true, err_may: true, ok_strict: true }),
        "C11" => c11(plan, out),
        "C14" => c14(plan, out),
        "C15" => c15(plan, out),
        "C16" => c16(plan, out),
        "C17" => c17(plan, out),
        "C20" => c20(plan, out),
        "C21" => match &plan.variant[..] {
            "memory race" => c05(plan, out),
            "memory parallel" => c06(plan, out),
            _ => model(plan, out, STRICT),
        },
        p => panic!("harness: property {}", p),
    }?;
    if !info.nontrivial {
        info.nontrivial = match &plan.prop[..] {
            "C01" | "C08" | "C10" | "C12" | "C16" | "C19" | "C20" | "C21" => info.decided > 0,
            "C02" | "C03" | "C18" => info.decided > 0 && out.phases.iter().any(|p| p.recs.iter().any(|r| r.hard > 0)),
            "C04" => out.stats.kills > 0,
            "C09" | "C13" => info.decided > 0 && (out.stats.kills > 0 || out.stats.switches > 0 || out.stats.errs.iter().sum::<u64>() > 0),
            _ => out.stats.switches > 0,
        };
    }
    Ok(info)
}

fn all_recs(out: &Outcome) -> impl Iterator<Item = &Rec> {
    out.phases.iter().flat_map(|p| p.recs.iter())
}
fn model(plan: &Plan, out: &Outcome, o: Opts) -> Out {
    let mut m = Model::new(plan, o);
    for r in all_recs(out) {
        if plan.prop == "C02" && plan.variant == "create" && matches!(&r.res, Res::Err(_, e) if e.starts_with("harness: no handle")) {
            continue;
        }
        m.apply(r)?;
    }
    Ok(Info { decided: m.decided, ..Default::default() })
}

// ---------------------------------------------------------------- C02

fn c02(plan: &Plan, out: &Outcome) -> Out {
    let info = model(plan, out, Opts { err_keeps: false, err_may: true, ok_strict: true })?;
    let must = Cls::Creat.bit() | Cls::Open.bit() | Cls::Write.bit() | Cls::Lock.bit() | Cls::Unlink.bit() | Cls::Rmdir.bit() | Cls::Trunc.bit() | Cls::Rename.bit() | Cls::Sync.bit();
    for r in all_recs(out) {
        if r.op.mutates() && r.hard_cls & must != 0 && matches!(r.res, Res::Ok(_)) {
            return bad("swallowed", r, &format!("the storage failed inside this operation (call classes {})", classes(r.hard_cls)));
        }
    }
    Ok(info)
}
pub fn classes(c: u32) -> String {
    const N: [&str; 16] = ["open", "create", "read", "write", "stat", "lock", "unlink", "rmdir", "mkdir", "rename", "opendir", "readdir", "truncate", "sync", "close", "other"];
    (0..16).filter(|i| c >> i & 1 == 1).map(|i| N[i]).collect::<Vec<_>>().join(",")
}

// ---------------------------------------------------------------- C05

#[derive(Clone, Debug)]
enum CO {
    Write(usize),
    /// Content, or None for missing; true: missing looks like this content (fill values).
    Read(Option<usize>, bool),
    Delete,
}
fn box_to_chunk(d: &Value, pos: &[u64], row_major: &[u64]) -> Vec<u64> {
    let cs = cshape_of(d);
    let org: Vec<u64> = pos.iter().zip(&cs).map(|(a, b)| a * b).collect();
    let mut v = vec![0; nel(d)];
    let ix = CellIndex::new(d);
    cells(&org, &cs, |k, q| {
        let local: Vec<u64> = q.iter().zip(&org).map(|(a, b)| a - b).collect();
        v[ix.at(&local)] = row_major[k];
    });
    v
}
fn c05(plan: &Plan, out: &Outcome) -> Out {
    let d = &plan.metas[0];
    let ty = dtype_of(d).0;
    let fill = vec![fill_bits(d); nel(d)];
    let cs = cshape_of(d);
    let mut ids: HashMap<Vec<u64>, usize> = HashMap::new();
    let mut id = |v: Vec<u64>| -> usize {
        let n = ids.len();
        *ids.entry(v).or_insert(n)
    };
    let fill_id = id(fill.clone());
    let mut hist: BTreeMap<Vec<u64>, Vec<LOp<CO>>> = BTreeMap::new();
    let mut written: BTreeMap<Vec<u64>, BTreeSet<usize>> = BTreeMap::new();
    let mut reads: Vec<(Vec<u64>, usize, &Rec)> = vec![];
    let mut overlap = false;
    for r in all_recs(out) {
        if let Res::Panic(m) = &r.res {
            return bad("panic", r, m);
        }
        if matches!(r.res, Res::Err(..)) && r.hard == 0 {
            return bad("unexpected-error", r, "fails although no fault was injected");
        }
        let killed = matches!(r.res, Res::Killed);
        let (pos, op) = match &r.op {
            Op::Write { pos, vid, .. } => {
                let i = id(values(&ty, *vid, nel(d)));
                written.entry(pos.clone()).or_default().insert(i);
                (pos.clone(), CO::Write(i))
            }
            Op::Delete { pos, .. } => (pos.clone(), CO::Delete),
            Op::WriteRegion { off, shape, vid, .. } => {
                let n: u64 = shape.iter().product();
                let pos: Vec<u64> = off.iter().zip(&cs).map(|(a, b)| a / b).collect();
                let i = id(box_to_chunk(d, &pos, &values(&ty, *vid, n as usize)));
                written.entry(pos.clone()).or_default().insert(i);
                (pos, CO::Write(i))
            }
            Op::Read { pos, .. } => match &r.res {
                Res::Ok(Val::Data(Some(v))) => {
                    let i = id(v.clone());
                    reads.push((pos.clone(), i, r));
                    (pos.clone(), CO::Read(Some(i), false))
                }
                Res::Ok(Val::Data(None)) => (pos.clone(), CO::Read(None, false)),
                _ => continue,
            },
            Op::ReadRegion { off, .. } => match &r.res {
                Res::Ok(Val::Data(Some(v))) => {
                    let pos: Vec<u64> = off.iter().zip(&cs).map(|(a, b)| a / b).collect();
                    let i = id(box_to_chunk(d, &pos, v));
                    if i != fill_id {
                        reads.push((pos.clone(), i, r));
                    }
                    (pos, CO::Read(Some(i), i == fill_id))
                }
                _ => continue,
            },
            _ => continue,
        };
        let h = hist.entry(pos).or_default();
        overlap |= h.iter().any(|o| o.ret > r.inv);
        h.push(LOp { inv: r.inv, ret: if killed { u64::MAX } else { r.ret }, optional: killed, op });
    }
    for (pos, i, r) in &reads {
        if !written.get(pos).map_or(false, |w| w.contains(i)) {
            return bad("torn", r, "reads a value nobody wrote to this chunk");
        }
    }
    let mut n = 0;
    for (pos, h) in &hist {
        n += h.len() as u64;
        let v = lin::check(h, None::<usize>, |s, o, _| match o {
            CO::Write(i) => vec![Some(*i)],
            CO::Delete => vec![None],
            CO::Read(v, amb) => {
                if s == v || (*amb && s.is_none()) {
                    vec![*s]
                } else {
                    vec![]
                }
            }
        });
        if let Lin::No = v {
            let t: Vec<String> = h.iter().map(|o| format!("[{}..{}{}] {:?}", o.inv, o.ret as i64, if o.optional { " killed" } else { "" }, o.op)).collect();
            return vio("not-linearizable", format!("the history of chunk {:?} has no sequential explanation: {}", pos, t.join(", ")));
        }
    }
    Ok(Info { decided: n, nontrivial: overlap, known: None })
}

// ---------------------------------------------------------------- C06

fn c06(plan: &Plan, out: &Outcome) -> Out {
    let mut m = Model::new(plan, STRICT);
    for (i, ph) in out.phases.iter().enumerate() {
        let conc = plan.phases[i].label == "parallel";
        for r in &ph.recs {
            if conc && matches!(r.op, Op::ListNodes { .. }) {
                if let Op::ListNodes { path } = &r.op {
                    concurrent_list(out, r, &canon(path))?;
                }
                continue;
            }
            m.apply(r)?;
        }
    }
    Ok(Info { decided: m.decided, nontrivial: out.stats.switches > 0, known: None })
}
fn concurrent_list(out: &Outcome, l: &Rec, p: &str) -> V {
    let names = match &l.res {
        Res::Ok(Val::Names(n)) => n.clone(),
        Res::Panic(m) => return bad("panic", l, m),
        Res::Err(k, _) => {
            // An error is only acceptable where nothing need be there.
            if k == "NotFound" && !all_recs(out).any(|r| matches!(&r.op, Op::CreateArray { path, .. } | Op::CreateGroup { path } if strictly_under(&canon(path), p) || canon(path) == p) && r.ret < l.inv && matches!(r.res, Res::Ok(_))) {
                return Ok(());
            }
            return bad("list-error", l, "fails although no fault was injected");
        }
        _ => return Ok(()),
    };
    let set: BTreeSet<&String> = names.iter().collect();
    if set.len() != names.len() {
        return bad("list", l, "a child is listed more than once");
    }
    let child = |q: &str| -> String {
        let rest = if p.is_empty() { q } else { &q[p.len() + 1..] };
        rest.split('/').next().unwrap().to_string()
    };
    let mut may = BTreeSet::new();
    for r in all_recs(out) {
        let path = match &r.op {
            Op::CreateArray { path, .. } | Op::CreateGroup { path } => canon(path),
            _ => continue,
        };
        if !strictly_under(&path, p) {
            continue;
        }
        let c = child(&path);
        if r.inv < l.ret {
            may.insert(c.clone());
        }
        if r.ret < l.inv && matches!(r.res, Res::Ok(_)) {
            let gone = all_recs(out).any(|x| matches!(&x.op, Op::Remove { path: q } if under(&path, &canon(q))) && x.inv < l.ret);
            if !gone && !set.contains(&c) {
                return bad("list", l, &format!("child {:?}, which existed throughout, is missing", c));
            }
        }
    }
    for n in &names {
        if !may.contains(n) {
            return bad("list", l, &format!("{:?} never existed", n));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C07

fn c07(plan: &Plan, out: &Outcome) -> Out {
    let mut decided = 0;
    // The content of the entry point once a phase has ended with a complete one.
    let mut entry: Option<Vec<u8>> = None;
    let mut any_create = false;
    let v = &plan.variant[..];
    for (i, ph) in out.phases.iter().enumerate() {
        let killed = ph.recs.iter().any(|r| matches!(r.res, Res::Killed));
        let before = ph.before.get("zarr.json").cloned().flatten();
        let after = ph.after.get("zarr.json").cloned().flatten();
        if v != "torn" {
            if let Some(b) = &before {
                if serde_json::from_slice::<Value>(b).is_ok() && entry.is_none() {
                    entry = Some(b.clone());
                }
            }
            if let Some(e) = &entry {
                decided += 1;
                if after.as_ref() != Some(e) {
                    return vio("altered", format!("phase {}: the existing entry point was changed from {:?} to {:?}", i, String::from_utf8_lossy(e), after.as_ref().map(|a| String::from_utf8_lossy(a).into_owned())));
                }
            }
        }
        if let Some(n) = ph.before.get("notes.txt") {
            if ph.after.get("notes.txt") != Some(n) {
                return vio("altered", format!("phase {}: an unrelated file was changed", i));
            }
        }
        let creates = ph.recs.iter().any(|r| matches!(r.op, Op::OpenOrCreate));
        any_create |= creates;
        if !creates && !ph.recs.iter().any(|r| r.op.mutates()) && ph.before != ph.after {
            return vio("open-creates", format!("phase {}: plain open changed the storage", i));
        }
        for r in &ph.recs {
            if let Res::Panic(m) = &r.res {
                return bad("panic", r, m);
            }
            if matches!(&r.res, Res::Err(_, m) if m.starts_with("harness:")) {
                continue;
            }
            let ok = matches!(r.res, Res::Ok(_));
            let err = matches!(r.res, Res::Err(..));
            match r.op {
                Op::OpenOrCreate | Op::Open => {
                    decided += 1;
                    let create = r.op == Op::OpenOrCreate;
                    match v {
                        "version" | "extension" if ok => return bad("not-refused", r, "the hierarchy's version or a required extension is unsupported"),
                        "torn" if ok && !create && !any_create => return bad("not-refused", r, "the entry point is incomplete"),
                        "existing" if err && r.hard == 0 => return bad("open", r, "a complete hierarchy exists and no fault was injected"),
                        "fresh" if err && r.hard == 0 => {
                            if create {
                                return bad("open", r, "open-or-create failed although no fault was injected into it");
                            }
                            let before = out.phases[..i].iter().any(|p| p.recs.iter().any(|x| matches!(x.op, Op::OpenOrCreate) && matches!(x.res, Res::Ok(_))))
                                || ph.recs.iter().any(|x| matches!(x.op, Op::OpenOrCreate) && matches!(x.res, Res::Ok(_)) && x.ret < r.inv);
                            if before {
                                return bad("open", r, "the hierarchy had been created before");
                            }
                        }
                        "fresh" if ok && !create => {
                            let some = out.phases[..i].iter().any(|p| p.recs.iter().any(|x| matches!(x.op, Op::OpenOrCreate))) || ph.recs.iter().any(|x| matches!(x.op, Op::OpenOrCreate) && x.inv < r.ret);
                            if !some {
                                return bad("open", r, "nothing had been created");
                            }
                        }
                        _ => {}
                    }
                }
                Op::CreateGroup { .. } | Op::Exists { .. } if r.hard == 0 => {
                    if err {
                        return bad("handle", r, "a handle that was opened successfully does not work");
                    }
                    if let Res::Ok(Val::Bool(false)) = r.res {
                        // Created just before by the same client, unless that failed.
                        let made = ph.recs.iter().any(|x| x.tid == r.tid && x.idx + 1 == r.idx && matches!(x.res, Res::Ok(_)));
                        if made {
                            return bad("handle", r, "a node created through the handle does not exist");
                        }
                    }
                }
                _ => {}
            }
        }
        let _ = killed;
        if entry.is_none() && v == "fresh" {
            // Somebody was told that the hierarchy exists: then it does.
            let told = ph.recs.iter().any(|r| matches!(r.op, Op::OpenOrCreate) && matches!(r.res, Res::Ok(_)));
            let complete = after.as_ref().map_or(false, |a| serde_json::from_slice::<Value>(a).map_or(false, |v| v["zarr_format"].is_string()));
            if told && !complete {
                return vio("not-created", format!("phase {}: open-or-create succeeded but there is no complete entry point: {:?}", i, after.as_ref().map(|a| String::from_utf8_lossy(a).into_owned())));
            }
        }
    }
    Ok(Info { decided, nontrivial: true, known: None })
}

// ---------------------------------------------------------------- C10

fn c10(plan: &Plan, out: &Outcome) -> Out {
    let mut m = Model::new(plan, Opts { err_keeps: true, err_may: true, ok_strict: true });
    let mut docs: BTreeMap<String, (String, Value)> = BTreeMap::new();
    for (i, ph) in out.phases.iter().enumerate() {
        for e in &plan.phases[i].env {
            let (key, text) = match e {
                EnvOp::PutText { path, text } => (path, text),
                _ => continue,
            };
            let v: Value = serde_json::from_str(text).unwrap();
            let rest = key.strip_prefix("meta/root").unwrap().trim_start_matches('/');
            let (p, kind) = match (rest.strip_suffix(".array.json"), rest.strip_suffix(".group.json")) {
                (Some(p), _) => (p, true),
                (_, Some(p)) => (p, false),
                _ => continue,
            };
            let st = if kind {
                let j = plan.metas.iter().position(|d| doc_matches(&v, d, &v["attributes"].as_object().cloned().unwrap_or_default()).is_ok() && d["attributes"] == v["attributes"]);
                NS::Array(j.expect("harness: document"), attrs_of_doc(&v))
            } else {
                NS::Group(attrs_of_doc(&v))
            };
            m.preset(p, st);
            docs.insert(p.to_string(), (key.clone(), v));
        }
        for r in &ph.recs {
            m.apply(r)?;
        }
    }
    let img = &out.phases.last().unwrap().after;
    for (p, (key, was)) in &docs {
        let attrs = match &m.node(p)[..] {
            [NS::Array(_, a)] | [NS::Group(a)] => a.clone(),
            _ => continue,
        };
        let now = match img.get(key).cloned().flatten().map(|b| serde_json::from_slice::<Value>(&b)) {
            Some(Ok(v)) => v,
            x => return vio("document", format!("{} holds {:?}", key, x)),
        };
        let mut want = was.clone();
        if was.get("attributes").is_some() || !attrs.is_empty() || now.get("attributes").is_some() {
            want["attributes"] = Value::Object((*attrs).clone());
        }
        if now != want {
            return vio("document", format!("updating attributes changed {} from {} to {}, expected {}", key, was, now, want));
        }
    }
    Ok(Info { decided: m.decided, ..Default::default() })
}

// ---------------------------------------------------------------- C11

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum Node {
    Absent,
    Group(String),
    Array(usize, String),
}
fn parse(s: &str) -> Map<String, Value> {
    serde_json::from_str::<Value>(s).unwrap().as_object().unwrap().clone()
}
fn doc_attrs(d: &Value) -> String {
    Value::Object(d["attributes"].as_object().cloned().unwrap_or_default()).to_string()
}
fn node_step(plan: &Plan, s: &Node, r: &Rec) -> Vec<Node> {
    let ok = matches!(r.res, Res::Ok(_));
    let kind = match &r.res {
        Res::Err(k, _) => &k[..],
        _ => "",
    };
    let keep = |b: bool| if b { vec![s.clone()] } else { vec![] };
    match &r.op {
        Op::CreateArray { meta, .. } => match s {
            Node::Absent if ok => vec![Node::Array(*meta, doc_attrs(&plan.metas[*meta]))],
            Node::Absent => vec![],
            _ => keep(!ok && kind == "AlreadyExists"),
        },
        Op::CreateGroup { .. } => match s {
            Node::Absent if ok => vec![Node::Group("{}".into())],
            Node::Absent => vec![],
            Node::Group(_) => keep(ok),
            Node::Array(..) => keep(!ok && kind == "AlreadyExists"),
        },
        Op::SetAttr { key, value, .. } => {
            let put = |a: &String| {
                let mut m = parse(a);
                m.insert(key.clone(), value.clone());
                Value::Object(m).to_string()
            };
            match s {
                Node::Absent => keep(!ok && kind == "NotFound"),
                Node::Group(a) if ok => vec![Node::Group(put(a))],
                Node::Array(i, a) if ok => vec![Node::Array(*i, put(a))],
                _ => vec![],
            }
        }
        Op::SetAttrs { attrs, .. } => {
            let put = |a: &String| {
                let mut m = parse(a);
                for (k, v) in attrs.as_object().unwrap() {
                    m.insert(k.clone(), v.clone());
                }
                Value::Object(m).to_string()
            };
            match s {
                Node::Absent => keep(!ok && kind == "NotFound"),
                Node::Group(a) if ok => vec![Node::Group(put(a))],
                Node::Array(i, a) if ok => vec![Node::Array(*i, put(a))],
                _ => vec![],
            }
        }
        Op::ListAttrs { .. } => match (&r.res, s) {
            (Res::Ok(Val::Json(v)), Node::Group(a) | Node::Array(_, a)) => keep(v.to_string() == *a),
            (Res::Err(..), Node::Absent) => keep(kind == "NotFound"),
            _ => vec![],
        },
        Op::GetMeta { .. } => match (&r.res, s) {
            (Res::Ok(Val::Json(v)), Node::Array(m, a)) => keep(doc_matches(v, &plan.metas[*m], &parse(a)).is_ok()),
            (Res::Err(..), Node::Group(_) | Node::Absent) => keep(kind == "NotFound"),
            _ => vec![],
        },
        _ => vec![s.clone()],
    }
}
fn c11(plan: &Plan, out: &Outcome) -> Out {
    let path = all_recs(out)
        .find_map(|r| match &r.op {
            Op::CreateArray { path, .. } | Op::CreateGroup { path } | Op::SetAttr { path, .. } | Op::ListAttrs { path } | Op::GetMeta { path } => Some(canon(path)),
            _ => None,
        })
        .unwrap_or_default();
    let recs: Vec<&Rec> = all_recs(out)
        .filter(|r| match &r.op {
            Op::CreateArray { path: p, .. } | Op::CreateGroup { path: p } | Op::SetAttr { path: p, .. } | Op::SetAttrs { path: p, .. } | Op::ListAttrs { path: p } | Op::GetMeta { path: p } => canon(p) == path,
            _ => false,
        })
        .collect();
    for r in &recs {
        if let Res::Panic(m) = &r.res {
            return bad("panic", r, m);
        }
    }
    if plan.variant == "removed" {
        return c11_removed(plan, out, &recs);
    }
    let h: Vec<LOp<&Rec>> = recs.iter().map(|r| LOp { inv: r.inv, ret: r.ret, optional: false, op: *r }).collect();
    let overlap = h.iter().any(|a| h.iter().any(|b| a.inv < b.inv && b.inv < a.ret));
    let info = Info { decided: h.len() as u64, nontrivial: overlap, known: None };
    match lin::check(&h, Node::Absent, |s, r, _| node_step(plan, s, r)) {
        Lin::Yes | Lin::Unknown => return Ok(info),
        Lin::No => {}
    }
    c11_weak(plan, &recs)?;
    // Explained by the unsynchronised read-modify-write or check-then-create of overlapping mutators.
    let created = recs.iter().filter(|r| matches!(r.op, Op::CreateArray { .. }) && matches!(r.res, Res::Ok(_))).count();
    let groups = recs.iter().filter(|r| matches!(r.op, Op::CreateGroup { .. }) && matches!(r.res, Res::Ok(_))).count();
    let id = if created > 1 || (created > 0 && groups > 0) { "C11-double-create" } else { "C11-lost-update" };
    let t: Vec<String> = recs.iter().map(|r| format!("[{}..{}] {:?} -> {}", r.inv, r.ret, r.op, brief(&r.res))).collect();
    Ok(Info { known: Some((id.into(), t.join(", "))), ..info })
}
/// With removals among the racing operations: whatever is seen is a document somebody created, with attributes somebody set.
fn c11_removed(plan: &Plan, out: &Outcome, recs: &[&Rec]) -> Out {
    for r in all_recs(out) {
        match (&r.op, &r.res) {
            (Op::Remove { .. }, Res::Err(..)) => return bad("unexpected-error", r, "no fault was injected"),
            (_, Res::Panic(m)) => return bad("panic", r, m),
            _ => {}
        }
    }
    for r in recs {
        let own = |k: &String, v: &Value| {
            recs.iter().any(|u| {
                u.inv < r.ret
                    && (updates(u).iter().any(|(k2, v2)| k2 == k && v2 == v)
                        || matches!(&u.op, Op::CreateArray { meta, .. } if plan.metas[*meta]["attributes"].get(k) == Some(v)))
            })
        };
        let attrs = match (&r.op, &r.res) {
            (Op::CreateArray { .. } | Op::CreateGroup { .. }, Res::Err(k, _)) if k != "AlreadyExists" => return bad("unexpected-error", r, "no fault was injected"),
            (Op::SetAttr { .. } | Op::SetAttrs { .. } | Op::ListAttrs { .. } | Op::GetMeta { .. }, Res::Err(k, _)) if k != "NotFound" => {
                return bad("unexpected-error", r, "the node is there or not, and no fault was injected")
            }
            (Op::ListAttrs { .. }, Res::Ok(Val::Json(v))) => v.as_object().cloned().unwrap_or_default(),
            (Op::GetMeta { .. }, Res::Ok(Val::Json(v))) => {
                let a = v["attributes"].as_object().cloned().unwrap_or_default();
                if !recs.iter().any(|c| matches!(&c.op, Op::CreateArray { meta, .. } if doc_matches(v, &plan.metas[*meta], &a).is_ok()) && c.inv < r.ret) {
                    return bad("torn", r, "metadata nobody created");
                }
                a
            }
            _ => continue,
        };
        for (k, v) in &attrs {
            if !own(k, v) {
                return bad("torn", r, &format!("attribute {:?} holds a value nobody set", k));
            }
        }
    }
    let overlap = recs.iter().any(|a| recs.iter().any(|b| a.inv < b.inv && b.inv < a.ret));
    Ok(Info { decided: recs.len() as u64, nontrivial: overlap, known: None })
}
fn is_mut(r: &Rec) -> bool {
    matches!(r.op, Op::CreateArray { .. } | Op::CreateGroup { .. } | Op::SetAttr { .. } | Op::SetAttrs { .. }) && matches!(r.res, Res::Ok(_))
}
fn updates(r: &Rec) -> Vec<(String, Value)> {
    match &r.op {
        Op::SetAttr { key, value, .. } => vec![(key.clone(), value.clone())],
        Op::SetAttrs { attrs, .. } => attrs.as_object().map(|o| o.iter().map(|(k, v)| (k.clone(), v.clone())).collect()).unwrap_or_default(),
        _ => vec![],
    }
}
/// What must hold even though overlapping mutators of one node are not serialised.
fn c11_weak(plan: &Plan, recs: &[&Rec]) -> V {
    let creates: Vec<&&Rec> = recs.iter().filter(|r| matches!(r.op, Op::CreateArray { .. } | Op::CreateGroup { .. })).collect();
    let done = |t: u64| creates.iter().any(|c| matches!(c.res, Res::Ok(_)) && c.ret < t);
    let begun = |t: u64| creates.iter().any(|c| c.inv < t);
    let overlaps = |a: &Rec, b: &Rec| a.inv < b.ret && b.inv < a.ret;
    for r in recs {
        let kind = match &r.res {
            Res::Err(k, _) => &k[..],
            _ => "",
        };
        let err = !kind.is_empty();
        match &r.op {
            Op::CreateArray { .. } => {
                if err && (kind != "AlreadyExists" || !begun(r.ret) || creates.len() < 2) {
                    return bad("unexpected-error", r, "no other creation explains it");
                }
                if !err && creates.iter().any(|c| matches!(c.res, Res::Ok(_)) && c.ret < r.inv) {
                    return bad("not-refused", r, "the node had been created before");
                }
            }
            Op::CreateGroup { .. } => {
                let arr = creates.iter().any(|c| matches!(c.op, Op::CreateArray { .. }) && c.inv < r.ret);
                if err && (kind != "AlreadyExists" || !arr) {
                    return bad("unexpected-error", r, "no array creation explains it");
                }
                if !err && creates.iter().any(|c| matches!(c.op, Op::CreateArray { .. }) && matches!(c.res, Res::Ok(_)) && c.ret < r.inv) {
                    return bad("not-refused", r, "an array had been created before");
                }
            }
            Op::SetAttr { .. } | Op::SetAttrs { .. } | Op::ListAttrs { .. } if err => {
                if kind != "NotFound" || done(r.inv) {
                    return bad("unexpected-error", r, "the node existed and no fault was injected");
                }
            }
            Op::GetMeta { .. } if err => {
                let arr = creates.iter().any(|c| matches!(c.op, Op::CreateArray { .. }) && matches!(c.res, Res::Ok(_)) && c.ret < r.inv);
                if kind != "NotFound" || arr {
                    return bad("unexpected-error", r, "the array existed and no fault was injected");
                }
            }
            _ => {}
        }
        // Contents.
        let attrs = match (&r.op, &r.res) {
            (Op::ListAttrs { .. }, Res::Ok(Val::Json(v))) => v.as_object().cloned().unwrap_or_default(),
            (Op::GetMeta { .. }, Res::Ok(Val::Json(v))) => {
                let a = v["attributes"].as_object().cloned().unwrap_or_default();
                let some = creates.iter().any(|c| matches!(&c.op, Op::CreateArray { meta, .. } if doc_matches(v, &plan.metas[*meta], &a).is_ok()) && c.inv < r.ret);
                if !some {
                    return bad("torn", r, "metadata nobody created");
                }
                a
            }
            _ => continue,
        };
        for (k, v) in &attrs {
            let from = recs.iter().any(|u| u.inv < r.ret && updates(u).iter().any(|(k2, v2)| k2 == k && v2 == v))
                || creates.iter().any(|c| matches!(&c.op, Op::CreateArray { meta, .. } if plan.metas[*meta]["attributes"].get(k) == Some(v)));
            if !from {
                return bad("torn", r, &format!("attribute {:?} holds a value nobody set", k));
            }
        }
        for u in recs.iter().filter(|u| is_mut(u) && u.ret < r.inv) {
            if recs.iter().any(|x| x.inv != u.inv && is_mut(x) && overlaps(x, u)) {
                continue;
            }
            for (k, v) in updates(u) {
                let fine = attrs.get(&k).map_or(false, |got| *got == v || recs.iter().any(|x| x.inv > u.ret && x.inv < r.ret && updates(x).iter().any(|(k2, v2)| *k2 == k && v2 == got)));
                if !fine {
                    return bad("lost-update", r, &format!("attribute {:?} set by t{} op{} (which nothing overlapped) is lost", k, u.tid, u.idx));
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C14

/// Whether a key, taken relative to the base directory, ends outside it.
fn outside(key: &str) -> bool {
    let mut up = 0i64;
    let mut depth = 0i64;
    for c in key.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                if depth > 0 {
                    depth -= 1
                } else {
                    up += 1
                }
            }
            _ => depth += 1,
        }
    }
    up > 0
}
fn c14(plan: &Plan, out: &Outcome) -> Out {
    let mut n = 0;
    for ph in &out.phases {
        if let Some(e) = ph.escapes.first() {
            return vio("escape", format!("an operation touched {} outside {}", e, plan.env.base));
        }
        for r in &ph.recs {
            if let Res::Panic(m) = &r.res {
                return bad("panic", r, m);
            }
            let keys: Vec<String> = match &r.op {
                Op::KGet { key } | Op::KDoc { key } | Op::KExists { key } | Op::KSet { key, .. } | Op::KErase { key } | Op::KErasePrefix { key } | Op::KListPrefix { key } | Op::KListDir { key } => vec![key.clone()],
                Op::CreateArray { path, .. } | Op::CreateGroup { path } | Op::SetAttrs { path, .. } | Op::ListAttrs { path } | Op::GetMeta { path } | Op::Exists { path } | Op::ArrayExists { path }
                | Op::ListNodes { path } | Op::Remove { path } => vec![format!("meta/root/{}", path)],
                Op::Write { path, .. } | Op::Read { path, .. } | Op::Delete { path, .. } | Op::Uri { path, .. } => vec![format!("data/root/{}/c0", path)],
                Op::WriteRegion { path, meta, off, shape, .. } | Op::ReadRegion { path, meta, off, shape, .. } => {
                    if crate::run::chunks_of_box(&plan.metas[*meta], off, shape).is_empty() {
                        continue;
                    }
                    vec![format!("data/root/{}/c0", path)]
                }
                _ => continue,
            };
            if keys.iter().any(|k| outside(k)) {
                n += 1;
                if let Res::Ok(v) = &r.res {
                    let harmless = matches!(v, Val::Bool(false)) && matches!(r.op, Op::Exists { .. } | Op::ArrayExists { .. } | Op::KExists { .. });
                    if !harmless {
                        return bad("not-refused", r, "the name lies outside the hierarchy");
                    }
                }
            }
        }
    }
    if out.outside_before != out.outside_after {
        let d: Vec<String> = out
            .outside_before
            .iter()
            .filter(|(k, v)| out.outside_after.get(*k) != Some(v))
            .map(|x| format!("{} changed or removed", x.0))
            .chain(out.outside_after.keys().filter(|k| !out.outside_before.contains_key(*k)).map(|k| format!("{} created", k)))
            .collect();
        return vio("escape", format!("the surroundings changed: {}", d.join(", ")));
    }
    Ok(Info { decided: n, nontrivial: n > 0, known: None })
}

// ---------------------------------------------------------------- C15

fn c15(plan: &Plan, out: &Outcome) -> Out {
    let mut m = Model::new(plan, STRICT);
    for r in &out.phases[0].recs {
        m.apply(r)?;
    }
    let ph = &out.phases[1];
    // What was damaged.
    let mut chunk: Option<(String, Vec<u64>)> = None;
    let mut node: Option<String> = None;
    let mut checked = true;
    for (path, _, _) in &ph.env_changes {
        for (p, pos) in m.chunks.keys() {
            for d in &plan.metas {
                if chunk_key(p, d, pos) == *path {
                    chunk = Some((p.clone(), pos.clone()));
                    checked = codec_of(d) != "raw";
                }
            }
        }
        for p in m.nodes.keys() {
            if meta_key(p, "array") == *path || meta_key(p, "group") == *path {
                node = Some(p.clone());
            }
        }
    }
    let mut touched = false;
    let raw_append = !checked && matches!(plan.phases[1].env.first(), Some(EnvOp::Append { .. }));
    let mut n = 0;
    for r in &ph.recs {
        if let Res::Panic(t) = &r.res {
            return bad("panic", r, t);
        }
        if plan.variant == "entry" {
            n += 1;
            if let (Res::Ok(_), Some((_, _, Some(b)))) = (&r.res, ph.env_changes.first()) {
                if matches!(r.op, Op::Open | Op::OpenOrCreate) && serde_json::from_slice::<Value>(b).map_or(true, |v| !v["zarr_format"].is_string()) {
                    return bad("entry", r, "the entry point document is not one, yet opening succeeds");
                }
            }
            if let Some((p, _, Some(b))) = ph.env_changes.first() {
                if ph.after.get(p).map_or(true, |a| a.as_ref() != Some(b)) {
                    return bad("replaced", r, "opening changed the damaged entry point");
                }
            }
            continue;
        }
        match &r.op {
            Op::Read { path, pos, .. } if chunk.as_ref().map_or(false, |c| c.0 == canon(path) && c.1 == *pos) => {
                n += 1;
                match &r.res {
                    Res::Ok(Val::Data(None)) => return bad("missing", r, "the damaged chunk is reported as missing"),
                    Res::Ok(_) if !raw_append => m.apply(r)?,
                    _ => {}
                }
            }
            Op::ReadRegion { path, .. } if chunk.as_ref().map_or(false, |c| c.0 == canon(path)) => {
                if matches!(r.res, Res::Ok(_)) && !raw_append {
                    m.apply(r)?;
                }
            }
            Op::Read { .. } | Op::ReadRegion { .. } => m.apply(r)?,
            op => {
                let p = match op {
                    Op::GetMeta { path } | Op::ListAttrs { path } | Op::ArrayExists { path } | Op::Exists { path } | Op::ListNodes { path } | Op::SetAttr { path, .. } | Op::CreateGroup { path } | Op::UseMeta { path } => canon(path),
                    _ => continue,
                };
                if node.as_ref() == Some(&p) {
                    n += 1;
                    if !touched {
                        well_formed(r, &p, ph)?;
                    }
                    touched |= r.op.mutates();
                    continue;
                }
                // Changing a node whose document is damaged makes it unknown; everything else stays exact.
                m.apply(r)?;
            }
        }
    }
    for r in out.phases.iter().skip(2).flat_map(|p| p.recs.iter()) {
        if let Res::Panic(t) = &r.res {
            return bad("panic", r, t);
        }
    }
    let _ = n;
    Ok(Info { decided: m.decided, nontrivial: !ph.env_changes.is_empty(), known: None })
}

/// Metadata read from an altered document is what that document says, or an error.
fn well_formed(r: &Rec, p: &str, ph: &PhaseOut) -> V {
    let v = match (&r.op, &r.res) {
        (Op::GetMeta { .. }, Res::Ok(Val::Json(v))) => v,
        (Op::ListAttrs { .. }, Res::Ok(Val::Json(v))) => v,
        (Op::ArrayExists { .. }, Res::Ok(Val::Bool(false))) => {
            let k = meta_key(p, "array");
            return match ph.env_changes.iter().find(|c| c.0 == k) {
                Some((_, Some(_), Some(_))) => bad("misread", r, "the array's document is damaged, not gone"),
                _ => Ok(()),
            };
        }
        _ => return Ok(()),
    };
    let array = meta_key(p, "array");
    let doc = ph.env_changes.iter().find(|c| c.0 == array).or_else(|| {
        let g = meta_key(p, "group");
        ph.env_changes.iter().find(|c| c.0 == g && !ph.before.contains_key(&array))
    });
    let b = match doc {
        Some((_, _, Some(b))) => b,
        _ => return Ok(()),
    };
    let d: Value = match serde_json::from_slice(b) {
        Ok(d) => d,
        Err(_) => return bad("misread", r, &format!("the stored document is not JSON: {:?}", String::from_utf8_lossy(b))),
    };
    let says = |k: &str, a: &Value, b: &Value| -> V {
        if a == b {
            Ok(())
        } else {
            bad("misread", r, &format!("{} is {} where the stored document says {}", k, b, a))
        }
    };
    if let Op::GetMeta { .. } = r.op {
        says("shape", &d["shape"], &v["shape"])?;
        says("chunk shape", &d["chunk_grid"]["chunk_shape"], &v["chunk_grid"]["chunk_shape"])?;
        if d["data_type"].is_string() {
            // Spellings of one type: the byte order of one byte, leading zeros of a number of bits.
            let name = |v: &Value| -> Value {
                let t = v.as_str().unwrap_or("");
                match t.strip_prefix('r').and_then(|n| n.parse::<u64>().ok()) {
                    Some(n) => json!(format!("r{}", n)),
                    None if t.ends_with('1') && t.len() == 3 => json!(t.trim_start_matches(|c| c == '<' || c == '>')),
                    None => v.clone(),
                }
            };
            says("data type", &name(&d["data_type"]), &name(&v["data_type"]))?;
        }
        let (s, c) = (v["shape"].as_array().map(|a| a.len()), v["chunk_grid"]["chunk_shape"].as_array());
        if s != c.map(|a| a.len()) || c.map_or(true, |a| a.iter().any(|x| x.as_u64().unwrap_or(0) == 0)) {
            return bad("misread", r, "the metadata is not well-formed");
        }
        if d["attributes"].is_object() {
            says("attributes", &d["attributes"], &v["attributes"])?;
        }
    } else if d["attributes"].is_object() {
        says("attributes", &d["attributes"], v)?;
    } else if v.as_object().map_or(true, |o| !o.is_empty()) {
        return bad("misread", r, "the stored document holds no attributes");
    } else if !d["attributes"].is_null() {
        return bad("misread", r, &format!("the stored document's attributes are {}, not a map", d["attributes"]));
    }
    Ok(())
}

// ---------------------------------------------------------------- C16

fn c16(plan: &Plan, out: &Outcome) -> Out {
    let info = model(plan, out, STRICT)?;
    for (i, ph) in out.phases.iter().enumerate().skip(1) {
        if ph.before != ph.after {
            let mut d: Vec<String> = vec![];
            for (k, v) in &ph.before {
                if ph.after.get(k) != Some(v) {
                    d.push(format!("{} changed or removed", k));
                }
            }
            d.extend(ph.after.keys().filter(|k| !ph.before.contains_key(*k)).map(|k| format!("{} created", k)));
            return vio("modified", format!("phase {}: reading changed the storage: {}", i, d.join(", ")));
        }
        if ph.mutations != 0 {
            return vio("modified", format!("phase {}: reading made {} changes to the storage", i, ph.mutations));
        }
        for r in &ph.recs {
            if matches!(r.res, Res::Err(..)) && r.hard == 0 && matches!(r.op, Op::Open | Op::OpenOrCreate) {
                return bad("open", r, "an existing hierarchy cannot be opened");
            }
        }
    }
    Ok(info)
}

// ---------------------------------------------------------------- C17

/// Whether an operation stores or removes the value of a key.
fn touches(plan: &Plan, op: &Op, key: &str) -> bool {
    match op {
        Op::KSet { key: k, .. } | Op::KErase { key: k } => canon(k) == key,
        Op::KErasePrefix { key: k } => under(key, &canon(k)),
        Op::Write { path, meta, pos, .. } | Op::Delete { path, meta, pos } => chunk_key(path, &plan.metas[*meta], pos) == key,
        Op::WriteRegion { path, .. } => under(key, &format!("data/root/{}", canon(path))),
        Op::SetAttrs { path, .. } | Op::SetAttr { path, .. } | Op::CreateArray { path, .. } | Op::CreateGroup { path } => ["array", "group"].iter().any(|k| meta_key(path, k) == key),
        Op::Remove { path } if path == "*all*" => true,
        Op::Remove { path } => {
            let c = canon(path);
            ["array", "group"].iter().any(|k| meta_key(path, k) == key) || ["meta/root", "data/root"].iter().any(|r| under(key, canon(&format!("{}/{}", r, c)).as_str()))
        }
        _ => false,
    }
}
/// Readers that clients keep: removals wait for those that keep the file open, and they deliver what they were opened on.
fn c17_held(plan: &Plan, ph: &PhaseOut) -> V {
    for (i, hold) in ph.recs.iter().enumerate() {
        let key = match (&hold.op, &hold.res) {
            (Op::Hold { key }, Res::Ok(Val::Bool(_))) => key,
            _ => continue,
        };
        let found = hold.res == Res::Ok(Val::Bool(true));
        let changes: Vec<&Rec> = ph.recs.iter().filter(|r| touches(plan, &r.op, key)).collect();
        let early = changes.iter().any(|r| r.inv < hold.ret);
        let was = ph.before.get(key).cloned().flatten();
        if !early && hold.hard == 0 && found != was.is_some() {
            return bad("held", hold, &format!("the value is {}", if was.is_some() { "stored" } else { "absent" }));
        }
        let rel = match ph.recs[i..].iter().find(|r| r.tid == hold.tid && r.idx > hold.idx && matches!(&r.op, Op::Release { key: k } if k == key)) {
            Some(r) if found => r,
            _ => continue,
        };
        if let Res::Ok(Val::Bytes(b)) = &rel.res {
            let b = b.clone().unwrap_or_default();
            if !early && Some(&b) != was.as_ref() {
                return bad("held", rel, "a reader did not deliver the value it was opened on");
            }
            let sets = || plan.phases.iter().flat_map(|p| &p.procs).flat_map(|p| &p.clients).flatten();
            if key.starts_with("kv/") && !sets().any(|s| matches!(&s.op, Op::KSet { key: k, vid, len } if canon(k) == *key && crate::ops::key_bytes(*vid, *len) == b)) {
                return bad("held", rel, "a reader delivered no value that was ever stored");
            }
        }
        for d in &changes {
            let removal = matches!((&d.op, &d.res), (Op::KErase { .. } | Op::KErasePrefix { .. } | Op::Delete { .. }, Res::Ok(Val::Bool(true))) | (Op::Remove { .. }, Res::Ok(_)));
            let alone = !changes.iter().any(|m| !std::ptr::eq(*m, *d) && m.inv < d.ret && m.ret > hold.inv);
            let file = matches!(&d.op, Op::KErasePrefix { key: k } if k.ends_with('/') && canon(k) == *key);
            if removal && alone && !file && hold.kept && d.inv > hold.ret && d.ret < rel.inv {
                return bad("no-wait", d, &format!("removed {} while client {} still read it", key, hold.tid));
            }
        }
    }
    Ok(())
}

fn c17(plan: &Plan, out: &Outcome) -> Out {
    let mut n = 0;
    for (i, ph) in out.phases.iter().enumerate() {
        c17_held(plan, ph)?;
        for r in &ph.recs {
            n += 1;
            if let Res::Panic(t) = &r.res {
                return bad("panic", r, t);
            }
            if r.leaked > 0 {
                return bad("leak", r, &format!("{} files are still open after the operation returned", r.leaked));
            }
        }
        if ph.locks_left > 0 || ph.fds_left > 0 {
            return vio("leak", format!("phase {}: {} locks and {} open files remain when every client is idle", i, ph.locks_left, ph.fds_left));
        }
    }
    Ok(Info { decided: n, ..Default::default() })
}

// ---------------------------------------------------------------- C20

fn c20(plan: &Plan, out: &Outcome) -> Out {
    if plan.variant == "foreign" {
        return c20_foreign(plan, out);
    }
    let mut m = Model::new(plan, STRICT);
    for r in all_recs(out) {
        m.apply(r)?;
    }
    let img = &out.phases.last().unwrap().after;
    let mut n = 0;
    let mut known: BTreeSet<String> = BTreeSet::new();
    known.insert("zarr.json".into());
    let entry = img.get("zarr.json").cloned().flatten().unwrap_or_default();
    match serde_json::from_slice::<Value>(&entry) {
        Ok(v) => {
            for k in ["zarr_format", "metadata_encoding", "metadata_key_suffix"] {
                if !v[k].is_string() {
                    return vio("format", format!("the entry point has no {}", k));
                }
            }
            if !v["extensions"].is_array() || !v["zarr_format"].as_str().unwrap().ends_with("core/3.0") {
                return vio("format", format!("the entry point is {}", v));
            }
        }
        Err(e) => return vio("format", format!("the entry point is not JSON: {}", e)),
    }
    let sfx = suffix(plan);
    let key = |p: &str, kind: &str| {
        let k = meta_key(p, kind);
        format!("{}{}", k.strip_suffix(".json").unwrap(), sfx)
    };
    let mut meta_of: BTreeMap<String, usize> = BTreeMap::new();
    for r in all_recs(out) {
        if let Op::Write { path, meta, .. } | Op::WriteRegion { path, meta, .. } | Op::Delete { path, meta, .. } = &r.op {
            meta_of.insert(canon(path), *meta);
        }
    }
    for (p, s) in &m.nodes {
        let ak = key(p, "array");
        let gk = key(p, "group");
        if s.len() != 1 {
            known.insert(ak);
            known.insert(gk);
            continue;
        }
        match &s[0] {
            NS::Array(mi, a) => {
                known.insert(ak.clone());
                let b = match img.get(&ak).cloned().flatten() {
                    Some(b) => b,
                    None => return vio("format", format!("no metadata document at {}", ak)),
                };
                n += 1;
                let v: Value = match serde_json::from_slice(&b) {
                    Ok(v) => v,
                    Err(e) => return vio("format", format!("{} is not one JSON document: {}", ak, e)),
                };
                if v["chunk_grid"]["type"] != "regular" {
                    return vio("format", format!("{}: chunk grid {}", ak, v["chunk_grid"]));
                }
                for k in ["shape", "data_type", "chunk_grid", "chunk_memory_layout", "fill_value", "extensions", "attributes"] {
                    if v.get(k).is_none() {
                        return vio("format", format!("{} has no field {}", ak, k));
                    }
                }
                if let Err(e) = doc_matches(&v, &plan.metas[*mi], a) {
                    return vio("format", format!("{}: {}", ak, e));
                }
            }
            NS::Group(a) => {
                known.insert(gk.clone());
                let b = match img.get(&gk).cloned().flatten() {
                    Some(b) => b,
                    None => return vio("format", format!("no metadata document at {}", gk)),
                };
                n += 1;
                match serde_json::from_slice::<Value>(&b) {
                    Ok(v) if v["extensions"].is_array() && v["attributes"].as_object() == Some(&**a) => {}
                    x => return vio("format", format!("{} holds {:?}, expected attributes {:?}", gk, x, a)),
                }
            }
            NS::Any => {
                known.insert(ak);
                known.insert(gk);
            }
            NS::Absent => {}
        }
    }
    for ((p, pos), s) in &m.chunks {
        let mi = match meta_of.get(p) {
            Some(i) => *i,
            None => continue,
        };
        let d = &plan.metas[mi];
        let k = chunk_key(p, d, pos);
        let have = img.get(&k).cloned().flatten();
        if s.len() != 1 {
            known.insert(k);
            continue;
        }
        match (&s[0], have) {
            (CS::Missing, None) => {}
            (CS::Missing, Some(_)) => return vio("format", format!("{} exists although the chunk was never written or was deleted", k)),
            (CS::Data(_), None) => return vio("format", format!("no chunk stored at {}", k)),
            (CS::Data(c), Some(b)) => {
                n += 1;
                let (ty, be) = dtype_of(d);
                let raw = match decode(codec_of(d), &b) {
                    Ok(r) => r,
                    Err(e) => return vio("format", format!("{} is not exactly one codec stream: {}", k, e)),
                };
                if raw.len() != c.v.len() * width(&ty) {
                    return vio("format", format!("{} decodes to {} bytes instead of {}", k, raw.len(), c.v.len() * width(&ty)));
                }
                let got = from_bytes(&ty, be, &raw);
                if let Some(i) = (0..got.len()).find(|i| !c.wild[*i] && got[*i] != c.v[*i]) {
                    return vio("format", format!("{}: element {} is {:#x} instead of {:#x}", k, i, got[i], c.v[i]));
                }
                if ty == "bool" && raw.iter().any(|b| *b > 1) {
                    return vio("format", format!("{}: a boolean is stored as neither 0 nor 1", k));
                }
                known.insert(k);
            }
            (CS::Any, _) => {
                known.insert(k);
            }
        }
    }
    for (k, v) in img {
        if v.is_some() && !known.contains(k) {
            return vio("stray", format!("unexpected file {}", k));
        }
    }
    Ok(Info { decided: m.decided + n, ..Default::default() })
}
fn c20_foreign(plan: &Plan, out: &Outcome) -> Out {
    let mut arrays: BTreeMap<String, usize> = BTreeMap::new();
    let mut groups: BTreeMap<String, Value> = BTreeMap::new();
    let mut chunks: BTreeMap<(String, Vec<u64>), (usize, u64)> = BTreeMap::new();
    for e in &plan.phases[1].env {
        match e {
            EnvOp::PutText { path, text } => {
                let v: Value = serde_json::from_str(text).unwrap();
                let p = path.strip_prefix("meta/root").unwrap().trim_start_matches('/');
                if let Some(p) = p.strip_suffix(".array.json") {
                    let i = plan.metas.iter().position(|m| {
                        let mut a = m.clone();
                        let mut b = v.clone();
                        for x in [&mut a, &mut b] {
                            if codec_of(x) == "raw" {
                                x.as_object_mut().unwrap().remove("compressor");
                            }
                        }
                        a == b
                    });
                    arrays.insert(p.to_string(), i.unwrap());
                } else if let Some(p) = p.strip_suffix(".group.json") {
                    groups.insert(p.to_string(), v["attributes"].clone());
                }
            }
            EnvOp::PutChunk { meta, pos, vid, node, .. } => {
                chunks.insert((canon(node), pos.clone()), (*meta, *vid));
            }
            _ => {}
        }
    }
    let mut n = 0;
    for r in &out.phases[1].recs {
        if let Res::Panic(t) = &r.res {
            return bad("panic", r, t);
        }
        match &r.op {
            Op::GetMeta { path } => {
                if let Some(i) = arrays.get(&canon(path)) {
                    n += 1;
                    match &r.res {
                        Res::Ok(Val::Json(v)) => {
                            if let Err(e) = doc_matches(v, &plan.metas[*i], &attrs_of_doc(&plan.metas[*i])) {
                                return bad("format", r, &e);
                            }
                        }
                        _ => return bad("format", r, "cannot be read"),
                    }
                }
            }
            Op::ListAttrs { path } => {
                if let Some(a) = groups.get(&canon(path)) {
                    n += 1;
                    if !matches!(&r.res, Res::Ok(Val::Json(v)) if v == a) {
                        return bad("format", r, &format!("expected {}", a));
                    }
                }
            }
            Op::Exists { path } | Op::ArrayExists { path } => {
                let p = canon(path);
                let is_a = arrays.contains_key(&p);
                if is_a || (groups.contains_key(&p) && matches!(r.op, Op::Exists { .. })) {
                    n += 1;
                    if !matches!(r.res, Res::Ok(Val::Bool(true))) {
                        return bad("format", r, "exists");
                    }
                }
            }
            Op::ListNodes { path } => {
                let p = canon(path);
                if let Res::Ok(Val::Names(names)) = &r.res {
                    for q in arrays.keys().chain(groups.keys()) {
                        if strictly_under(q, &p) {
                            n += 1;
                            let rest = if p.is_empty() { &q[..] } else { &q[p.len() + 1..] };
                            let c = rest.split('/').next().unwrap().to_string();
                            if !names.contains(&c) {
                                return bad("format", r, &format!("{:?} is missing", c));
                            }
                        }
                    }
                }
            }
            Op::Read { path, meta, pos, .. } => {
                let ex = chunks.get(&(canon(path), pos.clone()));
                let d = &plan.metas[*meta];
                let want = ex.map(|(_, vid)| values(&dtype_of(d).0, *vid, nel(d)));
                n += 1;
                if !matches!(&r.res, Res::Ok(Val::Data(g)) if *g == want) {
                    return bad("format", r, &format!("expected {:x?}", want.map(|w| w.into_iter().take(6).collect::<Vec<_>>())));
                }
            }
            Op::ReadRegion { path, meta, off, shape, .. } => {
                let d = &plan.metas[*meta];
                let g = match &r.res {
                    Res::Ok(Val::Data(Some(g))) => g,
                    _ => return bad("format", r, "cannot be read"),
                };
                n += 1;
                let (s, cs) = (shape_of(d), cshape_of(d));
                let fill = fill_bits(d);
                let mut err = None;
                let ix = CellIndex::new(d);
                let ty = dtype_of(d).0;
                let mut have: BTreeMap<Vec<u64>, Option<Vec<u64>>> = BTreeMap::new();
                cells(off, shape, |k, q| {
                    if q.iter().zip(&s).any(|(a, b)| a >= b) {
                        return;
                    }
                    let pos: Vec<u64> = q.iter().zip(&cs).map(|(a, b)| a / b).collect();
                    let local: Vec<u64> = q.iter().zip(&cs).map(|(a, b)| a % b).collect();
                    let v = have.entry(pos.clone()).or_insert_with(|| chunks.get(&(canon(path), pos)).map(|(_, vid)| values(&ty, *vid, nel(d))));
                    let want = v.as_ref().map_or(fill, |v| v[ix.at(&local)]);
                    if g[k] != want && err.is_none() {
                        err = Some(format!("cell {:?} reads {:#x} instead of {:#x}", q, g[k], want));
                    }
                });
                if let Some(e) = err {
                    return bad("format", r, &e);
                }
            }
            _ => {}
        }
    }
    Ok(Info { decided: n, ..Default::default() })
}

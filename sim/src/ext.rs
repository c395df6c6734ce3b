//! Operations performed by another implementation of the format, in another process: they act on storage directly, atomically and without
//! faults. What the library remembers within its own process cannot know of them.
use crate::model::{suffix, under};
use crate::plan::*;
use crate::types::*;
use crate::world::*;
use serde_json::{json, Map, Value};
use std::io::{Error, ErrorKind, Result};
use std::sync::Arc;

pub struct Ext {
    pub base: String,
    pub mem: bool,
    pub suffix: String,
    pub docs: Vec<Value>,
}
impl Ext {
    pub fn new(plan: &Plan) -> Ext {
        Ext { base: plan.env.base.clone(), mem: plan.env.mem, suffix: suffix(plan), docs: plan.metas.clone() }
    }
    fn at(&self, key: &str) -> String {
        format!("{}/{}", self.base, key)
    }
    fn get(&self, key: &str) -> Option<Vec<u8>> {
        if self.mem {
            world().mem.get(key).map(|d| d.to_vec())
        } else {
            world().get_file(&self.at(key))
        }
    }
    fn put(&self, key: &str, data: Vec<u8>) {
        if self.mem {
            world().mem.insert(key.to_string(), Arc::new(data));
        } else {
            // As by renaming: those that opened the old file keep it.
            self.del(key);
            world().put_file(&self.at(key), &data);
        }
    }
    fn del(&self, key: &str) {
        if self.mem {
            world().mem.remove(key);
        } else if self.get(key).is_some() {
            world().remove_file(&self.at(key));
        }
    }
    fn meta_key(&self, path: &str, kind: &str) -> String {
        let k = meta_key(path, kind);
        format!("{}{}", k.strip_suffix(".json").unwrap(), self.suffix)
    }
    fn node(&self, path: &str) -> Option<(String, Value)> {
        for kind in ["array", "group"] {
            let k = self.meta_key(path, kind);
            if let Some(b) = self.get(&k) {
                return Some((k, serde_json::from_slice(&b).unwrap_or(Value::Null)));
            }
        }
        None
    }
    fn erase_below(&self, key: &str) {
        if self.mem {
            world().mem.retain(|k, _| !under(k, key));
            return;
        }
        let top = self.at(key);
        if world().get_file(&top).is_some() {
            return;
        }
        let names: Vec<String> = world().image(&top).into_keys().collect();
        for n in names.iter().rev() {
            match n.strip_suffix('/') {
                Some(d) => {
                    let _ = world().do_rmdir(ROOT, format!("{}/{}", top, d).as_bytes());
                }
                None => world().remove_file(&format!("{}/{}", top, n.trim_end_matches('@'))),
            }
        }
        if world().lookup(&top).is_some() {
            let _ = world().do_rmdir(ROOT, top.as_bytes());
        }
    }
    pub fn supports(op: &Op) -> bool {
        matches!(
            op,
            Op::Write { ty: None, n: None, .. } | Op::Delete { .. } | Op::SetAttrs { .. } | Op::SetAttr { .. } | Op::Remove { .. } | Op::CreateArray { .. } | Op::CreateGroup { .. }
        )
    }
    pub fn exec(&self, op: &Op) -> Result<Val> {
        match op {
            Op::Write { path, meta, pos, vid, .. } => {
                let d = &self.docs[*meta];
                let (ty, be) = dtype_of(d);
                let raw = to_bytes(&ty, be, &values(&ty, *vid, nel(d)));
                self.put(&chunk_key(path, d, pos), encode(codec_of(d), &raw, *vid));
                Ok(Val::Unit)
            }
            Op::Delete { path, meta, pos } => {
                self.del(&chunk_key(path, &self.docs[*meta], pos));
                Ok(Val::Bool(true))
            }
            Op::SetAttrs { path, attrs } => self.merge(path, attrs.as_object().cloned().unwrap_or_default()),
            Op::SetAttr { path, key, value } => self.merge(path, std::iter::once((key.clone(), value.clone())).collect()),
            Op::CreateArray { path, meta } => {
                if self.node(path).is_some() {
                    return Err(Error::new(ErrorKind::AlreadyExists, "exists"));
                }
                self.put(&self.meta_key(path, "array"), serde_json::to_vec_pretty(&self.docs[*meta])?);
                Ok(Val::Unit)
            }
            Op::CreateGroup { path } => match self.node(path) {
                Some((k, _)) if k == self.meta_key(path, "group") => Ok(Val::Unit),
                Some(_) => Err(Error::new(ErrorKind::AlreadyExists, "exists")),
                None => {
                    // The attributes may be left out.
                    let doc = if path.len() % 3 == 0 { json!({"extensions": [], "attributes": {}}) } else { json!({ "extensions": [] }) };
                    self.put(&self.meta_key(path, "group"), serde_json::to_vec_pretty(&doc)?);
                    Ok(Val::Unit)
                }
            },
            Op::Remove { path } => {
                let p = if path == "*all*" { String::new() } else { canon(path) };
                for kind in ["array", "group"] {
                    self.del(&self.meta_key(&p, kind));
                }
                for root in ["meta/root", "data/root"] {
                    self.erase_below(&if p.is_empty() { root.to_string() } else { format!("{}/{}", root, p) });
                }
                Ok(Val::Unit)
            }
            o => panic!("harness: {:?} by another implementation", o),
        }
    }
    fn merge(&self, path: &str, new: Map<String, Value>) -> Result<Val> {
        match self.node(path) {
            Some((k, mut doc)) => {
                if doc.is_object() && doc["attributes"].is_null() {
                    doc["attributes"] = json!({});
                }
                match doc["attributes"].as_object_mut() {
                    Some(a) => a.extend(new),
                    None => return Err(Error::new(ErrorKind::InvalidData, "no attributes")),
                }
                self.put(&k, serde_json::to_vec(&doc)?);
                Ok(Val::Unit)
            }
            None => Err(Error::new(ErrorKind::NotFound, "no node")),
        }
    }
}

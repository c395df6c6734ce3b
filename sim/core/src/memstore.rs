//! In-memory key-value backend behind the library's own storage traits, with short, interrupted and failing transfers.
//! Its contents live in the world; every call is a scheduling and fault point like a system call.
use crate::rng::hash_bytes;
use crate::world::*;
use std::cell::RefCell;
use std::io::{Error, Read, Result, Write};
use std::rc::Rc;
use std::sync::Arc;
use zarr::storage::{ListableStore, ReadableStore, WriteableStore};
use zarr::{EntryPointMetadata, Hierarchy};

#[derive(Clone, Debug)]
pub struct SimStore {
    entry: EntryPointMetadata,
}

fn err(e: i32) -> Error {
    Error::from_raw_os_error(e)
}
/// The name a value is kept under: some backends take keys literally but for one leading slash, others as paths.
fn name(k: &str) -> String {
    if world().mem_style & 4 == 4 {
        k.strip_prefix('/').unwrap_or(k).to_string()
    } else {
        norm(k)
    }
}
fn norm(k: &str) -> String {
    k.split('/').filter(|c| !c.is_empty()).collect::<Vec<_>>().join("/")
}
fn normp(k: &str) -> String {
    let n = norm(k);
    if k.ends_with('/') && !n.is_empty() {
        n + "/"
    } else {
        n
    }
}
fn log<T>(name: &'static str, r: R<T>, key: &str) -> Result<T> {
    let v = match &r {
        Ok(_) => 0,
        Err(e) => -(*e as i64),
    };
    world().log_ret(name, v, || key.to_string());
    r.map_err(err)
}

impl SimStore {
    pub fn open() -> Result<SimStore> {
        let entry = match &world().mem_entry {
            Some(t) => serde_json::from_str(t)?,
            None => EntryPointMetadata::default(),
        };
        Ok(SimStore { entry })
    }
}
impl Hierarchy for SimStore {
    fn get_entry_point_metadata(&self) -> &EntryPointMetadata {
        &self.entry
    }
}

#[derive(Debug)]
pub struct MemReader {
    data: Arc<Vec<u8>>,
    pos: usize,
}
impl Read for MemReader {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let r = enter(Cls::Read, buf.len());
        let dec = log("mem.read", r, "")?;
        let avail = (self.data.len() - self.pos).min(buf.len()).min(world().mem_max.max(1));
        let mut n = avail;
        if let Dec::Short(p) = dec {
            if n > 1 {
                n = 1 + (n - 1) * p as usize / 1000;
            }
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

#[derive(Debug, Default)]
struct Sink {
    pending: Vec<u8>,
    stored: Vec<u8>,
}
/// Keeps up to `mem_buf` bytes back until flushed; what is still held back when it is dropped is lost.
#[derive(Debug)]
pub struct MemWriter {
    sink: Rc<RefCell<Sink>>,
}
impl Write for MemWriter {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        let r = enter(Cls::Write, buf.len());
        let dec = log("mem.write", r, "")?;
        let mut n = buf.len().min(world().mem_max.max(1));
        match dec {
            Dec::Short(p) if n > 1 => n = 1 + (n - 1) * p as usize / 1000,
            Dec::Torn(_) => {
                let p = world().th().proc_;
                world().kill_proc(p);
                return Err(err(libc::EIO));
            }
            _ => {}
        }
        let mut s = self.sink.borrow_mut();
        s.pending.extend_from_slice(&buf[..n]);
        if s.pending.len() > world().mem_buf {
            let p = std::mem::take(&mut s.pending);
            s.stored.extend(p);
        }
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        let pend = self.sink.borrow().pending.len();
        if pend == 0 {
            return Ok(());
        }
        let mut r = enter(Cls::Write, 0);
        while let Err(libc::EINTR) = r {
            // Unlike that of write, callers of flush do not conventionally retry it.
            r = enter(Cls::Write, 0);
        }
        let dec = log("mem.flush", r, "")?;
        if let Dec::Torn(_) = dec {
            let p = world().th().proc_;
            world().kill_proc(p);
            return Err(err(libc::EIO));
        }
        let mut s = self.sink.borrow_mut();
        let p = std::mem::take(&mut s.pending);
        s.stored.extend(p);
        Ok(())
    }
}

impl ReadableStore for SimStore {
    type GetReader = MemReader;
    fn exists(&self, key: &str) -> Result<bool> {
        let r = enter(Cls::Stat, 0);
        log("mem.exists", r, key)?;
        Ok(world().mem.contains_key(&name(key)))
    }
    fn get(&self, key: &str) -> Result<Option<MemReader>> {
        let r = enter(Cls::Open, 0);
        log("mem.get", r, key)?;
        Ok(world().mem.get(&name(key)).map(|d| MemReader { data: d.clone(), pos: 0 }))
    }
    fn uri(&self, key: &str) -> Result<String> {
        Ok(format!("mem://{}", key))
    }
}
impl ListableStore for SimStore {
    fn list_dir(&self, prefix: &str) -> Result<(Vec<String>, Vec<String>)> {
        let r = enter(Cls::Opendir, 0);
        log("mem.list_dir", r, prefix)?;
        let w = world();
        let (mut keys, mut dirs) = (vec![], vec![]);
        if w.mem_style & 2 == 2 {
            // Prefixes are any strings, as the trait's documentation has it.
            let p = normp(prefix);
            for k in w.mem.keys() {
                if let Some(rest) = k.strip_prefix(&p[..]) {
                    match rest.split_once('/') {
                        None => keys.push(format!("{}{}", prefix, rest)),
                        Some((d, _)) => {
                            let e = format!("{}{}/", prefix, d);
                            if !dirs.contains(&e) {
                                dirs.push(e);
                            }
                        }
                    }
                }
            }
        } else {
            let p = norm(prefix);
            let lead = prefix.trim_end_matches('/');
            for k in w.mem.keys() {
                let rest = if p.is_empty() {
                    &k[..]
                } else {
                    match k.strip_prefix(&p[..]).and_then(|r| r.strip_prefix('/')) {
                        Some(r) => r,
                        None => continue,
                    }
                };
                match rest.split_once('/') {
                    None => keys.push(format!("{}/{}", lead, rest)),
                    Some((d, _)) => {
                        let e = format!("{}/{}{}", lead, d, if w.mem_style & 1 == 1 { "/" } else { "" });
                        if !dirs.contains(&e) {
                            dirs.push(e);
                        }
                    }
                }
            }
        }
        let s = w.dir_seed;
        keys.sort_by_key(|k| hash_bytes(s, k.as_bytes()));
        dirs.sort_by_key(|k| hash_bytes(s, k.as_bytes()));
        Ok((keys, dirs))
    }
}
impl WriteableStore for SimStore {
    type SetWriter = MemWriter;
    fn set<F: FnOnce(MemWriter) -> Result<()>>(&self, key: &str, value: F) -> Result<()> {
        let r = enter(Cls::Creat, 0);
        log("mem.set", r, key)?;
        let sink = Rc::new(RefCell::new(Sink::default()));
        value(MemWriter { sink: sink.clone() })?;
        let r = enter(Cls::Rename, 0);
        log("mem.commit", r, key)?;
        let data = std::mem::take(&mut sink.borrow_mut().stored);
        world().mem.insert(name(key), Arc::new(data));
        Ok(())
    }
    fn erase(&self, key: &str) -> Result<bool> {
        let r = enter(Cls::Unlink, 0);
        log("mem.erase", r, key)?;
        world().mem.remove(&name(key));
        Ok(true)
    }
    fn erase_prefix(&self, prefix: &str) -> Result<bool> {
        let r = enter(Cls::Rmdir, 0);
        log("mem.erase_prefix", r, prefix)?;
        if world().mem_style & 2 == 2 {
            let p = normp(prefix);
            world().mem.retain(|k, _| !k.starts_with(&p[..]));
            return Ok(true);
        }
        let p = norm(prefix);
        world().mem.retain(|k, _| !(p.is_empty() || *k == p || k.strip_prefix(&p[..]).map_or(false, |r| r.starts_with('/'))));
        Ok(true)
    }
}

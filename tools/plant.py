#!/usr/bin/env python3
"""Turns a specification of planted bugs into /verif/seeded/<id>/ after confirming each in a scratch copy.
usage: plant.py SPEC.py [ID...]   (SPEC defines BUGS: list of dict(id, property, edits=[(file, old, new)], needs, breaks, demo))
Scratch copy: /tmp/plant-wt (made from /repo, removed by hand when done)."""
import sys, os, subprocess, json, runpy
WT = "/tmp/plant-wt"
def sh(cmd, cwd=WT, timeout=1500, env=None):
    e = dict(os.environ); e.update(env or {})
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=e, executable="/bin/bash")
ENV = f". /opt/vp/env.sh; export CARGO_TARGET_DIR={WT}/target; cd {WT}; "
DEMO_SH = '''#!/bin/bash
# Builds main.rs against the crate in the current directory and runs it; everything it writes stays in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
. /opt/vp/env.sh
export CARGO_TARGET_DIR=$repo/target
rm -rf /tmp/zarr-demo-@ID@
mkdir -p /tmp/zarr-demo-@ID@/src /tmp/zarr-demo-@ID@/scratch
cp "$here/main.rs" /tmp/zarr-demo-@ID@/src/main.rs
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" /tmp/zarr-demo-@ID@/Cargo.lock
cat > /tmp/zarr-demo-@ID@/Cargo.toml <<END
[package]
name = "zarr-demo-@LID@"
version = "0.0.0"
edition = "2018"
[workspace]
[dependencies]
zarr = { path = "$repo" }
serde_json = "1"
ndarray = "0.13"
half = "1.6"
END
cd /tmp/zarr-demo-@ID@ || exit 2
cargo build --offline -q 2>/tmp/zarr-demo-@ID@/build.log || { cat /tmp/zarr-demo-@ID@/build.log; exit 3; }
SCRATCH=/tmp/zarr-demo-@ID@/scratch timeout 120 "$CARGO_TARGET_DIR/debug/zarr-demo-@LID@"
rc=$?
rm -rf /tmp/zarr-demo-@ID@
exit $rc
'''
PRE = '''#![allow(unused_imports, dead_code)]
use std::collections::BTreeMap;
use std::io::{Error, ErrorKind, Read, Result, Write};
use std::sync::{Arc, Mutex};
use zarr::prelude::*;
use zarr::{EntryPointMetadata, Hierarchy};
use zarr::compression::CompressionType;
use zarr::smallvec::smallvec;
use zarr::storage::{ListableStore, ReadableStore, WriteableStore};

fn scratch() -> std::path::PathBuf {
    std::path::PathBuf::from(std::env::var("SCRATCH").unwrap())
}
fn fs() -> FilesystemHierarchy {
    FilesystemHierarchy::open_or_create(scratch().join("h")).unwrap()
}
'''
MEM = '''
/// In-memory store whose reads and writes can be told to fail or to come in pieces.
#[derive(Clone, Debug, Default)]
struct Mem { map: Arc<Mutex<BTreeMap<String, Vec<u8>>>>, ctl: Arc<Mutex<Ctl>>, entry: EntryPointMetadata }
#[derive(Debug, Default)]
struct Ctl { fail_get: Option<String>, fail_read: Option<String>, fail_erase: Option<String>, fail_list: Option<String>, fail_set: Option<String>, piece: usize, slash: bool }
fn norm(k: &str) -> String { k.trim_start_matches('/').to_string() }
fn hit(f: &Option<String>, k: &str) -> bool { f.as_ref().map_or(false, |f| k.contains(f.as_str())) }
impl Hierarchy for Mem { fn get_entry_point_metadata(&self) -> &EntryPointMetadata { &self.entry } }
struct R(std::io::Cursor<Vec<u8>>, bool, usize);
impl Read for R {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        if self.1 { return Err(Error::new(ErrorKind::Other, "read fails")); }
        let n = if self.2 == 0 { b.len() } else { b.len().min(self.2) };
        self.0.read(&mut b[..n])
    }
}
struct W { key: String, buf: Vec<u8>, m: Mem, piece: usize, fail: bool }
impl Write for W {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        let n = if self.piece == 0 { b.len() } else { b.len().min(self.piece) };
        self.buf.extend_from_slice(&b[..n]); Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        if self.fail { return Err(Error::new(ErrorKind::Other, "flush fails")); }
        self.m.map.lock().unwrap().insert(self.key.clone(), self.buf.clone()); Ok(())
    }
}
impl ReadableStore for Mem {
    type GetReader = R;
    fn exists(&self, k: &str) -> Result<bool> { Ok(self.map.lock().unwrap().contains_key(&norm(k))) }
    fn get(&self, k: &str) -> Result<Option<R>> {
        let c = self.ctl.lock().unwrap();
        if hit(&c.fail_get, k) { return Err(Error::new(ErrorKind::Other, "get fails")); }
        let f = hit(&c.fail_read, k);
        Ok(self.map.lock().unwrap().get(&norm(k)).map(|v| R(std::io::Cursor::new(v.clone()), f, c.piece)))
    }
    fn uri(&self, k: &str) -> Result<String> { Ok(format!("mem://{}", norm(k))) }
}
impl ListableStore for Mem {
    fn list_dir(&self, p: &str) -> Result<(Vec<String>, Vec<String>)> {
        if hit(&self.ctl.lock().unwrap().fail_list, p) { return Err(Error::new(ErrorKind::Other, "list fails")); }
        let slash = self.ctl.lock().unwrap().slash;
        let mut base = norm(p);
        if !base.is_empty() && !base.ends_with('/') { base.push('/'); }
        let (mut ks, mut ps) = (vec![], vec![]);
        for k in self.map.lock().unwrap().keys() {
            if let Some(rest) = k.strip_prefix(&base[..]) {
                let lead = if p.starts_with('/') { "/" } else { "" };
                match rest.find('/') {
                    None => ks.push(format!("{}{}", lead, k)),
                    Some(i) => { let q = format!("{}{}{}{}", lead, base, &rest[..i], if slash { "/" } else { "" }); if !ps.contains(&q) { ps.push(q) } }
                }
            }
        }
        Ok((ks, ps))
    }
}
impl WriteableStore for Mem {
    type SetWriter = W;
    fn set<F: FnOnce(W) -> Result<()>>(&self, k: &str, f: F) -> Result<()> {
        let (piece, fail) = { let c = self.ctl.lock().unwrap(); (c.piece, hit(&c.fail_set, k)) };
        f(W { key: norm(k), buf: vec![], m: self.clone(), piece, fail })
    }
    fn erase(&self, k: &str) -> Result<bool> {
        if hit(&self.ctl.lock().unwrap().fail_erase, k) { return Err(Error::new(ErrorKind::Other, "erase fails")); }
        self.map.lock().unwrap().remove(&norm(k)); Ok(true)
    }
    fn erase_prefix(&self, k: &str) -> Result<bool> {
        if hit(&self.ctl.lock().unwrap().fail_erase, k) { return Err(Error::new(ErrorKind::Other, "erase fails")); }
        let p = norm(k);
        self.map.lock().unwrap().retain(|x, _| !x.starts_with(&p)); Ok(true)
    }
}
'''
def main():
    spec = runpy.run_path(sys.argv[1])
    only = sys.argv[2:]
    if not os.path.isdir(WT):
        subprocess.run(["cp", "-a", "/repo", WT], check=True)
    head = subprocess.run(["git","-C","/repo","rev-parse","HEAD"],capture_output=True,text=True).stdout.strip()
    sh(f"git fetch -q /repo && git checkout -q -f {head} && git clean -fdq src")
    for b in spec["BUGS"]:
        if only and b["id"] not in only:
            continue
        if not only and os.path.exists(f"/verif/seeded/{b['id']}/patch.diff"):
            continue
        sh("git checkout -q -- .")
        orig = sh(f"git blame -s HEAD -- src/lib.rs | head -1")
        ok = True
        for f, old, new in b["edits"]:
            p = f"{WT}/{f}"
            s = open(p).read()
            n = s.count(old)
            if n != 1 and not b.get("first"):
                print(b["id"], "EDIT matches", n, "times:", old[:60]); ok = False; break
            if n == 0:
                print(b["id"], "EDIT no match:", old[:60]); ok = False; break
            open(p, "w").write(s.replace(old, new, 1))
        if not ok:
            continue
        diff = sh("git diff").stdout
        # Changed or removed lines must include original ones.
        blame = 0
        r = sh(ENV + "cargo test --workspace --no-run --offline 2>&1 | grep -E '^error' -A9")
        if r.stdout.strip():
            print(b["id"], "DOES NOT COMPILE", r.stdout[:1500]); continue
        t = sh(ENV + "timeout 100 cargo test --workspace --offline 2>&1 | grep -E '^test .*FAILED|panicked|^error|^test result' | head -20")
        if "FAILED" in t.stdout or "error" in t.stdout or t.stdout.count("test result: ok") < 4:
            print(b["id"], "TESTS FAIL", t.stdout); continue
        d = f"/verif/seeded/{b['id']}"
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        demo = PRE + (MEM if b.get("mem") else "") + ("use zarr::ndarray::prelude::*;\n" if b.get("nd") else "") + b["demo"]
        open(d + "/main.rs", "w").write(demo)
        open(d + "/demo.sh", "w").write(DEMO_SH.replace("@ID@", b["id"]).replace("@LID@", b["id"].lower()))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        bad = sh(f"bash {d}/demo.sh")
        sh("git checkout -q -- .")
        good = sh(f"bash {d}/demo.sh")
        if good.returncode != 0 or bad.returncode in (0, 2, 3):
            print(b["id"], "DEMO: patched", bad.returncode, "clean", good.returncode, (good.stdout + good.stderr)[-700:] if good.returncode else (bad.stdout+bad.stderr)[-600:])
            os.rename(d + "/patch.diff", d + "/patch.rejected")
            continue
        print(b["id"], "ok; patched demo:", bad.returncode, bad.stderr.strip()[-200:].replace('\n',' | '))
main()

//! `zsim fidelity FROM N DIR`: the same random scripts of file-system calls on the simulated kernel and on the
//! real one (below the scratch directory DIR); every result and the final trees must agree.
use crate::rng::Rng;
use crate::run::{run_threads, Job};
use crate::world::{install, Sched, World};
use std::ffi::CString;
use std::fs::{self, File, OpenOptions};
use std::io::{Read, Seek, SeekFrom, Write};
use std::os::unix::fs::{DirEntryExt, FileExt, MetadataExt, OpenOptionsExt};
use std::os::unix::io::AsRawFd;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};

fn e<T>(r: std::io::Result<T>, f: impl FnOnce(T) -> String) -> String {
    match r {
        Ok(v) => f(v),
        Err(x) => format!("{}", x.raw_os_error().map_or(format!("{:?}", x.kind()), |n| crate::world::errname(n))),
    }
}
fn kind(t: fs::FileType) -> char {
    if t.is_dir() { 'd' } else if t.is_symlink() { 'l' } else if t.is_file() { 'f' } else { '?' }
}
fn md(m: fs::Metadata) -> String {
    let t = kind(m.file_type());
    if t == 'f' { format!("f{} n{}", m.len(), m.nlink()) } else { format!("{}", t) }
}
fn tree(root: &Path, p: &Path, out: &mut Vec<String>) {
    let mut v: Vec<_> = match fs::read_dir(p) {
        Ok(d) => d.filter_map(|x| x.ok()).map(|x| x.path()).collect(),
        Err(_) => return,
    };
    v.sort();
    for q in v {
        let n = q.strip_prefix(root).unwrap().display().to_string();
        match fs::symlink_metadata(&q) {
            Ok(m) if m.is_dir() => {
                out.push(format!("{}/", n));
                tree(root, &q, out);
            }
            Ok(m) if m.file_type().is_symlink() => out.push(format!("{} -> {}", n, e(fs::read_link(&q), |x| x.display().to_string()))),
            Ok(_) => out.push(format!("{} = {}", n, e(fs::read(&q), |b| format!("{:?}", b)))),
            Err(x) => out.push(format!("{} {}", n, x)),
        }
    }
}
fn script(root: &Path, seed: u64) -> Vec<String> {
    let mut r = Rng::new(seed);
    let mut log = vec![];
    let mut open: Vec<File> = vec![];
    let n = 20 + r.below(120);
    for i in 0..n {
        fn name(r: &mut Rng) -> &'static str {
            ["a", "b", "c"][r.below(3) as usize]
        }
        fn path(root: &Path, r: &mut Rng) -> PathBuf {
            let mut s = root.to_str().unwrap().to_string();
            let d = 1 + r.below(3);
            let up = if r.below(12) == 0 { r.below(d) } else { 9 };
            for k in 0..d {
                if k > 0 && k == up {
                    s += "/..";
                }
                s += "/";
                s += name(r);
            }
            match r.below(14) {
                0 => s += "/",
                1 => s += "/.",
                _ => {}
            }
            PathBuf::from(s)
        }
        let p = path(root, &mut r);
        let short = p.strip_prefix(root).map(|x| x.display().to_string()).unwrap_or_default();
        let short = format!("{}{}", short, if p.to_str().unwrap().ends_with('/') { "/" } else { "" });
        let line = match r.below(30) {
            0..=4 => {
                let mut o = OpenOptions::new();
                let m = r.below(64);
                o.read(m & 1 != 0).write(m & 2 != 0).append(m & 4 != 0).truncate(m & 8 != 0).create(m & 16 != 0).create_new(m & 32 != 0 && r.below(3) == 0);
                if r.below(8) == 0 {
                    o.custom_flags(libc::O_NOFOLLOW);
                }
                if r.below(10) == 0 {
                    o.custom_flags(libc::O_DIRECTORY);
                }
                let x = o.open(&p);
                format!("open {} {:#b} {}", short, m, e(x, |f| {
                    let s = e(f.metadata(), md);
                    if open.len() < 5 { open.push(f) }
                    s
                }))
            }
            5..=6 => {
                let d: Vec<u8> = (0..r.below(40)).map(|k| (k * 7 + i) as u8).collect();
                format!("write {} {}", short, e(fs::write(&p, d), |_| "ok".into()))
            }
            7 => format!("readall {} {}", short, e(fs::read(&p), |b| format!("{:?}", b))),
            8..=9 => format!("mkdir {} {}", short, e(fs::create_dir(&p), |_| "ok".into())),
            10 => format!("mkdirs {} {}", short, e(fs::create_dir_all(&p), |_| "ok".into())),
            11 => format!("rmdir {} {}", short, e(fs::remove_dir(&p), |_| "ok".into())),
            12 => format!("unlink {} {}", short, e(fs::remove_file(&p), |_| "ok".into())),
            13 => {
                if p.to_str().unwrap().contains("..") { continue }
                format!("rmtree {} {}", short, e(fs::remove_dir_all(&p), |_| "ok".into()))
            }
            14..=16 => {
                let q = path(root, &mut r);
                let sq = q.strip_prefix(root).unwrap().display().to_string();
                format!("rename {} {} {}", short, sq, e(fs::rename(&p, &q), |_| "ok".into()))
            }
            17 => {
                let q = path(root, &mut r);
                format!("link {} {} {}", short, q.strip_prefix(root).unwrap().display(), e(fs::hard_link(&p, &q), |_| "ok".into()))
            }
            18 => {
                let t = ["a", "b", "c", "a/b", "b/c", "a/", ".", "c/a/b"][r.below(8) as usize];
                format!("symlink {} {} {}", t, short, e(std::os::unix::fs::symlink(t, &p), |_| "ok".into()))
            }
            19 => format!("stat {} {} {}", short, e(fs::metadata(&p), md), e(fs::symlink_metadata(&p), md)),
            20 => format!("exists {} {:?} {}", short, p.exists(), e(fs::read_link(&p), |x| x.display().to_string())),
            21 => format!("list {} {}", short, e(fs::read_dir(&p), |d| {
                let mut v: Vec<String> = d.map(|x| e(x, |x| format!("{}{} {}", x.file_name().to_string_lossy(), x.file_type().map(kind).unwrap_or('!'), x.ino() == fs::symlink_metadata(x.path()).unwrap().ino()))).collect();
                v.sort();
                v.join(",")
            })),
            22 => {
                let q = path(root, &mut r);
                format!("copy {} {} {}", short, q.strip_prefix(root).unwrap().display(), e(fs::copy(&p, &q), |n| n.to_string()))
            }
            23 => {
                let c = CString::new(p.to_str().unwrap()).unwrap();
                let x = unsafe { libc::access(c.as_ptr(), libc::F_OK) };
                format!("access {} {}", short, if x == 0 { "ok".to_string() } else { e(Err::<(), _>(std::io::Error::last_os_error()), |_| String::new()) })
            }
            24 => format!("canon {} {}", short, e(fs::canonicalize(&p), |x| x.strip_prefix(root).map(|y| y.display().to_string()).unwrap_or("outside".into()))),
            k => {
                if open.is_empty() {
                    continue;
                }
                let h = r.below(open.len() as u64) as usize;
                match (k, r.below(9)) {
                    (25, 0..=5) => {
                        open.swap_remove(h);
                        format!("close {}", h)
                    }
                    (_, 0) => {
                        let mut b = vec![0u8; r.below(30) as usize];
                        let x = (&open[h]).read(&mut b);
                        format!("read {} {}", h, e(x, |n| format!("{:?}", &b[..n])))
                    }
                    (_, 1) => {
                        let d = vec![i as u8; r.below(20) as usize];
                        format!("write {} {}", h, e((&open[h]).write(&d), |n| n.to_string()))
                    }
                    // What SEEK_END means for a directory depends on the file system.
                    (_, 2) if open[h].metadata().map_or(true, |m| m.is_dir()) => continue,
                    (_, 2) => {
                        let s = match r.below(3) {
                            0 => SeekFrom::Start(r.below(60)),
                            1 => SeekFrom::End(r.below(40) as i64 - 30),
                            _ => SeekFrom::Current(r.below(40) as i64 - 20),
                        };
                        format!("seek {} {:?} {}", h, s, e((&open[h]).seek(s), |n| n.to_string()))
                    }
                    (_, 3) => format!("setlen {} {}", h, e(open[h].set_len(r.below(50)), |_| "ok".into())),
                    (_, 4) => {
                        let mut b = vec![0u8; 9];
                        format!("pread {} {}", h, e(open[h].read_at(&mut b, r.below(40)), |n| format!("{:?}", &b[..n])))
                    }
                    (_, 5) => format!("pwrite {} {}", h, e(open[h].write_at(&[i as u8; 7], r.below(40)), |n| n.to_string())),
                    (_, 6) => {
                        let op = [libc::LOCK_SH, libc::LOCK_EX, libc::LOCK_UN][r.below(3) as usize] | libc::LOCK_NB;
                        let x = unsafe { libc::flock(open[h].as_raw_fd(), op) };
                        format!("flock {} {} {}", h, op, if x == 0 { "ok".to_string() } else { e(Err::<(), _>(std::io::Error::last_os_error()), |_| String::new()) })
                    }
                    (_, 7) => {
                        let x = open[h].try_clone();
                        format!("dup {} {}", h, e(x, |f| {
                            if open.len() < 5 { open.push(f) }
                            "ok".into()
                        }))
                    }
                    _ => format!("fstat {} {} {}", h, e(open[h].metadata(), md), e(open[h].sync_all(), |_| "ok".into())),
                }
            }
        };
        log.push(line);
    }
    drop(open);
    tree(root, root, &mut log);
    log
}
pub fn run(from: u64, n: u64, dir: &str) -> i32 {
    let (mut bad, mut lines) = (0, 0);
    for seed in from..from + n {
        let inner = "w/x/y/z";
        let host = PathBuf::from(format!("{}/{}/{}", dir, seed, inner));
        fs::create_dir_all(&host).unwrap();
        let a = script(&fs::canonicalize(&host).unwrap(), seed);
        fs::remove_dir_all(format!("{}/{}", dir, seed)).unwrap();
        let mut w = World::new(seed);
        w.mkdirs("/s/w/x/y/z");
        let p = w.add_proc();
        w.set_sched(&Sched::Explicit(vec![]));
        install(w);
        let out = Arc::new(Mutex::new(vec![]));
        let o2 = out.clone();
        let job: Job = Box::new(move |_| {
            let v = script(Path::new("/s/w/x/y/z"), seed);
            *o2.lock().unwrap() = v;
        });
        run_threads(vec![(p, job)], true, 1 << 40);
        let b = out.lock().unwrap().clone();
        lines += a.len();
        if a != b {
            bad += 1;
            let k = a.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
            if bad <= 10 {
                println!("seed {} line {}:\n  host {:?}\n  sim  {:?}", seed, k, a.get(k), b.get(k));
                if std::env::var("ZSIM_SLOW").is_ok() {
                    for l in &a[..k] { println!("     {}", l) }
                }
            }
        }
    }
    println!("fidelity: {} scripts, {} results compared, {} scripts differ", n, lines, bad);
    (bad != 0) as i32
}

#![allow(invalid_runtime_symbol_definitions, static_mut_refs, dead_code, non_snake_case, non_upper_case_globals, unused_must_use)]
mod atomics;
mod driver;
mod ext;
mod fidelity;
mod gen;
mod interpose;
mod lin;
mod model;
mod props;
mod run;
mod shrink;
use zcore::{memstore, plan, rng, sys, types, world};
use zops::ops;
fn main() {
    run::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let n = |i: usize| -> u64 { a[i].parse().expect("number") };
    match a.get(1).map_or("", |s| &s[..]) {
        "check" => {
            let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let mut t = driver::tier(&a[3], &a[2]);
            if let Some(r) = std::env::var("ZSIM_RUNS").ok().and_then(|s| s.parse().ok()) {
                t.runs = r;
            }
            if let Some(r) = std::env::var("ZSIM_SECS").ok().and_then(|s| s.parse().ok()) {
                t.secs = r;
            }
            let w = std::env::var("ZSIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
            std::process::exit(driver::check(&a[2], t, seed, std::path::Path::new(&root), w));
        }
        "worker" => driver::worker(&a[2], n(3), n(4), n(5), n(6), n(7), &a[8]),
        "eval" => driver::eval(&a[2]),
        "shrink" => driver::shrink_cmd(&a[2], &a[3], n(4)),
        "hashes" => driver::hashes(&a[2], n(3), &a[4..]),
        "replay" => std::process::exit(driver::replay(&a[2])),
        "fidelity" => std::process::exit(fidelity::run(n(2), n(3), &a[4])),
        "one" => {
            let p = gen::generate(&a[2], a[3].parse().unwrap());
            println!("{}", serde_json::to_string_pretty(&p).unwrap());
            let o = run::run_plan(&p, true);
            for l in &o.trace { println!("{}", l); }
            println!("{:?}", props::check(&p, &o));
        }
        "loop" => {
            let (from, n): (u64, u64) = (a[3].parse().unwrap(), a[4].parse().unwrap());
            let mut cls: std::collections::BTreeMap<String, (u64, u64, String)> = Default::default();
            let (mut nt, mut dec, mut at, mut sw) = (0, 0, 0, 0);
            let t = std::time::Instant::now();
            for s in from..from + n {
                let p = gen::generate(&a[2], s);
                let t1 = std::time::Instant::now();
                let o = run::run_plan(&p, false);
                let t2 = std::time::Instant::now(); at += o.stats.atomics; sw += o.stats.switches;
                if std::env::var("ZSIM_SLOW").is_ok() {
                    let r = props::check(&p, &o).is_ok();
                    println!("slow {} run {} check {} {} {:?}", s, (t2 - t1).as_micros(), t2.elapsed().as_micros(), r, p.metas.iter().map(|m| (m["shape"].to_string(), m["chunk_grid"]["chunk_shape"].to_string(), m["data_type"].to_string(), m["compressor"].to_string())).collect::<Vec<_>>());
                }
                let (k, m) = match props::check(&p, &o) {
                    Ok(i) => { if i.nontrivial { nt += 1 }; dec += i.decided; match i.known { Some((k, m)) => (format!("KNOWN {}", k), m), None => continue } }
                    Err(v) => (format!("{}/{}", v.class, p.variant), v.msg),
                };
                let e = cls.entry(k).or_insert((0, s, m));
                e.0 += 1;
            }
            println!("{} {} runs {:?} nontrivial {} decided {} atomics {} switches {}", a[2], n, t.elapsed(), nt, dec, at, sw);
            for (k, (c, s, m)) in cls { println!("  {} x{} first seed {}: {}", k, c, s, &m[..m.len().min(700)]); }
        }
        _ => {}
    }
}

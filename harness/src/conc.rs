//! conc IN OUT DBDIR: scripts with several threads.  Every event carries the
//! positions of its call and its return in one global sequence.
use crate::exec::Runner;
use serde_json::{json, Value};
use std::path::Path;
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::Barrier;

pub fn run(tr: &Value, dir: &Path) -> Value {
    let _ = std::fs::remove_dir_all(dir);
    let mut main = Runner::new(dir);
    let clock = AtomicI64::new(1);
    let mut setup = vec![];
    let o = main.op(&json!({"op":"open"}));
    if o["k"] != "ok" {
        setup.push(json!({"op":"open","r":o}));
    }
    for op in tr["setup"].as_array().unwrap() {
        let mut e = op.clone();
        e["r"] = main.op(op);
        setup.push(e);
    }
    let threads = tr["threads"].as_array().unwrap();
    let barrier = Barrier::new(threads.len());
    let mut runners: Vec<Runner> = threads.iter().map(|_| main.share()).collect();
    let th: Vec<Value> = std::thread::scope(|sc| {
        let hs: Vec<_> = threads
            .iter()
            .zip(runners.iter_mut())
            .map(|(ops, r)| {
                let (clock, barrier) = (&clock, &barrier);
                sc.spawn(move || {
                    let mut ev = vec![];
                    barrier.wait();
                    for op in ops.as_array().unwrap() {
                        let mut e = op.clone();
                        let at = clock.fetch_add(1, Ordering::SeqCst);
                        let res = r.op(op);
                        let ret = clock.fetch_add(1, Ordering::SeqCst);
                        let panicked = res["k"] == "panic";
                        e["call"] = json!(at);
                        e["ret"] = json!(ret);
                        e["r"] = res;
                        ev.push(e);
                        if panicked {
                            break;
                        }
                    }
                    json!(ev)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for mut r in runners {
        if let Some(msg) = r.finish() {
            setup.push(json!({"op":"close","r":{"k":"panic","e":"panic","msg":msg}}));
        }
    }
    let mut fin = vec![];
    for op in tr["fin"].as_array().unwrap() {
        let mut e = op.clone();
        e["r"] = main.op(op);
        fin.push(e);
    }
    main.finish();
    let _ = std::fs::remove_dir_all(dir);
    json!({"id": tr["id"], "kind": tr["kind"], "setup": setup, "th": th, "fin": fin})
}

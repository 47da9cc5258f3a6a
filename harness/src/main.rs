mod conc;
mod crash;
mod exec;
mod j;
mod linediff;
mod wire;
use serde_json::Value;
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args[1].as_str() {
        "exec" => exec_cmd(&args[2], &args[3], &args[4], args.get(5).map_or(8, |x| x.parse().unwrap()), exec::run_trace),
        "conc" => exec_cmd(&args[2], &args[3], &args[4], 4, conc::run),
        "wire" => exec_cmd(&args[2], &args[3], &args[4], 16, wire::run),
        "wconc" => exec_cmd(&args[2], &args[3], &args[4], 6, wire::run_conc),
        "crash" => exec_cmd(&args[2], &args[3], &args[4], 8, crash::run),
        "record" => crash::record(&args[2], &args[3]),
        "linediff" => linediff::run(&args[2], &args[3]),
        o => {
            eprintln!("unknown command {}", o);
            std::process::exit(2);
        }
    }
}

/// exec IN OUT DBDIR: every line of IN is a script; every line of OUT is its recorded trace.
fn exec_cmd(inp: &str, outp: &str, dbdir: &str, par: usize, run: fn(&Value, &Path) -> Value) {
    std::panic::set_hook(Box::new(|_| {}));
    let traces: Vec<Value> = BufReader::new(std::fs::File::open(inp).unwrap())
        .lines()
        .map(|l| serde_json::from_str(&l.unwrap()).unwrap())
        .collect();
    let out = Mutex::new(std::fs::File::create(outp).unwrap());
    let next = AtomicUsize::new(0);
    let dbdir = PathBuf::from(dbdir);
    let _ = std::fs::create_dir_all(&dbdir);
    std::thread::scope(|sc| {
        for _ in 0..par {
            // documents may be nested deeply
            let thread = std::thread::Builder::new().stack_size(64 << 20);
            let work = || loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= traces.len() {
                    break;
                }
                let r = run(&traces[i], &dbdir.join(format!("t{}", i)));
                let mut f = out.lock().unwrap();
                writeln!(f, "{}", r).unwrap();
            };
            thread.spawn_scoped(sc, work).unwrap();
        }
    });
}

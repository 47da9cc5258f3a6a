//! crash IN OUT DBDIR: scripts that are run in a child process of which every change to
//! the files is recorded (shim/crashlog.c, loaded into it); then the files are rebuilt as
//! they can be after a crash at a chosen moment, and the database is opened on them.
//!
//! record OPSFILE DIR: the child.  It opens DIR/db and notes in DIR/ev when an operation
//! begins ("C k") and, with its result, when it has returned ("R k {..}").
use crate::exec::Runner;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::os::unix::fs::MetadataExt;
use std::os::unix::process::CommandExt;
use std::path::Path;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub fn record(ops: &str, dir: &str) {
    std::panic::set_hook(Box::new(|_| {}));
    let ops: Vec<Value> = serde_json::from_str(&std::fs::read_to_string(ops).unwrap()).unwrap();
    let dir = Path::new(dir);
    let mut ev = std::fs::OpenOptions::new()
        .create(true)
        .append(true)
        .open(dir.join("ev"))
        .unwrap();
    let mut r = Runner::new(&dir.join("db"));
    let open = json!({"op":"open"});
    for (k, op) in std::iter::once(&open).chain(ops.iter()).enumerate() {
        ev.write_all(format!("C {}\n", k).as_bytes()).unwrap();
        let res = r.op(op);
        let stop = res["k"] == "panic" || k == 0 && res["k"] != "ok";
        ev.write_all(format!("R {} {}\n", k, res).as_bytes()).unwrap();
        if stop {
            std::process::exit(0);
        }
    }
    ev.write_all(b"C end\n").unwrap();
    let m = r.finish();
    ev.write_all(format!("R end {}\n", json!(m)).as_bytes()).unwrap();
    std::process::exit(0);
}

#[derive(Clone, Default)]
struct File {
    data: Vec<u8>,
    durable: Vec<u8>,
}

/// the files below a directory, as the process sees them and as they are on the disk
#[derive(Clone, Default)]
struct Disk {
    files: Vec<File>,
    ino: BTreeMap<u64, usize>,
    vol: BTreeMap<String, usize>,
    dur: BTreeMap<String, usize>,
    dirs: BTreeSet<String>,
}

fn parent(p: &str) -> &str {
    &p[..p.rfind('/').unwrap_or(0)]
}

struct Rd<'a>(&'a [u8], usize);
impl<'a> Rd<'a> {
    fn num(&mut self) -> Option<u64> {
        let v = self.0.get(self.1..self.1 + 8)?;
        self.1 += 8;
        Some(u64::from_le_bytes(v.try_into().unwrap()))
    }
    fn bytes(&mut self) -> Option<&'a [u8]> {
        let n = self.num()? as usize;
        let v = self.0.get(self.1..self.1 + n)?;
        self.1 += n;
        Some(v)
    }
    fn text(&mut self) -> Option<String> {
        Some(String::from_utf8_lossy(self.bytes()?).into())
    }
}

enum Rec {
    Open(u64, String),
    Trunc(u64, u64),
    Write(u64, u64, Vec<u8>),
    Sync(u64),
    SyncDir(String),
    Rename(String, String),
    Unlink(String),
    Link(String, String),
    Mkdir(String),
    Rmdir(String),
}

fn parse(b: &[u8]) -> Vec<Rec> {
    let mut r = Rd(b, 0);
    let mut out = vec![];
    while r.1 < b.len() {
        let tag = b[r.1];
        r.1 += 1;
        let x = (|| {
            Some(match tag {
                b'O' => Rec::Open(r.num()?, r.text()?),
                b'T' => Rec::Trunc(r.num()?, r.num()?),
                b'W' => Rec::Write(r.num()?, r.num()?, r.bytes()?.to_vec()),
                b'S' => Rec::Sync(r.num()?),
                b'D' => Rec::SyncDir(r.text()?),
                b'R' => Rec::Rename(r.text()?, r.text()?),
                b'U' => Rec::Unlink(r.text()?),
                b'L' => Rec::Link(r.text()?, r.text()?),
                b'M' => Rec::Mkdir(r.text()?),
                b'X' => Rec::Rmdir(r.text()?),
                _ => return None,
            })
        })();
        match x {
            Some(x) => out.push(x),
            None => break,
        }
    }
    out
}

impl Disk {
    fn scan(dir: &Path) -> Disk {
        let mut d = Disk::default();
        let mut todo = vec![dir.to_path_buf()];
        while let Some(p) = todo.pop() {
            for e in std::fs::read_dir(&p).unwrap() {
                let e = e.unwrap();
                let path = e.path().to_str().unwrap().to_string();
                let m = e.metadata().unwrap();
                if m.is_dir() {
                    d.dirs.insert(path);
                    todo.push(e.path());
                } else {
                    let data = std::fs::read(e.path()).unwrap();
                    d.ino.insert(m.ino(), d.files.len());
                    d.vol.insert(path.clone(), d.files.len());
                    d.dur.insert(path, d.files.len());
                    d.files.push(File { durable: data.clone(), data });
                }
            }
        }
        d
    }

    fn apply(&mut self, r: &Rec) {
        match r {
            Rec::Open(ino, p) => {
                self.ino.insert(*ino, self.files.len());
                self.vol.insert(p.clone(), self.files.len());
                self.files.push(File::default());
            }
            Rec::Trunc(ino, n) => {
                if let Some(f) = self.ino.get(ino) {
                    self.files[*f].data.resize(*n as usize, 0);
                }
            }
            Rec::Write(ino, off, b) => {
                if let Some(f) = self.ino.get(ino) {
                    let d = &mut self.files[*f].data;
                    let end = *off as usize + b.len();
                    if d.len() < end {
                        d.resize(end, 0);
                    }
                    d[*off as usize..end].copy_from_slice(b);
                }
            }
            Rec::Sync(ino) => {
                if let Some(f) = self.ino.get(ino) {
                    let f = &mut self.files[*f];
                    f.durable = f.data.clone();
                }
            }
            Rec::SyncDir(p) => {
                self.dur.retain(|k, _| parent(k) != p);
                for (k, v) in &self.vol {
                    if parent(k) == p {
                        self.dur.insert(k.clone(), *v);
                    }
                }
            }
            Rec::Rename(a, b) => {
                if let Some(f) = self.vol.remove(a) {
                    self.vol.insert(b.clone(), f);
                }
            }
            Rec::Unlink(p) => {
                self.vol.remove(p);
            }
            Rec::Link(a, b) => {
                if let Some(f) = self.vol.get(a) {
                    self.vol.insert(b.clone(), *f);
                }
            }
            Rec::Mkdir(p) => {
                self.dirs.insert(p.clone());
            }
            Rec::Rmdir(p) => {
                self.dirs.remove(p);
            }
        }
    }

    /// what is found after the crash:
    /// kill: the process was killed; everything it did is there
    /// strict: only what was synced, file contents and directory entries
    /// lazy: all directory entries, but only the synced contents
    /// torn: likewise, with some of what was not yet synced
    fn write(&self, from: &str, to: &Path, mode: &str, rnd: &mut u64) {
        let _ = std::fs::remove_dir_all(to);
        std::fs::create_dir_all(to).unwrap();
        let place = |p: &str| to.join(p.strip_prefix(from).unwrap().trim_start_matches('/'));
        for d in &self.dirs {
            std::fs::create_dir_all(place(d)).unwrap();
        }
        let entries = if mode == "strict" { &self.dur } else { &self.vol };
        for (p, f) in entries {
            if p.ends_with("/ev") {
                continue;
            }
            let f = &self.files[*f];
            let mut data = if mode == "kill" { f.data.clone() } else { f.durable.clone() };
            if mode == "torn" && f.data.starts_with(&f.durable) && f.data.len() > f.durable.len() {
                *rnd = rnd.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                let more = (*rnd >> 33) as usize % (f.data.len() - f.durable.len() + 1);
                data = f.data[..f.durable.len() + more].to_vec();
            }
            let q = place(p);
            std::fs::create_dir_all(q.parent().unwrap()).unwrap();
            std::fs::write(q, data).unwrap();
        }
    }

    fn events(&self, from: &str) -> String {
        match self.vol.get(&format!("{}/ev", from)) {
            Some(f) => String::from_utf8_lossy(&self.files[*f].data).into(),
            None => String::new(),
        }
    }
}

fn wait(mut c: std::process::Child) -> Option<String> {
    let t0 = Instant::now();
    loop {
        match c.try_wait() {
            Ok(Some(s)) if s.success() => return None,
            Ok(Some(s)) => return Some(format!("the process ended: {}", s)),
            _ => {}
        }
        if t0.elapsed() > Duration::from_secs(40) {
            let _ = c.kill();
            let _ = c.wait();
            return Some("hangs".into());
        }
        std::thread::sleep(Duration::from_millis(1));
    }
}

/// {id, runs: [{ops, at: [where, fraction], mode}], post: [ops]}
pub fn run(tr: &Value, dir: &Path) -> Value {
    let _ = std::fs::remove_dir_all(dir);
    std::fs::create_dir_all(dir).unwrap();
    let mut out = tr.clone();
    out.as_object_mut().unwrap().remove("runs");
    out.as_object_mut().unwrap().remove("post");
    let shim = std::env::var("VERIF_SHIM").expect("VERIF_SHIM");
    let mut ev: Vec<Value> = vec![];
    let mut rnd = tr["id"].as_u64().unwrap_or(1) * 2654435761 + 12345;
    let mut cur = dir.join("r0");
    std::fs::create_dir_all(&cur).unwrap();
    for (i, run) in tr["runs"].as_array().unwrap().iter().enumerate() {
        let from = cur.to_str().unwrap().to_string();
        let log = dir.join(format!("log{}", i));
        let opsf = dir.join(format!("ops{}", i));
        std::fs::write(&opsf, run["ops"].to_string()).unwrap();
        let before = Disk::scan(&cur);
        let mut cmd = Command::new(std::env::current_exe().unwrap());
        cmd.args(["record", opsf.to_str().unwrap(), &from])
            .env("LD_PRELOAD", &shim)
            .env("CRASHLOG_DIR", &from)
            .env("CRASHLOG_OUT", &log)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null());
        unsafe {
            cmd.pre_exec(|| {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                Ok(())
            });
        }
        if let Some(m) = wait(cmd.spawn().unwrap()) {
            out["died"] = json!(m);
            return out;
        }
        let recs = parse(&std::fs::read(&log).unwrap());
        // where the database has been opened: the points after it are the interesting ones
        let mut d = before.clone();
        let mut opened = 0;
        let (phase, frac) = (run["at"][0].as_str().unwrap(), run["at"][1].as_f64().unwrap());
        for (k, r) in recs.iter().enumerate() {
            if let Rec::Write(_, _, b) = r {
                if b.starts_with(b"R 0 ") {
                    opened = k + 1;
                }
            }
        }
        // the changes of the database's files that each operation after it made
        let mut groups: Vec<Vec<usize>> = vec![vec![]];
        for (k, r) in recs.iter().enumerate().skip(opened) {
            match r {
                Rec::Write(_, _, b) if b.starts_with(b"C ") || b.starts_with(b"R ") => {
                    if !groups.last().unwrap().is_empty() {
                        groups.push(vec![]);
                    }
                }
                _ => groups.last_mut().unwrap().push(k),
            }
        }
        groups.retain(|g| !g.is_empty());
        let f2 = run["at"][2].as_f64().unwrap_or(0.5);
        let n = match phase {
            "open" => (opened as f64 * frac).round() as usize,
            "end" => recs.len(),
            _ if groups.is_empty() => opened + ((recs.len() - opened) as f64 * frac).round() as usize,
            _ => {
                let g = &groups[((groups.len() as f64 * frac) as usize).min(groups.len() - 1)];
                // before its first change, between them, after its last one
                let k = ((g.len() + 1) as f64 * f2) as usize;
                if k < g.len() { g[k] } else { g[g.len() - 1] + 1 }
            }
        };
        for r in &recs[..n] {
            d.apply(r);
        }
        out["points"] = json!(recs.len());
        // what had been called and had returned
        let notes = d.events(&from);
        let ops = run["ops"].as_array().unwrap();
        let mut called: Option<usize> = None;
        let mut broken = false;
        for l in notes.lines() {
            let mut w = l.splitn(3, ' ');
            let (kind, k) = (w.next().unwrap_or(""), w.next().unwrap_or(""));
            let res: Value = w.next().and_then(|s| serde_json::from_str(s).ok()).unwrap_or(Value::Null);
            if k == "end" {
                called = None;
                if kind == "R" && !res.is_null() {
                    ev.push(json!({"op":"close","r":{"k":"panic","e":"panic","msg":res}}));
                    broken = true;
                }
                continue;
            }
            let k: usize = k.parse().unwrap();
            if kind == "C" {
                called = Some(k);
            } else {
                called = None;
                if k == 0 {
                    if res["k"] != "ok" {
                        ev.push(json!({"op":"open","r":res}));
                        broken = true;
                    }
                } else {
                    let mut e = ops[k - 1].clone();
                    e["r"] = res;
                    ev.push(e);
                }
            }
        }
        if broken {
            break;
        }
        let mut e = json!({"op":"crash","mode":run["mode"],"n":n,"r":{"k":"ok"}});
        if let Some(k) = called {
            if k > 0 {
                e["f"] = ops[k - 1].clone();
            }
        }
        ev.push(e);
        let next = dir.join(format!("r{}", i + 1));
        if std::env::var("VERIF_KEEP").is_ok() {
            let show = |p: &str, f: &usize| format!("{} {}/{}", p.rsplit('/').next().unwrap(), d.files[*f].durable.len(), d.files[*f].data.len());
            eprintln!("run {} point {} of {}", i, n, recs.len());
            for r in &recs[..n] {
                match r {
                    Rec::Open(a, p) => eprintln!("  O {} {}", a, p),
                    Rec::Trunc(a, b) => eprintln!("  T {} {}", a, b),
                    Rec::Write(a, b, x) => eprintln!("  W {} {} {} {}", a, b, x.len(), String::from_utf8_lossy(&x[..x.len().min(30)]).escape_debug()),
                    Rec::Sync(a) => eprintln!("  S {}", a),
                    Rec::SyncDir(a) => eprintln!("  D {}", a),
                    Rec::Rename(a, b) => eprintln!("  R {} {}", a, b),
                    Rec::Unlink(a) => eprintln!("  U {}", a),
                    Rec::Link(a, b) => eprintln!("  L {} {}", a, b),
                    Rec::Mkdir(a) => eprintln!("  M {}", a),
                    Rec::Rmdir(a) => eprintln!("  X {}", a),
                }
            }
            eprintln!("visible: {:?}", d.vol.iter().map(|(p, f)| show(p, f)).collect::<Vec<_>>());
            eprintln!("durable: {:?}", d.dur.iter().map(|(p, f)| show(p, f)).collect::<Vec<_>>());
        }
        d.write(&from, &next, run["mode"].as_str().unwrap(), &mut rnd);
        let _ = std::fs::remove_dir_all(&cur);
        let _ = std::fs::remove_file(&log);
        cur = next;
        if i + 1 == tr["runs"].as_array().unwrap().len() {
            let mut r = Runner::new(&cur.join("db"));
            let o = r.op(&json!({"op":"open"}));
            if o["k"] != "ok" {
                ev.push(json!({"op":"open","r":o}));
                std::mem::forget(r);
                break;
            }
            let mut dead = false;
            for op in tr["post"].as_array().unwrap() {
                let res = r.op(op);
                dead = res["k"] == "panic";
                let mut e = op.clone();
                e["r"] = res;
                ev.push(e);
                if dead {
                    break;
                }
            }
            if dead {
                std::mem::forget(r);
            } else if let Some(m) = r.finish() {
                ev.push(json!({"op":"close","r":{"k":"panic","e":"panic","msg":m}}));
            }
        }
    }
    let _ = std::fs::remove_dir_all(dir);
    out["ev"] = Value::Array(ev);
    out
}

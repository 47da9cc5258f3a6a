//! wire IN OUT DBDIR: scripts of commands sent to the real server (VERIF_SERVER) over
//! loopback connections.  One server process for each script; finally it is killed and
//! the database is opened with the library.
use crate::exec::Runner;
use crate::j::*;
use bson::{doc, Bson, Document};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::os::unix::process::CommandExt;
use std::path::Path;
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicI64, AtomicU32, Ordering};
use std::time::{Duration, Instant};

pub struct Server {
    child: Child,
    /// what it writes to its standard error
    log: std::path::PathBuf,
    host: String,
    port: u16,
}

impl Server {
    pub fn start(dir: &Path) -> Result<Server, String> {
        Server::start_with(dir, None)
    }

    /// nofile: how many files and connections the server may have open
    pub fn start_with(dir: &Path, nofile: Option<u64>) -> Result<Server, String> {
        let exe = std::env::var("VERIF_SERVER").expect("VERIF_SERVER");
        let mut last = String::new();
        // an address of its own, so that nobody else takes the port in between
        static NEXT: AtomicU32 = AtomicU32::new(0);
        for _ in 0..4 {
            let pid = std::process::id();
            let n = NEXT.fetch_add(1, Ordering::SeqCst);
            let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().subsec_nanos();
            let at = (pid as u64 * 7919 + now as u64 / 1000) % 62500;
            let host = format!("127.{}.{}.{}", 1 + at / 250, at % 250, 1 + n % 250);
            let log = dir.with_extension("log");
            let port = TcpListener::bind((host.as_str(), 0))
                .unwrap()
                .local_addr()
                .unwrap()
                .port();
            let mut cmd = Command::new(&exe);
            cmd.args([
                "serve",
                "--host",
                &host,
                "--port",
                &port.to_string(),
                "--path",
                dir.to_str().unwrap(),
            ])
            .env("TOKIO_WORKER_THREADS", "4")
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(std::fs::File::create(&log).map_or(Stdio::null(), |f| f.into()));
            unsafe {
                cmd.pre_exec(move || {
                    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                    if let Some(n) = nofile {
                        let l = libc::rlimit { rlim_cur: n, rlim_max: n };
                        libc::setrlimit(libc::RLIMIT_NOFILE, &l);
                    }
                    Ok(())
                });
            }
            let mut child = cmd.spawn().map_err(|e| e.to_string())?;
            let t0 = Instant::now();
            loop {
                if TcpStream::connect((host.as_str(), port)).is_ok() {
                    if let Ok(None) = child.try_wait() {
                        return Ok(Server { child, host, port, log });
                    }
                }
                if let Ok(Some(st)) = child.try_wait() {
                    last = format!("the server exited: {}", st);
                    break;
                }
                if t0.elapsed() > Duration::from_secs(15) {
                    last = "the server does not listen".into();
                    break;
                }
                std::thread::sleep(Duration::from_millis(2));
            }
            let _ = child.kill();
            let _ = child.wait();
        }
        Err(last)
    }

    pub fn kill(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        let _ = std::fs::remove_file(&self.log);
    }

    pub fn alive(&mut self) -> bool {
        matches!(self.child.try_wait(), Ok(None))
    }

    /// why nothing is heard of it
    pub fn fate(&mut self) -> String {
        for _ in 0..50 {
            if !self.alive() {
                break;
            }
            std::thread::sleep(Duration::from_millis(2));
        }
        let l = std::fs::read(&self.log).unwrap_or_default();
        let l = String::from_utf8_lossy(&l).into_owned();
        let at = l.char_indices().rev().nth(400).map_or(0, |x| x.0);
        format!("{:?} {}", self.child.try_wait(), &l[at..])
    }
}

impl Server {
    fn connect(&self, secs: u64) -> Result<TcpStream, String> {
        let s = TcpStream::connect((self.host.as_str(), self.port)).map_err(|e| format!("{:?}", e.kind()))?;
        let _ = s.set_nodelay(true);
        let _ = s.set_read_timeout(Some(Duration::from_secs(secs)));
        Ok(s)
    }
}

impl Drop for Server {
    fn drop(&mut self) {
        self.kill();
    }
}

fn lsid(n: i64) -> Bson {
    let bytes = vec![n as u8; 16];
    Bson::Document(doc! {"id": bson::Binary { subtype: bson::spec::BinarySubtype::Uuid, bytes }})
}

fn count(op: &Value, k: &str, kind: &Value) -> Bson {
    if let Some(x) = op[format!("{}x", k)].as_str() {
        let n: i64 = x.parse().unwrap();
        return if kind == "d" { Bson::Double(n as f64) } else { Bson::Int64(n) };
    }
    let n = op[k].as_i64().unwrap();
    match kind.as_str() {
        Some("l") => Bson::Int64(n),
        Some("d") => Bson::Double(n as f64),
        _ => Bson::Int32(n as i32),
    }
}

/// the command document and the document sequence of an operation
fn command(op: &Value, ids: &BTreeMap<i64, i64>) -> (Document, Option<(String, Vec<Document>)>) {
    let name = op["op"].as_str().unwrap();
    let c = op["c"].as_str().unwrap_or("").to_string();
    let mut d = Document::new();
    let mut seq = None;
    let num = &op["num"];
    let mut list = |d: &mut Document, key: &str, docs: Vec<Document>| {
        if op["seq"] == 1 {
            seq = Some((key.to_string(), docs));
        } else {
            d.insert(key, docs);
        }
    };
    let cid = |v: &Value| -> i64 {
        match ids.get(&v.as_i64().unwrap()) {
            Some(x) if *x != 0 => *x,
            _ => 777777777,
        }
    };
    match name {
        "insert" => {
            d.insert("insert", c);
            let docs = op["docs"].as_array().unwrap().iter().map(doc_from_j).collect();
            list(&mut d, "documents", docs);
            d.insert("ordered", true);
        }
        "update" => {
            d.insert("update", c);
            let docs = op["stmts"]
                .as_array()
                .unwrap()
                .iter()
                .map(|s| {
                    let mut x = doc! {"q": from_j(&s["q"]), "u": from_j(&s["u"])};
                    for k in ["multi", "upsert"] {
                        if let Some(b) = s[k].as_i64() {
                            x.insert(k, b == 1);
                        }
                    }
                    x
                })
                .collect();
            list(&mut d, "updates", docs);
        }
        "delete" => {
            d.insert("delete", c);
            let docs = op["stmts"]
                .as_array()
                .unwrap()
                .iter()
                .map(|s| {
                    let mut x = doc! {"q": from_j(&s["q"])};
                    if s["limit"].is_i64() {
                        x.insert("limit", count(s, "limit", &json!("i")));
                    }
                    x
                })
                .collect();
            list(&mut d, "deletes", docs);
        }
        "find" => {
            d.insert("find", c);
            if op["q"].is_array() {
                d.insert("filter", from_j(&op["q"]));
            }
            if op["sort"].is_array() {
                d.insert("sort", from_j(&op["sort"]));
            }
            for k in ["skip", "limit"] {
                if op[k].is_i64() {
                    d.insert(k, count(op, k, num));
                }
            }
            if op["batch"].is_i64() {
                d.insert("batchSize", count(op, "batch", num));
            }
            if op["single"] == 1 {
                d.insert("singleBatch", true);
            }
        }
        "aggregate" => {
            d.insert("aggregate", c);
            let p: Vec<Bson> = op["pipe"].as_array().unwrap().iter().map(from_j).collect();
            d.insert("pipeline", p);
            let mut o = Document::new();
            if op["batch"].is_i64() {
                o.insert("batchSize", count(op, "batch", num));
            }
            d.insert("cursor", o);
        }
        "getmore" => {
            d.insert("getMore", cid(&op["cur"]));
            d.insert("collection", c);
            if op["batch"].is_i64() {
                d.insert("batchSize", count(op, "batch", num));
            }
        }
        "kill" => {
            d.insert("killCursors", c);
            let l: Vec<Bson> = op["curs"]
                .as_array()
                .unwrap()
                .iter()
                .map(|v| Bson::Int64(cid(v)))
                .collect();
            d.insert("cursors", l);
        }
        "commit" => {
            d.insert("commitTransaction", count(&json!({"n": 1}), "n", num));
        }
        "abort" => {
            d.insert("abortTransaction", count(&json!({"n": 1}), "n", num));
        }
        "ping" => {
            d.insert("ping", 1);
        }
        "hello" => {
            d.insert("isMaster", 1);
            d.insert("helloOk", true);
        }
        "raw" => {
            d = doc_from_j(&op["doc"]);
        }
        o => panic!("unknown command {}", o),
    }
    if name != "raw" {
        d.insert("$db", if name == "commit" || name == "abort" { "admin" } else { "db" });
    }
    if let Some(n) = op["lsid"].as_i64() {
        d.insert("lsid", lsid(n));
    }
    if let Some(n) = op["txn"].as_i64() {
        d.insert("txnNumber", n);
        d.insert("autocommit", false);
    }
    if op["start"] == 1 {
        d.insert("startTransaction", true);
    }
    (d, seq)
}

/// the bytes of a message
fn message(op: &Value, req: i32, d: &Document, seq: &Option<(String, Vec<Document>)>) -> Vec<u8> {
    let mut flags = 0u32;
    if op["nore"] == 1 {
        flags |= 2;
    }
    if op["crc"] == 1 {
        flags |= 1;
    }
    let bytes = bson::to_vec(d).unwrap();
    let mut body = vec![];
    if op["query"] == 1 {
        // OP_QUERY, as used for the handshake
        body.extend_from_slice(&0u32.to_le_bytes());
        body.extend_from_slice(b"admin.$cmd\0");
        body.extend_from_slice(&0i32.to_le_bytes());
        body.extend_from_slice(&(-1i32).to_le_bytes());
        body.extend_from_slice(&bytes);
        return frame(req, 2004, body);
    }
    body.extend_from_slice(&flags.to_le_bytes());
    let mut sections: Vec<Vec<u8>> = vec![[vec![0u8], bytes].concat()];
    if let Some((name, docs)) = seq {
        let mut s = name.as_bytes().to_vec();
        s.push(0);
        for x in docs {
            s.extend_from_slice(&bson::to_vec(x).unwrap());
        }
        let mut sec = vec![1u8];
        sec.extend_from_slice(&(s.len() as i32 + 4).to_le_bytes());
        sec.extend_from_slice(&s);
        sections.push(sec);
        if op["first"] == 1 {
            sections.reverse();
        }
    }
    for s in sections {
        body.extend_from_slice(&s);
    }
    if op["crc"] == 1 {
        body.extend_from_slice(&[1, 2, 3, 4]);
    }
    if op["comp"] == 1 {
        let mut c = vec![];
        c.extend_from_slice(&2013i32.to_le_bytes());
        c.extend_from_slice(&(body.len() as i32).to_le_bytes());
        c.push(0); // noop compressor
        c.extend_from_slice(&body);
        return frame(req, 2012, c);
    }
    frame(req, 2013, body)
}

fn frame(req: i32, opcode: i32, body: Vec<u8>) -> Vec<u8> {
    let mut m = vec![];
    m.extend_from_slice(&(body.len() as i32 + 16).to_le_bytes());
    m.extend_from_slice(&req.to_le_bytes());
    // responseTo of a request has no meaning: never that of the reply
    m.extend_from_slice(&(-req).to_le_bytes());
    m.extend_from_slice(&opcode.to_le_bytes());
    m.extend_from_slice(&body);
    m
}

fn read_reply(s: &mut TcpStream, req: i32) -> Result<(Document, i64), String> {
    let mut h = [0u8; 16];
    s.read_exact(&mut h).map_err(|e| format!("{:?}", e.kind()))?;
    let i = |k: usize| i32::from_le_bytes([h[k], h[k + 1], h[k + 2], h[k + 3]]);
    let len = i(0);
    if len < 21 || len > 100_000_000 {
        return Err(format!("length {}", len));
    }
    let mut b = vec![0u8; len as usize - 16];
    s.read_exact(&mut b).map_err(|e| format!("{:?}", e.kind()))?;
    let flags = u32::from_le_bytes([b[0], b[1], b[2], b[3]]);
    let doc = bson::from_slice::<Document>(&b[5..]).map_err(|e| e.to_string())?;
    let n = i32::from_le_bytes([b[5], b[6], b[7], b[8]]);
    let good = i(8) == req && i(12) == 2013 && flags & 0xffff == 0 && b[4] == 0 && n as usize == b.len() - 5;
    Ok((doc, good as i64))
}

fn int(v: Option<&Bson>) -> Option<i64> {
    match v {
        Some(Bson::Int32(i)) => Some(*i as i64),
        Some(Bson::Int64(i)) => Some(*i),
        Some(Bson::Double(d)) => Some(*d as i64),
        _ => None,
    }
}

fn reply_j(d: &Document, form: i64) -> (Value, Option<i64>) {
    let ok = int(d.get("ok")).unwrap_or(if d.get("ok") == Some(&Bson::Boolean(true)) { 1 } else { 0 });
    if ok != 1 {
        let msg = match d.get("errmsg") {
            Some(Bson::String(s)) => s.clone(),
            _ => "".into(),
        };
        return (json!({"k":"err","e":"wire","form":form,"msg":msg}), None);
    }
    let mut r = json!({"k":"ok","form":form});
    for (k, f) in [("n", "n"), ("nModified", "nm")] {
        if let Some(n) = int(d.get(k)) {
            r[f] = json!(n);
        }
    }
    let mut id = None;
    if let Some(Bson::Document(c)) = d.get("cursor") {
        id = int(c.get("id"));
        r["id"] = json!(id.map(|x| x.to_string()).unwrap_or("none".into()));
        if let Some(Bson::String(ns)) = c.get("ns") {
            r["ns"] = json!(ns);
        }
        let b = c.get("firstBatch").or(c.get("nextBatch"));
        if let Some(Bson::Array(a)) = b {
            r["docs"] = Value::Array(a.iter().map(to_j).collect());
        }
    }
    (r, id)
}

pub fn run(tr: &Value, dir: &Path) -> Value {
    let _ = std::fs::remove_dir_all(dir);
    let mut out = tr.clone();
    out.as_object_mut().unwrap().remove("ops");
    let mut ev = vec![];
    let mut server = match Server::start_with(dir, tr["nofile"].as_u64()) {
        Ok(s) => s,
        Err(m) => {
            out["died"] = json!(m);
            return out;
        }
    };
    let mut conns: BTreeMap<i64, TcpStream> = BTreeMap::new();
    let mut ids: BTreeMap<i64, i64> = BTreeMap::new();
    let mut req = 100;
    let mut stop = false;
    let ops = tr["ops"].as_array().unwrap();
    let mut k = 0;
    let mut crowd = vec![];
    while k < ops.len() && !stop {
        if ops[k]["op"] == "flood" {
            // n more connections, or (0) none of them any longer
            let n = ops[k]["n"].as_i64().unwrap();
            crowd.clear();
            for _ in 0..n {
                crowd.extend(TcpStream::connect((server.host.as_str(), server.port)));
            }
            std::thread::sleep(Duration::from_millis(20));
            let mut e = ops[k].clone();
            e["r"] = json!({"k":"ok"});
            ev.push(e);
            k += 1;
            continue;
        }
        if ops[k]["op"] == "idle" {
            std::thread::sleep(Duration::from_millis(ops[k]["ms"].as_u64().unwrap()));
            let mut e = ops[k].clone();
            e["r"] = json!({"k":"ok"});
            ev.push(e);
            k += 1;
            continue;
        }
        if ops[k]["op"] == "hangup" {
            // the client is gone
            conns.remove(&ops[k]["conn"].as_i64().unwrap());
            let mut e = ops[k].clone();
            e["r"] = json!({"k":"ok"});
            ev.push(e);
            k += 1;
            continue;
        }
        if ops[k]["op"] == "restart" {
            // the server is killed and started again
            conns.clear();
            let mut e = ops[k].clone();
            if !server.alive() {
                e["r"] = json!({"k":"dead","e":"dead","msg":"the server exited","form":0});
                ev.push(e);
                stop = true;
                continue;
            }
            server.kill();
            e["r"] = match Server::start_with(dir, tr["nofile"].as_u64()) {
                Ok(x) => {
                    server = x;
                    json!({"k":"ok"})
                }
                Err(m) => {
                    stop = true;
                    json!({"k":"dead","e":"dead","msg":m,"form":0})
                }
            };
            ev.push(e);
            k += 1;
            continue;
        }
        if ops[k]["mut"].is_array() {
            // other bytes, on a connection of their own
            req += 7;
            let e = damaged(&server, &ops[k], req);
            stop = e["r"]["k"] == "dead";
            ev.push(e);
            k += 1;
            continue;
        }
        // several messages at once, then their replies
        if ops[k]["soft"] == 1 && ids.get(&ops[k]["cur"].as_i64().unwrap()).map_or(true, |x| *x == 0) {
            k += 1;
            continue;
        }
        let mut burst = vec![&ops[k]];
        while ops[k]["pipe_next"] == 1 && k + 1 < ops.len() && ops[k + 1]["conn"] == ops[k]["conn"] {
            k += 1;
            burst.push(&ops[k]);
        }
        k += 1;
        let conn = burst[0]["conn"].as_i64().unwrap_or(1);
        if !conns.contains_key(&conn) {
            match server.connect(20) {
                Ok(s) => {
                    conns.insert(conn, s);
                }
                Err(m) => {
                    ev.push(json!({"op":"ping","conn":conn,"r":{"k":"dead","e":"dead","msg":format!("connect: {}", m),"form":0}}));
                    stop = true;
                    break;
                }
            }
        }
        let s = conns.get_mut(&conn).unwrap();
        let mut reqs = vec![];
        for op in &burst {
            req += 7;
            let (d, seq) = command(op, &ids);
            let m = message(op, req, &d, &seq);
            if op["frag"] == 1 {
                let h = m.len() / 2;
                let _ = s.write_all(&m[..h]);
                let _ = s.flush();
                std::thread::sleep(Duration::from_millis(2));
                let _ = s.write_all(&m[h..]);
            } else {
                let _ = s.write_all(&m);
            }
            reqs.push(req);
        }
        for (op, req) in burst.iter().zip(reqs) {
            let mut e = (*op).clone();
            // the cursor meant by the command
            if op["op"] == "getmore" {
                e["id"] = json!(ids.get(&op["cur"].as_i64().unwrap()).filter(|x| **x != 0).unwrap_or(&777777777).to_string());
            }
            if op["op"] == "kill" {
                let l: Vec<String> = op["curs"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|v| ids.get(&v.as_i64().unwrap()).filter(|x| **x != 0).unwrap_or(&777777777).to_string())
                    .collect();
                e["ids"] = json!(l);
            }
            if op["nore"] == 1 {
                e["r"] = json!({"k":"none","form":1});
            } else {
                match read_reply(s, req) {
                    Ok((d, form)) => {
                        let (r, id) = reply_j(&d, form);
                        if let (Some(id), Some(lab)) = (id, op["lab"].as_i64()) {
                            ids.insert(lab, id);
                        }
                        if op["op"] == "getmore" && r["k"] == "err" {
                            ids.insert(op["cur"].as_i64().unwrap(), 0);
                        }
                        e["r"] = r;
                    }
                    Err(m) => {
                        e["r"] = json!({"k":"dead","e":"dead","msg":m,"form":0});
                        stop = true;
                    }
                }
            }
            ev.push(e);
            if stop {
                break;
            }
        }
    }
    if !stop && !server.alive() {
        ev.push(json!({"op":"ping","conn":1,"r":{"k":"dead","e":"dead","msg":"the server exited","form":0}}));
        stop = true;
    }
    // messages without a reply may still be on their way
    if !stop {
        for (c, s) in conns.iter_mut() {
            req += 7;
            let d = doc! {"ping": 1, "$db": "db"};
            let _ = s.write_all(&message(&json!({}), req, &d, &None));
            let r = match read_reply(s, req) {
                Ok((d, form)) => reply_j(&d, form).0,
                Err(m) => json!({"k":"dead","e":"dead","msg":m,"form":0}),
            };
            ev.push(json!({"op":"ping","conn":c,"r":r}));
        }
    }
    if ev.iter().any(|e| e["r"]["k"] == "dead") {
        out["fate"] = json!(server.fate());
    }
    server.kill();
    let mut r = Runner::new(dir);
    let o = r.op(&json!({"op":"open"}));
    let o = if o["k"] == "ok" { r.op(&json!({"op":"dump"})) } else { o };
    ev.push(json!({"op":"final","r":o}));
    r.finish();
    let _ = std::fs::remove_dir_all(dir);
    out["ev"] = Value::Array(ev);
    out
}

/// nested documents or arrays
fn nested(n: i64, array: bool) -> Bson {
    let mut v = Bson::Int32(7);
    for _ in 0..n {
        v = if array { Bson::Array(vec![v]) } else { Bson::Document(doc! {"a": v}) };
    }
    v
}

/// Sends something else than the message of the command, and nothing more.
fn damaged(server: &Server, op: &Value, req: i32) -> Value {
    let mut e = op.clone();
    let how = &op["mut"];
    let (x, y) = (how[1].as_i64().unwrap_or(0), how[2].as_i64().unwrap_or(0));
    if how[0] == "deep" {
        e["docs"] = json!([to_j(&Bson::Document(doc! {"_id": op["id"].as_i64().unwrap(), "v": nested(x, y == 1)}))]);
        if x > 100 {
            // too deep to be written down
            e["docs"] = json!([]);
        }
    }
    let (mut d, mut seq) = command(&e, &BTreeMap::new());
    if let Some(w) = how[3].as_str() {
        // another command, nested like that
        let mut q = doc! {"v": 1};
        for _ in 0..x {
            q = if y == 1 { doc! {"$and": [q]} } else { doc! {"v": {"$not": q}} };
        }
        let v = nested(x, y == 1);
        d = match w {
            "find" => doc! {"find": "t", "filter": q},
            "update" => doc! {"update": "t", "updates": [{"q": {}, "u": {"$set": {"v": v}}, "multi": true}]},
            "upsert" => doc! {"update": "t", "updates": [{"q": q, "u": {"$set": {"v": 1}}, "upsert": true}]},
            "delete" => doc! {"delete": "t", "deletes": [{"q": q, "limit": 0}]},
            "aggregate" => doc! {"aggregate": "t", "pipeline": [{"$match": q}], "cursor": {}},
            "group" => doc! {"aggregate": "t", "pipeline": [{"$group": {"_id": v}}], "cursor": {}},
            "lsid" => doc! {"find": "t", "filter": {}, "startTransaction": true, "autocommit": false, "txnNumber": 1i64, "lsid": {"id": v}},
            _ => doc! {"nothing": v},
        };
        d.insert("$db", "db");
        seq = None;
    } else if how[0] == "deep" && x > 100 {
        let big = doc! {"_id": op["id"].as_i64().unwrap(), "v": nested(x, y == 1)};
        seq = Some(("documents".to_string(), vec![big]));
    }
    let b0 = message(&e, req, &d, &seq);
    let mut b = b0.clone();
    let put = |b: &mut Vec<u8>, at: usize, v: i64| {
        if at + 4 <= b.len() {
            b[at..at + 4].copy_from_slice(&(v as i32).to_le_bytes());
        }
    };
    // where something begins that has a length or a kind
    let mut at = vec![20usize];
    let dl = bson::to_vec(&d).unwrap().len();
    at.extend([21, 25, 20 + dl, 21 + dl, 22 + dl, 26 + dl]);
    if let Some((name, _)) = &seq {
        at.extend([26 + dl + name.len(), 27 + dl + name.len(), 31 + dl + name.len()]);
    }
    at.push(b.len() - 1);
    at.retain(|i| *i < b.len());
    let spot = at[x.rem_euclid(at.len() as i64) as usize];
    match how[0].as_str().unwrap() {
        "none" | "deep" => {}
        // an incomplete message
        "cut" => b.truncate((x as usize * b.len() / 100).max(1)),
        // a field of the header, or the flags
        "head" => put(&mut b, 4 * x as usize, y),
        "longer" => {
            let n = b.len() as i64 + x;
            put(&mut b, 0, n);
            b.extend(vec![y as u8; x.max(0) as usize]);
        }
        "length" => {
            let n = b.len() as i64 + x;
            put(&mut b, 0, n)
        }
        "byte" => b[spot] = y as u8,
        "int" => put(&mut b, spot, y),
        "add" => {
            let v = i32::from_le_bytes([0, 1, 2, 3].map(|k| *b.get(spot + k).unwrap_or(&0)));
            put(&mut b, spot, v as i64 + y)
        }
        "junk" => {
            for k in 0..y.max(0) {
                b.insert(spot, (k * 37) as u8);
            }
            for _ in 0..(-y).max(0) {
                if spot < b.len() {
                    b.remove(spot);
                }
            }
            let n = b.len() as i64;
            put(&mut b, 0, n)
        }
        // another number of commands in it than one
        "dup" => {
            let other = bson::to_vec(&match y {
                0 => d.clone(),
                1 => doc! {"ping": 1, "$db": "db"},
                2 => doc! {},
                _ => doc! {"delete": "t", "deletes": [{"q": {}, "limit": 0}], "$db": "db"},
            })
            .unwrap();
            let more = [vec![0u8], other].concat();
            let first = b0[20..21 + dl].to_vec();
            let rest = b0[21 + dl..].to_vec();
            let body = match x {
                0 => [first, more, rest],
                1 => [more, first, rest],
                2 => [first, rest, more],
                3 => [rest.clone(), first, rest],
                4 => [rest, first, vec![]],
                _ => [rest, vec![], vec![]],
            }
            .concat();
            b.truncate(20);
            b.extend(body);
            let n = b.len() as i64;
            put(&mut b, 0, n)
        }
        // compressed, in some way
        "pack" => {
            let body = b0[16..].to_vec();
            let mut c = vec![];
            c.extend_from_slice(&(if x == 1 { 2004i32 } else { 2013 }).to_le_bytes());
            c.extend_from_slice(&(body.len() as i32 + if x == 2 { y as i32 } else { 0 }).to_le_bytes());
            c.push(if x == 3 { y as u8 } else { 0 });
            c.extend_from_slice(&body);
            if x == 4 {
                c.truncate(y as usize);
            }
            b = frame(req, 2012, c);
        }
        "random" => {
            let mut z = x as u64 * 2 + 1;
            b = (0..y)
                .map(|_| {
                    z = z.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    (z >> 56) as u8
                })
                .collect();
        }
        k => panic!("{}", k),
    }
    let want = b.get(4..8).map_or(0, |v| i32::from_le_bytes([v[0], v[1], v[2], v[3]]));
    e["b"] = json!(b);
    e["b0"] = json!(b0);
    let dead = |m: String| json!({"k":"dead","e":"dead","msg":m,"form":0});
    e["r"] = match server.connect(20) {
        Err(x) => dead(x),
        Ok(mut s) => {
            let _ = s.write_all(&b);
            let _ = s.shutdown(std::net::Shutdown::Write);
            match read_reply(&mut s, want) {
                Ok((d, form)) => reply_j(&d, form).0,
                Err(m) if m == "UnexpectedEof" || m == "ConnectionReset" => json!({"k":"closed"}),
                Err(m) => dead(m),
            }
        }
    };
    e
}

/// one command on a connection of its own, and the reply
fn exchange(s: &mut TcpStream, op: &Value, ids: &mut BTreeMap<i64, i64>, req: i32, clock: &AtomicI64) -> Value {
    let (d, seq) = command(op, ids);
    let m = message(op, req, &d, &seq);
    let mut e = op.clone();
    let open = |v: &Value| ids.get(&v.as_i64().unwrap()).filter(|x| **x != 0).unwrap_or(&777777777).to_string();
    if op["op"] == "getmore" {
        e["id"] = json!(open(&op["cur"]));
    }
    if op["op"] == "kill" {
        let l: Vec<String> = op["curs"].as_array().unwrap().iter().map(open).collect();
        e["ids"] = json!(l);
    }
    e["call"] = json!(clock.fetch_add(1, Ordering::SeqCst));
    let _ = s.write_all(&m);
    let r = read_reply(s, req);
    e["ret"] = json!(clock.fetch_add(1, Ordering::SeqCst));
    e["r"] = match r {
        Ok((d, form)) => {
            let (r, id) = reply_j(&d, form);
            if let (Some(id), Some(lab)) = (id, op["lab"].as_i64()) {
                ids.insert(lab, id);
            }
            r
        }
        Err(m) => json!({"k":"dead","e":"dead","msg":m,"form":0}),
    };
    e
}

/// wconc: the commands of several connections at the same time
pub fn run_conc(tr: &Value, dir: &Path) -> Value {
    let _ = std::fs::remove_dir_all(dir);
    let mut server = match Server::start(dir) {
        Ok(s) => s,
        Err(m) => return json!({"id": tr["id"], "kind": tr["kind"], "died": m}),
    };
    let clock = AtomicI64::new(1);
    let mut ids: BTreeMap<i64, i64> = BTreeMap::new();
    let gone = |m: String| json!({"id": tr["id"], "kind": tr["kind"], "died": format!("no connection: {}", m)});
    let mut main = match server.connect(30) {
        Ok(s) => s,
        Err(m) => return gone(m),
    };
    let mut req = 100;
    let mut alone = |main: &mut TcpStream, ids: &mut BTreeMap<i64, i64>, ops: &Value| -> Vec<Value> {
        ops.as_array()
            .unwrap()
            .iter()
            .map(|op| {
                req += 1;
                exchange(main, op, ids, req, &clock)
            })
            .collect()
    };
    let setup = alone(&mut main, &mut ids, &tr["setup"]);
    let threads = tr["threads"].as_array().unwrap();
    let socks: Result<Vec<TcpStream>, String> = threads.iter().map(|_| server.connect(30)).collect();
    let socks = match socks {
        Ok(s) => s,
        Err(m) => return gone(m),
    };
    let barrier = std::sync::Barrier::new(threads.len());
    let th: Vec<Value> = std::thread::scope(|sc| {
        let hs: Vec<_> = threads
            .iter()
            .zip(socks)
            .enumerate()
            .map(|(t, (ops, mut s))| {
                let (clock, barrier) = (&clock, &barrier);
                let mut ids = ids.clone();
                sc.spawn(move || {
                    let mut req = 10000 * (t as i32 + 1);
                    let mut ev = vec![];
                    barrier.wait();
                    for op in ops.as_array().unwrap() {
                        if op["soft"] == 1 && ids.get(&op["cur"].as_i64().unwrap()).map_or(true, |x| *x == 0) {
                            continue;
                        }
                        req += 1;
                        let e = exchange(&mut s, op, &mut ids, req, clock);
                        let dead = e["r"]["k"] == "dead";
                        ev.push(e);
                        if dead {
                            break;
                        }
                    }
                    json!(ev)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut fin = alone(&mut main, &mut ids, &tr["fin"]);
    if !server.alive() {
        fin.push(json!({"op":"ping","r":{"k":"dead","e":"dead","msg":"the server exited","form":0}}));
        eprintln!("{}", server.fate());
    }
    server.kill();
    let mut r = Runner::new(dir);
    let o = r.op(&json!({"op":"open"}));
    let o = if o["k"] == "ok" { r.op(&json!({"op":"dump"})) } else { o };
    fin.push(json!({"op":"final","r":o}));
    r.finish();
    let _ = std::fs::remove_dir_all(dir);
    json!({"id": tr["id"], "kind": tr["kind"], "setup": setup, "th": th, "fin": fin})
}

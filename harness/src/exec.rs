//! Executes operation scripts against the real polodb_core public API and records what it did.
use crate::j::*;
use bson::{doc, Bson, Document};
use polodb_core::options::UpdateOptions;
use polodb_core::{
    ClientCursor, CollectionT, Database, Error, IndexModel, IndexOptions, Transaction,
};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::Arc;

/// skip or limit: "skipx" is the amount itself where the trace only says "many"
pub fn amount(op: &Value, k: &str) -> Option<u64> {
    match op[format!("{}x", k)].as_str() {
        Some(x) => Some(x.parse().unwrap()),
        None => op[k].as_u64(),
    }
}

pub fn err_class(e: &Error) -> &'static str {
    match e {
        Error::DuplicateKey(_) => "dup",
        Error::RocksDbErr(_) => "rdb",
        Error::DbIsClosed => "closed",
        _ => "other",
    }
}

pub fn err_j(e: &Error) -> Value {
    json!({"k":"err","e":err_class(e),"msg":e.to_string()})
}

fn collect(cur: ClientCursor<Document>) -> Value {
    let mut docs = vec![];
    let mut cur = cur;
    loop {
        match cur.advance() {
            Ok(true) => match cur.deserialize_current() {
                Ok(d) => docs.push(doc_to_j(&d)),
                Err(e) => return err_j(&e),
            },
            Ok(false) => break,
            Err(e) => return err_j(&e),
        }
        if docs.len() > 10000 {
            return json!({"k":"runaway","e":"","msg":"more than 10000 rows"});
        }
    }
    json!({"k":"ok","docs":docs})
}

fn docs_from(v: &Value) -> Vec<Document> {
    v.as_array().unwrap().iter().map(doc_from_j).collect()
}

macro_rules! tri {
    ($e:expr) => {
        match $e {
            Ok(v) => v,
            Err(e) => return err_j(&e),
        }
    };
}

/// the shape of documents with an integer n
#[derive(serde::Serialize, serde::Deserialize)]
struct Shape {
    n: i64,
}

/// The rows of a find again, read by the iterator into a struct: the n of those
/// that have the shape.  Likewise find_one, for a find without options.
fn typed<C: CollectionT<Shape>>(c: &C, op: &Value, r: &mut Value) {
    let seen = |x: &Result<Shape, Error>| match x {
        Ok(s) => json!([1, to_j(&Bson::Int64(s.n))]),
        Err(_) => json!([0]),
    };
    let mut f = c.find(doc_from_j(&op["q"]));
    if let Some(n) = amount(op, "skip") {
        f = f.skip(n);
    }
    if let Some(n) = amount(op, "limit") {
        f = f.limit(n);
    }
    if op["sort"].is_array() {
        f = f.sort(doc_from_j(&op["sort"]));
    }
    r["typed"] = match f.run() {
        Ok(cur) => cur.take(10000).map(|x| seen(&x)).collect::<Vec<_>>().into(),
        Err(_) => json!(["failed"]),
    };
    if op["sort"].is_null() && op["skip"].is_null() && op["limit"].is_null() {
        r["one"] = match c.find_one(doc_from_j(&op["q"])) {
            Ok(None) => json!([]),
            Ok(Some(x)) => json!([seen(&Ok(x))]),
            Err(e) => json!([seen(&Err(e))]),
        };
    }
}

pub fn coll_op<C: CollectionT<Document>>(c: &C, op: &Value) -> Value {
    let name = op["op"].as_str().unwrap();
    match name {
        "insert_one" => {
            let r = tri!(c.insert_one(doc_from_j(&op["doc"])));
            json!({"k":"ok","ids":[to_j(&r.inserted_id)]})
        }
        "insert_many" => {
            let docs = docs_from(&op["docs"]);
            let n = docs.len();
            let r = tri!(c.insert_many(docs));
            let mut ids = vec![];
            for i in 0..n {
                match r.inserted_ids.get(&i) {
                    Some(v) => ids.push(to_j(v)),
                    None => ids.push(json!(["missing"])),
                }
            }
            json!({"k":"ok","ids":ids,"extra": r.inserted_ids.len() as i64 - n as i64})
        }
        "find" => {
            let mut f = c.find(doc_from_j(&op["q"]));
            if let Some(n) = amount(op, "skip") {
                f = f.skip(n);
            }
            if let Some(n) = amount(op, "limit") {
                f = f.limit(n);
            }
            if op["sort"].is_array() {
                f = f.sort(doc_from_j(&op["sort"]));
            }
            let cur = tri!(f.run());
            collect(cur)
        }
        "find_one" => {
            let r = tri!(c.find_one(doc_from_j(&op["q"])));
            json!({"k":"ok","docs": r.iter().map(doc_to_j).collect::<Vec<_>>()})
        }
        "aggregate" => {
            let cur = tri!(c.aggregate(docs_from(&op["pipe"])).run());
            collect(cur)
        }
        "count" => {
            let n = tri!(c.count_documents());
            json!({"k":"ok","n":n})
        }
        "update_one" | "update_many" => {
            let q = doc_from_j(&op["q"]);
            let u = doc_from_j(&op["u"]);
            let upsert = op["upsert"].as_i64().unwrap_or(0) != 0;
            let r = if upsert {
                let o = UpdateOptions::builder().upsert(true).build();
                if name == "update_one" {
                    c.update_one_with_options(q, u, o)
                } else {
                    c.update_many_with_options(q, u, o)
                }
            } else if name == "update_one" {
                c.update_one(q, u)
            } else {
                c.update_many(q, u)
            };
            let r = tri!(r);
            json!({"k":"ok","m":r.matched_count,"n":r.modified_count})
        }
        "delete_one" => {
            let r = tri!(c.delete_one(doc_from_j(&op["q"])));
            json!({"k":"ok","n":r.deleted_count})
        }
        "delete_many" => {
            let r = tri!(c.delete_many(doc_from_j(&op["q"])));
            json!({"k":"ok","n":r.deleted_count})
        }
        "create_index" => {
            let has_opt = op["unique"].is_i64() || op["name"].is_array();
            let options = if has_opt {
                Some(IndexOptions {
                    name: if op["name"].is_array() {
                        Some(str_from_j(&op["name"]))
                    } else {
                        None
                    },
                    unique: op["unique"].as_i64().map(|x| x != 0),
                })
            } else {
                None
            };
            tri!(c.create_index(IndexModel {
                keys: doc_from_j(&op["keys"]),
                options,
            }));
            json!({"k":"ok"})
        }
        "drop_index" => {
            tri!(c.drop_index(str_from_j(&op["name"])));
            json!({"k":"ok"})
        }
        "drop" => {
            tri!(c.drop());
            json!({"k":"ok"})
        }
        o => panic!("unknown op {}", o),
    }
}

pub struct Runner {
    path: PathBuf,
    db: Option<Arc<Database>>,
    txns: BTreeMap<i64, Transaction>,
    curs: BTreeMap<i64, ClientCursor<Document>>,
    stale: Option<polodb_core::Collection<Document>>,
}

pub fn panic_msg(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "panic".into()
    }
}

impl Runner {
    pub fn new(path: &Path) -> Runner {
        Runner {
            path: path.to_path_buf(),
            db: None,
            txns: BTreeMap::new(),
            curs: BTreeMap::new(),
            stale: None,
        }
    }

    /// another runner of the same database and its transactions, for another thread
    pub fn share(&self) -> Runner {
        let mut r = Runner::new(&self.path);
        r.db = self.db.clone();
        r.txns = self.txns.clone();
        r
    }

    fn close(&mut self) {
        self.curs.clear();
        self.txns.clear();
        self.db = None;
    }

    fn op_inner(&mut self, op: &Value) -> Value {
        let name = op["op"].as_str().unwrap();
        let s = op["s"].as_i64().unwrap_or(0);
        match name {
            "open" => {
                self.db = Some(Arc::new(tri!(Database::open_path(&self.path))));
                json!({"k":"ok"})
            }
            "reopen" => {
                if let Some(db) = &self.db {
                    self.stale = Some(db.collection::<Document>("stale"));
                }
                self.close();
                self.db = Some(Arc::new(tri!(Database::open_path(&self.path))));
                json!({"k":"ok"})
            }
            "idle" => {
                std::thread::sleep(std::time::Duration::from_millis(op["ms"].as_u64().unwrap()));
                json!({"k":"ok"})
            }
            "stale" => {
                // an operation through a collection handle whose database has been closed
                match &self.stale {
                    None => json!({"k":"none"}),
                    Some(c) => coll_op(c, &json!({"op":"count"})),
                }
            }
            _ if s != 0 && name != "begin" && name != "abandon" && !self.txns.contains_key(&s) => {
                json!({"k":"none"})
            }
            "begin" => {
                let t = tri!(self.db.as_ref().unwrap().start_transaction());
                self.txns.insert(s, t);
                json!({"k":"ok"})
            }
            "commit" => {
                match self.txns.get(&s) {
                    None => return json!({"k":"none"}),
                    Some(t) => tri!(t.commit()),
                }
                json!({"k":"ok"})
            }
            "rollback" => {
                match self.txns.get(&s) {
                    None => return json!({"k":"none"}),
                    Some(t) => tri!(t.rollback()),
                }
                json!({"k":"ok"})
            }
            "abandon" => {
                // drop the transaction object without committing
                self.txns.remove(&s);
                json!({"k":"ok"})
            }
            "list" => {
                let l = tri!(self.db.as_ref().unwrap().list_collection_names());
                json!({"k":"ok","names":l})
            }
            "create_coll" => {
                tri!(self
                    .db
                    .as_ref()
                    .unwrap()
                    .create_collection(op["c"].as_str().unwrap()));
                json!({"k":"ok"})
            }
            "dump" => {
                let db = self.db.as_ref().unwrap();
                let names = tri!(db.list_collection_names());
                let mut out = vec![];
                for n in names {
                    let r = coll_op(
                        &db.collection::<Document>(&n),
                        &json!({"op":"find","q":["o",[]]}),
                    );
                    if r["k"] != "ok" {
                        return r;
                    }
                    out.push(json!([n, r["docs"]]));
                }
                json!({"k":"ok","colls":out})
            }
            "cur_open" => {
                let cname = op["c"].as_str().unwrap();
                let db = self.db.as_ref().unwrap();
                macro_rules! go {
                    ($c:expr) => {{
                        if op["pipe"].is_array() {
                            $c.aggregate(docs_from(&op["pipe"])).run()
                        } else {
                            let mut f = $c.find(doc_from_j(&op["q"]));
                            if let Some(n) = amount(op, "skip") {
                                f = f.skip(n);
                            }
                            if let Some(n) = amount(op, "limit") {
                                f = f.limit(n);
                            }
                            if op["sort"].is_array() {
                                f = f.sort(doc_from_j(&op["sort"]));
                            }
                            f.run()
                        }
                    }};
                }
                let cur = if s == 0 {
                    let c = db.collection::<Document>(cname);
                    let x = go!(c);
                    x
                } else {
                    let c = self.txns.get(&s).unwrap().collection::<Document>(cname);
                    let x = go!(c);
                    x
                };
                let cur = tri!(cur);
                self.curs.insert(op["cur"].as_i64().unwrap(), cur);
                json!({"k":"ok"})
            }
            "cur_next" => {
                let cur = match self.curs.get_mut(&op["cur"].as_i64().unwrap()) {
                    None => return json!({"k":"none"}),
                    Some(c) => c,
                };
                if tri!(cur.advance()) {
                    let d = tri!(cur.deserialize_current());
                    json!({"k":"ok","docs":[doc_to_j(&d)]})
                } else {
                    json!({"k":"ok","docs":[]})
                }
            }
            "cur_close" => {
                self.curs.remove(&op["cur"].as_i64().unwrap());
                json!({"k":"ok"})
            }
            _ => {
                let cname = op["c"].as_str().unwrap();
                let shaped = |r: &Value| op["typed"] == 1 && r["k"] == "ok";
                if s == 0 {
                    let db = self.db.as_ref().unwrap();
                    let mut r = coll_op(&db.collection::<Document>(cname), op);
                    if shaped(&r) {
                        typed(&db.collection::<Shape>(cname), op, &mut r);
                    }
                    r
                } else {
                    let txn = self.txns.get(&s).unwrap();
                    let mut r = coll_op(&txn.collection::<Document>(cname), op);
                    if shaped(&r) {
                        typed(&txn.collection::<Shape>(cname), op, &mut r);
                    }
                    r
                }
            }
        }
    }

    pub fn op(&mut self, op: &Value) -> Value {
        match catch_unwind(AssertUnwindSafe(|| self.op_inner(op))) {
            Ok(v) => v,
            Err(p) => json!({"k":"panic","e":"panic","msg":panic_msg(p)}),
        }
    }

    pub fn finish(&mut self) -> Option<String> {
        match catch_unwind(AssertUnwindSafe(|| self.close())) {
            Ok(()) => None,
            Err(p) => Some(panic_msg(p)),
        }
    }
}

pub fn run_trace(tr: &Value, dir: &Path) -> Value {
    // "at": a directory that others have prepared, or go on with
    let at = tr["at"].as_str().map(PathBuf::from);
    let keep = at.is_some();
    let dir = at.as_deref().unwrap_or(dir);
    if !keep {
        let _ = std::fs::remove_dir_all(dir);
    }
    let mut r = Runner::new(dir);
    let mut ev = vec![];
    let o = r.op(&json!({"op":"open"}));
    let mut dead = false;
    if o["k"] != "ok" {
        ev.push(json!({"op":"open","r":o}));
        dead = true;
    }
    if !dead {
        for op in tr["ops"].as_array().unwrap() {
            let res = r.op(op);
            let mut e = op.clone();
            let panicked = res["k"] == "panic";
            e["r"] = res;
            ev.push(e);
            if panicked {
                // the handles of a panicked operation may be poisoned: leak them, the trace ends here
                dead = true;
                break;
            }
        }
    }
    if dead {
        std::mem::forget(r);
    } else if let Some(msg) = r.finish() {
        ev.push(json!({"op":"close","r":{"k":"panic","e":"panic","msg":msg}}));
    }
    if !keep {
        let _ = std::fs::remove_dir_all(dir);
    }
    let mut out = tr.clone();
    out.as_object_mut().unwrap().remove("ops");
    out["ev"] = Value::Array(ev);
    out
}

#[allow(dead_code)]
pub fn _unused() -> Bson {
    doc! {}.into()
}

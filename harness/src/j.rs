//! BSON <-> tagged JSON.  The JSON form is what the TLA+ modules read:
//! a value is an array whose first element is a type tag (see spec/Bson.tla).
use bson::{oid::ObjectId, Bson, Decimal128, Document};
use serde_json::{json, Value};

pub fn doc_to_j(d: &Document) -> Value {
    let items: Vec<Value> = d
        .iter()
        .map(|(k, v)| json!([key_to_j(k), to_j(v)]))
        .collect();
    json!(["o", items])
}

pub fn key_to_j(k: &str) -> Value {
    Value::Array(k.split('.').map(|s| Value::String(s.to_string())).collect())
}

/// The IEEE total order of a double as three integers, to be compared lexicographically.
fn dkey(d: f64) -> [i64; 3] {
    let mut b = d.to_bits() as i64;
    b ^= (((b >> 63) as u64) >> 1) as i64;
    [b >> 42, (b >> 21) & 0x1f_ffff, b & 0x1f_ffff]
}

fn dkey_back(k: [i64; 3]) -> f64 {
    let mut b = (k[0] << 42) | (k[1] << 21) | k[2];
    b ^= (((b >> 63) as u64) >> 1) as i64;
    f64::from_bits(b as u64)
}

/// Integers out of the range of TLC's: sign and limbs of base 10^4, least significant first.
fn big(i: i64) -> Value {
    let mut m = (i as i128).unsigned_abs();
    let mut l: Vec<u32> = vec![];
    while m > 0 {
        l.push((m % 10000) as u32);
        m /= 10000;
    }
    json!([if i < 0 { 1 } else { 0 }, l])
}

fn big_back(v: &Value) -> i64 {
    let mut m: i128 = 0;
    for l in v[1].as_array().unwrap().iter().rev() {
        m = m * 10000 + l.as_i64().unwrap() as i128;
    }
    if v[0].as_i64().unwrap() != 0 {
        m = -m;
    }
    m as i64
}

/// bytes; of a long run of ~ only how long it is
fn short(b: &[u8]) -> Value {
    if b.len() < 1000 {
        return json!(b);
    }
    let mut out: Vec<u64> = vec![];
    let mut i = 0;
    while i < b.len() {
        let n = b[i..].iter().take_while(|x| **x == b'~').count();
        if n >= 1000 {
            out.extend([126, 1000000 + n as u64]);
            i += n;
        } else {
            out.push(b[i] as u64);
            i += 1;
        }
    }
    json!(out)
}

fn small(i: i64) -> bool {
    i > i32::MIN as i64 && i <= i32::MAX as i64
}

pub fn to_j(v: &Bson) -> Value {
    match v {
        Bson::Double(d) => {
            let q = d * 4.0;
            if q.fract() == 0.0 && q.abs() < 1.0e9 && !(*d == 0.0 && d.is_sign_negative()) {
                json!(["d", q as i64])
            } else {
                json!(["dx", dkey(*d)])
            }
        }
        Bson::String(s) => json!(["s", short(s.as_bytes())]),
        Bson::Symbol(s) => json!(["sym", s.as_bytes()]),
        Bson::Array(a) => json!(["a", a.iter().map(to_j).collect::<Vec<_>>()]),
        Bson::Document(d) => doc_to_j(d),
        Bson::Boolean(b) => json!(["b", if *b { 1 } else { 0 }]),
        Bson::Null => json!(["n"]),
        Bson::Undefined => json!(["und"]),
        Bson::Int32(i) => {
            if small(*i as i64) {
                json!(["i", i])
            } else {
                json!(["ix", big(*i as i64)])
            }
        }
        Bson::Int64(i) => {
            if small(*i) {
                json!(["l", i])
            } else {
                json!(["lx", big(*i)])
            }
        }
        Bson::DateTime(t) => {
            let t = t.timestamp_millis();
            if small(t) {
                json!(["dt", t])
            } else {
                json!(["dtx", big(t)])
            }
        }
        Bson::Timestamp(t) => json!(["ts", [big(t.time as i64), big(t.increment as i64)]]),
        Bson::ObjectId(o) => json!(["oid", o.bytes()]),
        Bson::RegularExpression(r) => {
            json!(["re", [r.pattern.as_bytes(), r.options.as_bytes()]])
        }
        Bson::Binary(b) => json!(["bin", [[u8::from(b.subtype)], b.bytes]]),
        Bson::Decimal128(d) => json!(["dec", d.bytes()]),
        Bson::JavaScriptCode(s) => json!(["js", s.as_bytes()]),
        Bson::JavaScriptCodeWithScope(s) => json!(["jw", [s.code.as_bytes(), doc_to_j(&s.scope)]]),
        Bson::DbPointer(_) => {
            // its parts are private: total length, 0x0c, "p\0", length, name, 0, 12 bytes, 0
            let b = bson::to_vec(&bson::doc! {"p": v.clone()}).unwrap();
            let n = b.len();
            json!(["dbp", [&b[11..n - 14], &b[n - 13..n - 1]]])
        }
        Bson::MinKey => json!(["min"]),
        Bson::MaxKey => json!(["max"]),
        other => json!(["opq", format!("{:?}", other)]),
    }
}

pub fn key_from_j(v: &Value) -> String {
    v.as_array()
        .unwrap()
        .iter()
        .map(|s| s.as_str().unwrap())
        .collect::<Vec<_>>()
        .join(".")
}

pub fn doc_from_j(v: &Value) -> Document {
    match from_j(v) {
        Bson::Document(d) => d,
        o => panic!("not a document: {:?}", o),
    }
}

fn bytes(v: &Value) -> Vec<u8> {
    v.as_array()
        .unwrap()
        .iter()
        .map(|x| x.as_u64().unwrap() as u8)
        .collect()
}

pub fn str_from_j(v: &Value) -> String {
    let mut out = vec![];
    for x in v.as_array().unwrap() {
        match x.as_u64().unwrap() {
            x if x < 256 => out.push(x as u8),
            x => out.extend(std::iter::repeat(b'~').take(x as usize - 1000001)),
        }
    }
    String::from_utf8(out).unwrap()
}

pub fn from_j(v: &Value) -> Bson {
    let a = v.as_array().unwrap();
    match a[0].as_str().unwrap() {
        "d" => Bson::Double(a[1].as_i64().unwrap() as f64 / 4.0),
        "dx" => {
            let k = a[1].as_array().unwrap();
            Bson::Double(dkey_back([
                k[0].as_i64().unwrap(),
                k[1].as_i64().unwrap(),
                k[2].as_i64().unwrap(),
            ]))
        }
        "s" => Bson::String(str_from_j(&a[1])),
        "sym" => Bson::Symbol(str_from_j(&a[1])),
        "a" => Bson::Array(a[1].as_array().unwrap().iter().map(from_j).collect()),
        "o" => {
            let mut d = Document::new();
            for kv in a[1].as_array().unwrap() {
                d.insert(key_from_j(&kv[0]), from_j(&kv[1]));
            }
            Bson::Document(d)
        }
        "b" => Bson::Boolean(a[1].as_i64().unwrap() != 0),
        "n" => Bson::Null,
        "und" => Bson::Undefined,
        "i" => Bson::Int32(a[1].as_i64().unwrap() as i32),
        "ix" => Bson::Int32(big_back(&a[1]) as i32),
        "l" => Bson::Int64(a[1].as_i64().unwrap()),
        "lx" => Bson::Int64(big_back(&a[1])),
        "dt" => Bson::DateTime(bson::DateTime::from_millis(a[1].as_i64().unwrap())),
        "dtx" => Bson::DateTime(bson::DateTime::from_millis(big_back(&a[1]))),
        "ts" => Bson::Timestamp(bson::Timestamp {
            time: big_back(&a[1][0]) as u32,
            increment: big_back(&a[1][1]) as u32,
        }),
        "oid" => {
            let b = bytes(&a[1]);
            let mut o = [0u8; 12];
            o.copy_from_slice(&b);
            Bson::ObjectId(ObjectId::from_bytes(o))
        }
        "re" => Bson::RegularExpression(bson::Regex {
            pattern: str_from_j(&a[1][0]),
            options: str_from_j(&a[1][1]),
        }),
        "bin" => Bson::Binary(bson::Binary {
            subtype: bson::spec::BinarySubtype::from(a[1][0][0].as_u64().unwrap() as u8),
            bytes: bytes(&a[1][1]),
        }),
        "dec" => {
            let b = bytes(&a[1]);
            let mut o = [0u8; 16];
            o.copy_from_slice(&b);
            Bson::Decimal128(Decimal128::from_bytes(o))
        }
        "js" => Bson::JavaScriptCode(str_from_j(&a[1])),
        "jw" => Bson::JavaScriptCodeWithScope(bson::JavaScriptCodeWithScope {
            code: str_from_j(&a[1][0]),
            scope: doc_from_j(&a[1][1]),
        }),
        "dbp" => {
            let (name, id) = (bytes(&a[1][0]), bytes(&a[1][1]));
            let mut b = vec![0, 0, 0, 0, 0x0c, b'p', 0];
            b.extend((name.len() as i32 + 1).to_le_bytes());
            b.extend(&name);
            b.push(0);
            b.extend(&id);
            b.push(0);
            let n = b.len() as i32;
            b[..4].copy_from_slice(&n.to_le_bytes());
            let d: Document = bson::from_slice(&b).unwrap();
            d.get("p").unwrap().clone()
        }
        "min" => Bson::MinKey,
        "max" => Bson::MaxKey,
        t => panic!("unknown tag {}", t),
    }
}

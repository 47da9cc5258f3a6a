//! linediff IN OUT: every line of IN is {"id", "a", "b"}; every line of OUT is
//! {"id", "text"}: the rendering of the differences, which is all that is public.
use serde_json::{json, Value};
use std::io::{BufRead, BufReader, Write};

pub fn run(inp: &str, outp: &str) {
    std::panic::set_hook(Box::new(|_| {}));
    let mut out = std::io::LineWriter::new(std::fs::File::create(outp).unwrap());
    for l in BufReader::new(std::fs::File::open(inp).unwrap()).lines() {
        let v: Value = serde_json::from_str(&l.unwrap()).unwrap();
        let (a, b) = (v["a"].as_str().unwrap().to_string(), v["b"].as_str().unwrap().to_string());
        let r = std::panic::catch_unwind(|| {
            let d = polodb_line_diff::line_diff(&a, &b);
            let each: Vec<String> = d.iter().map(|x| x.to_string()).collect();
            (each, polodb_line_diff::format_differences(&d))
        });
        let o = match r {
            Ok((each, all)) => json!({"id": v["id"], "hunks": each, "text": all}),
            Err(_) => json!({"id": v["id"], "panic": 1}),
        };
        writeln!(out, "{}", o).unwrap();
    }
}

// Asks the Rust reader: one request per line on stdin, one answer line
// starting with @@ per request on stdout.
use qnip::data::IpInfo;
use qnip::query::QueryDb;
use serde_json::{json, Value};
use std::io::{self, BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn rec(r: io::Result<IpInfo>) -> Value {
    match r {
        Ok(i) => json!({"out": "ok", "rec": [i.country, i.province, i.city, i.isp, i.asn, i.continent, i.line, i.district]}),
        Err(e) => json!({"out": "err", "why": e.to_string()}),
    }
}

fn bytes(hex: &str) -> Vec<u8> {
    (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn main() {
    let mut db: Option<QueryDb> = None;
    std::panic::set_hook(Box::new(|_| {}));
    for line in io::stdin().lock().lines() {
        let line = line.unwrap();
        let mut p = line.splitn(2, ' ');
        let op = p.next().unwrap().to_string();
        let arg = p.next().unwrap_or("").to_string();
        let r = catch_unwind(AssertUnwindSafe(|| match op.as_str() {
            "open" | "openbytes" => {
                db = None;
                let d = if op == "open" {
                    QueryDb::from_file(&arg)
                } else {
                    std::fs::read(&arg).and_then(|b| QueryDb::from_bytes(&b))
                };
                match d {
                    Ok(d) => {
                        let v = d.version();
                        let ret = json!({"out": "ok", "ver": {"version": v.version, "type": v.ip_type, "count": v.count, "build": v.build, "langs": v.languages,
                            "extra": v.extra_info.clone().unwrap_or_default(), "v4": v.has_ipv4(), "v6": v.has_ipv6()}});
                        db = Some(d);
                        ret
                    }
                    Err(e) => json!({"out": "err", "why": e.to_string()}),
                }
            }
            "str" => rec(db.as_ref().unwrap().query_str(&arg)),
            "bytes" => rec(db.as_ref().unwrap().query(&bytes(&arg))),
            "u32" => rec(db.as_ref().unwrap().query_u32(arg.parse().unwrap())),
            _ => json!({"out": "unknown request"}),
        }));
        let v = r.unwrap_or_else(|e| {
            let why = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            json!({"out": "panic", "why": why})
        });
        println!("\n@@{}", v);
        io::stdout().flush().unwrap();
    }
}

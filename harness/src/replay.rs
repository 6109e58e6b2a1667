//! Runs one harness natively on the values of one path.
//! Output: observed values, then one line `outcome <what>`.
use vph::vp::{Halt, CTX};
use std::io::Write;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&a[1]).unwrap();
    let mut entry = String::new();
    for l in text.lines() {
        let t: Vec<&str> = l.split_whitespace().collect();
        match t.first().copied() {
            Some("entry") => entry = t[1].to_string(),
            Some("param") => CTX.with(|c| c.borrow_mut().params.push((t[1].parse().unwrap(), t[2].parse().unwrap()))),
            Some("in") => CTX.with(|c| c.borrow_mut().inputs.push((t[1].parse().unwrap(), t[2].parse().unwrap()))),
            _ => {}
        }
    }
    let f = match vph::entries().into_iter().find(|e| e.0 == entry) {
        Some(e) => e.1,
        None => {
            println!("outcome no-entry");
            std::process::exit(3);
        }
    };
    let r = std::panic::catch_unwind(|| f());
    CTX.with(|c| {
        let c = c.borrow();
        let mut o = String::new();
        for v in &c.obs {
            o += &format!("obs {}\n", v);
        }
        let what = match r {
            Ok(()) if c.short => "short".to_string(),
            Ok(()) => "ok".to_string(),
            Err(e) => {
                if e.downcast_ref::<Halt>().is_some() {
                    if c.assume_failed {
                        "assume".to_string()
                    } else {
                        format!("assert {}", c.failed.unwrap_or("?"))
                    }
                } else if c.may_panic {
                    "panic".to_string()
                } else {
                    "badpanic".to_string()
                }
            }
        };
        o += &format!("outcome {}\n", what);
        let mut out = std::io::stdout();
        out.write_all(o.as_bytes()).unwrap();
        out.flush().unwrap();
    });
}

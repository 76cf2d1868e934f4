#![allow(dead_code)]
//! Reads cases, one per line, and answers each with the digest of what it saw.
mod work;
use std::io::{BufRead, Write};

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    println!("ready");
    let mut line = String::new();
    loop {
        line.clear();
        if std::io::stdin().lock().read_line(&mut line).unwrap() == 0 {
            break;
        }
        let case: Vec<&str> = line.trim_end_matches('\n').split('\u{1F}').collect();
        if case == ["end"] {
            break;
        }
        let r = std::panic::catch_unwind(|| {
            let mut log = work::Log(Vec::new());
            work::execute(&case, &mut log);
            log.digest()
        });
        let out = match r {
            Ok(d) => format!("D {d:016x}\n"),
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                format!("P {}\n", m.replace('\n', " "))
            }
        };
        let mut o = std::io::stdout().lock();
        o.write_all(out.as_bytes()).unwrap();
        o.flush().unwrap();
    }
}

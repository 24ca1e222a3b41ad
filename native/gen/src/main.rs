//! Runs the real generator on resources given on stdin (hex, blank separated, one request per line).
//! gen HEX... -> ok HEX(generated code) | panic HEX(message)
use make_pluralrules::generate_rs;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn unhex(s: &str) -> String {
    String::from_utf8((0..s.len() / 2).map(|k| u8::from_str_radix(&s[2 * k..2 * k + 2], 16).unwrap()).collect()).unwrap()
}

fn hex(s: &str) -> String {
    s.bytes().map(|b| format!("{:02x}", b)).collect()
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let res: Vec<String> = line.split(' ').skip(1).filter(|x| !x.is_empty()).map(|x| if x == "-" { String::new() } else { unhex(x) }).collect();
        let a = match catch_unwind(AssertUnwindSafe(|| generate_rs(&res))) {
            Ok(s) => format!("ok {}", hex(&s)),
            Err(e) => format!(
                "panic {}",
                hex(e.downcast_ref::<String>().map(|s| s.as_str()).or(e.downcast_ref::<&str>().copied()).unwrap_or("?"))
            ),
        };
        writeln!(out, "{}", a).unwrap();
    }
}

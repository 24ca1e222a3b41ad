//! Runs the real parser on texts given on stdin (hex, one per line).
//! rule HEX  -> ok <debug form of the rule> | err ...;  cond HEX -> ok <debug form of the condition> | err ...
use cldr_pluralrules_parser::{parse_plural_condition, parse_plural_rule};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|k| u8::from_str_radix(&s[2 * k..2 * k + 2], 16).unwrap()).collect()
}

fn handle(line: &str) -> String {
    let p: Vec<&str> = line.split(' ').collect();
    let s = String::from_utf8(unhex(p.get(1).unwrap_or(&""))).unwrap();
    match p[0] {
        "rule" => match parse_plural_rule(&s) {
            Ok(r) => format!("ok {:?}", r),
            Err(_) => "err".into(),
        },
        "cond" => match parse_plural_condition(&s) {
            Ok(r) => format!("ok {:?}", r),
            Err(_) => "err".into(),
        },
        _ => panic!("request"),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let a = catch_unwind(AssertUnwindSafe(|| handle(&line))).unwrap_or_else(|_| "panic".into());
        writeln!(out, "{}", a.replace('\n', "\\n")).unwrap();
    }
}

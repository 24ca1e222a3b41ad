//! Runs the real library on concrete inputs given on stdin; used to replay counterexamples and for
//! the bounded stand-in.  One request per line, one answer per line.
use intl_pluralrules::operands::PluralOperands;
use intl_pluralrules::{PluralCategory, PluralRuleType, PluralRules, CLDR_VERSION};
use std::convert::TryFrom;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use unic_langid::LanguageIdentifier;

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|k| u8::from_str_radix(&s[2 * k..2 * k + 2], 16).unwrap()).collect()
}

fn hex(s: &str) -> String {
    s.bytes().map(|b| format!("{:02x}", b)).collect()
}

fn show(r: Result<PluralOperands, String>) -> String {
    match r {
        Ok(o) => format!("ok {:016x} {} {} {} {} {}", o.n.to_bits(), o.i, o.v, o.w, o.f, o.t),
        Err(e) => format!("err {}", e),
    }
}

fn e2s<E: std::fmt::Debug>(e: E) -> String {
    format!("{:?}", e)
}

fn convert(kind: &str, arg: &str) -> Result<PluralOperands, String> {
    macro_rules! num {
        ($t:ty) => {{
            let x: $t = arg.parse().unwrap();
            PluralOperands::try_from(x).map_err(e2s)
        }};
    }
    match kind {
        "u8" => num!(u8),
        "u16" => num!(u16),
        "u32" => num!(u32),
        "u64" => num!(u64),
        "usize" => num!(usize),
        "i8" => num!(i8),
        "i16" => num!(i16),
        "i32" => num!(i32),
        "i64" => num!(i64),
        "isize" => num!(isize),
        "f32" => PluralOperands::try_from(f32::from_bits(u32::from_str_radix(arg, 16).unwrap())).map_err(e2s),
        "f64" => PluralOperands::try_from(f64::from_bits(u64::from_str_radix(arg, 16).unwrap())).map_err(e2s),
        "str" => {
            let s = String::from_utf8(unhex(arg)).unwrap();
            PluralOperands::try_from(s.as_str()).map_err(e2s)
        }
        "string" => {
            let s = String::from_utf8(unhex(arg)).unwrap();
            PluralOperands::try_from(s).map_err(e2s)
        }
        _ => panic!("kind"),
    }
}

struct Raw(PluralOperands);
impl TryFrom<Raw> for PluralOperands {
    type Error = ();
    fn try_from(r: Raw) -> Result<Self, ()> {
        Ok(r.0)
    }
}
struct Bad;
impl TryFrom<Bad> for PluralOperands {
    type Error = u32;
    fn try_from(_: Bad) -> Result<Self, u32> {
        Err(7)
    }
}

fn cat(r: Result<PluralCategory, &'static str>) -> String {
    match r {
        Ok(PluralCategory::ZERO) => "zero".into(),
        Ok(PluralCategory::ONE) => "one".into(),
        Ok(PluralCategory::TWO) => "two".into(),
        Ok(PluralCategory::FEW) => "few".into(),
        Ok(PluralCategory::MANY) => "many".into(),
        Ok(PluralCategory::OTHER) => "other".into(),
        Err(e) => format!("err {}", e),
    }
}

fn prt(s: &str) -> PluralRuleType {
    match s {
        "cardinal" => PluralRuleType::CARDINAL,
        "ordinal" => PluralRuleType::ORDINAL,
        _ => panic!("type"),
    }
}

const TEXTS: &[&str] = &[
    "1", "1.0", "1.00", "-1", "1.5", "0", "0.0", "-0", "2", "3", "5", "8", "11", "12", "21", "100", "101", "103", "1000000", "0.1", "0.10", "2.1", "2.10", "11.5", "1000", "1000.0", "1000000.0", "3.0", "5.0", "11.0", "1001", "1001.0", "1e6", "9007199254740993", "9007199254740992", "9007199254740993.0",
    "x", "", "-", "1.2.3", "--1", "nan", "1e3", "+4", "18446744073709551615", "18446744073709551616", "5.0000000000000000000", "20", "22", "80", "1.1", "1.10",
];

const LOCS: &[(&str, &str)] = &[("en", "cardinal"), ("ar", "cardinal"), ("lv", "cardinal"), ("cy", "cardinal"), ("pl", "cardinal"), ("fr", "cardinal"), ("ja", "cardinal"), ("pt-PT", "cardinal"),
    ("pt", "cardinal"), ("lt", "cardinal"), ("gv", "cardinal"), ("kw", "cardinal"), ("da", "cardinal"), ("en", "ordinal"), ("cy", "ordinal"), ("it", "ordinal"), ("uk", "ordinal"), ("sv", "ordinal"), ("kw", "ordinal")];

fn make(k: usize) -> Result<PluralRules, &'static str> {
    let id: LanguageIdentifier = LOCS[k].0.parse().unwrap();
    PluralRules::create(id, prt(LOCS[k].1))
}

/// answers of processes that do nothing else before
fn fresh(texts: &[String]) -> Vec<Vec<String>> {
    let mut reqs = vec![];
    for t in texts {
        reqs.push(format!("conv str {}", hex(t)));
        for (l, ty) in LOCS {
            reqs.push(format!("sel {} {} str {}", ty, l, hex(t)));
        }
    }
    let reqs = std::sync::Arc::new(reqs);
    let hs: Vec<_> = (0..8)
        .map(|k| {
            let reqs = reqs.clone();
            std::thread::spawn(move || {
                let mut out = vec![];
                for r in reqs.iter().skip(k).step_by(8) {
                    let mut c = std::process::Command::new(std::env::current_exe().unwrap()).stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).spawn().unwrap();
                    c.stdin.take().unwrap().write_all(r.as_bytes()).unwrap();
                    let o = c.wait_with_output().unwrap();
                    out.push(String::from_utf8_lossy(&o.stdout).trim_end_matches('\n').to_string());
                }
                out
            })
        })
        .collect();
    let parts: Vec<Vec<String>> = hs.into_iter().map(|h| h.join().unwrap()).collect();
    let all: Vec<String> = (0..reqs.len()).map(|n| parts[n % 8][n / 8].clone()).collect();
    all.chunks(LOCS.len() + 1).map(|c| c.to_vec()).collect()
}

/// the same inputs again and again, in changing orders, instances, clones and threads: is an answer ever another than that of a process of its own?
fn stress(texts: &[String], want: &[Vec<String>], rounds: u64, mut seed: u64) -> String {
    let mut inst = vec![];
    for k in 0..LOCS.len() {
        match make(k) {
            Ok(r) => inst.push(r),
            Err(e) => return format!("{} {}: {}", LOCS[k].0, LOCS[k].1, e),
        }
    }
    let listed = (PluralRules::get_locales(PluralRuleType::CARDINAL), PluralRules::get_locales(PluralRuleType::ORDINAL));
    let mut last = 0;
    for n in 0..rounds {
        seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let (k, mut j, h) = ((seed >> 33) as usize % LOCS.len(), (seed >> 43) as usize % texts.len(), (seed >> 55) % 64);
        if h > 40 {
            j = last; // the same again, elsewhere
        }
        last = j;
        let t: &str = &texts[j];
        let got = match h {
            0 => cat(inst[k].clone().select(t)),
            1 => match make(k) {
                Ok(r) => cat(r.select(t)),
                Err(e) => format!("no rules: {}", e),
            },
            2 => match PluralOperands::try_from(t) {
                Ok(o) => cat(inst[k].select(Raw(o))),
                Err(_) => cat(inst[k].select(t)),
            },
            3 => {
                let c = show(PluralOperands::try_from(t.to_string()).map_err(e2s));
                if c != want[j][0] {
                    return format!("after {} calls, converting {:?} gives {}, in a process of its own {}", n, t, c, want[j][0]);
                }
                cat(inst[k].select(t.to_string()))
            }
            4 => {
                let bad = ["en-US", "pt-BR", "pt-Latn-PT", "fr-Latn", "ar-EG", "xx", "en-valencia", "und", "cy-GB", "uk-Cyrl-UA", "zh-Hant"][(seed >> 20) as usize % 11];
                if PluralRules::create(bad.parse::<LanguageIdentifier>().unwrap(), prt(LOCS[k].1)).is_ok() {
                    return format!("after {} calls, {} {} is created", n, bad, LOCS[k].1);
                }
                let l = inst[k].clone();
                if l.get_locale() != inst[k].get_locale() || l.get_locale().to_string() != LOCS[k].0 {
                    return format!("after {} calls, {} reports {}", n, LOCS[k].0, l.get_locale());
                }
                cat(l.select(t))
            }
            5 => {
                let c = show(PluralOperands::try_from(t).map_err(e2s));
                if c != want[j][0] {
                    return format!("after {} calls, converting {:?} gives {}, in a process of its own {}", n, t, c, want[j][0]);
                }
                cat(inst[k].select(t))
            }
            _ => cat(inst[k].select(t)),
        };
        if got != want[j][k + 1] {
            return format!("after {} calls, {} {} on {:?} gives {}, in a process of its own {}", n, LOCS[k].0, LOCS[k].1, t, got, want[j][k + 1]);
        }
        if n % 4096 == 0 {
            let again = (PluralRules::get_locales(PluralRuleType::CARDINAL), PluralRules::get_locales(PluralRuleType::ORDINAL));
            if again != listed {
                return format!("after {} calls, the listing of locales has changed", n);
            }
            let text = t.to_string();
            let other = std::thread::spawn(move || match make(k) {
                Ok(r) => cat(r.select(text.as_str())),
                Err(e) => format!("no rules: {}", e),
            });
            match other.join() {
                Ok(g) if g == want[j][k + 1] => {}
                Ok(g) => return format!("after {} calls, in another thread {} {} on {:?} gives {}, in a process of its own {}", n, LOCS[k].0, LOCS[k].1, t, g, want[j][k + 1]),
                Err(_) => return "panic in another thread".into(),
            }
        }
    }
    "same".into()
}

/// the same from several threads at once
fn threads(texts: &[String], want: &[Vec<String>], rounds: u64, seed: u64) -> String {
    let shared = std::sync::Arc::new((texts.to_vec(), want.to_vec()));
    let hs: Vec<_> = (0..8u64)
        .map(|th| {
            let shared = shared.clone();
            std::thread::spawn(move || {
                let mut seed = seed.wrapping_mul(31).wrapping_add(th * 7919 + 1);
                let inst: Vec<PluralRules> = match (0..LOCS.len()).map(make).collect() {
                    Ok(i) => i,
                    Err(e) => return format!("among 8 threads: {}", e),
                };
                for n in 0..rounds {
                    seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    let (k, j) = ((seed >> 33) as usize % LOCS.len(), (seed >> 43) as usize % shared.0.len());
                    let t: &str = &shared.0[j];
                    let got = cat(inst[k].select(t));
                    if got != shared.1[j][k + 1] {
                        return format!("among 8 threads, {} {} on {:?} gives {}, alone {}", LOCS[k].0, LOCS[k].1, t, got, shared.1[j][k + 1]);
                    }
                    if n % 16 == 0 {
                        let c = show(PluralOperands::try_from(t).map_err(e2s));
                        if c != shared.1[j][0] {
                            return format!("among 8 threads, converting {:?} gives {}, alone {}", t, c, shared.1[j][0]);
                        }
                        if let Err(e) = make(k) {
                            return format!("among 8 threads, {} {}: {}", LOCS[k].0, LOCS[k].1, e);
                        }
                    }
                }
                "same".into()
            })
        })
        .collect();
    for h in hs {
        match h.join() {
            Ok(s) if s == "same" => {}
            Ok(s) => return s,
            Err(_) => return "panic in a thread".into(),
        }
    }
    "same".into()
}

fn handle(line: &str, cache: &mut Option<(String, PluralRules)>) -> String {
    let p: Vec<&str> = line.split(' ').collect();
    match p[0] {
        // conv KIND ARG
        "conv" => show(convert(p[1], p.get(2).unwrap_or(&""))),
        // sel TYPE LOCALE str HEX | sel TYPE LOCALE ops NBITS I V W F T | sel TYPE LOCALE KIND ARG | sel TYPE LOCALE bad
        "sel" => {
            let key = format!("{} {}", p[1], p[2]);
            if cache.as_ref().map(|c| c.0 != key).unwrap_or(true) {
                let id: LanguageIdentifier = p[2].parse().unwrap();
                match PluralRules::create(id, prt(p[1])) {
                    Ok(r) => *cache = Some((key, r)),
                    Err(e) => {
                        *cache = None;
                        return format!("nolocale {}", e);
                    }
                }
            }
            let r = &cache.as_ref().unwrap().1;
            match p[3] {
                "ops" => {
                    let o = PluralOperands {
                        n: f64::from_bits(u64::from_str_radix(p[4], 16).unwrap()),
                        i: p[5].parse().unwrap(),
                        v: p[6].parse().unwrap(),
                        w: p[7].parse().unwrap(),
                        f: p[8].parse().unwrap(),
                        t: p[9].parse().unwrap(),
                    };
                    cat(r.select(Raw(o)))
                }
                "bad" => cat(r.select(Bad)),
                "str" => {
                    let s = String::from_utf8(unhex(p.get(4).unwrap_or(&""))).unwrap();
                    cat(r.select(s.as_str()))
                }
                "clone" => {
                    let s = String::from_utf8(unhex(p[4])).unwrap();
                    let c = r.clone();
                    format!("{} {}", cat(c.select(s.as_str())), c.get_locale() == r.get_locale())
                }
                "u64" => cat(r.select(p[4].parse::<u64>().unwrap())),
                "i64" => cat(r.select(p[4].parse::<i64>().unwrap())),
                "f64" => cat(r.select(f64::from_bits(u64::from_str_radix(p[4], 16).unwrap()))),
                _ => panic!("sel"),
            }
        }
        // stress ROUNDS SEED HEX...
        "stress" => {
            let (n, seed): (u64, u64) = (p[1].parse().unwrap(), p[2].parse().unwrap());
            let mut texts: Vec<String> = TEXTS.iter().map(|t| t.to_string()).collect();
            texts.extend(p[3..].iter().map(|h| String::from_utf8(unhex(h)).unwrap()));
            let want = fresh(&texts);
            match stress(&texts, &want, n, seed) {
                s if s == "same" => threads(&texts, &want, n / 10, seed),
                s => s,
            }
        }
        // selconv HEX -> does selection succeed exactly when the conversion does, with the rule's verdict on its operands
        "selconv" => {
            let s = String::from_utf8(unhex(p.get(1).unwrap_or(&""))).unwrap();
            let id: LanguageIdentifier = "fr".parse().unwrap();
            let r = PluralRules::create(id, PluralRuleType::CARDINAL).unwrap();
            let got = cat(r.select(s.as_str()));
            let want = match PluralOperands::try_from(s.as_str()) {
                Ok(o) if o.i == 0 || o.i == 1 => "one",
                Ok(_) => "other",
                Err(_) => "err",
            };
            if got.split(' ').next() == Some(want) { "same".into() } else { format!("select gives {}, conversion and rule give {}", got, want) }
        }
        // create TYPE LOCALE -> ok <reported locale> | err
        "create" => {
            let id: LanguageIdentifier = match p[2].parse() {
                Ok(i) => i,
                Err(_) => return "badid".into(),
            };
            match PluralRules::create(id.clone(), prt(p[1])) {
                Ok(r) => format!("ok {} {} {}", r.get_locale(), r.get_locale() == &id, r.clone().get_locale() == &id),
                Err(e) => format!("err {}", e),
            }
        }
        "locales" => {
            let l = PluralRules::get_locales(prt(p[1]));
            let sorted = l.windows(2).all(|w| w[0] < w[1]);
            format!("{} {}", sorted, l.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
        }
        // text of a float as the standard library displays it
        "disp" => match p[1] {
            "f32" => format!("{}", f32::from_bits(u32::from_str_radix(p[2], 16).unwrap()).abs()),
            _ => format!("{}", f64::from_bits(u64::from_str_radix(p[2], 16).unwrap()).abs()),
        },
        "version" => format!("{}", CLDR_VERSION),
        _ => panic!("request"),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    let mut cache = None;
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let r = catch_unwind(AssertUnwindSafe(|| handle(&line, &mut cache))).unwrap_or_else(|_| "panic".into());
        writeln!(out, "{}", r).unwrap();
    }
}

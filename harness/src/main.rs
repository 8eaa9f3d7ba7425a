//! Replays the properties of /verif/properties.jsonl against the real crate through its public API.
//!
//!   harness run PROPERTY SEED TIER OUTDIR     explore; writes OUTDIR/PROPERTY.json (and a replay file)
//!   harness replay FILE                       run one recorded case again
//!
//! The proofs decide; this program looks for a concrete failing input and covers, bounded, what the
//! proofs leave out.
#![allow(deprecated)]
mod dict;
mod gen;
mod o_audit;
mod o_parse;
mod o_text;
mod o_time;
mod o_tree;
mod refs;
mod rng;

use rng::Rng;
use std::collections::HashSet;
use std::io::{Seek, Write};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

/// what an oracle sees
pub struct Case {
    pub r: Rng,
    pub index: u64,
    /// the input, written out
    pub input: String,
    pub trivial: bool,
}

pub type Res = Result<(), String>;

pub struct Oracle {
    pub name: &'static str,
    /// number of cases in the quick tier (None: enumerated, same for both tiers)
    pub quick: u64,
    pub exhaustive: bool,
    pub rule: &'static str,
    pub run: fn(&mut Case) -> Res,
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

fn oracles(p: &str) -> Vec<Oracle> {
    match p {
        "C01" => o_text::c01(),
        "C02" => o_text::c02(),
        "C03" => o_text::c03(),
        "C04" => o_text::c04(),
        "C05" => o_tree::c05(),
        "C06" => o_tree::c06(),
        "C07" => o_parse::c07(),
        "C08" => o_tree::c08(),
        "C09" => o_time::c09(),
        "C10" => o_time::c10(),
        "C11" => o_tree::c11(),
        "C12" => o_text::c12(),
        "C13" => o_tree::c13(),
        "C14" => o_parse::c14(),
        "C15" => o_parse::c15(),
        "C16" => o_time::c16(),
        "AUDIT" => o_audit::audit(),
        _ => vec![],
    }
}

static NOW: AtomicU64 = AtomicU64::new(u64::MAX);
static BEGAN: AtomicU64 = AtomicU64::new(0);

fn one(o: &Oracle, seed: u64, index: u64) -> (Case, Result<(), String>) {
    let mut c = Case { r: Rng::new(seed, rng::hash(o.name), index), index, input: String::new(), trivial: false };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (o.run)(&mut c)));
    let r = match r {
        Ok(r) => r,
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            Err(format!("panicked: {m}"))
        }
    };
    (c, r)
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\r' => o += "\\r",
            '\t' => o += "\\t",
            c if (c as u32) < 0x20 || (c as u32) > 0xffff => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    o += &format!("\\u{:04x}", u);
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn replay_file(path: &str, prop: &str, o: &str, seed: u64, index: u64, input: &str, why: &str) {
    let t = format!(
        "{{\n \"property\": {},\n \"oracle\": {},\n \"seed\": {},\n \"index\": {},\n \"input\": {},\n \"failure\": {},\n \"replay\": {}\n}}\n",
        js(prop), js(o), seed, index, js(input), js(why), js(&format!("cd /verif/harness && cargo run --offline -q -- replay {path}"))
    );
    let _ = std::fs::write(path, t);
}

fn field(t: &str, k: &str) -> Option<String> {
    let i = t.find(&format!("\"{k}\":"))? + k.len() + 3;
    let s = t[i..].trim_start();
    Some(if let Some(s) = s.strip_prefix('"') {
        s.split('"').next()?.to_string()
    } else {
        s.split(|c: char| !c.is_ascii_digit()).next()?.to_string()
    })
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if std::env::var_os("HARNESS_LOUD").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    match a.get(1).map(String::as_str) {
        Some("run") => {
            // the exploration runs in a child, so that an abort or a hang is seen and its case found
            let exe = std::env::current_exe().unwrap();
            let go = |trace: bool| {
                let mut c = std::process::Command::new(&exe);
                c.arg("child").args(&a[2..]).stderr(std::process::Stdio::null());
                if trace {
                    c.arg("trace");
                }
                c.status().unwrap()
            };
            let s = go(false);
            if s.code() == Some(0) || s.code() == Some(1) {
                std::process::exit(s.code().unwrap());
            }
            let s2 = go(true);
            if s2.code() == Some(0) || s2.code() == Some(1) {
                std::process::exit(s2.code().unwrap());
            }
            let (prop, seed, out) = (&a[2], a[3].parse::<u64>().unwrap(), &a[5]);
            let t = std::fs::read_to_string(format!("{out}/{prop}.trace")).unwrap_or_default();
            let mut w = t.split_whitespace();
            let (name, index) = (w.next().unwrap_or("?").to_string(), w.next().and_then(|s| s.parse().ok()).unwrap_or(0));
            let path = format!("{out}/{prop}.replay.json");
            replay_file(&path, prop, &name, seed, index, "(see the oracle and index; the process died on it)", &format!("the process was ended: {s2} (abort or stack overflow)"));
            println!("FAIL {path}");
            std::process::exit(1);
        }
        Some("child") => child(&a),
        Some("replay") => {
            let t = std::fs::read_to_string(&a[2]).unwrap();
            let (p, name) = (field(&t, "property").unwrap(), field(&t, "oracle").unwrap());
            let (seed, index) = (field(&t, "seed").unwrap().parse().unwrap(), field(&t, "index").unwrap().parse().unwrap());
            for o in oracles(&p) {
                if o.name == name {
                    let (c, r) = one(&o, seed, index);
                    println!("input: {}\nresult: {:?}", c.input, r);
                    std::process::exit(if r.is_err() { 1 } else { 0 });
                }
            }
            println!("no such oracle");
            std::process::exit(2);
        }
        // what the print functions write: the parent compares
        Some("print") => o_tree::print_all(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap()).into_iter().for_each(|(p, _)| p()),
        Some("words") => print!("{}", dict::baseline()),
        Some("known") => {
            // prints the known findings of a property that still fail
            for (p, f) in o_parse::known() {
                if a.get(2).map(String::as_str) == Some(p) {
                    let r = std::panic::catch_unwind(f).unwrap_or_else(|_| Some("panicked".to_string()));
                    if let Some(m) = r {
                        println!("KNOWN {m}");
                    }
                }
            }
        }
        _ => std::process::exit(2),
    }
}

fn child(a: &[String]) {
    let (prop, seed, tier, out) = (a[2].clone(), a[3].parse::<u64>().unwrap(), a[4].clone(), a[5].clone());
    let trace = a.get(6).is_some();
    let scale: u64 = std::env::var("HARNESS_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 40 } else { 3 });
    let os = oracles(&prop);
    let start = Instant::now();
    let t0 = Instant::now();
    let names: Vec<&'static str> = os.iter().map(|o| o.name).collect();
    static CUR: AtomicU64 = AtomicU64::new(0);
    {
        let (prop, out, names) = (prop.clone(), out.clone(), names.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let i = NOW.load(Ordering::SeqCst);
            let b = BEGAN.load(Ordering::SeqCst);
            if i != u64::MAX && start.elapsed().as_millis() as u64 > b + 20_000 {
                let path = format!("{out}/{prop}.replay.json");
                let n = names[CUR.load(Ordering::SeqCst) as usize];
                replay_file(&path, &prop, n, seed, i, "(see the oracle and index)", "no answer within 20 s: does not terminate");
                println!("FAIL {path}");
                std::process::exit(1);
            }
        });
    }
    let mut tf = trace.then(|| std::fs::File::create(format!("{out}/{prop}.trace")).unwrap());
    let (mut evals, mut distinct) = (0u64, 0u64);
    let mut samples: Vec<String> = Vec::new();
    let mut rules: Vec<String> = Vec::new();
    let mut exhaustive = !os.is_empty();
    let mut fail: Option<String> = None;
    'all: for (k, o) in os.iter().enumerate() {
        CUR.store(k as u64, Ordering::SeqCst);
        let n = if o.exhaustive { o.quick } else { o.quick * scale };
        exhaustive &= o.exhaustive;
        let mut seen: HashSet<u64> = HashSet::new();
        let mut ran = 0;
        for i in 0..n {
            if i % 64 == 0 {
                BEGAN.store(start.elapsed().as_millis() as u64, Ordering::SeqCst);
                if t0.elapsed() > Duration::from_secs(if tier == "thorough" { 500 } else { 100 }) {
                    break;
                }
            }
            NOW.store(i, Ordering::SeqCst);
            if let Some(f) = tf.as_mut() {
                let _ = f.rewind();
                let _ = f.write_all(format!("{} {}            \n", o.name, i).as_bytes());
            }
            let (c, r) = one(o, seed, i);
            ran += 1;
            if !c.trivial && !c.input.is_empty() {
                seen.insert(rng::hash(&c.input));
                if samples.len() < 3 * (k + 1) && (i + 1) % (n / 4).max(1) == 0 {
                    let s: String = c.input.chars().take(300).collect();
                    samples.push(format!("{{\"oracle\": {}, \"index\": {}, \"input\": {}}}", js(o.name), i, js(&s)));
                }
            }
            if let Err(m) = r {
                let path = format!("{out}/{prop}.replay.json");
                replay_file(&path, &prop, o.name, seed, i, &c.input, &m);
                println!("FAIL {path}");
                fail = Some(path);
                evals += ran;
                distinct += seen.len() as u64;
                break 'all;
            }
        }
        evals += ran;
        distinct += seen.len() as u64;
        rules.push(format!("{} ({} cases{}): {}", o.name, ran, if o.exhaustive { ", enumerated" } else { "" }, o.rule));
    }
    NOW.store(u64::MAX, Ordering::SeqCst);
    let t = format!(
        "{{\"property\": {}, \"evaluations\": {}, \"distinct_nontrivial\": {}, \"exhaustive\": {}, \"rule\": {}, \"samples\": [{}], \"wall_s\": {:.2}, \"failed\": {}}}\n",
        js(&prop), evals, distinct, exhaustive, js(&rules.join("; ")), samples.join(", "), t0.elapsed().as_secs_f64(), fail.is_some()
    );
    std::fs::write(format!("{out}/{prop}.json"), t).unwrap();
    std::process::exit(if fail.is_some() { 1 } else { 0 });
}

//! Words, characters and numbers that occur in the source of the crate under test: inputs only, never an oracle.
//! Those that the committed baseline (words.txt) does not have are drawn more often.
use std::collections::HashSet;
use std::path::Path;
use std::sync::OnceLock;

#[derive(Default)]
pub struct Dict {
    pub words: Vec<String>,
    pub fresh: Vec<String>,
    pub chars: Vec<char>,
    pub nums: Vec<usize>,
    pub new_nums: Vec<usize>,
}

fn files(d: &Path, out: &mut Vec<std::path::PathBuf>) {
    let Ok(rd) = std::fs::read_dir(d) else { return };
    let mut v: Vec<_> = rd.flatten().map(|e| e.path()).collect();
    v.sort();
    for p in v {
        if p.is_dir() {
            files(&p, out);
        } else if p.extension().is_some_and(|e| e == "rs") {
            out.push(p);
        }
    }
}

/// (string literals, char literals, integer literals)
pub fn scan(t: &str) -> (Vec<String>, Vec<char>, Vec<usize>) {
    let c: Vec<char> = t.chars().collect();
    let (mut ss, mut cs, mut ns) = (vec![], vec![], vec![]);
    let mut i = 0;
    let esc = |i: &mut usize| -> Option<char> {
        let k = *c.get(*i)?;
        *i += 1;
        Some(match k {
            'n' => '\n',
            'r' => '\r',
            't' => '\t',
            '0' => '\0',
            'u' => {
                let mut h = String::new();
                while let Some(&x) = c.get(*i) {
                    *i += 1;
                    if x == '}' {
                        break;
                    }
                    if x != '{' {
                        h.push(x);
                    }
                }
                char::from_u32(u32::from_str_radix(&h, 16).ok()?)?
            }
            '\n' => return None,
            o => o,
        })
    };
    while i < c.len() {
        match c[i] {
            '/' if c.get(i + 1) == Some(&'/') => {
                while i < c.len() && c[i] != '\n' {
                    i += 1;
                }
            }
            'r' if c.get(i + 1) == Some(&'#') && c.get(i + 2) == Some(&'"') => {
                i += 3;
                let mut s = String::new();
                while i < c.len() && !(c[i] == '"' && c.get(i + 1) == Some(&'#')) {
                    s.push(c[i]);
                    i += 1;
                }
                i += 2;
                ss.push(s);
            }
            '"' => {
                i += 1;
                let mut s = String::new();
                while i < c.len() && c[i] != '"' {
                    if c[i] == '\\' {
                        i += 1;
                        if let Some(x) = esc(&mut i) {
                            s.push(x);
                        }
                    } else {
                        s.push(c[i]);
                        i += 1;
                    }
                }
                i += 1;
                ss.push(s);
            }
            '\'' => {
                if c.get(i + 1) == Some(&'\\') {
                    i += 2;
                    if let Some(x) = esc(&mut i) {
                        cs.push(x);
                    }
                    i += 1;
                } else if c.get(i + 2) == Some(&'\'') {
                    cs.push(c[i + 1]);
                    i += 3;
                } else {
                    i += 1;
                }
            }
            d if d.is_ascii_digit() => {
                let mut s = String::new();
                while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') {
                    s.push(c[i]);
                    i += 1;
                }
                let s = s.replace('_', "");
                let digits: String = s.chars().take_while(|c| c.is_ascii_digit()).collect();
                if let Ok(n) = digits.parse() {
                    ns.push(n);
                }
            }
            a if a.is_alphabetic() || a == '_' => {
                while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
                    i += 1;
                }
            }
            _ => i += 1,
        }
    }
    (ss, cs, ns)
}

pub fn source() -> String {
    let root = std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".into());
    let mut v = vec![];
    files(&Path::new(&root).join("src"), &mut v);
    v.iter().filter_map(|p| std::fs::read_to_string(p).ok()).collect()
}

pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let base: HashSet<&str> = include_str!("words.txt").lines().collect();
        let (ss, cs, ns) = scan(&source());
        let mut d = Dict::default();
        let mut seen = HashSet::new();
        for s in ss {
            for w in [s.clone(), s.trim().to_string()] {
                if w.len() <= 40 && !w.contains('{') && seen.insert(w.clone()) {
                    if !base.contains(format!("s{w:?}").as_str()) {
                        d.fresh.push(w.clone());
                    }
                    d.words.push(w);
                }
            }
        }
        for x in cs {
            if !base.contains(format!("c{x:?}").as_str()) && !d.chars.contains(&x) {
                d.chars.push(x);
            }
        }
        for n in ns {
            if !d.nums.contains(&n) {
                if !base.contains(format!("n{n}").as_str()) {
                    d.new_nums.push(n);
                }
                d.nums.push(n);
            }
        }
        d
    })
}

/// the baseline of the current source (harness words > src/words.txt)
pub fn baseline() -> String {
    let (ss, cs, ns) = scan(&source());
    let mut v: Vec<String> = ss.iter().flat_map(|s| [format!("s{s:?}"), format!("s{:?}", s.trim())]).filter(|s| s.len() < 60).collect();
    v.extend(cs.iter().map(|c| format!("c{c:?}")));
    v.extend(ns.iter().map(|n| format!("n{n}")));
    v.sort();
    v.dedup();
    v.join("\n") + "\n"
}

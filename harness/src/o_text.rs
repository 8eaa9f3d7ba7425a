//! C01 folding, C02 escaping, C03 unfolding, C04 content lines, C12 value types
use crate::gen::{self, GP};
use crate::refs;
use crate::{ensure, Case, Oracle, Res};
use icalendar as ic;
use icalendar::parser as pp;
use icalendar::Component;
use std::convert::TryInto;
use std::str::FromStr;

pub fn print(p: ic::Property) -> String {
    let r: Result<String, std::fmt::Error> = p.try_into();
    r.expect("formatting into a String failed")
}

fn physical(s: &str) -> Res {
    for l in s.split("\r\n") {
        ensure!(l.len() <= 75, "physical line of {} octets: {:?}", l.len(), l);
    }
    Ok(())
}

fn check_fold(out: &str, line: &str) -> Res {
    let body = out.strip_suffix("\r\n").ok_or_else(|| format!("does not end with CRLF: {out:?}"))?;
    physical(body)?;
    ensure!(refs::is_folding_of(body, line), "not a folding of {line:?}: {body:?}");
    if line.len() <= 75 {
        ensure!(body == line, "short line was changed: {line:?} -> {body:?}");
    }
    if !line.contains('\r') && !line.contains('\n') {
        ensure!(refs::join_folds(body) == line, "unfolding {body:?} does not give {line:?}");
    }
    Ok(())
}

/// a property whose content line needs neither quoting nor escaping
fn plain(c: &mut Case) -> GP {
    let mut params = Vec::new();
    for k in ["X-A", "X-B"] {
        if c.r.chance(1, 4) {
            params.push((k.to_string(), Some(gen::short(&mut c.r, gen::PLAIN))));
        }
    }
    let val = if c.r.chance(1, 2) {
        gen::text(&mut c.r, gen::NO_BREAK)
    } else {
        let n = 40 + c.r.below(200);
        gen::text_len(&mut c.r, gen::NO_BREAK, n)
    };
    GP { name: "X-FOO".into(), params, val }
}

fn fold_random(c: &mut Case) -> Res {
    let g = plain(c);
    let ls = g.lines();
    c.input = format!("{g:?}");
    c.trivial = ls[0].len() <= 75;
    let out = print(g.lib());
    ensure!(ls.iter().any(|l| check_fold(&out, l).is_ok()), "{}", check_fold(&out, &ls[0]).unwrap_err());
    let out = g.parsed().to_string();
    check_fold(&out, &ls[0])
}

/// every length, with units of 1..4 octets, shifted, with a whitespace character somewhere
fn fold_enum(c: &mut Case) -> Res {
    let i = c.index as usize;
    const UNITS: [&str; 9] = ["a", "é", "日", "😀", " ", "\u{3000}", "\\", "a\u{2003}", "ab "];
    let (unit, rest) = (UNITS[i % 9], i / 9);
    let (shift, len) = (rest % 4, rest / 4);
    let mut v = "x".repeat(shift);
    while v.len() < len {
        v += unit;
    }
    let g = GP { name: "X-F".into(), params: vec![], val: v };
    let l = g.lines().remove(0);
    c.input = format!("X-F, {shift} octets, then {len} octets of {unit:?}");
    c.trivial = l.len() <= 75;
    check_fold(&print(g.lib()), &l)?;
    check_fold(&g.parsed().to_string(), &l)
}

/// very long lines
fn fold_long(c: &mut Case) -> Res {
    let i = c.index as usize;
    let unit = ["a", "é", "日", "a "][i % 4];
    let (n, more) = ([1 << 10, 1 << 12, 1 << 14, 1 << 15, 1 << 16, 100_000][i / 4 % 6], i / 24 * 37);
    let v = unit.repeat((n + more) / unit.len());
    c.input = format!("X-F, {n} + {more} octets of {unit:?}");
    let g = GP { name: "X-F".into(), params: vec![], val: v };
    let l = g.lines().remove(0);
    check_fold(&print(g.lib()), &l)?;
    check_fold(&g.parsed().to_string(), &l)
}

/// any property at all: physical lines, no panic
fn fold_any(c: &mut Case) -> Res {
    let mut g = gen::property(&mut c.r);
    if c.r.chance(1, 2) {
        g.val = gen::text(&mut c.r, gen::ANY);
    }
    c.input = format!("{g:?}");
    c.trivial = g.lines()[0].len() <= 75;
    physical(&print(g.lib()))?;
    physical(&g.parsed().to_string())
}

fn fold_tree(c: &mut Case) -> Res {
    let mut e = ic::Event::new();
    let mut want = vec![];
    for k in ["X-ONE", "X-TWO", "X-THREE"] {
        let mut g = plain(c);
        g.name = k.into();
        g.params.truncate(1);
        e.append_property(g.lib());
        want.push(g);
    }
    let mut a = ic::Todo::new();
    let mut g = plain(c);
    g.name = "X-MULTI".into();
    g.params.truncate(1);
    a.append_multi_property(g.lib());
    want.push(g);
    e.append_component(a);
    c.input = format!("{want:?}");
    let mut cal = ic::Calendar::new();
    cal.push(e.done());
    let out = cal.to_string();
    physical(&out)?;
    let parsed = pp::Calendar { properties: want.iter().map(GP::parsed).collect(), components: vec![] };
    let pout = parsed.to_string();
    physical(&pout)?;
    for o in [&out, &pout] {
        let joined = refs::join_folds(o);
        for g in &want {
            let l = g.lines().remove(0);
            let n = joined.split("\r\n").filter(|x| **x == l).count();
            ensure!(n == 1, "the content line {l:?} occurs {n} times after unfolding {o:?}");
        }
    }
    Ok(())
}

/// BEGIN and END are content lines too
fn fold_kind(c: &mut Case) -> Res {
    let n = 1 + c.r.below(200);
    let ascii = c.r.chance(1, 2);
    let name: String = (0..n).map(|_| *c.r.pick(if ascii { &['X', '-', 'A', '7'] } else { &['X', 'é', '日', '😀'] })).collect();
    c.input = name.clone();
    c.trivial = name.len() <= 69;
    let prop = pp::Property::new_ref("SUMMARY", "a");
    let one = pp::Component { name: pp::ParseString::from(name.clone()), properties: vec![prop], components: vec![] };
    let cal = pp::Calendar { properties: vec![], components: vec![one] };
    let pout = cal.to_string();
    let out = ic::Calendar::from(cal).to_string();
    for o in [&out, &pout] {
        physical(o)?;
        let joined = refs::join_folds(o);
        for l in [format!("BEGIN:{name}"), format!("END:{name}")] {
            let k = joined.split("\r\n").filter(|x| **x == l).count();
            ensure!(k == 1, "the line {l:?} occurs {k} times after unfolding {o:?}");
        }
    }
    Ok(())
}

pub fn c01() -> Vec<Oracle> {
    vec![
        Oracle { name: "fold_long", quick: 48, exhaustive: true, rule: "values of 1024 to 100037 octets of four units", run: fold_long },
        Oracle { name: "fold_enum", quick: 9 * 4 * 330, exhaustive: true, rule: "values of every length up to 330 octets built from nine units of 1 to 4 octets at four offsets; non-trivial: longer than 75 octets", run: fold_enum },
        Oracle { name: "fold_random", quick: 30_000, exhaustive: false, rule: "random X- properties, both writers; non-trivial: longer than 75 octets", run: fold_random },
        Oracle { name: "fold_any", quick: 30_000, exhaustive: false, rule: "any property, both writers, line lengths only; non-trivial: longer than 75 octets", run: fold_any },
        Oracle { name: "fold_kind", quick: 2_000, exhaustive: false, rule: "component names of up to 200 characters, both writers; non-trivial: BEGIN line longer than 75 octets", run: fold_kind },
        Oracle { name: "fold_tree", quick: 3_000, exhaustive: false, rule: "calendars with nested components, each content line found after unfolding", run: fold_tree },
    ]
}

// ---------------------------------------------------------------------------------------------- C02

fn body(out: &str) -> String {
    refs::join_folds(out.strip_suffix("\r\n").unwrap_or(out))
}

fn esc_check(c: &mut Case, s: &str) -> Res {
    c.input = format!("{s:?}");
    c.trivial = !s.contains(['\\', ',', ';', '\n']);
    let e = refs::escape(s);
    // folding only matters for long values, and then a raw CRLF+space can not occur in the escaped text
    let out = body(&print(ic::Property::new("SUMMARY", s)));
    ensure!(out == format!("SUMMARY:{e}"), "TEXT value {s:?} is written as {out:?}");
    let out = body(&print(ic::Property::new("X-A", s).add_parameter("VALUE", "TEXT").done()));
    ensure!(out == format!("X-A;VALUE=TEXT:{e}"), "VALUE=TEXT value {s:?} is written as {out:?}");
    let out = body(&pp::Property::new_ref("SUMMARY", s).to_string());
    ensure!(out == format!("SUMMARY:{e}"), "parsed TEXT value {s:?} is printed as {out:?}");
    let u = pp::ParseString::from(e.as_str()).unescape_text();
    ensure!(u.as_str() == s, "unescape(escape({s:?})) = {:?}", u.as_str());
    let u = pp::ParseString::from(s).unescape_text();
    ensure!(u.as_str() == refs::unescape(s), "unescape({s:?}) = {:?}", u.as_str());
    let u = pp::ParseString::from(s.to_string()).unescape_text();
    ensure!(u.as_str() == refs::unescape(s), "unescape(owned {s:?}) = {:?}", u.as_str());
    Ok(())
}

const ALPHA: [char; 9] = ['\\', 'n', 'N', ',', ';', ':', 'a', '\n', 'é'];

fn esc_enum(c: &mut Case) -> Res {
    let mut i = c.index as usize;
    let mut s = String::new();
    // strings over ALPHA in length order
    let (mut len, mut n) = (0u32, 1usize);
    while i >= n {
        i -= n;
        len += 1;
        n = 9usize.pow(len);
    }
    for _ in 0..len {
        s.push(ALPHA[i % 9]);
        i /= 9;
    }
    esc_check(c, &s)
}

fn esc_random(c: &mut Case) -> Res {
    let s = gen::text(&mut c.r, gen::ANY);
    esc_check(c, &s)
}

/// other types verbatim, in both directions
fn esc_other(c: &mut Case) -> Res {
    let g = gen::property(&mut c.r);
    let mut g = GP { params: g.params.into_iter().take(1).collect(), ..g };
    if !g.is_text() && g.val.contains('\n') {
        g.val = g.val.replace('\n', "");
    }
    // the writer of the key and parameters is another property's business
    c.input = format!("{g:?}");
    c.trivial = g.is_text();
    let vt = refs::value_type(&g.name, g.value_param());
    let raw = if g.is_text() { refs::escape(&g.val) } else { g.val.clone() };
    let out = body(&print(g.lib()));
    ensure!(out.ends_with(&format!(":{raw}")), "{:?} value {:?} is written as {out:?}", vt, g.val);
    ensure!(!out.contains('\n'), "raw line feed in {out:?}");
    let out = body(&g.parsed().to_string());
    ensure!(out.ends_with(&format!(":{raw}")), "{:?} value {:?} is printed as {out:?}", vt, g.val);
    for t in refs::VALUE_TYPES {
        let u = pp::ParseString::from(g.val.as_str()).unescape_by_value_type(ic::ValueType::from_str(t).map_err(|_| format!("no type {t}"))?);
        let want = if t == "TEXT" { refs::unescape(&g.val) } else { g.val.clone() };
        ensure!(u.as_str() == want, "unescape as {t} of {:?} gives {:?}", g.val, u.as_str());
    }
    Ok(())
}

/// reading: the value in a content line is unescaped iff it is TEXT
fn esc_read(c: &mut Case) -> Res {
    let raw = gen::text(&mut c.r, gen::NO_BREAK);
    let (name, param) = *c.r.pick(&[("SUMMARY", ""), ("X-A", ";VALUE=TEXT"), ("X-A", ""), ("URL", ""), ("DESCRIPTION", ";VALUE=URI"), ("COMMENT", "")]);
    let line = format!("{name}{param}:{raw}");
    c.input = line.clone();
    c.trivial = !raw.contains('\\');
    let vt = param.strip_prefix(";VALUE=");
    let want = if refs::is_text(name, vt) { refs::unescape(&raw) } else { raw.clone() };
    for end in ["", "\n", "\r\n"] {
        let l = format!("{line}{end}");
        let p = ic::Property::from_str(&l).map_err(|e| format!("{l:?} does not parse: {e}"))?;
        ensure!(p.value() == want, "{l:?} reads as {:?}, not {want:?}", p.value());
        let p = pp::Property::try_from(l.as_str()).map_err(|e| format!("{l:?} does not parse: {e}"))?;
        ensure!(p.val.as_str() == want, "{l:?} parses as {:?}, not {want:?}", p.val.as_str());
    }
    Ok(())
}

pub fn c02() -> Vec<Oracle> {
    vec![
        Oracle { name: "esc_enum", quick: 1 + 9 + 81 + 729 + 6561 + 59049, exhaustive: true, rule: "every string of length up to 5 over \\ n N , ; : a LF e-acute; non-trivial: something to escape", run: esc_enum },
        Oracle { name: "esc_random", quick: 20_000, exhaustive: false, rule: "random text; non-trivial: something to escape", run: esc_random },
        Oracle { name: "esc_other", quick: 20_000, exhaustive: false, rule: "any property: escaped iff TEXT; non-trivial: not TEXT", run: esc_other },
        Oracle { name: "esc_read", quick: 20_000, exhaustive: false, rule: "content lines read back; non-trivial: contains a backslash", run: esc_read },
    ]
}

// ---------------------------------------------------------------------------------------------- C03

fn unfold_check(c: &mut Case, s: &str) -> Res {
    c.input = format!("{s:?}");
    let want = refs::unfold(s);
    c.trivial = want == *s;
    let got = pp::unfold(s);
    ensure!(got == want, "unfold({s:?}) = {got:?}, not {want:?}");
    Ok(())
}

fn unfold_enum(c: &mut Case) -> Res {
    const A: [char; 6] = ['\r', '\n', ' ', '\t', 'a', 'é'];
    let mut i = c.index as usize;
    let (mut len, mut n) = (0u32, 1usize);
    while i >= n {
        i -= n;
        len += 1;
        n = 6usize.pow(len);
    }
    let mut s = String::new();
    for _ in 0..len {
        s.push(A[i % 6]);
        i /= 6;
    }
    unfold_check(c, &s)
}

fn unfold_random(c: &mut Case) -> Res {
    let mut s = String::new();
    for _ in 0..c.r.below(12) {
        s += &gen::short(&mut c.r, gen::ANY);
        s += *c.r.pick(&["\r\n ", "\n ", "\r\n\t", "\n\t", "\r\n", "\n", "\r", " ", "\r\n\r\n ", "\n\n\t", "\r\r\n ", "\r\n\u{a0}", "\u{b} ", "\r ", "\u{2028} "]);
    }
    if c.r.chance(1, 10) {
        s = s.repeat(1 + c.r.below(30));
    }
    unfold_check(c, &s)
}

pub fn c03() -> Vec<Oracle> {
    vec![
        Oracle { name: "unfold_enum", quick: 1 + 6 + 36 + 216 + 1296 + 7776 + 46656 + 279936, exhaustive: true, rule: "every string of length up to 7 over CR LF space tab a e-acute; non-trivial: contains a fold", run: unfold_enum },
        Oracle { name: "unfold_random", quick: 40_000, exhaustive: false, rule: "random text with line breaks of all kinds; non-trivial: contains a fold", run: unfold_random },
    ]
}

// ---------------------------------------------------------------------------------------------- C04

#[allow(deprecated)]
fn line_form(c: &mut Case) -> Res {
    let mut g = gen::property(&mut c.r);
    if g.is_text() {
        g.val = gen::short(&mut c.r, gen::PLAIN);
    }
    c.input = format!("{g:?}");
    c.trivial = g.params.is_empty();
    ensure!(ic::Property::new_pre_alloc(g.name.clone(), g.val.clone()) == ic::Property::new(g.name.as_str(), g.val.as_str()), "new_pre_alloc of {g:?}");
    let out = print(g.lib());
    let b = out.strip_suffix("\r\n").ok_or_else(|| format!("no CRLF at the end: {out:?}"))?;
    ensure!(g.lines().iter().any(|l| refs::is_folding_of(b, l)), "{out:?} is not the content line of {g:?}");
    Ok(())
}

fn line_roundtrip(c: &mut Case) -> Res {
    let g = gen::property(&mut c.r);
    c.input = format!("{g:?}");
    let p = g.lib();
    c.trivial = p.params().is_empty() && !p.value().contains(['\\', ',', ';', '\n', ':']);
    let out = print(p.clone());
    let q = ic::Property::from_str(&pp::unfold(&out)).map_err(|e| format!("{out:?} does not parse: {e}"))?;
    ensure!(q == p, "wrote {p:?}\nas {out:?}\nread {q:?}");
    Ok(())
}

fn params_enum(c: &mut Case) -> Res {
    const V: [&str; 12] = ["", "a", ":", ";", "a:b", "a;b", ",", " ", "=", "a=b;c", "\\", "é:"];
    const K: [&str; 4] = ["A", "VALUE", "TZID", "x-y"];
    const N: [&str; 6] = ["X", "SUMMARY", "END-X", "BEGINX", "DTSTART", "É"];
    const VAL: [&str; 10] = ["", " ", ":", "a:b;c,d\\", "\\n", "\"q\"", "\t", "=;", "END:X", "\\"];
    let mut i = c.index as usize;
    let mut nx = |n: usize| {
        let k = i % n;
        i /= n;
        k
    };
    let (n, v) = (N[nx(6)], VAL[nx(10)]);
    let params = vec![(K[nx(4)].to_string(), Some(V[nx(12)].to_string())), ("X2".to_string(), Some(V[nx(12)].to_string()))];
    let g = GP { name: n.into(), params, val: v.into() };
    c.input = format!("{g:?}");
    let out = print(g.lib());
    let b = out.strip_suffix("\r\n").unwrap_or("");
    ensure!(g.lines().iter().any(|l| refs::is_folding_of(b, l)), "{out:?} is not the content line of {g:?}");
    let q = ic::Property::from_str(&pp::unfold(&out)).map_err(|e| format!("{out:?} does not parse: {e}"))?;
    ensure!(q == g.lib(), "wrote {g:?}\nas {out:?}\nread {q:?}");
    Ok(())
}

pub fn c04() -> Vec<Oracle> {
    vec![
        Oracle { name: "params_enum", quick: 6 * 10 * 4 * 12 * 12, exhaustive: true, rule: "names x values x two parameters from fixed lists", run: params_enum },
        Oracle { name: "line_form", quick: 40_000, exhaustive: false, rule: "the content line is NAME *(;KEY=VALUE) : value CRLF up to the order of parameters; non-trivial: has parameters", run: line_form },
        Oracle { name: "line_roundtrip", quick: 60_000, exhaustive: false, rule: "print, unfold, parse; non-trivial: parameters or special characters", run: line_roundtrip },
    ]
}

// ---------------------------------------------------------------------------------------------- C12

fn vt_name(t: ic::ValueType) -> String {
    use ic::ValueType::*;
    match t {
        Binary => "BINARY",
        Boolean => "BOOLEAN",
        CalAddress => "CAL-ADDRESS",
        Date => "DATE",
        DateTime => "DATE-TIME",
        Duration => "DURATION",
        Float => "FLOAT",
        Integer => "INTEGER",
        Period => "PERIOD",
        Recur => "RECUR",
        Text => "TEXT",
        Time => "TIME",
        Uri => "URI",
        UtcOffset => "UTC-OFFSET",
    }
    .to_string()
}

fn types_check(c: &mut Case, name: &str, vp: Option<&str>) -> Res {
    c.input = format!("name {name:?}, VALUE {vp:?}");
    let want = refs::value_type(name, vp);
    c.trivial = want.is_none();
    let mut p = ic::Property::new(name, "x");
    if let Some(v) = vp {
        p.add_parameter("VALUE", v);
    }
    let got = p.value_type().map(vt_name);
    ensure!(got.as_deref() == want, "value type of {p:?} is {got:?}, not {want:?}");
    // no other parameter says anything about the type
    const OTHERS: [&str; 14] = ["X-OTHER", "value", "Value", "VALUES", "X-VALUE", "VALU", "TYPE", "VALUE-TYPE", "VALUETYPE", "ENCODING", "FMTTYPE", "X-TYPE", "TZID", ""];
    for (n, k) in OTHERS.iter().enumerate() {
        for t in ["TEXT", refs::VALUE_TYPES[(c.index as usize + n) % refs::VALUE_TYPES.len()]] {
            let mut q = p.clone();
            q.add_parameter(k, t);
            let got = q.value_type().map(vt_name);
            ensure!(got.as_deref() == want, "value type of {q:?} is {got:?}, not {want:?}");
        }
    }
    let other = OTHERS[c.index as usize % 13];
    p.add_parameter(other, "TEXT");
    // the reader: a value is unescaped iff its type is TEXT
    if !name.is_empty() && name.chars().all(|c| c.is_alphanumeric() || "-_./,".contains(c)) && !name.eq_ignore_ascii_case("BEGIN") && !name.eq_ignore_ascii_case("END")
        && vp.map_or(true, |v| !v.is_empty() && !v.contains([':', ';', '"', '\n', '\r'])) {
        const RAW: &str = "a\\,b\\;c\\\\d\\ne";
        let l = match vp {
            Some(v) => format!("{name};{other}=TEXT;VALUE={v}:{RAW}"),
            None => format!("{name};{other}=TEXT:{RAW}"),
        };
        let q = ic::Property::from_str(&l).map_err(|e| format!("{l:?} does not parse: {e}"))?;
        let text = q.value() != RAW;
        ensure!(text == (want == Some("TEXT")), "the reader takes {l:?} for {}TEXT", if text { "" } else { "not " });
        let mut w = ic::Property::new(name, "a,b;c\\d\ne");
        if let Some(v) = vp {
            w.add_parameter("VALUE", v);
        }
        w.add_parameter(other, if want == Some("TEXT") { "BINARY" } else { "TEXT" });
        let wrote = body(&print(w));
        let wtext = !wrote.ends_with(":a,b;c\\d\ne");
        ensure!(wtext == (want == Some("TEXT")), "the writer takes {name} VALUE={vp:?} for {}TEXT: {wrote:?}", if wtext { "" } else { "not " });
        // both agree on the date type
        let l = match vp {
            Some(v) => format!("{name};VALUE={v}:20200102"),
            None => format!("{name}:20200102"),
        };
        let q = ic::Property::from_str(&l).map_err(|e| format!("{l:?} does not parse: {e}"))?;
        ensure!(q.value_type().map(vt_name).as_deref() == want, "value type of {l:?} after reading is {:?}", q.value_type());
    }
    Ok(())
}

const ODD_TYPES: [&str; 16] = ["TEXT ", "text", "Text", "", "URL", "DATETIME", "CAL_ADDRESS", "UTCOFFSET", "BOOL", "INT", "DATE-TIME-X", "DAT", "X-T", "TEXTS", "NONE", "TIM"];

fn types_enum(c: &mut Case) -> Res {
    let i = c.index as usize;
    let n = 46 + 22;
    let (ni, ti) = (i % n, i / n);
    const MORE: [&str; 22] = [
        "NAME", "X-FOO", "REFRESH-INTERVAL", "COLOR", "IMAGE", "SOURCE", "summary", "Summary", "SUMMARYX", "SUMMAR", "DTSTARTS", "X-SUMMARY", "TIMEZONE-ID",
        "STREET-ADDRESS", "dtstart", "uid", "VALUE", "TEXT", "RESOURCE", "CATEGORY", "É", "TRIGGERs",
    ];
    let name = if ni < 46 { refs::DEFAULTS[ni].0 } else { MORE[ni - 46] };
    let vp = if ti == 0 {
        None
    } else if ti <= 14 {
        Some(refs::VALUE_TYPES[ti - 1])
    } else {
        Some(ODD_TYPES[ti - 15])
    };
    types_check(c, name, vp)
}

fn types_random(c: &mut Case) -> Res {
    let name = gen::name(&mut c.r);
    let vp = if c.r.chance(1, 2) {
        None
    } else {
        Some(match c.r.below(3) {
            0 => gen::short(&mut c.r, gen::NO_BREAK),
            1 => {
                let mut t: Vec<char> = c.r.pick(&refs::VALUE_TYPES).chars().collect();
                let i = c.r.below(t.len());
                t[i] = gen::name_char(&mut c.r);
                t.into_iter().collect()
            }
            _ => c.r.pick(&refs::VALUE_TYPES).to_string(),
        })
    };
    types_check(c, &name, vp.as_deref())
}

fn wire_names(c: &mut Case) -> Res {
    use ic::ValueType as V;
    let all = [V::Binary, V::Boolean, V::CalAddress, V::Date, V::DateTime, V::Duration, V::Float, V::Integer, V::Period, V::Recur, V::Text, V::Time, V::Uri, V::UtcOffset];
    let i = c.index as usize;
    if i < 14 {
        let t = all[i];
        c.input = format!("{t:?}");
        let p = ic::Parameter::from(t);
        ensure!(p.key() == "VALUE" && p.value() == refs::VALUE_TYPES[i], "{t:?} becomes {p:?}");
        ensure!(V::try_from(p.clone()) == Ok(t), "{t:?} -> {p:?} -> {:?}", V::try_from(p.clone()));
        ensure!(V::from_str(refs::VALUE_TYPES[i]) == Ok(t), "{} reads as {:?}", refs::VALUE_TYPES[i], V::from_str(refs::VALUE_TYPES[i]));
        ensure!(V::try_from(ic::Parameter::new("VALUE", refs::VALUE_TYPES[i])) == Ok(t), "VALUE={}", refs::VALUE_TYPES[i]);
        ensure!(V::try_from(ic::Parameter::new("VALUES", refs::VALUE_TYPES[i])).is_err(), "a VALUES parameter is taken for VALUE");
    } else if i < 30 {
        let s = ODD_TYPES[i - 14];
        c.input = format!("{s:?}");
        ensure!(V::from_str(s).is_err(), "{s:?} reads as {:?}", V::from_str(s));
        ensure!(V::try_from(ic::Parameter::new("VALUE", s)).is_err(), "VALUE={s} is accepted");
    } else {
        return enums(c, i - 30);
    }
    Ok(())
}

fn enums(c: &mut Case, i: usize) -> Res {
    let class = [(ic::Class::Public, "PUBLIC"), (ic::Class::Private, "PRIVATE"), (ic::Class::Confidential, "CONFIDENTIAL")];
    let es = [(ic::EventStatus::Tentative, "TENTATIVE"), (ic::EventStatus::Confirmed, "CONFIRMED"), (ic::EventStatus::Cancelled, "CANCELLED")];
    let ts = [
        (ic::TodoStatus::NeedsAction, "NEEDS-ACTION"), (ic::TodoStatus::Completed, "COMPLETED"), (ic::TodoStatus::InProcess, "IN-PROCESS"),
        (ic::TodoStatus::Cancelled, "CANCELLED"),
    ];
    const BAD: [&str; 12] = ["", "public", "PUBLIC ", "NEEDSACTION", "NEEDS_ACTION", "INPROCESS", "COMPLETE", "CANCELED", "FINAL", "DRAFT", "X-A", "SECRET"];
    match i {
        0..=2 => {
            let (v, s) = class[i];
            c.input = s.to_string();
            let p = ic::Property::from(v);
            ensure!(p.key() == "CLASS" && p.value() == s && p.params().is_empty(), "{v:?} becomes {p:?}");
            ensure!(ic::Event::new().append_property(p).get_class() == Some(v), "{v:?} does not read back");
            ensure!(ic::Todo::new().add_property("CLASS", s).get_class() == Some(v), "{s} does not read as {v:?}");
        }
        3..=5 => {
            let (v, s) = es[i - 3];
            c.input = s.to_string();
            let p = ic::Property::from(v);
            ensure!(p.key() == "STATUS" && p.value() == s && p.params().is_empty(), "{v:?} becomes {p:?}");
            ensure!(ic::Event::new().append_property(p).get_status() == Some(v), "{v:?} does not read back");
            ensure!(ic::Event::new().add_property("STATUS", s).get_status() == Some(v), "{s}");
        }
        6..=9 => {
            let (v, s) = ts[i - 6];
            c.input = s.to_string();
            let p = ic::Property::from(v);
            ensure!(p.key() == "STATUS" && p.value() == s && p.params().is_empty(), "{v:?} becomes {p:?}");
            ensure!(ic::Todo::new().append_property(p).get_status() == Some(v), "{v:?} does not read back");
            ensure!(ic::Todo::new().add_property("STATUS", s).get_status() == Some(v), "{s}");
        }
        10 | 11 => {
            let (v, s) = if i == 10 { (ic::Related::Start, "START") } else { (ic::Related::End, "END") };
            c.input = s.to_string();
            let p = ic::Parameter::from(v);
            ensure!(p.key() == "RELATED" && p.value() == s, "{v:?} becomes {p:?}");
            ensure!(ic::Related::from_str(s) == Ok(v), "{s} reads as {:?}", ic::Related::from_str(s));
        }
        _ => {
            let s = BAD[(i - 12) % 12];
            c.input = format!("{s:?}");
            ensure!(ic::Event::new().add_property("CLASS", s).get_class().is_none(), "CLASS {s:?} reads as a class");
            ensure!(ic::Event::new().add_property("STATUS", s).get_status().is_none(), "STATUS {s:?} reads as an event status");
            ensure!(ic::Todo::new().add_property("STATUS", s).get_status().is_none(), "STATUS {s:?} reads as a todo status");
            ensure!(ic::Related::from_str(s).is_err(), "RELATED {s:?} is accepted");
            for (k, _) in [("COMPLETED", 0), ("NEEDS-ACTION", 0), ("IN-PROCESS", 0)] {
                ensure!(ic::Event::new().add_property("STATUS", k).get_status().is_none(), "an event takes {k}");
            }
            for k in ["TENTATIVE", "CONFIRMED"] {
                ensure!(ic::Todo::new().add_property("STATUS", k).get_status().is_none(), "a todo takes {k}");
            }
        }
    }
    Ok(())
}

pub fn c12() -> Vec<Oracle> {
    vec![
        Oracle { name: "wire_names", quick: 30 + 24, exhaustive: true, rule: "every value type, class, status and relation, and strings that are none", run: wire_names },
        Oracle { name: "types_enum", quick: 68 * 31, exhaustive: true, rule: "46 RFC names and 22 others x no VALUE, the 14 types and 16 non-types; non-trivial: has a type", run: types_enum },
        Oracle { name: "types_random", quick: 20_000, exhaustive: false, rule: "random names near the known ones; non-trivial: has a type", run: types_random },
    ]
}

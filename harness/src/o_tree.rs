//! C05 component serialization, C06 calendar round trip, C08 conversion, C11 setters, C13 calendar operations
use crate::gen::{self, GC, GP};
use crate::o_text::print;
use crate::o_time;
use crate::refs;
use crate::rng::Rng;
use crate::{ensure, Case, Oracle, Res};
use chrono::{DateTime, Duration, Utc};
use ic::{CalendarComponent, Component, EventLike};
use icalendar as ic;
use icalendar::parser as pp;
use std::collections::BTreeMap;
use std::str::FromStr;

/// model of a component
#[derive(Clone, Debug, Default)]
pub struct M {
    kind: String,
    props: BTreeMap<String, GP>,
    multi: BTreeMap<String, Vec<GP>>,
    kids: Vec<M>,
}

fn fill<C: Component>(c: &mut C, m: &M) {
    for p in m.props.values() {
        c.append_property(p.lib());
    }
    for v in m.multi.values() {
        for p in v {
            c.append_multi_property(p.lib());
        }
    }
    for k in &m.kids {
        match k.kind.as_str() {
            "VEVENT" => c.append_component(event(k)),
            "VTODO" => c.append_component(todo(k)),
            "VVENUE" => c.append_component(venue(k)),
            "VALARM" => c.append_component(alarm(k)),
            _ => {
                let mut comp = other(k);
                match &mut comp {
                    CalendarComponent::Other(o) => c.append_component(o.clone()),
                    _ => unreachable!(),
                }
            }
        };
    }
}
fn event(m: &M) -> ic::Event {
    let mut e = ic::Event::new();
    fill(&mut e, m);
    e
}
fn todo(m: &M) -> ic::Todo {
    let mut e = ic::Todo::new();
    fill(&mut e, m);
    e
}
fn venue(m: &M) -> ic::Venue {
    let mut e = ic::Venue::new();
    fill(&mut e, m);
    e
}
fn alarm(m: &M) -> ic::Alarm {
    let mut e = ic::Alarm::audio(Duration::seconds(1)).done();
    fill(&mut e, m);
    e
}
fn other(m: &M) -> CalendarComponent {
    let mut c = CalendarComponent::from(pp::Component { name: m.kind.as_str().into(), properties: vec![], components: vec![] });
    if let CalendarComponent::Other(o) = &mut c {
        fill(o, m);
    }
    c
}
fn wrap(m: &M) -> CalendarComponent {
    match m.kind.as_str() {
        "VEVENT" => event(m).into(),
        "VTODO" => todo(m).into(),
        "VVENUE" => venue(m).into(),
        _ => other(m),
    }
}

fn gen_model(r: &mut Rng, depth: usize, top: bool, ids: bool, params: usize) -> M {
    let mut m = M::default();
    m.kind = loop {
        let k = match r.below(6) {
            0 | 1 => "VEVENT".to_string(),
            2 => "VTODO".to_string(),
            3 => "VVENUE".to_string(),
            4 => "VALARM".to_string(),
            _ => gen::comp_name(r),
        };
        if !(top && k == "VALARM") {
            break k;
        }
    };
    let np = r.below(6);
    for _ in 0..gen::count(r, np, 60) {
        let n = gen::name(r);
        if refs::MULTI.contains(&n.as_str()) || n == "IANA-PROP" || n == "X-PROP" {
            continue;
        }
        let p = gen::property_named(r, n.clone(), false, params);
        m.props.insert(n, p);
    }
    if m.kind == "VALARM" {
        for n in ["ACTION", "TRIGGER"] {
            let p = gen::property_named(r, n.to_string(), false, params);
            m.props.insert(n.to_string(), p);
        }
    }
    for n in ["DTSTAMP", "UID"] {
        if ids || r.chance(1, 2) {
            let p = gen::property_named(r, n.to_string(), false, params);
            m.props.insert(n.to_string(), p);
        } else {
            m.props.remove(n);
        }
    }
    for _ in 0..r.below(4) {
        let n = if !ids && r.chance(1, 4) {
            r.pick(&["X-SOME-UID", "X-DTSTAMP", "X-M", "UIDS", "DTSTAMPS", "UI", "x-uid", "END-UID"]).to_string()
        } else {
            r.pick(&refs::MULTI).to_string()
        };
        if m.props.contains_key(&n) {
            continue;
        }
        if !ids && r.chance(1, 6) {
            // the same name, and maybe the same value, as a property and as one of many
            let names: Vec<String> = m.props.keys().filter(|k| *k != "UID" && *k != "DTSTAMP").cloned().collect();
            if !names.is_empty() {
                let k = r.pick(&names).clone();
                let v = m.multi.entry(k.clone()).or_default();
                v.push(m.props[&k].clone());
                if r.chance(1, 2) {
                    v.push(gen::property_named(r, k, false, params));
                }
                continue;
            }
        }
        let p = gen::property_named(r, n.clone(), false, params);
        let v = m.multi.entry(n).or_default();
        v.push(p.clone());
        if r.chance(1, 4) {
            for _ in 0..gen::count(r, 1, 12) {
                let mut p = p.clone();
                if r.chance(1, 3) {
                    p.val = gen::short(r, gen::NO_BREAK);
                }
                v.push(p);
            }
        }
    }
    let nk = if depth == 0 { 0 } else { *r.pick(&[0, 0, 1, 1, 2, 3]) };
    let (nk, below) = if depth > 0 && r.chance(1, 80) { (gen::count(r, nk, 1), 0) } else { (nk, depth.saturating_sub(1)) };
    for _ in 0..nk {
        m.kids.push(gen_model(r, below, false, ids, params));
    }
    if depth >= 2 && r.chance(1, 100) {
        for _ in 0..gen::number(r).min(40) {
            let mut p = gen_model(r, 0, false, ids, params);
            p.kids.extend(m.kids.pop());
            m.kids.push(p);
        }
    }
    if !m.kids.is_empty() && r.chance(1, 6) {
        let k = m.kids[r.below(m.kids.len())].clone();
        m.kids.push(k);
    }
    m
}

/// content lines, still folded
fn logical(s: &str) -> Result<Vec<String>, String> {
    ensure_ok(s.ends_with("\r\n"), "does not end with CRLF")?;
    let mut out: Vec<String> = vec![];
    for l in s[..s.len() - 2].split("\r\n") {
        if l.starts_with(' ') && !out.is_empty() {
            let last = out.last_mut().unwrap();
            last.push_str("\r\n");
            last.push_str(l);
        } else {
            out.push(l.to_string());
        }
    }
    Ok(out)
}
fn ensure_ok(b: bool, m: &str) -> Result<(), String> {
    if b { Ok(()) } else { Err(m.to_string()) }
}

/// checks the lines of one component starting at `at`; returns the position behind its END
fn check_lines(ls: &[String], at: usize, m: &M) -> Result<usize, String> {
    let mut i = at;
    let get = |i: usize| ls.get(i).cloned().unwrap_or_default();
    ensure!(refs::join_folds(&get(i)) == format!("BEGIN:{}", m.kind), "expected BEGIN:{} at line {i}, found {:?}", m.kind, get(i));
    i += 1;
    let mut want: Vec<String> = m.props.values().map(|p| print(p.lib()).trim_end_matches("\r\n").to_string()).collect();
    let mut multi: BTreeMap<&str, std::collections::VecDeque<String>> = BTreeMap::new();
    for (k, v) in &m.multi {
        multi.insert(k, v.iter().map(|p| print(p.lib()).trim_end_matches("\r\n").to_string()).collect());
    }
    let (mut stamp, mut uid) = (m.props.contains_key("DTSTAMP"), m.props.contains_key("UID"));
    let mut multi_seen = false;
    loop {
        let l = get(i);
        if l.starts_with("BEGIN:") || l.starts_with("END:") || i >= ls.len() {
            break;
        }
        if let Some(k) = want.iter().position(|w| *w == l) {
            ensure!(!multi_seen, "property line {l:?} after the multi-properties");
            want.remove(k);
        } else if let Some((_, q)) = multi.iter_mut().find(|(_, q)| q.front() == Some(&l)) {
            q.pop_front();
            multi_seen = true;
        } else if !stamp && l.strip_prefix("DTSTAMP:").is_some_and(is_stamp) {
            stamp = true;
        } else if !uid && l.strip_prefix("UID:").is_some_and(|u| !u.is_empty()) {
            uid = true;
        } else {
            return Err(format!("unexpected line {l:?} in {} (missing: {want:?} {multi:?})", m.kind));
        }
        i += 1;
    }
    ensure!(want.is_empty(), "missing in {}: {want:?}", m.kind);
    ensure!(multi.values().all(|q| q.is_empty()), "missing in {}: {multi:?}", m.kind);
    ensure!(stamp, "no DTSTAMP in {}", m.kind);
    ensure!(uid, "no UID in {}", m.kind);
    for k in &m.kids {
        i = check_lines(ls, i, k)?;
    }
    ensure!(refs::join_folds(&get(i)) == format!("END:{}", m.kind), "expected END:{} at line {i}, found {:?}", m.kind, get(i));
    Ok(i + 1)
}

fn is_stamp(s: &str) -> bool {
    let b = s.as_bytes();
    b.len() == 16 && b[8] == b'T' && b[15] == b'Z' && (0..15).all(|i| i == 8 || b[i].is_ascii_digit())
}

fn comp_lines(c: &mut Case) -> Res {
    let m = gen_model(&mut c.r, 3, false, false, 1);
    c.input = format!("{m:?}");
    c.trivial = m.props.is_empty() && m.multi.is_empty() && m.kids.is_empty();
    // every way to write it
    fn text<C: Component + TryInto<String, Error = std::fmt::Error>>(c: C, way: usize) -> String {
        match way {
            0 => c.to_string(),
            1 => c.try_into_string().expect("try_into_string"),
            _ => c.try_into().expect("try_into"),
        }
    }
    let way = c.r.below(3);
    let (s, kind) = match m.kind.as_str() {
        "VEVENT" => (text(event(&m), way), event(&m).component_kind()),
        "VTODO" => (text(todo(&m), way), todo(&m).component_kind()),
        "VVENUE" => (text(venue(&m), way), venue(&m).component_kind()),
        "VALARM" => (text(alarm(&m), way), alarm(&m).component_kind()),
        _ => match other(&m) {
            CalendarComponent::Other(o) => (if way == 0 { o.to_string() } else { o.try_into_string().expect("try_into_string") }, o.component_kind()),
            _ => unreachable!(),
        },
    };
    ensure!(kind == m.kind, "component_kind is {kind}, not {}", m.kind);
    let ls = logical(&s)?;
    let end = check_lines(&ls, 0, &m)?;
    ensure!(end == ls.len(), "text after END:{}: {:?}", m.kind, &ls[end..]);
    if m.kind != "VALARM" {
        let mut cal = ic::Calendar::empty();
        cal.push(wrap(&m));
        let s: String = if way == 0 { cal.to_string() } else { (&cal).try_into().expect("try_into") };
        let ls = logical(&s)?;
        ensure!(ls[0] == "BEGIN:VCALENDAR", "calendar begins with {:?}", ls[0]);
        let end = check_lines(&ls, 1, &m)?;
        ensure!(end + 1 == ls.len() && ls[end] == "END:VCALENDAR", "calendar ends with {:?}", &ls[end..]);
    }
    Ok(())
}

/// print() to standard output of values made from the seed, each with the text expected
pub fn print_all(what: &str, seed: u64, index: u64) -> Vec<(Box<dyn Fn()>, String)> {
    let mut r = Rng::new(seed, crate::rng::hash(what), index);
    (0..20)
        .map(|_| -> (Box<dyn Fn()>, String) {
            match what {
                "C14" => {
                    let mut prop = crate::o_parse::any_prop;
                    let g = gen::component_named(&mut r, "VCALENDAR".into(), 2, &mut prop);
                    let cal = move || pp::Calendar { properties: g.parsed().properties.into_iter().collect(), components: g.parsed().components.into_iter().collect() }.to_string();
                    let s = cal();
                    (Box::new({ let s = s.clone(); move || pp::read_calendar(&pp::unfold(&s)).unwrap().print().unwrap() }), s)
                }
                "C13" => {
                    let mut cal = ic::Calendar::new();
                    for _ in 0..r.below(3) {
                        cal.push(wrap(&gen_model(&mut r, 1, true, true, 1)));
                    }
                    let s = cal.to_string();
                    (Box::new(move || cal.print().unwrap()), s)
                }
                _ => {
                    let m = gen_model(&mut r, 1, true, true, 1);
                    match wrap(&m) {
                        CalendarComponent::Event(e) => { let s = e.to_string(); (Box::new(move || e.print().unwrap()), s) }
                        CalendarComponent::Todo(e) => { let s = e.to_string(); (Box::new(move || e.print().unwrap()), s) }
                        CalendarComponent::Venue(e) => { let s = e.to_string(); (Box::new(move || e.print().unwrap()), s) }
                        CalendarComponent::Other(e) => { let s = e.to_string(); (Box::new(move || e.print().unwrap()), s) }
                        _ => unreachable!(),
                    }
                }
            }
        })
        .collect()
}

/// one line break more than the text may follow it
pub fn printed(c: &mut Case, what: &str) -> Res {
    let (seed, index) = (c.r.below(1 << 20) as u64, c.index);
    c.input = format!("print {what} {seed} {index}");
    let o = std::process::Command::new(std::env::current_exe().unwrap()).args(["print", what, &seed.to_string(), &index.to_string()]).output().map_err(|e| e.to_string())?;
    ensure!(o.status.success(), "print ended with {}", o.status);
    let got = String::from_utf8(o.stdout).map_err(|e| e.to_string())?;
    let mut rest = got.as_str();
    for (_, s) in print_all(what, seed, index) {
        rest = rest.strip_prefix(s.as_str()).ok_or_else(|| format!("print writes {rest:?} instead of {s:?}"))?;
        rest = rest.strip_prefix("\r\n").unwrap_or(rest);
    }
    ensure!(rest.is_empty(), "print writes more: {rest:?}");
    Ok(())
}

fn print_comp(c: &mut Case) -> Res { printed(c, "C05") }
fn print_cal(c: &mut Case) -> Res { printed(c, "C13") }
pub fn print_parsed(c: &mut Case) -> Res { printed(c, "C14") }

pub fn c05() -> Vec<Oracle> {
    vec![Oracle { name: "print_comp", quick: 5, exhaustive: false, rule: "what print() of a component writes to standard output", run: print_comp },
        Oracle { name: "comp_lines", quick: 12_000, exhaustive: false, rule: "random component trees (depth up to 4) of all kinds, line by line, alone and in a calendar; non-trivial: has properties or children", run: comp_lines }]
}

// ---------------------------------------------------------------------------------------------- C06

fn cal_roundtrip(c: &mut Case) -> Res {
    let depth = *c.r.pick(&[0, 1, 1, 2, 3]);
    let props: Vec<GP> = (0..c.r.below(5)).map(|_| gen::property(&mut c.r)).collect();
    let n = c.r.below(4);
    let n = gen::count(&mut c.r, n, 100);
    let depth = if n > 4 { 1 } else { depth };
    let comps: Vec<M> = (0..n).map(|_| gen_model(&mut c.r, depth, true, true, 4)).collect();
    c.input = format!("properties {props:?} components {comps:?}");
    c.trivial = comps.is_empty();
    let mut cal = if c.r.chance(1, 2) { ic::Calendar::new() } else { ic::Calendar::empty() };
    for p in &props {
        cal.append_property(p.lib());
    }
    for m in &comps {
        cal.push(wrap(m));
    }
    let s: String = if c.r.chance(1, 3) { (&cal).try_into().expect("try_into") } else { cal.to_string() };
    let back = ic::Calendar::from_str(&s).map_err(|e| format!("does not parse: {e}\n{s}"))?;
    ensure!(back == cal, "wrote {cal:?}\nread {back:?}\ntext {s:?}");
    Ok(())
}

/// a calendar that was read is written and read back as the same calendar
fn cal_reread(c: &mut Case) -> Res {
    let mut prop = |r: &mut Rng| gen::property(r);
    let mut g = gen::component_named(&mut c.r, "VCALENDAR".into(), 3, &mut prop);
    fn fix(g: &mut GC, top: bool) {
        if !top {
            for n in ["DTSTAMP", "UID"] {
                if !g.props.iter().any(|p| p.name == n) {
                    g.props.push(GP { name: n.into(), params: vec![], val: "x".into() });
                }
            }
        }
        g.kids.iter_mut().for_each(|k| fix(k, false));
    }
    fix(&mut g, true);
    c.input = format!("{g:?}");
    c.trivial = g.kids.is_empty();
    let cal = ic::Calendar::from(pp::Calendar { properties: g.parsed().properties, components: g.parsed().components });
    let s = cal.to_string();
    let back = ic::Calendar::from_str(&s).map_err(|e| format!("does not parse: {e}\n{s}"))?;
    ensure!(back == cal, "wrote {cal:?}\nread {back:?}\ntext {s:?}");
    Ok(())
}

pub fn c06() -> Vec<Oracle> {
    vec![
        Oracle { name: "cal_roundtrip", quick: 12_000, exhaustive: false, rule: "calendars built with the API, written and parsed; non-trivial: has components", run: cal_roundtrip },
        Oracle { name: "cal_reread", quick: 8_000, exhaustive: false, rule: "calendars converted from parsed trees, written and parsed; non-trivial: has components", run: cal_reread },
    ]
}

// ---------------------------------------------------------------------------------------------- C08

fn check_conv<C: Component>(got: &C, g: &GC, path: &str) -> Res {
    let path = format!("{path}/{}", g.name);
    ensure!(got.component_kind() == g.name, "{path}: kind {:?}", got.component_kind());
    let mut props: BTreeMap<String, ic::Property> = BTreeMap::new();
    let mut multi: BTreeMap<String, Vec<ic::Property>> = BTreeMap::new();
    for p in &g.props {
        if refs::MULTI.contains(&p.name.as_str()) {
            multi.entry(p.name.clone()).or_default().push(p.lib());
        } else {
            props.insert(p.name.clone(), p.lib());
        }
    }
    ensure!(*got.properties() == props, "{path}: properties {:?}\nexpected {props:?}", got.properties());
    ensure!(*got.multi_properties() == multi, "{path}: multi-properties {:?}\nexpected {multi:?}", got.multi_properties());
    ensure!(got.components().len() == g.kids.len(), "{path}: {} children, expected {}", got.components().len(), g.kids.len());
    for (k, w) in got.components().iter().zip(&g.kids) {
        check_conv(k, w, &path)?;
    }
    Ok(())
}

fn check_conv_cal(got: &CalendarComponent, g: &GC) -> Res {
    match (got, g.name.as_str()) {
        (CalendarComponent::Event(e), "VEVENT") => check_conv(e, g, ""),
        (CalendarComponent::Todo(e), "VTODO") => check_conv(e, g, ""),
        (CalendarComponent::Venue(e), "VVENUE") => check_conv(e, g, ""),
        (CalendarComponent::Other(e), n) if n != "VEVENT" && n != "VTODO" && n != "VVENUE" => check_conv(e, g, ""),
        _ => Err(format!("{} becomes {got:?}", g.name)),
    }
}

fn conv_prop(r: &mut Rng) -> GP {
    let n = match r.below(6) {
        0 | 1 => r.pick(&refs::MULTI).to_string(),
        2 => r.pick(&["SUMMARY", "DTSTART", "X-A", "attendee", "Comment", "ATTENDEES", "EXDAT", "CATEGORY", "X-COMMENT", "RRULE", "EXRULE", "RELATED", "REQUEST", "GEO"]).to_string(),
        _ => gen::name(r),
    };
    let mut p = gen::property_named(r, n, false, 4);
    if p.params.len() > 0 && r.chance(1, 6) {
        p.params[0].1 = None;
    }
    p
}

fn convert(c: &mut Case) -> Res {
    let mut prop = conv_prop;
    let mut cal = gen::component_named(&mut c.r, "VCALENDAR".into(), 3, &mut prop);
    if let Some(k) = cal.kids.first_mut() {
        // a crowded component
        for _ in 0..c.r.below(25) {
            k.props.push(conv_prop(&mut c.r));
        }
    }
    c.input = format!("{cal:?}");
    c.trivial = cal.kids.is_empty();
    for k in &cal.kids {
        check_conv_cal(&CalendarComponent::from(k.parsed()), k)?;
    }
    let whole = ic::Calendar::from(pp::Calendar { properties: cal.parsed().properties, components: cal.parsed().components });
    let want: Vec<ic::Property> = cal.props.iter().map(GP::lib).collect();
    ensure!(whole.properties == want, "calendar properties {:?}\nexpected {want:?}", whole.properties);
    ensure!(whole.components.len() == cal.kids.len(), "{} components, expected {}", whole.components.len(), cal.kids.len());
    for (a, b) in whole.components.iter().zip(&cal.kids) {
        check_conv_cal(a, b)?;
    }
    // bare roots, and the components of a calendar given as a root
    let roots: Vec<pp::Component> = if c.r.chance(1, 2) && cal.kids.first().is_none_or(|k| k.name != "VCALENDAR") { cal.kids.iter().map(GC::parsed).collect() } else { vec![cal.parsed()] };
    let whole = ic::Calendar::from(roots);
    ensure!(whole.components.len() == cal.kids.len(), "{} components from the roots, expected {}", whole.components.len(), cal.kids.len());
    for (a, b) in whole.components.iter().zip(&cal.kids) {
        check_conv_cal(a, b)?;
    }
    // owned copies of the parsed texts
    for p in cal.parsed().properties {
        for t in [&p.name, &p.val] {
            ensure!(t.to_owned().as_str() == t.as_str() && t.clone().into_owned().as_str() == t.as_str(), "owned copy of {t:?}");
        }
        let t = pp::ParseString::from(p.val.as_str().to_string());
        ensure!(t.to_owned().as_str() == p.val.as_str() && t == p.val && t.clone().into_owned() == p.val, "owned copy of {:?}", p.val);
    }
    Ok(())
}

fn conv_enum(c: &mut Case) -> Res {
    let i = c.index as usize;
    let names: Vec<&str> = refs::MULTI.iter().copied().chain(refs::DEFAULTS.iter().map(|d| d.0)).collect();
    let n = names[i % names.len()];
    let kind = ["VEVENT", "VTODO", "VVENUE", "VALARM", "VTIMEZONE", "vevent", "VEVENTX"][i / names.len() % 7];
    let p = |n: &str, v: &str| GP { name: n.into(), params: vec![("X-I".into(), Some(v.into()))], val: v.into() };
    let g = GC { name: kind.into(), props: vec![p(n, "1"), p("X-SEP", "0"), p(n, "2"), p(n, "3")], kids: vec![GC { name: kind.into(), props: vec![p(n, "4"), p(n, "5")], kids: vec![] }] };
    c.input = format!("{kind} with {n} three times and a child with it twice");
    check_conv_cal(&CalendarComponent::from(g.parsed()), &g)
}

/// the same conversion reached from text
fn conv_text(c: &mut Case) -> Res {
    let i = c.index as usize % 57;
    let names: Vec<&str> = refs::MULTI.iter().copied().chain(refs::DEFAULTS.iter().map(|d| d.0)).collect();
    let n = names[i];
    let s = format!("BEGIN:VEVENT\r\n{n}:1\r\nX-A:2\r\n{n};X-P=Q:3\r\nBEGIN:VALARM\r\n{n}:4\r\n{n}:5\r\nEND:VALARM\r\nEND:VEVENT\r\n");
    c.input = s.clone();
    let got = CalendarComponent::from_str(&s).map_err(|e| format!("does not parse: {e}"))?;
    let p = |n: &str, v: &str| GP { name: n.into(), params: vec![], val: v.into() };
    let mut q = p(n, "3");
    q.params.push(("X-P".into(), Some("Q".into())));
    let g = GC { name: "VEVENT".into(), props: vec![p(n, "1"), p("X-A", "2"), q], kids: vec![GC { name: "VALARM".into(), props: vec![p(n, "4"), p(n, "5")], kids: vec![] }] };
    check_conv_cal(&got, &g)
}

pub fn c08() -> Vec<Oracle> {
    vec![
        Oracle { name: "conv_enum", quick: 57 * 7, exhaustive: true, rule: "every RFC property name repeated, in seven kinds of component", run: conv_enum },
        Oracle { name: "conv_text", quick: 57, exhaustive: true, rule: "the same from text", run: conv_text },
        Oracle { name: "convert", quick: 12_000, exhaustive: false, rule: "random parsed trees converted and compared with an independent conversion; non-trivial: has components", run: convert },
    ]
}

// ---------------------------------------------------------------------------------------------- C11

/// expected state of a component under a history of setters
#[derive(Default, Clone)]
struct State {
    props: BTreeMap<String, GP>,
    multi: BTreeMap<String, Vec<GP>>,
    kids: Vec<String>,
}

fn gp(n: &str, v: &str) -> GP {
    GP { name: n.into(), params: vec![], val: v.into() }
}

fn same_prop(got: &ic::Property, want: &GP) -> bool {
    got.key() == want.name
        && got.value() == want.val
        && got.params().len() == want.params.len()
        && want.params.iter().all(|(k, v)| got.params().get(k).is_some_and(|p| p.key() == k && Some(p.value()) == v.as_deref()))
}

fn check_state<C: Component>(c: &C, s: &State) -> Res {
    ensure!(c.properties().len() == s.props.len(), "properties {:?}\nexpected {:?}", c.properties(), s.props);
    for (k, w) in &s.props {
        ensure!(c.properties().get(k).is_some_and(|p| same_prop(p, w)), "property {k} is {:?}\nexpected {w:?}", c.properties().get(k));
    }
    ensure!(c.multi_properties().len() == s.multi.len(), "multi-properties {:?}\nexpected {:?}", c.multi_properties(), s.multi);
    for (k, w) in &s.multi {
        let g = c.multi_properties().get(k).map(Vec::as_slice).unwrap_or(&[]);
        ensure!(g.len() == w.len() && g.iter().zip(w).all(|(a, b)| same_prop(a, b)), "multi-property {k} is {g:?}\nexpected {w:?}");
    }
    ensure!(c.components().len() == s.kids.len(), "{} children, expected {}", c.components().len(), s.kids.len());
    for (g, w) in c.components().iter().zip(&s.kids) {
        ensure!(g.get_uid() == Some(w.as_str()), "child {:?}, expected the one with UID {w:?}", g);
    }
    Ok(())
}

#[derive(Default, Clone)]
struct Want {
    stamp: Option<DateTime<Utc>>,
    modified: Option<DateTime<Utc>>,
    created: Option<DateTime<Utc>>,
    start: Option<ic::DatePerhapsTime>,
    end: Option<ic::DatePerhapsTime>,
    priority: Option<u32>,
    sequence: Option<u32>,
    class: Option<ic::Class>,
    text: BTreeMap<&'static str, String>,
}

fn check_getters<C: Component>(c: &C, w: &Want) -> Res {
    ensure!(c.get_timestamp() == w.stamp, "get_timestamp {:?}, set {:?}", c.get_timestamp(), w.stamp);
    ensure!(c.get_last_modified() == w.modified, "get_last_modified {:?}, set {:?}", c.get_last_modified(), w.modified);
    ensure!(c.get_created() == w.created, "get_created {:?}, set {:?}", c.get_created(), w.created);
    ensure!(c.get_start() == w.start, "get_start {:?}, set {:?}", c.get_start(), w.start);
    ensure!(c.get_end() == w.end, "get_end {:?}, set {:?}", c.get_end(), w.end);
    ensure!(c.get_priority() == w.priority, "get_priority {:?}, set {:?}", c.get_priority(), w.priority);
    ensure!(c.get_sequence() == w.sequence, "get_sequence {:?}, set {:?}", c.get_sequence(), w.sequence);
    ensure!(c.get_class() == w.class, "get_class {:?}, set {:?}", c.get_class(), w.class);
    let t = |k| w.text.get(k).map(String::as_str);
    ensure!(c.get_summary() == t("SUMMARY"), "get_summary {:?}, set {:?}", c.get_summary(), t("SUMMARY"));
    ensure!(c.get_description() == t("DESCRIPTION"), "get_description {:?}, set {:?}", c.get_description(), t("DESCRIPTION"));
    ensure!(c.get_uid() == t("UID"), "get_uid {:?}, set {:?}", c.get_uid(), t("UID"));
    ensure!(c.get_url() == t("URL"), "get_url {:?}, set {:?}", c.get_url(), t("URL"));
    Ok(())
}

/// the properties of the setters
const SET: [&str; 19] = [
    "DTSTAMP", "LAST-MODIFIED", "CREATED", "PRIORITY", "SEQUENCE", "SUMMARY", "DESCRIPTION", "UID", "URL", "CLASS", "DTSTART", "DTEND", "LOCATION", "STATUS", "DUE",
    "COMPLETED", "PERCENT-COMPLETE", "TRIGGER", "ACTION",
];

/// a name that looks like one of them
fn near(r: &mut Rng) -> String {
    let n = *r.pick(&SET);
    match r.below(6) {
        0 | 1 => n.to_lowercase(),
        2 => format!("{}{}", &n[..1], n[1..].to_lowercase()),
        3 => format!("X-{n}"),
        4 => format!("{n}S"),
        _ => n[..n.len() - 1].to_string(),
    }
}

/// one random call of the Component trait; returns its text
fn common_op<C: Component>(r: &mut Rng, c: &mut C, s: &mut State, w: &mut Want) -> String {
    let dt = o_time::utc(r);
    let ds = o_time::fmt_dt(&dt.naive_utc()) + "Z";
    let t = gen::short(r, gen::ANY);
    let n = if r.chance(1, 3) { gen::number(r) as u32 } else { *r.pick(&[0u32, 1, 5, 9, 10, 11, 12, 255, 256, 100_000, u32::MAX]) };
    let mut put = |g: GP| {
        s.props.insert(g.name.clone(), g);
    };
    match r.below(18) {
        16 => {
            // the property of a setter, as it is or replaced, but with a parameter
            let k = *r.pick(&["SUMMARY", "DESCRIPTION", "UID", "URL"]);
            let v = match s.props.get(k) {
                Some(g) if r.chance(2, 3) => g.val.clone(),
                _ => t,
            };
            let pk = gen::param_key(r);
            let g = GP { name: k.into(), params: vec![(pk.clone(), Some(gen::param_val(r, &pk, gen::ANY)))], val: v.clone() };
            c.append_property(g.lib());
            s.props.insert(k.into(), g.clone());
            w.text.insert(k, v);
            return format!("append_property({g:?})");
        }
        0 => {
            c.timestamp(dt);
            put(gp("DTSTAMP", &ds));
            w.stamp = Some(dt);
            format!("timestamp({dt})")
        }
        1 => {
            c.last_modified(dt);
            put(gp("LAST-MODIFIED", &ds));
            w.modified = Some(dt);
            format!("last_modified({dt})")
        }
        2 => {
            c.created(dt);
            put(gp("CREATED", &ds));
            w.created = Some(dt);
            format!("created({dt})")
        }
        3 => {
            c.priority(n);
            put(gp("PRIORITY", &n.min(10).to_string()));
            w.priority = Some(n.min(10));
            format!("priority({n})")
        }
        4 => {
            c.sequence(n);
            put(gp("SEQUENCE", &n.to_string()));
            w.sequence = Some(n);
            format!("sequence({n})")
        }
        5 => {
            c.summary(&t);
            put(gp("SUMMARY", &t));
            w.text.insert("SUMMARY", t.clone());
            format!("summary({t:?})")
        }
        6 => {
            c.description(&t);
            put(gp("DESCRIPTION", &t));
            w.text.insert("DESCRIPTION", t.clone());
            format!("description({t:?})")
        }
        7 => {
            c.uid(&t);
            put(gp("UID", &t));
            w.text.insert("UID", t.clone());
            format!("uid({t:?})")
        }
        8 => {
            c.url(&t);
            put(gp("URL", &t));
            w.text.insert("URL", t.clone());
            format!("url({t:?})")
        }
        9 => {
            let (v, x) = *r.pick(&[(ic::Class::Public, "PUBLIC"), (ic::Class::Private, "PRIVATE"), (ic::Class::Confidential, "CONFIDENTIAL")]);
            c.class(v);
            put(gp("CLASS", x));
            w.class = Some(v);
            format!("class({v:?})")
        }
        10 => {
            let k = if r.chance(1, 2) { near(r) } else { r.pick(&["X-A", "X-B", "TRANSP", "SUMMARIES", "COMMENT", "GEO"]).to_string() };
            if r.chance(1, 4) {
                #[allow(deprecated)]
                c.add_property_pre_alloc(k.clone(), t.clone());
            } else {
                c.add_property(k.clone(), t.clone());
            }
            put(gp(&k, &t));
            format!("add_property({k:?}, {t:?})")
        }
        11 => {
            let k = r.pick(&["X-A", "X-B", "COMMENT", "X-C"]).to_string();
            let g = GP { name: k, params: vec![("CN".into(), Some(t.clone()))], val: t };
            c.append_property(g.lib());
            put(g.clone());
            format!("append_property({g:?})")
        }
        12 => {
            let k = if r.chance(1, 4) { r.pick(&SET).to_string() } else { r.pick(&["ATTENDEE", "COMMENT", "X-A", "EXDATE", "SUMMARY"]).to_string() };
            c.add_multi_property(&k, &t);
            s.multi.entry(k.clone()).or_default().push(gp(&k, &t));
            format!("add_multi_property({k:?}, {t:?})")
        }
        13 => {
            let k = r.pick(&["ATTENDEE", "COMMENT", "X-A"]).to_string();
            let g = GP { name: k.clone(), params: vec![("CN".into(), Some(t.clone()))], val: t };
            c.append_multi_property(g.lib());
            s.multi.entry(k).or_default().push(g.clone());
            format!("append_multi_property({g:?})")
        }
        14 => {
            c.append_component(ic::Todo::new().uid(&t).done());
            s.kids.push(t.clone());
            format!("append_component(todo {t:?})")
        }
        _ => {
            c.append_component(ic::Venue::new().uid(&t).done());
            s.kids.push(t.clone());
            format!("append_component(venue {t:?})")
        }
    }
}

/// one random call of EventLike
fn event_op<C: EventLike>(r: &mut Rng, c: &mut C, s: &mut State, w: &mut Want) -> String {
    let t = gen::short(r, gen::ANY);
    let d = o_time::dpt(r);
    let put_date = |s: &mut State, n: &str, d: &ic::DatePerhapsTime| {
        let (v, params) = o_time::wire(d);
        s.props.insert(n.to_string(), GP { name: n.to_string(), params, val: v });
    };
    match r.below(6) {
        0 => {
            c.starts(d.clone());
            put_date(s, "DTSTART", &d);
            w.start = Some(d.clone());
            format!("starts({d:?})")
        }
        1 => {
            c.ends(d.clone());
            put_date(s, "DTEND", &d);
            w.end = Some(d.clone());
            format!("ends({d:?})")
        }
        2 => {
            let day = o_time::date(r);
            c.all_day(day);
            let d = ic::DatePerhapsTime::Date(day);
            put_date(s, "DTSTART", &d);
            put_date(s, "DTEND", &d);
            w.start = Some(d.clone());
            w.end = Some(d);
            format!("all_day({day})")
        }
        3 => {
            c.location(&t);
            s.props.insert("LOCATION".into(), gp("LOCATION", &t));
            w.text.insert("LOCATION", t.clone());
            format!("location({t:?})")
        }
        4 => {
            let u = gen::short(r, gen::ANY);
            c.venue(&t, &u);
            s.props.insert("LOCATION".into(), GP { name: "LOCATION".into(), params: vec![("VVENUE".into(), Some(u.clone()))], val: t.clone() });
            w.text.insert("LOCATION", t.clone());
            format!("venue({t:?}, {u:?})")
        }
        _ => {
            let mut a = ic::Alarm::display(&t, Duration::minutes(3));
            a.uid(&t);
            c.alarm(a.done());
            s.kids.push(t.clone());
            format!("alarm({t:?})")
        }
    }
}

fn setters_event(c: &mut Case) -> Res {
    let (mut e, mut s, mut w, mut status) = (ic::Event::new(), State::default(), Want::default(), None);
    check_state(&e, &s)?;
    let n = 1 + c.r.below(14);
    for _ in 0..gen::count(&mut c.r, n, 40) {
        let what = match c.r.below(8) {
            0 => {
                let (v, x) = *c.r.pick(&[(ic::EventStatus::Tentative, "TENTATIVE"), (ic::EventStatus::Confirmed, "CONFIRMED"), (ic::EventStatus::Cancelled, "CANCELLED")]);
                e.status(v);
                s.props.insert("STATUS".into(), gp("STATUS", x));
                status = Some(v);
                format!("status({v:?})")
            }
            1..=3 => event_op(&mut c.r, &mut e, &mut s, &mut w),
            4 if c.r.chance(1, 3) => {
                let f = e.done();
                check_state(&f, &s)?;
                check_state(&e, &State::default())?;
                e = f;
                "done()".to_string()
            }
            _ => common_op(&mut c.r, &mut e, &mut s, &mut w),
        };
        c.input += &what;
        c.input += "; ";
        check_state(&e, &s).map_err(|m| format!("after {}: {m}", c.input))?;
        check_getters(&e, &w).map_err(|m| format!("after {}: {m}", c.input))?;
        ensure!(e.get_status() == status, "get_status {:?} after {}", e.get_status(), c.input);
        ensure!(e.get_location() == w.text.get("LOCATION").map(String::as_str), "get_location {:?} after {}", e.get_location(), c.input);
    }
    Ok(())
}

fn setters_todo(c: &mut Case) -> Res {
    let (mut e, mut s, mut w) = (ic::Todo::new(), State::default(), Want::default());
    let (mut status, mut percent, mut due, mut completed) = (None, None, None, None);
    check_state(&e, &s)?;
    for _ in 0..1 + c.r.below(14) {
        let what = match c.r.below(10) {
            0 => {
                let (v, x) = *c.r.pick(&[
                    (ic::TodoStatus::NeedsAction, "NEEDS-ACTION"), (ic::TodoStatus::Completed, "COMPLETED"), (ic::TodoStatus::InProcess, "IN-PROCESS"),
                    (ic::TodoStatus::Cancelled, "CANCELLED"),
                ]);
                e.status(v);
                s.props.insert("STATUS".into(), gp("STATUS", x));
                status = Some(v);
                format!("status({v:?})")
            }
            1 => {
                let p = c.r.below(256) as u8;
                e.percent_complete(p);
                s.props.insert("PERCENT-COMPLETE".into(), gp("PERCENT-COMPLETE", &p.to_string()));
                percent = Some(p);
                format!("percent_complete({p})")
            }
            2 => {
                let d = o_time::dpt(&mut c.r);
                e.due(d.clone());
                let (v, params) = o_time::wire(&d);
                s.props.insert("DUE".into(), GP { name: "DUE".into(), params, val: v });
                due = Some(d.clone());
                format!("due({d:?})")
            }
            3 => {
                let d = o_time::utc(&mut c.r);
                e.completed(d);
                s.props.insert("COMPLETED".into(), gp("COMPLETED", &(o_time::fmt_dt(&d.naive_utc()) + "Z")));
                completed = Some(d);
                format!("completed({d})")
            }
            4 | 5 => event_op(&mut c.r, &mut e, &mut s, &mut w),
            6 if c.r.chance(1, 3) => {
                let f = e.done();
                check_state(&f, &s)?;
                check_state(&e, &State::default())?;
                e = f;
                "done()".to_string()
            }
            _ => common_op(&mut c.r, &mut e, &mut s, &mut w),
        };
        c.input += &what;
        c.input += "; ";
        check_state(&e, &s).map_err(|m| format!("after {}: {m}", c.input))?;
        check_getters(&e, &w).map_err(|m| format!("after {}: {m}", c.input))?;
        ensure!(e.get_status() == status, "get_status {:?} after {}", e.get_status(), c.input);
        ensure!(e.get_percent_complete() == percent, "get_percent_complete {:?} after {}", e.get_percent_complete(), c.input);
        ensure!(e.get_due() == due, "get_due {:?} after {}", e.get_due(), c.input);
        ensure!(e.get_completed() == completed, "get_completed {:?} after {}", e.get_completed(), c.input);
        ensure!(e.get_location() == w.text.get("LOCATION").map(String::as_str), "get_location {:?} after {}", e.get_location(), c.input);
    }
    Ok(())
}

fn setters_venue(c: &mut Case) -> Res {
    let (mut e, mut s, mut w) = (ic::Venue::new(), State::default(), Want::default());
    check_state(&e, &s)?;
    for _ in 0..1 + c.r.below(12) {
        let t = gen::short(&mut c.r, gen::ANY);
        let what = match c.r.below(9) {
            k @ 0..=5 => {
                let n = ["STREET-ADDRESS", "EXTENDED-ADDRESS", "LOCALITY", "REGION", "COUNTRY", "POSTAL-CODE"][k];
                match k {
                    0 => e.street_address(&t),
                    1 => e.extended_address(&t),
                    2 => e.locality(&t),
                    3 => e.region(&t),
                    4 => e.country(&t),
                    _ => e.postal_code(&t),
                };
                s.props.insert(n.into(), gp(n, &t));
                w.text.insert(n, t.clone());
                format!("{n}({t:?})")
            }
            6 if c.r.chance(1, 3) => {
                let f = e.done();
                check_state(&f, &s)?;
                check_state(&e, &State::default())?;
                e = f;
                "done()".to_string()
            }
            _ => common_op(&mut c.r, &mut e, &mut s, &mut w),
        };
        c.input += &what;
        c.input += "; ";
        check_state(&e, &s).map_err(|m| format!("after {}: {m}", c.input))?;
        check_getters(&e, &w).map_err(|m| format!("after {}: {m}", c.input))?;
        let t = |k| w.text.get(k).map(String::as_str);
        let ok = e.get_street_address() == t("STREET-ADDRESS")
            && e.get_extended_address() == t("EXTENDED-ADDRESS")
            && e.get_locality() == t("LOCALITY")
            && e.get_region() == t("REGION")
            && e.get_country() == t("COUNTRY")
            && e.get_postal_code() == t("POSTAL-CODE");
        ensure!(ok, "a venue getter of {e:?} disagrees after {}", c.input);
    }
    Ok(())
}

fn setters_alarm(c: &mut Case) -> Res {
    let mut e = ic::Alarm::audio(Duration::seconds(60));
    let mut s = State::default();
    let mut w = Want::default();
    s.props.insert("ACTION".into(), gp("ACTION", "AUDIO"));
    let trig = e.properties().get("TRIGGER").map(|p| p.value().to_string()).unwrap_or_default();
    s.props.insert("TRIGGER".into(), gp("TRIGGER", &trig));
    for _ in 0..1 + c.r.below(10) {
        let what = if c.r.chance(1, 10) {
            let f = e.done();
            check_state(&f, &s)?;
            check_state(&e, &State::default())?;
            e = f;
            "done()".to_string()
        } else if c.r.chance(1, 6) {
            let ms = *c.r.pick(&[0i64, 1, 1000, 60_000, 3_600_000, 86_400_000, -60_000]);
            let n = if c.r.chance(1, 2) { 0 } else { gen::number(&mut c.r) as u32 };
            let d = Duration::milliseconds(ms);
            e = e.duration_and_repeat(d, n);
            s.props.insert("DURATION".into(), gp("DURATION", &d.to_string()));
            s.props.insert("REPEAT".into(), gp("REPEAT", &n.to_string()));
            format!("duration_and_repeat({d}, {n})")
        } else {
            common_op(&mut c.r, &mut e, &mut s, &mut w)
        };
        c.input += &what;
        c.input += "; ";
        check_state(&e, &s).map_err(|m| format!("after {}: {m}", c.input))?;
        check_getters(&e, &w).map_err(|m| format!("after {}: {m}", c.input))?;
    }
    Ok(())
}

/// the builder of a single property
fn setters_property(c: &mut Case) -> Res {
    let g = gen::property(&mut c.r);
    c.input = format!("{g:?}");
    let mut p = ic::Property::new(g.name.clone(), g.val.clone());
    let mut params: BTreeMap<String, String> = BTreeMap::new();
    for (k, v) in &g.params {
        let v = v.clone().unwrap_or_default();
        if c.r.chance(1, 2) {
            p.add_parameter(k, &v);
        } else {
            p.append_parameter(ic::Parameter::new(k, &v));
        }
        params.insert(k.clone(), v);
        if c.r.chance(1, 3) {
            let v = gen::short(&mut c.r, gen::ANY);
            p.append_parameter((k.as_str(), v.as_str()));
            params.insert(k.clone(), v);
        }
    }
    let want = GP { params: params.iter().map(|(k, v)| (k.clone(), Some(v.clone()))).collect(), ..g };
    ensure!(same_prop(&p, &want), "{p:?} is not {want:?}");
    for (k, v) in &params {
        ensure!(p.get_param_as(k, |s| Some(s.to_string())).as_ref() == Some(v), "get_param_as({k:?})");
    }
    ensure!(p.get_value_as(|s| Some(s.len())) == Some(want.val.len()), "get_value_as");
    let q = p.done();
    ensure!(same_prop(&q, &want), "done() hands over {q:?}, not {want:?}");
    ensure!(p.key().is_empty() && p.value().is_empty() && p.params().is_empty(), "done() leaves {p:?}");
    Ok(())
}

pub fn c11() -> Vec<Oracle> {
    const R: &str = "random histories of up to 14 calls; the whole component and every getter are compared with a model after each call";
    vec![
        Oracle { name: "setters_event", quick: 10_000, exhaustive: false, rule: R, run: setters_event },
        Oracle { name: "setters_todo", quick: 10_000, exhaustive: false, rule: R, run: setters_todo },
        Oracle { name: "setters_venue", quick: 6_000, exhaustive: false, rule: R, run: setters_venue },
        Oracle { name: "setters_alarm", quick: 5_000, exhaustive: false, rule: R, run: setters_alarm },
        Oracle { name: "setters_property", quick: 5_000, exhaustive: false, rule: "the builder of one property", run: setters_property },
    ]
}

// ---------------------------------------------------------------------------------------------- C13

/// the default properties of a fresh calendar, in the order they have; the PRODID may be any
fn defaults(cal: &ic::Calendar) -> Result<Vec<GP>, String> {
    let v: Vec<GP> = cal.properties.iter().map(|p| gp(p.key(), p.value())).collect();
    let one = |k: &str, val: Option<&str>| v.iter().filter(|p| p.name == k && val.map_or(!p.val.is_empty(), |x| p.val == x)).count() == 1;
    ensure!(
        v.len() == 3 && one("VERSION", Some("2.0")) && one("PRODID", None) && one("CALSCALE", Some("GREGORIAN")) && cal.properties.iter().all(|p| p.params().is_empty()),
        "default properties are {:?}",
        cal.properties
    );
    Ok(v)
}

fn cal_check(cal: &ic::Calendar, props: &[GP], uids: &[String]) -> Res {
    ensure!(
        cal.properties.len() == props.len() && cal.properties.iter().zip(props).all(|(a, b)| same_prop(a, b)),
        "calendar properties {:?}\nexpected {props:?}",
        cal.properties
    );
    ids_check(&cal.components, uids)?;
    ids_check(cal, uids)?;
    ids_check(cal.as_ref(), uids)
}

fn uid_of(c: &CalendarComponent) -> Option<String> {
    match c {
        CalendarComponent::Event(e) => e.get_uid(),
        CalendarComponent::Todo(e) => e.get_uid(),
        CalendarComponent::Venue(e) => e.get_uid(),
        CalendarComponent::Other(e) => e.get_uid(),
        _ => None,
    }
    .map(str::to_string)
}

fn ids_check(cs: &[CalendarComponent], uids: &[String]) -> Res {
    let got: Vec<String> = cs.iter().map(|c| uid_of(c).unwrap_or_default()).collect();
    ensure!(got == uids, "components {got:?}\nexpected {uids:?}");
    // the kind is the one the first letter says
    for (c, u) in cs.iter().zip(uids) {
        let ok = match c {
            CalendarComponent::Event(_) => u.starts_with('e'),
            CalendarComponent::Todo(_) => u.starts_with('t'),
            CalendarComponent::Venue(_) => u.starts_with('v'),
            _ => false,
        };
        ensure!(ok, "component {u} became {c:?}");
        ensure!(c.as_event().is_some() == u.starts_with('e') && c.as_todo().is_some() == u.starts_with('t'), "as_event/as_todo of {u}");
    }
    Ok(())
}

fn comp(r: &mut Rng, uid: &str) -> CalendarComponent {
    let _ = r;
    match uid.as_bytes()[0] {
        b'e' => ic::Event::new().uid(uid).done().into(),
        b't' => ic::Todo::new().uid(uid).done().into(),
        _ => ic::Venue::new().uid(uid).done().into(),
    }
}

fn uid(r: &mut Rng) -> String {
    format!("{}{}", r.pick(&["e", "t", "v"]), r.below(1000))
}

fn make(r: &mut Rng, props: &mut Vec<GP>, uids: &mut Vec<String>) -> Result<(ic::Calendar, String), String> {
    let (c, w) = make0(r, uids);
    *props = if w == "empty()" { vec![] } else { defaults(&c).map_err(|e| format!("after {w}: {e}"))? };
    Ok((c, w))
}

fn make0(r: &mut Rng, uids: &mut Vec<String>) -> (ic::Calendar, String) {
    uids.clear();
    match r.below(7) {
        0 => (ic::Calendar::new(), "new()".into()),
        1 => (ic::Calendar::default(), "default()".into()),
        2 => (ic::Calendar::empty(), "empty()".into()),
        3 => {
            *uids = vec![uid(r), uid(r), uid(r)];
            ([comp(r, &uids[0]), comp(r, &uids[1]), comp(r, &uids[2])].into(), format!("from([{uids:?}])"))
        }
        4 => {
            *uids = vec![uid(r)];
            (ic::Calendar::from(comp(r, &uids[0])), format!("from({uids:?})"))
        }
        5 => {
            let v = vec![format!("e{}", r.below(9)), format!("e{}", r.below(9))];
            *uids = v.clone();
            (v.iter().map(|u| ic::Event::new().uid(u).done()).collect(), format!("collect({uids:?})"))
        }
        _ => {
            *uids = (0..r.below(5)).map(|_| uid(r)).collect();
            let v: Vec<CalendarComponent> = uids.iter().map(|u| comp(r, u)).collect();
            (v.into_iter().collect(), format!("collect({uids:?})"))
        }
    }
}

fn cal_ops(c: &mut Case) -> Res {
    let (mut props, mut uids) = (vec![], vec![]);
    let (mut cal, what) = make(&mut c.r, &mut props, &mut uids)?;
    c.input = what;
    cal_check(&cal, &props, &uids)?;
    let n = c.r.below(10);
    for _ in 0..gen::count(&mut c.r, n, 40) {
        let t = gen::short(&mut c.r, gen::ANY);
        let what = match c.r.below(12) {
            0 => {
                let u = uid(&mut c.r);
                let x = comp(&mut c.r, &u);
                if c.r.chance(1, 4) {
                    #[allow(deprecated)]
                    cal.add(x);
                } else {
                    cal.push(x);
                }
                uids.push(u.clone());
                format!("push({u})")
            }
            1 => {
                let n = c.r.below(4);
                let us: Vec<String> = (0..gen::count(&mut c.r, n, 40)).map(|_| uid(&mut c.r)).collect();
                let v: Vec<CalendarComponent> = us.iter().map(|u| comp(&mut c.r, u)).collect();
                cal.extend(v);
                uids.extend(us.clone());
                format!("extend({us:?})")
            }
            2 => {
                let (mut p2, mut u2) = (vec![], vec![]);
                let (mut o, w) = make(&mut c.r, &mut p2, &mut u2)?;
                for _ in 0..c.r.below(3) {
                    let k = if c.r.chance(1, 2) { gen::word_name(&mut c.r).unwrap_or_default() + "" } else { gen::name(&mut c.r) };
                    o.append_property((k.as_str(), t.as_str()));
                    p2.push(gp(&k, &t));
                }
                cal.append(&mut o);
                ensure!(o.components.is_empty(), "append left {} components in the other calendar", o.components.len());
                cal_check(&o, &p2, &[])?;
                uids.extend(u2);
                format!("append({w})")
            }
            3 => {
                cal.name(&t);
                props.push(gp("NAME", &t));
                props.push(gp("X-WR-CALNAME", &t));
                format!("name({t:?})")
            }
            4 => {
                cal.description(&t);
                props.push(gp("DESCRIPTION", &t));
                props.push(gp("X-WR-CALDESC", &t));
                format!("description({t:?})")
            }
            5 => {
                cal.timezone(&t);
                props.push(gp("TIMEZONE-ID", &t));
                props.push(gp("X-WR-TIMEZONE", &t));
                format!("timezone({t:?})")
            }
            6 => {
                let k = if c.r.chance(1, 3) { gen::word_name(&mut c.r).unwrap_or_default() + "" } else { gen::name(&mut c.r) };
                cal.append_property(ic::Property::new(k.as_str(), t.as_str()));
                props.push(gp(&k, &t));
                format!("append_property({k:?}, {t:?})")
            }
            7 => {
                let k = c.r.pick(&["X-WR-CALNAME", "NAME", "X-WR-CALDESC", "DESCRIPTION", "X-WR-TIMEZONE", "TIMEZONE-ID", "VERSION"]).to_string();
                cal.append_property((k.as_str(), t.as_str()));
                props.push(gp(&k, &t));
                format!("append_property({k:?}, {t:?})")
            }
            8 if c.r.chance(1, 3) => {
                let f = cal.done();
                cal_check(&f, &props, &uids)?;
                cal_check(&cal, &[], &[])?;
                cal = f;
                "done()".to_string()
            }
            9 if cal.properties.iter().all(|p| p.key() != "REFRESH-INTERVAL" && p.key() != "X-PUBLISHED-TTL") => {
                let ms = o_time::millis(&mut c.r);
                let d = Duration::milliseconds(ms);
                let n = cal.properties.len();
                cal.ttl(&d);
                ensure!(cal.properties.len() == n + 2, "ttl appended {} properties", cal.properties.len() - n);
                let (a, b) = (cal.properties[n].clone(), cal.properties[n + 1].clone());
                ensure!(a.key() == "REFRESH-INTERVAL" && a.params().len() == 1 && a.params().get("VALUE").map(|p| p.value()) == Some("DURATION"), "ttl wrote {a:?}");
                ensure!(b.key() == "X-PUBLISHED-TTL" && b.params().is_empty() && b.value() == a.value(), "ttl wrote {b:?}");
                ensure!(refs::duration_ms(a.value()) == Some(ms as i128), "ttl({ms} ms) wrote {:?}", a.value());
                ensure!(cal.get_ttl() == Some(d), "ttl({ms} ms) reads back as {:?}", cal.get_ttl());
                // the X- name alone also reads
                let mut only = ic::Calendar::empty();
                only.append_property(("X-PUBLISHED-TTL", b.value()));
                ensure!(only.get_ttl() == Some(d), "X-PUBLISHED-TTL {:?} reads as {:?}", b.value(), only.get_ttl());
                only.append_property(("REFRESH-INTERVAL", "PT77S"));
                ensure!(only.get_ttl() == Some(Duration::seconds(77)), "REFRESH-INTERVAL does not win: {:?}", only.get_ttl());
                let mut two = ic::Calendar::empty();
                let other = *c.r.pick(&["PT77S", "PT0S", "P1W"]);
                let pair = [("REFRESH-INTERVAL", b.value()), ("X-PUBLISHED-TTL", other)];
                let k = c.r.below(2);
                two.append_property(pair[k]);
                two.append_property(pair[1 - k]);
                ensure!(two.get_ttl() == Some(d), "{pair:?} reads as {:?}", two.get_ttl());
                props.push(GP { name: "REFRESH-INTERVAL".into(), params: vec![("VALUE".into(), Some("DURATION".into()))], val: a.value().into() });
                props.push(gp("X-PUBLISHED-TTL", b.value()));
                format!("ttl({ms} ms)")
            }
            _ => "".to_string(),
        };
        c.input += "; ";
        c.input += &what;
        cal_check(&cal, &props, &uids).map_err(|m| format!("after {}: {m}", c.input))?;
        let first = |k: &str| props.iter().find(|p| p.name == k).map(|p| p.val.as_str());
        for (got, std, x) in [(cal.get_name(), "NAME", "X-WR-CALNAME"), (cal.get_description(), "DESCRIPTION", "X-WR-CALDESC"), (cal.get_timezone(), "TIMEZONE-ID", "X-WR-TIMEZONE")] {
            ensure!(got == first(std).or(first(x)), "getter of {std} gives {got:?} after {}", c.input);
        }
        for p in &props {
            ensure!(cal.property_value(&p.name) == first(&p.name), "property_value({}) = {:?} after {}", p.name, cal.property_value(&p.name), c.input);
        }
        ensure!(cal.property_value("X-NOT-THERE").is_none(), "property_value of an absent property");
    }
    // the text
    let mut want = String::from("BEGIN:VCALENDAR\r\n");
    for p in &cal.properties {
        want += &print(p.clone());
    }
    let got: String = if c.r.chance(1, 4) { (&cal).try_into().expect("try_into") } else { cal.to_string() };
    let rest = got.strip_prefix(&want).ok_or_else(|| format!("{got:?} does not begin with {want:?}"))?;
    ensure!(rest.ends_with("END:VCALENDAR\r\n"), "{got:?} does not end with END:VCALENDAR");
    let mut order = vec![];
    for l in rest.split("\r\n") {
        if let Some(u) = l.strip_prefix("UID:") {
            order.push(u.to_string());
        }
    }
    ensure!(order == uids, "components are written as {order:?}, expected {uids:?}");
    let total = rest.matches("END:").count();
    ensure!(total == uids.len() + 1, "{total} END lines for {} components", uids.len());
    Ok(())
}

pub fn c13() -> Vec<Oracle> {
    vec![Oracle { name: "print_cal", quick: 5, exhaustive: false, rule: "what print() of a calendar writes to standard output", run: print_cal },
        Oracle { name: "cal_ops", quick: 25_000, exhaustive: false, rule: "every way to make a calendar, then up to ten operations; the whole calendar and every getter are compared with a model after each", run: cal_ops }]
}

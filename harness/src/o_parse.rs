//! C07 the parser's tree, C14 printing a parsed document, C15 totality
use crate::gen::{self, GC, GP};
use crate::refs;
use crate::rng::Rng;
use crate::{ensure, Case, Oracle, Res};
use ic::{CalendarComponent, Component, DatePerhapsTime, EventLike};
use icalendar as ic;
use icalendar::parser as pp;
use std::str::FromStr;

// ---------------------------------------------------------------------------------------------- C07

/// a property whose content line means the same to everyone: no escapes, no quotes
fn simple_prop(r: &mut Rng) -> GP {
    let mut params = vec![];
    let mut keys = vec!["CN", "X-P", "TZID", "LANGUAGE"];
    for _ in 0..*r.pick(&[0, 0, 0, 1, 2]) {
        let k = keys.remove(r.below(keys.len()));
        let v = if r.chance(1, 6) { None } else { Some(format!("v{}", r.below(99))) };
        params.push((k.to_string(), v));
    }
    let name = gen::name(r);
    let mut val = if r.chance(1, 5) { gen::text(r, gen::NO_BREAK) } else { gen::short(r, gen::NO_BREAK) };
    val = val.replace('\\', "/");
    if r.chance(1, 6) {
        val = r.pick(&["BEGIN:VEVENT", "END:VEVENT", ":", "", "a:b", "END", "BEGIN", "=", "END:VCALENDAR", " x", "\"a:b\""]).to_string();
    }
    GP { name, params, val }
}

fn simple_line(p: &GP) -> String {
    let mut l = p.name.clone();
    for (k, v) in &p.params {
        l.push(';');
        l += k;
        if let Some(v) = v {
            l.push('=');
            l += v;
        }
    }
    l.push(':');
    l + &p.val
}

fn mixed_case(r: &mut Rng, s: &str) -> String {
    match r.below(4) {
        0 => s.to_lowercase(),
        1 => s.chars().map(|c| if r.chance(1, 2) { c.to_ascii_lowercase() } else { c }).collect(),
        _ => s.to_string(),
    }
}

/// writes the document; blank lines may follow any line
fn write_doc(r: &mut Rng, g: &GC, eol: &str, blanks: bool, out: &mut Vec<String>) {
    let blank = |r: &mut Rng, out: &mut Vec<String>| {
        if blanks && r.chance(1, 5) {
            let n = 1 + r.below(3);
            for _ in 0..gen::count(r, n, 30) {
                out.push(eol.to_string());
            }
        }
    };
    out.push(format!("{}:{}{eol}", mixed_case(r, "BEGIN"), g.name));
    blank(r, out);
    // property lines and components interleaved
    let (mut i, mut j) = (0, 0);
    while i < g.props.len() || j < g.kids.len() {
        if j >= g.kids.len() || i < g.props.len() && r.chance(2, 3) {
            out.push(format!("{}{eol}", simple_line(&g.props[i])));
            i += 1;
        } else {
            write_doc(r, &g.kids[j], eol, blanks, out);
            j += 1;
        }
        blank(r, out);
    }
    out.push(format!("{}:{}{eol}", mixed_case(r, "END"), g.name));
    blank(r, out);
}

fn doc(r: &mut Rng) -> (Vec<GC>, String, String) {
    let n = *r.pick(&[1, 1, 1, 2, 3]);
    let n = gen::count(r, n, 100).max(1);
    let depth = if n > 3 { 1 } else { *r.pick(&[0, 1, 2, 3, 5]) };
    let mut roots = vec![];
    for _ in 0..n {
        let mut p = simple_prop;
        roots.push(if r.chance(1, 3) { gen::component_named(r, "VCALENDAR".into(), depth, &mut p) } else { gen::component(r, depth, &mut p) });
    }
    let eol = *r.pick(&["\r\n", "\n"]);
    let blanks = r.chance(1, 2);
    let mut out = vec![];
    if blanks && r.chance(1, 3) {
        out.push(eol.to_string());
    }
    for g in &roots {
        write_doc(r, g, eol, blanks, &mut out);
    }
    let mut s: String = out.concat();
    if r.chance(1, 4) {
        // no line end behind the last line
        while s.ends_with(eol) {
            s.truncate(s.len() - eol.len());
        }
    }
    (roots, s, eol.to_string())
}

fn same_prop(got: &pp::Property, want: &GP) -> bool {
    got.name.as_str() == want.name
        && got.val.as_str() == want.val
        && got.params.len() == want.params.len()
        && got.params.iter().zip(&want.params).all(|(a, b)| a.key.as_str() == b.0 && a.val.as_ref().map(|v| v.as_str()) == b.1.as_deref())
}

fn same_tree(got: &pp::Component, want: &GC) -> Res {
    ensure!(got.name.as_str() == want.name, "component {:?} instead of {:?}", got.name.as_str(), want.name);
    ensure!(
        got.properties.len() == want.props.len() && got.properties.iter().zip(&want.props).all(|(a, b)| same_prop(a, b)),
        "properties of {}: {:?}\nexpected {:?}",
        want.name,
        got.properties,
        want.props
    );
    same_trees(&got.components, &want.kids)
}

fn same_trees(got: &[pp::Component], want: &[GC]) -> Res {
    let names = |g: &[pp::Component]| g.iter().map(|c| c.name.as_str().to_string()).collect::<Vec<_>>();
    ensure!(got.len() == want.len(), "components {:?}\nexpected {:?}", names(got), want.iter().map(|c| &c.name).collect::<Vec<_>>());
    for (a, b) in got.iter().zip(want) {
        same_tree(a, b)?;
    }
    Ok(())
}

fn tree(c: &mut Case) -> Res {
    let (roots, s, _) = doc(&mut c.r);
    c.input = s.clone();
    c.trivial = roots.len() == 1 && roots[0].kids.is_empty();
    let got = pp::read_components(&s).map_err(|e| format!("read_components fails: {e}"))?;
    same_trees(&got, &roots)?;
    let got = pp::read_calendar_simple(&s).map_err(|e| format!("read_calendar_simple fails: {e:?}"))?;
    same_trees(&got, &roots)?;
    let got = pp::read_calendar(&s).map_err(|e| format!("read_calendar fails: {e}"))?;
    if roots[0].name == "VCALENDAR" {
        ensure!(got.properties.len() == roots[0].props.len() && got.properties.iter().zip(&roots[0].props).all(|(a, b)| same_prop(a, b)), "calendar properties {:?}", got.properties);
        same_trees(&got.components, &roots[0].kids)?;
    }
    let one = pp::Component::try_from(s.as_str()).map_err(|e| format!("Component::try_from fails: {e}"))?;
    same_tree(&one, &roots[0])
}

fn mismatch(c: &mut Case) -> Res {
    let (roots, _, _) = doc(&mut c.r);
    let eol = *c.r.pick(&["\r\n", "\n"]);
    let mut lines = vec![];
    for g in &roots {
        write_doc(&mut c.r, g, eol, false, &mut lines);
    }
    let ends: Vec<usize> = (0..lines.len()).filter(|&i| lines[i].to_uppercase().starts_with("END:") && is_end(&lines, i)).collect();
    if ends.is_empty() {
        c.trivial = true;
        return Ok(());
    }
    let i = *c.r.pick(&ends);
    let name = lines[i][4..].trim_end().to_string();
    let wrong = loop {
        let w = match c.r.below(6) {
            0 => format!("{name}{}", gen::name_char(&mut c.r)),
            1 => {
                let mut n: Vec<char> = name.chars().collect();
                n.pop();
                n.into_iter().collect()
            }
            2 => gen::comp_name(&mut c.r),
            3 => format!("{}{name}", gen::name_char(&mut c.r)),
            4 => format!("{name}S"),
            _ => {
                let mut n: Vec<char> = name.chars().collect();
                let k = c.r.below(n.len());
                n[k] = gen::name_char(&mut c.r);
                n.into_iter().collect()
            }
        };
        if !w.eq_ignore_ascii_case(&name) && w.to_lowercase() != name.to_lowercase() {
            break w;
        }
    };
    lines[i] = format!("{}:{wrong}{eol}", mixed_case(&mut c.r, "END"));
    let s = lines.concat();
    c.input = s.clone();
    let got = pp::read_components(&s);
    ensure!(got.is_err(), "END:{wrong} closes {name}: {got:?}");
    ensure!(pp::read_calendar(&s).is_err(), "read_calendar: END:{wrong} closes {name}");
    ensure!(pp::read_calendar_simple(&s).is_err(), "read_calendar_simple: END:{wrong} closes {name}");
    Ok(())
}

/// is line i an END of the document and not a property line such as "END..." (names never are END)
fn is_end(lines: &[String], i: usize) -> bool {
    lines[i].to_uppercase().starts_with("END:")
}

fn tree_enum(c: &mut Case) -> Res {
    // small documents: two names, every shape with up to four elements
    let mut i = c.index as usize;
    let mut nx = |n: usize| {
        let k = i % n;
        i /= n;
        k
    };
    let eol = ["\n", "\r\n"][nx(2)];
    let (b, e) = [("BEGIN", "END"), ("begin", "end"), ("Begin", "eNd")][nx(3)];
    let names = [["VCALENDAR", "VEVENT"], ["A", "AB"], ["AB", "A"], ["END", "BEGIN"]][nx(4)];
    let extra = [0, 1, 2][nx(3)];
    let mut text = String::new();
    let mut roots: Vec<GC> = vec![];
    let mut stack: Vec<GC> = vec![];
    let blank = eol.repeat(extra);
    for _ in 0..6 {
        let k = nx(4);
        match k {
            0 | 1 => {
                let n = names[k];
                text += &format!("{b}:{n}{eol}{blank}");
                stack.push(GC { name: n.into(), props: vec![], kids: vec![] });
            }
            2 => {
                if let Some(t) = stack.last_mut() {
                    let p = GP { name: "ENDX".into(), params: vec![], val: format!("{}", t.props.len()) };
                    text += &format!("{}{eol}{blank}", simple_line(&p));
                    t.props.push(p);
                }
            }
            _ => {
                if let Some(t) = stack.pop() {
                    text += &format!("{e}:{}{eol}{blank}", t.name);
                    match stack.last_mut() {
                        Some(p) => p.kids.push(t),
                        None => roots.push(t),
                    }
                }
            }
        }
    }
    while let Some(t) = stack.pop() {
        text += &format!("{e}:{}{eol}", t.name);
        match stack.last_mut() {
            Some(p) => p.kids.push(t),
            None => roots.push(t),
        }
    }
    c.input = text.clone();
    c.trivial = roots.is_empty();
    let got = pp::read_components(&text).map_err(|e| format!("read_components fails: {e}"))?;
    same_trees(&got, &roots)
}

pub fn c07() -> Vec<Oracle> {
    vec![
        Oracle { name: "tree_enum", quick: 2 * 3 * 4 * 3 * 4096, exhaustive: true, rule: "every document of six steps open/open/property/close, with two line ends, three spellings of BEGIN/END, four pairs of names and 0 to 2 blank lines; non-trivial: has a component", run: tree_enum },
        Oracle { name: "tree", quick: 15_000, exhaustive: false, rule: "random documents of up to three roots and depth six, printed independently; non-trivial: nested or several roots", run: tree },
        Oracle { name: "mismatch", quick: 12_000, exhaustive: false, rule: "the same with the name of one END line changed", run: mismatch },
    ]
}

// ---------------------------------------------------------------------------------------------- C14

pub fn any_prop(r: &mut Rng) -> GP {
    let n = gen::name(r);
    let mut g = gen::property_named(r, n, true, 3);
    if !g.is_text() {
        g.val = g.val.replace('\r', "");
    }
    g
}

fn print_prop(c: &mut Case) -> Res {
    let g = any_prop(&mut c.r);
    c.input = format!("{g:?}");
    c.trivial = g.params.is_empty() && !g.val.contains(['\\', ',', ';', '\n', ':']);
    let p = g.parsed();
    let s = p.to_string();
    let u = pp::unfold(&s);
    let q = pp::Property::try_from(u.as_str()).map_err(|e| format!("{s:?} does not parse: {e}"))?;
    ensure!(q == p, "printed {p:?}\nas {s:?}\nparsed {q:?}");
    Ok(())
}

fn print_tree(c: &mut Case) -> Res {
    let mut prop = any_prop;
    let depth = *c.r.pick(&[0, 1, 2, 3]);
    let g = gen::component_named(&mut c.r, "VCALENDAR".into(), depth, &mut prop);
    c.input = format!("{g:?}");
    c.trivial = g.kids.is_empty() && g.props.is_empty();
    let p = g.parsed();
    again(&pp::Calendar { properties: p.properties, components: p.components })
}

fn again(cal: &pp::Calendar) -> Res {
    let s = cal.to_string();
    let u = pp::unfold(&s);
    let back = pp::read_calendar(&u).map_err(|e| format!("{s:?} does not parse: {e}"))?;
    ensure!(back.properties == cal.properties && back.components == cal.components, "printed {cal:?}\nas {s:?}\nparsed {back:?}");
    ensure!(back.to_string() == s, "printing again gives another text");
    Ok(())
}

/// from text: whatever the parser accepts inside the domain
fn print_text(c: &mut Case) -> Res {
    let s = loop {
        let (roots, s, _) = doc(&mut c.r);
        if roots[0].name == "VCALENDAR" {
            break s;
        }
    };
    let mut s = s;
    // spice values with escapes
    if c.r.chance(1, 2) {
        s = s.replace(" ", "\\n").replace("/", "\\,");
    }
    c.input = s.clone();
    let Ok(cal) = pp::read_calendar(&s) else { return Ok(()) };
    if !domain(&cal.properties, &cal.components) {
        c.trivial = true;
        return Ok(());
    }
    again(&cal)
}

fn domain(props: &[pp::Property], comps: &[pp::Component]) -> bool {
    let nm = |n: &str| !n.is_empty() && n.chars().all(|c| c.is_alphanumeric() || ".,/_-".contains(c));
    props.iter().all(|p| {
        let vt = p.params.iter().find(|q| q.key.as_str() == "VALUE").and_then(|q| q.val.as_ref()).map(|v| v.as_str().to_string());
        nm(p.name.as_str())
            && !p.name.as_str().eq_ignore_ascii_case("BEGIN")
            && !p.name.as_str().eq_ignore_ascii_case("END")
            && p.params.iter().all(|q| nm(q.key.as_str()) && q.val.as_ref().map_or(true, |v| !v.as_str().contains(['"', '\n', '\r'])))
            && (refs::is_text(p.name.as_str(), vt.as_deref()) || !p.val.as_str().contains(['\n', '\r']))
    }) && comps.iter().all(|c| nm(c.name.as_str()) && c.name.as_str().to_lowercase() != "calendar" && domain(&c.properties, &c.components))
}

pub fn c14() -> Vec<Oracle> {
    vec![
        Oracle { name: "print_parsed", quick: 5, exhaustive: false, rule: "what print() of a parsed calendar writes to standard output", run: crate::o_tree::print_parsed },
        Oracle { name: "print_prop", quick: 40_000, exhaustive: false, rule: "parsed properties printed and parsed; non-trivial: parameters or special characters", run: print_prop },
        Oracle { name: "print_tree", quick: 10_000, exhaustive: false, rule: "parsed calendars built directly, printed and parsed; non-trivial: not empty", run: print_tree },
        Oracle { name: "print_text", quick: 8_000, exhaustive: false, rule: "documents read, printed and read; non-trivial: in the domain", run: print_text },
    ]
}

// ---------------------------------------------------------------------------------------------- C15

fn getters<C: Component>(c: &C) {
    let _ = (c.get_timestamp(), c.get_start(), c.get_end(), c.get_priority(), c.get_summary(), c.get_description(), c.get_uid());
    let _ = (c.get_sequence(), c.get_class(), c.get_url(), c.get_last_modified(), c.get_created(), c.component_kind());
    for p in c.properties().values().chain(c.multi_properties().values().flatten()) {
        let _ = (p.value_type(), DatePerhapsTime::from_property(p).map(|d| d.date_naive()), ic::Trigger::try_from(p));
    }
    for k in c.components() {
        getters(k);
    }
}

fn all_getters(cal: &ic::Calendar) {
    let _ = (cal.get_name(), cal.get_description(), cal.get_timezone(), cal.get_ttl());
    for p in &cal.properties {
        let _ = (p.value_type(), DatePerhapsTime::from_property(p).map(|d| d.date_naive()), ic::Trigger::try_from(p));
    }
    for c in cal.iter() {
        match c {
            CalendarComponent::Event(e) => {
                getters(e);
                let _ = (e.get_status(), e.get_location());
            }
            CalendarComponent::Todo(e) => {
                getters(e);
                let _ = (e.get_status(), e.get_percent_complete(), e.get_due(), e.get_completed(), e.get_location());
            }
            CalendarComponent::Venue(e) => {
                getters(e);
                let _ = (e.get_street_address(), e.get_extended_address(), e.get_locality(), e.get_region(), e.get_country(), e.get_postal_code());
            }
            CalendarComponent::Other(e) => getters(e),
            _ => {}
        }
    }
}

fn everything(s: &str) {
    let u = pp::unfold(s);
    for t in [s, u.as_str()] {
        let _ = pp::read_calendar_simple(t);
        if let Ok(cs) = pp::read_components(t) {
            for c in cs {
                let _ = c.find_prop("SUMMARY");
                dates(&c);
                getters_of(CalendarComponent::from(c));
            }
        }
        if let Ok(c) = pp::read_calendar(t) {
            let _ = c.to_string();
            all_getters(&ic::Calendar::from(c));
        }
        if let Ok(c) = pp::Component::try_from(t) {
            getters_of(CalendarComponent::from(c));
        }
        if let Ok(p) = pp::Property::try_from(t) {
            let _ = p.to_string();
            let _ = DatePerhapsTime::try_from(&p);
        }
        let _ = pp::Parameter::try_from(t);
        let _ = pp::ParseString::from(t).unescape_text();
        if let Ok(p) = ic::Property::from_str(t) {
            let _ = (p.value_type(), DatePerhapsTime::from_property(&p), ic::Trigger::try_from(&p));
        }
    }
    if let Ok(c) = ic::Calendar::from_str(s) {
        all_getters(&c);
        let _ = c.to_string();
    }
    if let Ok(c) = CalendarComponent::from_str(s) {
        getters_of(c);
    }
}

fn dates(c: &pp::Component) {
    for p in &c.properties {
        let _ = (DatePerhapsTime::try_from(p), p.to_string());
    }
    c.components.iter().for_each(dates);
}

fn getters_of(c: CalendarComponent) {
    let mut cal = ic::Calendar::empty();
    cal.push(c);
    all_getters(&cal);
}

const TOKENS: [&str; 68] = [
    "BEGIN:", "END:", "BEGIN", "END", "begin:", "end:", "VCALENDAR", "VEVENT", "VTODO", "VVENUE", "VALARM", "\r\n", "\n", "\r", "\r\n ", "\n ", "\n\t", ":", ";", "=", ",", "\"", "\\", "\\n",
    "SUMMARY", "DESCRIPTION:", "DTSTART", "DTSTART:", "DTEND;VALUE=DATE:", "TRIGGER:", "TRIGGER;VALUE=DATE-TIME:", "VALUE=", "TZID=", "RELATED=START", "20200101", "20200101T000000Z", "20201332T256199", "T000000", "PT5M", "-P1W",
    "P99999999999999999999D", "PT18446744073709551615S", "P-1D", "-", "+", "P", "REFRESH-INTERVAL:", "REFRESH-INTERVAL;VALUE=DURATION:PT1H", "SEQUENCE:4294967296", "PRIORITY:-1", "PERCENT-COMPLETE:256", "é", "日本", "😀", "\u{301}", "\u{feff}", "\u{2028}",
    "\u{0}", " ", "\t", "X-A", "ATTENDEE;CN=\"a:b\":mailto:c", "EXDATE:", "=\"", "\"\"", "UID:1", "20200101T000000", "9999999999",
];

fn fuzz_tokens(c: &mut Case) -> Res {
    let n = 1 + c.r.below(28);
    let mut s = String::new();
    let mut depth = 0;
    for _ in 0..n {
        let t = *c.r.pick(&TOKENS);
        if t.eq_ignore_ascii_case("BEGIN:") || t == "BEGIN" {
            depth += 1;
            if depth > 60 {
                continue;
            }
        }
        s += t;
    }
    c.input = s.clone();
    everything(&s);
    Ok(())
}

fn fuzz_chars(c: &mut Case) -> Res {
    let s = gen::text(&mut c.r, gen::ANY);
    let s = match c.r.below(5) {
        0 => s,
        1 => format!("BEGIN:VEVENT\nX{s}:{s}\nEND:VEVENT"),
        2 => format!("DTSTART:{s}"),
        3 => format!("{}{s}", c.r.pick(&["E", "EN", "END", "B", "BEGI", "BEGIN", "BEGIN:", "END:", "é", ";", "A;", "A;B=", "A;B=\""])),
        _ => format!("TRIGGER:{s}\n"),
    };
    c.input = s.clone();
    everything(&s);
    Ok(())
}

fn fuzz_mutate(c: &mut Case) -> Res {
    let (_, s, _) = doc(&mut c.r);
    let mut v: Vec<char> = s.chars().collect();
    for _ in 0..1 + c.r.below(5) {
        if v.is_empty() {
            break;
        }
        let i = c.r.below(v.len());
        match c.r.below(6) {
            0 => {
                v.remove(i);
            }
            1 => v.insert(i, *c.r.pick(&[':', ';', '=', '"', '\n', '\r', ' ', 'é', '\u{0}', '\\', '😀'])),
            2 => v.truncate(i),
            3 => {
                let j = i + c.r.below(12).min(v.len() - i);
                v.drain(i..j);
            }
            4 => {
                let j = i + c.r.below(30).min(v.len() - i);
                let w: Vec<char> = v[i..j].to_vec();
                let k = c.r.below(v.len());
                v.splice(k..k, w);
            }
            _ => {
                let t: Vec<char> = c.r.pick(&TOKENS).chars().collect();
                v.splice(i..i, t);
            }
        }
    }
    let s: String = v.into_iter().collect();
    c.input = s.clone();
    everything(&s);
    Ok(())
}

/// nesting up to the bound, closed and unclosed
fn fuzz_nested(c: &mut Case) -> Res {
    let i = c.index as usize;
    let depth = 1 + i % 64;
    let eol = ["\n", "\r\n", "\n\n"][i / 64 % 3];
    let mut s = String::new();
    for _ in 0..depth {
        s += &format!("BEGIN:V{eol}X:1{eol}");
    }
    let close = [depth, 0, depth / 2, depth - 1][i / 192 % 4];
    for _ in 0..close {
        s += &format!("END:V{eol}");
    }
    c.input = format!("{depth} components nested, {close} closed, line end {eol:?}");
    everything(&s);
    if close == depth {
        let r = pp::read_components(&s).map_err(|e| format!("nested document does not parse: {e}"))?;
        ensure!(r.len() == 1, "{} roots", r.len());
    }
    Ok(())
}

/// text outside ASCII at every position of a small document
fn fuzz_wide(c: &mut Case) -> Res {
    const DOC: &str = "BEGIN:VEVENT\r\nSUMMARY;CN=\"a\";X=b:cd\r\n ef\r\nEND:VEVENT\r\n";
    const W: [&str; 8] = ["é", "日", "😀", "\u{301}", "\u{a0}", "\u{2028}", "\u{130}", "\u{feff}"];
    let i = c.index as usize;
    let mut s = DOC.to_string();
    let at = i / 8 % (DOC.len() + 1);
    s.insert_str(at, W[i % 8]);
    if i >= 8 * (DOC.len() + 1) {
        s.truncate(at + W[i % 8].len());
    }
    c.input = s.clone();
    everything(&s);
    // inside the value it is text
    if s.len() > DOC.len() {
        let v = DOC.find("cd").unwrap();
        if at > v && at <= v + 2 {
            let u = pp::unfold(&s);
            let p = pp::read_components(&u).map_err(|e| format!("does not parse: {e}"))?;
            let val = p.first().and_then(|c| c.properties.first()).map(|p| p.val.as_str().to_string());
            let mut want = "cd".to_string();
            want.insert_str(at - v, W[i % 8]);
            want += "ef";
            ensure!(val.as_deref() == Some(want.as_str()), "value {val:?}, not {want:?}");
        }
    }
    Ok(())
}

pub fn c15() -> Vec<Oracle> {
    vec![
        Oracle { name: "fuzz_nested", quick: 64 * 3 * 4, exhaustive: true, rule: "nesting of every depth up to 64, closed or not", run: fuzz_nested },
        Oracle { name: "fuzz_wide", quick: 8 * 2 * 63, exhaustive: true, rule: "a character outside ASCII at every position of a document, whole and cut off there", run: fuzz_wide },
        Oracle { name: "fuzz_tokens", quick: 30_000, exhaustive: false, rule: "random sequences of grammar tokens through every entry point and getter", run: fuzz_tokens },
        Oracle { name: "fuzz_chars", quick: 20_000, exhaustive: false, rule: "random text behind grammar prefixes", run: fuzz_chars },
        Oracle { name: "fuzz_mutate", quick: 15_000, exhaustive: false, rule: "well-formed documents mutated", run: fuzz_mutate },
    ]
}

// ------------------------------------------------------------------------------------- known findings

/// known findings: the check that still fails, or None
pub fn known() -> Vec<(&'static str, fn() -> Option<String>)> {
    vec![("C14", || {
        let s = "BEGIN:VCALENDAR\nBEGIN:CALENDAR\nX-A:1\nEND:CALENDAR\nEND:VCALENDAR\n";
        let c = pp::read_calendar(s).ok()?;
        let t = c.to_string();
        let d = pp::read_calendar(&t).ok()?;
        (d.components != c.components).then(|| "a component named CALENDAR (any letter case) gets a DTSTAMP and UID it did not have when the parsed calendar is printed: LikeComponent::fmt_write".to_string())
    })]
}

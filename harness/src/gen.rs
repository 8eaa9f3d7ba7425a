//! Input generators shared by the oracles.
use crate::refs;
use crate::rng::Rng;
use icalendar as ic;
use icalendar::parser as pp;

const SPECIAL: [char; 10] = ['\\', ',', ';', ':', '"', 'n', 'N', ' ', '\t', '='];
const WIDE: [char; 18] = [
    'é', 'ß', 'µ', '¼', '\u{a0}', '\u{3b1}', '\u{5d0}', '\u{130}', '\u{2003}', '\u{3000}', '\u{2028}', '日', '本', '\u{feff}', '😀', '𝄞',
    '\u{10ffff}', '\u{301}',
];

/// options: line feeds / carriage returns / double quotes / the TEXT specials allowed
#[derive(Clone, Copy)]
pub struct Opt {
    pub lf: bool,
    pub cr: bool,
    pub quote: bool,
    pub special: bool,
}
pub const ANY: Opt = Opt { lf: true, cr: true, quote: true, special: true };
pub const NO_BREAK: Opt = Opt { lf: false, cr: false, quote: true, special: true };
pub const PLAIN: Opt = Opt { lf: false, cr: false, quote: false, special: false };

/// a word of the source under test
pub fn word(r: &mut Rng) -> String {
    let d = crate::dict::dict();
    if !d.fresh.is_empty() && r.chance(1, 2) {
        return r.pick(&d.fresh).clone();
    }
    if d.words.is_empty() { String::new() } else { r.pick(&d.words).clone() }
}

/// a word that is a name
pub fn word_name(r: &mut Rng) -> Option<String> {
    let w = word(r);
    let w: String = if r.chance(1, 8) { w + &name_char(r).to_string() } else { w };
    (!w.is_empty() && w.chars().all(|c| c.is_alphanumeric() || ".,/_-".contains(c))).then_some(w)
}

pub fn number(r: &mut Rng) -> usize {
    let d = crate::dict::dict();
    let n = if !d.new_nums.is_empty() && r.chance(2, 3) { *r.pick(&d.new_nums) } else if d.nums.is_empty() { 75 } else { *r.pick(&d.nums) };
    (n + r.below(4)).saturating_sub(1)
}

/// how many there are: the usual number, now and then many
pub fn count(r: &mut Rng, usual: usize, of: usize) -> usize {
    if !r.chance(1, of) {
        return usual;
    }
    match r.below(4) {
        0 => number(r).min(130),
        1 => ((1usize << (2 + r.below(6))) + r.below(3)).saturating_sub(1),
        _ => usual + r.below(24),
    }
}

pub fn length(r: &mut Rng) -> usize {
    if r.chance(1, 24) {
        return number(r).min(700);
    }
    match r.below(12) {
        0 => 0,
        1 => 1,
        2..=5 => r.below(12),
        6 | 7 => 55 + r.below(30),
        8 => 125 + r.below(40),
        9 => r.below(80),
        10 => r.below(200),
        _ => 200 + r.below(260),
    }
}

pub fn ch(r: &mut Rng, o: Opt, style: usize) -> char {
    loop {
        let c = match style {
            0 => (b'a' + r.below(26) as u8) as char,
            1 => *r.pick(&WIDE),
            2 => *r.pick(&SPECIAL),
            3 => match r.below(3) {
                0 => ' ',
                1 => *r.pick(&WIDE),
                _ => (b' ' + r.below(95) as u8) as char,
            },
            4 => *r.pick(&[' ', '\u{2003}', '\u{3000}', '\u{a0}', '\t']),
            5 => *r.pick(&['\\', 'n', '\n', 'N', ',', ';', ':', '\r']),
            _ if !crate::dict::dict().chars.is_empty() && r.chance(1, 8) => *r.pick(&crate::dict::dict().chars),
            _ => match r.below(10) {
                0 => *r.pick(&SPECIAL),
                1 => *r.pick(&WIDE),
                2 => *r.pick(&['\n', '\r', ' ', '\\']),
                3 => ' ',
                4 => char::from_u32(r.below(0x250) as u32).unwrap_or('x'),
                _ => (b' ' + r.below(95) as u8) as char,
            },
        };
        if c == '\n' && !o.lf || c == '\r' && !o.cr || c == '"' && !o.quote {
            continue;
        }
        if !o.special && matches!(c, '\\' | ',' | ';' | ':' | '"' | '\n' | '\r') {
            if style == 2 || style == 5 {
                return 'q';
            }
            continue;
        }
        return c;
    }
}

pub fn text_len(r: &mut Rng, o: Opt, n: usize) -> String {
    let style = r.below(9);
    (0..n).map(|_| ch(r, o, style)).collect()
}

pub fn text(r: &mut Rng, o: Opt) -> String {
    let n = length(r);
    text_len(r, o, n)
}

/// values that meet each other and the words of the format often
const POOL: [&str; 24] = [
    "", "a", "b", "x", "1", "0", "10", "TRUE", "TEXT", "DATE", "UID", "DTSTAMP", "BEGIN", "END", "VEVENT", "VALARM", "PT0S", "PT1M", "P1D",
    "20240229", "20210101T000000", "20201231T235959Z", "2.0", "Europe/Berlin",
];

pub fn short(r: &mut Rng, o: Opt) -> String {
    let s = match r.below(20) {
        0 | 1 => r.pick(&POOL).to_string(),
        2 | 3 => word(r),
        4 | 5 if !r.1.is_empty() => {
            let k = r.below(r.1.len());
            r.1[k].clone()
        }
        6 => number(r).to_string(),
        _ => {
            let n = r.below(14);
            text_len(r, o, n)
        }
    };
    let s: String = if o.lf && o.cr && o.quote && o.special {
        s
    } else {
        s.chars().filter(|&c| !(c == '\n' && !o.lf || c == '\r' && !o.cr || c == '"' && !o.quote || !o.special && matches!(c, '\\' | ',' | ';' | ':' | '"' | '\n' | '\r'))).collect()
    };
    if r.1.len() < 40 {
        r.1.push(s.clone());
    }
    s
}

pub fn name_char(r: &mut Rng) -> char {
    match r.below(12) {
        0 => '-',
        1 => *r.pick(&['.', ',', '/', '_', '-']),
        2 => (b'0' + r.below(10) as u8) as char,
        3 => *r.pick(&['é', 'ß', 'İ', '日', 'λ', '٣', 'ǅ']),
        4 => (b'a' + r.below(26) as u8) as char,
        _ => (b'A' + r.below(26) as u8) as char,
    }
}

const ODD_NAMES: [&str; 22] = [
    "X-WR-CALNAME", "X-FOO", "NAME", "ENDPOINT", "BEGINNING", "END-", "BEGIN.", "X-END", "ENDE", "B", "E", "EN", "BEGI", "TEXT", "VALUE",
    "REFRESH-INTERVAL", "UI", "UIDS", "VERSIONS", "summary", "Summary", "X-BEGIN",
];

/// a property name of the C04 domain
pub fn name(r: &mut Rng) -> String {
    loop {
        let n = match r.below(8) {
            0 | 1 => {
                let k = 1 + r.below(10);
                (0..k).map(|_| name_char(r)).collect::<String>()
            }
            2 => r.pick(&ODD_NAMES).to_string(),
            3 => {
                // one edit away from a known name
                let mut n: Vec<char> = r.pick(&refs::DEFAULTS).0.chars().collect();
                match r.below(3) {
                    0 => {
                        n.pop();
                    }
                    1 => n.push(name_char(r)),
                    _ => {
                        let i = r.below(n.len());
                        n[i] = name_char(r);
                    }
                }
                n.into_iter().collect()
            }
            4 if r.chance(1, 4) => word_name(r).unwrap_or_else(|| "X-W".into()),
            4 if r.chance(1, 8) => (0..40 + r.below(60)).map(|_| name_char(r)).collect::<String>(),
            _ => r.pick(&refs::DEFAULTS).0.to_string(),
        };
        if n.is_empty() || n.eq_ignore_ascii_case("BEGIN") || n.eq_ignore_ascii_case("END") || n == "IANA-PROP" || n == "X-PROP" {
            continue;
        }
        return n;
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct GP {
    pub name: String,
    pub params: Vec<(String, Option<String>)>,
    pub val: String,
}

pub fn param_key(r: &mut Rng) -> String {
    if r.chance(1, 8) {
        word_name(r).unwrap_or_else(|| "X-W".into())
    } else if r.chance(1, 2) {
        r.pick(&["VALUE", "TZID", "CN", "RELATED", "FMTTYPE", "LANGUAGE", "X-P", "ALTREP", "VALUES", "value"]).to_string()
    } else {
        let k = 1 + r.below(5);
        (0..k).map(|_| name_char(r)).collect()
    }
}

pub fn param_val(r: &mut Rng, key: &str, o: Opt) -> String {
    if key.starts_with('V') && r.chance(4, 5) || key == "value" {
        return r.pick(&refs::VALUE_TYPES).to_string();
    }
    match r.below(10) {
        0 => r.pick(&refs::VALUE_TYPES).to_string(),
        1 => String::new(),
        2 => "mailto:a;b=c:d".to_string().replace([':', ';'], if o.special { ":" } else { "." }),
        _ => {
            let o = Opt { lf: false, cr: false, quote: false, special: o.special };
            if r.chance(1, 6) { text(r, o) } else { short(r, o) }
        }
    }
}

impl GP {
    pub fn value_param(&self) -> Option<&str> {
        self.params.iter().find(|p| p.0 == "VALUE").and_then(|p| p.1.as_deref())
    }
    pub fn is_text(&self) -> bool {
        refs::is_text(&self.name, self.value_param())
    }
    pub fn lib(&self) -> ic::Property {
        let mut p = ic::Property::new(self.name.as_str(), self.val.as_str());
        for (k, v) in &self.params {
            p.add_parameter(k, v.as_deref().unwrap_or(""));
        }
        p
    }
    pub fn parsed(&self) -> pp::Property<'_> {
        pp::Property {
            name: self.name.as_str().into(),
            val: self.val.as_str().into(),
            params: self.params.iter().map(|(k, v)| pp::Parameter::new_ref(k, v.as_deref())).collect(),
        }
    }
    pub fn lines(&self) -> Vec<String> {
        refs::lines(&self.name, &self.params, &self.val)
    }
}

/// a property of the domain of C04; `flags` also generates parameters without a value (C14)
pub fn property_named(r: &mut Rng, name: String, flags: bool, max_params: usize) -> GP {
    let mut params: Vec<(String, Option<String>)> = Vec::new();
    let n = if r.chance(1, 2) { 0 } else { r.below(max_params + 1) };
    // the reference writer tries every order of the parameters: few there
    let n = if max_params >= 3 { count(r, n, 120).min(if max_params == 3 { 5 } else { 100 }) } else { n };
    for _ in 0..n {
        let k = param_key(r);
        if params.iter().any(|p| p.0 == k) && !(flags && r.chance(1, 4)) {
            continue;
        }
        let mut v = Some(param_val(r, &k, ANY));
        if flags && (r.chance(1, 5) || v.as_deref() == Some("")) {
            v = None;
        }
        params.push((k, v));
    }
    let mut g = GP { name, params, val: String::new() };
    let o = if g.is_text() { ANY } else { NO_BREAK };
    g.val = if r.chance(1, 4) { text(r, o) } else { short(r, o) };
    g
}

pub fn property(r: &mut Rng) -> GP {
    let n = name(r);
    property_named(r, n, false, 3)
}

/// a component tree of the model
#[derive(Clone, Debug, PartialEq)]
pub struct GC {
    pub name: String,
    pub props: Vec<GP>,
    pub kids: Vec<GC>,
}

impl GC {
    pub fn parsed(&self) -> pp::Component<'_> {
        pp::Component {
            name: self.name.as_str().into(),
            properties: self.props.iter().map(GP::parsed).collect(),
            components: self.kids.iter().map(GC::parsed).collect(),
        }
    }
    pub fn count(&self) -> usize {
        1 + self.kids.iter().map(GC::count).sum::<usize>()
    }
}

const KINDS: [&str; 16] = [
    "VEVENT", "VTODO", "VVENUE", "VALARM", "VTIMEZONE", "STANDARD", "DAYLIGHT", "VJOURNAL", "VFREEBUSY", "X-C", "VEVENTS", "VEVEN", "V",
    "vevent", "VCALENDAR", "VCAL",
];

pub fn comp_name(r: &mut Rng) -> String {
    loop {
        let n = if r.chance(1, 10) {
            word_name(r).unwrap_or_else(|| "X-W".into())
        } else if r.chance(3, 4) {
            r.pick(&KINDS).to_string()
        } else {
            let k = if r.chance(1, 8) { 1 + number(r).min(120) } else { 1 + r.below(6) };
            (0..k).map(|_| name_char(r)).collect::<String>()
        };
        // see known_findings.txt: a component of this name is given a DTSTAMP and UID when printed again
        if n.to_lowercase() != "calendar" {
            return n;
        }
    }
}

pub fn component(r: &mut Rng, depth: usize, prop: &mut dyn FnMut(&mut Rng) -> GP) -> GC {
    let name = comp_name(r);
    component_named(r, name, depth, prop)
}

pub fn component_named(r: &mut Rng, name: String, depth: usize, prop: &mut dyn FnMut(&mut Rng) -> GP) -> GC {
    let np = r.below(6);
    let np = count(r, np, 60);
    let mut props: Vec<GP> = (0..np).map(|_| prop(r)).collect();
    if !props.is_empty() && r.chance(1, 4) {
        // the same property once more, somewhere
        let (n, k) = (1 + r.below(3), r.below(props.len()));
        let n = count(r, n, 25);
        for _ in 0..n {
            let p = props[if n > 3 { k } else { r.below(props.len()) }].clone();
            let at = if r.chance(1, 2) { props.iter().position(|q| *q == p).unwrap() + 1 } else { r.below(props.len() + 1) };
            props.insert(at, p);
        }
    }
    let nk = if depth == 0 { 0 } else { *r.pick(&[0, 0, 0, 1, 1, 2, 3]) };
    let (nk, below) = if depth > 0 && r.chance(1, 80) { (count(r, nk, 1), 0) } else { (nk, depth.saturating_sub(1)) };
    let mut kids: Vec<GC> = (0..nk).map(|_| component(r, below, prop)).collect();
    if depth >= 2 && r.chance(1, 100) {
        // a deep one
        for _ in 0..number(r).min(40) {
            let mut p = component(r, 0, prop);
            p.kids = vec![kids.pop().unwrap_or_else(|| p.clone())];
            kids.push(p);
        }
    }
    if !kids.is_empty() && r.chance(1, 6) {
        let k = kids[r.below(kids.len())].clone();
        kids.push(k);
    }
    GC { name, props, kids }
}

//! Reference implementations, written from RFC 5545 and the property statements, not from the crate.

/// the 14 value types of RFC 5545 3.3
pub const VALUE_TYPES: [&str; 14] = [
    "BINARY", "BOOLEAN", "CAL-ADDRESS", "DATE", "DATE-TIME", "DURATION", "FLOAT", "INTEGER", "PERIOD", "RECUR",
    "TEXT", "TIME", "URI", "UTC-OFFSET",
];

/// default value types of RFC 5545 3.7 and 3.8
pub const DEFAULTS: [(&str, &str); 46] = [
    ("CALSCALE", "TEXT"), ("METHOD", "TEXT"), ("PRODID", "TEXT"), ("VERSION", "TEXT"),
    ("ATTACH", "URI"), ("CATEGORIES", "TEXT"), ("CLASS", "TEXT"), ("COMMENT", "TEXT"), ("DESCRIPTION", "TEXT"),
    ("GEO", "FLOAT"), ("LOCATION", "TEXT"), ("PERCENT-COMPLETE", "INTEGER"), ("PRIORITY", "INTEGER"),
    ("RESOURCES", "TEXT"), ("STATUS", "TEXT"), ("SUMMARY", "TEXT"),
    ("COMPLETED", "DATE-TIME"), ("DTEND", "DATE-TIME"), ("DUE", "DATE-TIME"), ("DTSTART", "DATE-TIME"),
    ("DURATION", "DURATION"), ("FREEBUSY", "PERIOD"), ("TRANSP", "TEXT"),
    ("TZID", "TEXT"), ("TZNAME", "TEXT"), ("TZOFFSETFROM", "UTC-OFFSET"), ("TZOFFSETTO", "UTC-OFFSET"), ("TZURL", "URI"),
    ("ATTENDEE", "CAL-ADDRESS"), ("CONTACT", "TEXT"), ("ORGANIZER", "CAL-ADDRESS"), ("RECURRENCE-ID", "DATE-TIME"),
    ("RELATED-TO", "TEXT"), ("URL", "URI"), ("UID", "TEXT"),
    ("EXDATE", "DATE-TIME"), ("RDATE", "DATE-TIME"), ("RRULE", "RECUR"),
    ("ACTION", "TEXT"), ("REPEAT", "INTEGER"), ("TRIGGER", "DURATION"),
    ("CREATED", "DATE-TIME"), ("DTSTAMP", "DATE-TIME"), ("LAST-MODIFIED", "DATE-TIME"), ("SEQUENCE", "INTEGER"),
    ("REQUEST-STATUS", "TEXT"),
];

/// the properties RFC 5545 allows more than once in a component (C08)
pub const MULTI: [&str; 11] = [
    "ATTACH", "ATTENDEE", "CATEGORIES", "COMMENT", "CONTACT", "EXDATE", "FREEBUSY", "RDATE", "RELATED-TO",
    "RESOURCES", "REQUEST-STATUS",
];

pub fn value_type(name: &str, value_param: Option<&str>) -> Option<&'static str> {
    if let Some(v) = value_param {
        if let Some(t) = VALUE_TYPES.iter().find(|t| **t == v) {
            return Some(t);
        }
    }
    DEFAULTS.iter().find(|(n, _)| *n == name).map(|(_, t)| *t)
}

pub fn is_text(name: &str, value_param: Option<&str>) -> bool {
    value_type(name, value_param) == Some("TEXT")
}

pub fn escape(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '\\' => o += "\\\\",
            ',' => o += "\\,",
            ';' => o += "\\;",
            '\n' => o += "\\N",
            c => o.push(c),
        }
    }
    o
}

pub fn unescape(s: &str) -> String {
    let v: Vec<char> = s.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    while i < v.len() {
        if v[i] == '\\' && i + 1 < v.len() {
            let r = match v[i + 1] {
                '\\' => Some('\\'),
                ',' => Some(','),
                ';' => Some(';'),
                ':' => Some(':'),
                'n' | 'N' => Some('\n'),
                _ => None,
            };
            if let Some(r) = r {
                o.push(r);
                i += 2;
                continue;
            }
        }
        o.push(v[i]);
        i += 1;
    }
    o
}

/// C03: a CRLF or LF directly followed by a space or tab is deleted with that character
pub fn unfold(s: &str) -> String {
    let b: Vec<char> = s.chars().collect();
    let ws = |c: Option<&char>| matches!(c, Some(' ') | Some('\t'));
    let mut o = String::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == '\r' && b.get(i + 1) == Some(&'\n') && ws(b.get(i + 2)) {
            i += 3;
        } else if b[i] == '\n' && ws(b.get(i + 1)) {
            i += 2;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

/// is `folded` = `line` with CRLF+space inserted at some character boundaries?  (dynamic, no assumption
/// on where the breaks are)
pub fn is_folding_of(folded: &str, line: &str) -> bool {
    let f: Vec<char> = folded.chars().collect();
    let l: Vec<char> = line.chars().collect();
    // the positions in f that the current position of l can be at
    let step = |set: &mut Vec<usize>| {
        let mut k = 0;
        while k < set.len() {
            let i = set[k];
            if f[i..].starts_with(&['\r', '\n', ' ']) && !set.contains(&(i + 3)) {
                set.push(i + 3);
            }
            k += 1;
        }
    };
    let mut set = vec![0];
    step(&mut set);
    for c in l {
        set.retain(|&i| f.get(i) == Some(&c));
        if set.is_empty() {
            return false;
        }
        for i in set.iter_mut() {
            *i += 1;
        }
        step(&mut set);
    }
    set.contains(&f.len())
}

/// remove every CRLF + space
pub fn join_folds(s: &str) -> String {
    s.replace("\r\n ", "")
}

pub fn quote(v: &str) -> String {
    if v.contains(':') || v.contains(';') { format!("\"{v}\"") } else { v.to_string() }
}

/// the possible content lines of a property, one per order of the parameters
pub fn lines(name: &str, params: &[(String, Option<String>)], val: &str) -> Vec<String> {
    let mut out = Vec::new();
    let mut idx: Vec<usize> = (0..params.len()).collect();
    perms(&mut idx, 0, &mut |p| {
        let mut l = name.to_string();
        for &i in p {
            l.push(';');
            l += &params[i].0;
            if let Some(v) = &params[i].1 {
                l.push('=');
                l += &quote(v);
            }
        }
        l.push(':');
        let vt = params.iter().find(|p| p.0 == "VALUE").and_then(|p| p.1.as_deref());
        if is_text(name, vt) {
            l += &escape(val);
        } else {
            l += val;
        }
        out.push(l);
    });
    out
}

fn perms(v: &mut Vec<usize>, k: usize, f: &mut dyn FnMut(&[usize])) {
    if k >= v.len() {
        f(v);
        return;
    }
    for i in k..v.len() {
        v.swap(k, i);
        perms(v, k + 1, f);
        v.swap(k, i);
    }
}

/// an RFC 5545 / ISO 8601 duration in milliseconds
pub fn duration_ms(s: &str) -> Option<i128> {
    let (neg, s) = match s.as_bytes().first()? {
        b'-' => (true, &s[1..]),
        b'+' => (false, &s[1..]),
        _ => (false, s),
    };
    let s = s.strip_prefix('P')?;
    let mut total: i128 = 0;
    let mut time = false;
    let mut num = String::new();
    let mut any = false;
    for c in s.chars() {
        match c {
            'T' if !time && num.is_empty() => time = true,
            '0'..='9' | '.' => num.push(c),
            _ => {
                let unit: i128 = match (c, time) {
                    ('W', false) => 604_800_000,
                    ('D', false) => 86_400_000,
                    ('H', true) => 3_600_000,
                    ('M', true) => 60_000,
                    ('S', true) => 1000,
                    _ => return None,
                };
                let (i, f) = match num.split_once('.') {
                    Some((i, f)) => (i.to_string(), f.to_string()),
                    None => (num.clone(), String::new()),
                };
                if i.is_empty() {
                    return None;
                }
                let mut v: i128 = i.parse::<i128>().ok()? * unit;
                let mut scale = unit;
                for d in f.chars() {
                    // exact for milliseconds of seconds
                    scale /= 10;
                    v += d.to_digit(10)? as i128 * scale;
                }
                total += v;
                num.clear();
                any = true;
            }
        }
    }
    if !num.is_empty() || !any {
        return None;
    }
    Some(if neg { -total } else { total })
}

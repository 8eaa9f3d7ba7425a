//! The contracts /verif/verus/shim*.rs assume of std, chrono, chrono-tz, iso8601, uuid and nom, run against these.
//! No property of the crate is decided here: a failure means the trusted base is wrong.
use crate::gen;
use crate::o_time::{date, datetime, zone};
use crate::rng::Rng;
use crate::{ensure, Case, Oracle, Res};
use chrono::{DateTime, Datelike, Duration, NaiveDate, NaiveDateTime, TimeZone, Timelike, Utc};
use chrono_tz::{Tz, TZ_VARIANTS};
use nom::{Compare, CompareResult};
use std::collections::{BTreeMap, HashMap};

type S = Vec<char>;
fn v(s: &str) -> S {
    s.chars().collect()
}
fn t(s: &[char]) -> String {
    s.iter().collect()
}
fn ulen(c: char) -> usize {
    let c = c as u32;
    if c < 0x80 { 1 } else if c < 0x800 { 2 } else if c < 0x10000 { 3 } else { 4 }
}
fn blen(s: &[char]) -> usize {
    s.iter().map(|c| ulen(*c)).sum()
}
fn repl(s: &[char], p: &[char], q: &[char]) -> S {
    if s.is_empty() || p.is_empty() {
        return s.to_vec();
    }
    if s.starts_with(p) {
        return [q, &repl(&s[p.len()..], p, q)].concat();
    }
    [&s[..1], &repl(&s[1..], p, q)].concat()
}
fn splits(s: &[char], p: &[char]) -> Vec<S> {
    if s.is_empty() || p.is_empty() {
        return vec![s.to_vec()];
    }
    if s.starts_with(p) {
        let mut r = vec![vec![]];
        r.extend(splits(&s[p.len()..], p));
        return r;
    }
    let mut r = splits(&s[1..], p);
    r[0].insert(0, s[0]);
    r
}
fn first_at(s: &[char], p: &[char]) -> Option<usize> {
    (0..=s.len()).find(|i| s[*i..].starts_with(p))
}
fn lo(c: char) -> u32 {
    if c.is_ascii_uppercase() { c as u32 + 32 } else { c as u32 }
}

const ALL: gen::Opt = gen::Opt { lf: true, cr: true, quote: true, special: true };

/// few different characters, so that patterns occur, overlap and repeat
fn small(r: &mut Rng, n: usize) -> String {
    let a = [" ", "\n", "\r\n", "\\", ";", "a", "A", "é", "€", "𝄞", "\t", "K", "ſ", "İ", ":"];
    let k = 1 + r.below(3);
    let from = r.below(a.len());
    (0..r.below(n + 1)).map(|_| a[(from + r.below(k)) % a.len()]).collect()
}

fn texts(c: &mut Case) -> Res {
    let s = if c.r.chance(1, 2) { small(&mut c.r, 12) } else { gen::short(&mut c.r, ALL) };
    let p = if c.r.chance(3, 4) { small(&mut c.r, 3) } else { gen::short(&mut c.r, ALL) };
    let q = small(&mut c.r, 3);
    c.input = format!("{s:?} {p:?} {q:?}");
    let (sv, pv, qv) = (v(&s), v(&p), v(&q));
    ensure!(s.len() == blen(&sv), "len");
    if !p.is_empty() {
        ensure!(v(&s.replace(p.as_str(), &q)) == repl(&sv, &pv, &qv), "replace gives {:?}", s.replace(p.as_str(), &q));
        ensure!(s.split(p.as_str()).map(v).collect::<Vec<_>>() == splits(&sv, &pv), "split");
        ensure!(v(&s.replace(pv[0], &q)) == repl(&sv, &pv[..1], &qv), "replace of a character");
        ensure!(s.contains(pv[0]) == sv.contains(&pv[0]) && s.starts_with(pv[0]) == (sv.first() == pv.first()), "character");
        let any = [pv[0], '\n', 'é'];
        ensure!(s.contains(any) == any.iter().any(|x| sv.contains(x)) && s.starts_with(any) == sv.first().map_or(false, |x| any.contains(x)), "characters");
        ensure!(s.strip_prefix(pv[0]).map(v) == sv.strip_prefix(&pv[..1]).map(|x| x.to_vec()), "strip_prefix of a character");
        ensure!(s.chars().any(|x| x == pv[0]) == sv.contains(&pv[0]), "any");
    }
    ensure!(s.contains(p.as_str()) == first_at(&sv, &pv).is_some(), "contains");
    ensure!(s.find(p.as_str()) == first_at(&sv, &pv).map(|k| blen(&sv[..k])), "find");
    ensure!(s.starts_with(p.as_str()) == sv.starts_with(&pv), "starts_with");
    ensure!(s.strip_prefix(p.as_str()).map(v) == sv.strip_prefix(&pv[..]).map(|x| x.to_vec()), "strip_prefix");
    let f = |x: char| pv.contains(&x);
    ensure!(s.find(f) == (0..sv.len()).find(|i| f(sv[*i])).map(|k| blen(&sv[..k])), "find with a predicate");
    for k in 0..=sv.len() {
        let i = blen(&sv[..k]);
        ensure!(s.split_at(i) == (t(&sv[..k]).as_str(), t(&sv[k..]).as_str()), "split_at {i}");
        ensure!((&s[i..], &s[..i]) == (t(&sv[k..]).as_str(), t(&sv[..k]).as_str()), "slices at {i}");
    }
    for i in 0..s.len() + 3 {
        ensure!(s.is_char_boundary(i) == (0..=sv.len()).any(|k| blen(&sv[..k]) == i), "is_char_boundary({i})");
    }
    if s.is_ascii() {
        ensure!(s.to_lowercase().chars().map(u32::from).collect::<Vec<_>>() == sv.iter().map(|x| lo(*x)).collect::<Vec<_>>(), "to_lowercase");
    }
    let (mut x, y) = (s.clone(), s.clone() + &p);
    x.push_str(&p);
    ensure!(x == y && v(&x) == [&sv[..], &pv[..]].concat(), "push_str");
    let got = match s.as_str().compare(p.as_str()) {
        CompareResult::Ok => sv.starts_with(&pv),
        CompareResult::Incomplete => pv.starts_with(&sv) && sv.len() < pv.len(),
        CompareResult::Error => !sv.starts_with(&pv) && !pv.starts_with(&sv),
    };
    ensure!(got, "nom's compare");
    let pos = s.chars().zip(p.chars()).position(|(a, b)| a == b);
    ensure!(pos == (0..sv.len().min(pv.len())).find(|i| sv[*i] == pv[*i]), "zip, position");
    Ok(())
}

/// every character
fn characters(c: &mut Case) -> Res {
    let Some(a) = char::from_u32(c.index as u32) else {
        c.trivial = true;
        return Ok(());
    };
    c.input = format!("{a:?}");
    ensure!(a.len_utf8() == ulen(a), "len_utf8");
    if a.is_ascii() {
        ensure!(a.is_alphanumeric() == a.is_ascii_alphanumeric() && a.is_lowercase() == a.is_ascii_lowercase(), "classes");
    }
    let l: S = a.to_lowercase().collect();
    for b in (0..128u8).map(char::from).filter(|b| !"kKsS".contains(*b)) {
        ensure!((b.to_lowercase().collect::<S>() == l) == (lo(a) == lo(b)), "lower case of {b:?}");
    }
    Ok(())
}

const D: &str = "%Y%m%d";
const N: &str = "%Y%m%dT%H%M%S";
const U: &str = "%Y%m%dT%H%M%SZ";
fn parse_u(s: &str) -> Option<DateTime<Utc>> {
    #[allow(deprecated)]
    Utc.datetime_from_str(s, U).ok()
}
fn dstamp(d: &NaiveDate) -> String {
    format!("{:04}{:02}{:02}", d.year(), d.month(), d.day())
}

fn formats(c: &mut Case) -> Res {
    let d = date(&mut c.r);
    let l = datetime(&mut c.r);
    let u = l.and_utc();
    c.input = format!("{d} {l}");
    let ts = format!("{}T{:02}{:02}{:02}", dstamp(&l.date()), l.hour(), l.minute(), l.second());
    ensure!(d.format(D).to_string() == dstamp(&d) && NaiveDate::parse_from_str(&dstamp(&d), D) == Ok(d), "dates");
    ensure!(l.format(N).to_string() == ts && NaiveDateTime::parse_from_str(&ts, N) == Ok(l), "date-times");
    ensure!(u.format(U).to_string() == ts.clone() + "Z" && parse_u(&(ts.clone() + "Z")) == Some(u), "UTC");
    ensure!(u.naive_utc().date() == u.date_naive() && l.date() == u.date_naive(), "date_naive");
    // no text is in two formats
    let mut s: S = match c.r.below(4) {
        0 => v(&dstamp(&d)),
        1 => v(&ts),
        2 => v(&(ts.clone() + "Z")),
        _ => v(&small(&mut c.r, 6)),
    };
    for _ in 0..c.r.below(4) {
        let x = *c.r.pick(&['0', '1', '9', ' ', '+', '-', 'T', 'Z', 'z', 't', '\n', '６', ':']);
        let i = c.r.below(s.len() + 1);
        match c.r.below(3) {
            0 => s.insert(i, x),
            1 if i < s.len() => s[i] = x,
            _ => { if i < s.len() { s.remove(i); } }
        }
    }
    let s = t(&s);
    c.input = format!("{d} {l} {s:?}");
    let n = [NaiveDate::parse_from_str(&s, D).is_ok(), NaiveDateTime::parse_from_str(&s, N).is_ok(), parse_u(&s).is_some()];
    ensure!(n.iter().filter(|x| **x).count() < 2, "read as {n:?}");
    // the clock
    let now = Utc::now().format(U).to_string();
    ensure!(now.len() == 16 && now.is_ascii(), "now is {now}");
    let id = uuid::Uuid::new_v4().to_string();
    ensure!(id.len() == 36 && id.is_ascii(), "{id}");
    // parts
    let (y, m, dd) = (c.r.range(-300000, 300000) as i32, c.r.below(15) as u32, c.r.below(34) as u32);
    if let Some(x) = NaiveDate::from_ymd_opt(y, m, dd) {
        ensure!((x.year(), x.month(), x.day()) == (y, m, dd) && (1..=12).contains(&m) && (1..=31).contains(&dd), "from_ymd_opt");
    }
    let (h, mi, se) = (c.r.below(30) as u32, c.r.below(66) as u32, c.r.below(66) as u32);
    match d.and_hms_opt(h, mi, se) {
        Some(x) => ensure!(x.date() == d && (x.hour(), x.minute(), x.second(), x.nanosecond()) == (h, mi, se, 0), "and_hms_opt"),
        None => ensure!(h >= 24 || mi >= 60 || se >= 60, "and_hms_opt is None"),
    }
    Ok(())
}

fn durations(c: &mut Case) -> Res {
    let ms = match c.r.below(4) {
        0 => *c.r.pick(&[0i64, 1, 999, 1000, 59_999, 60_000, 3_599_999, 3_600_000, 86_399_999, 86_400_000, 604_800_000, 4_294_967_295_999]),
        1 => c.r.range(0, 100_000_000),
        2 => c.r.range(0, 5_000_000) * 1000,
        _ => c.r.range(0, 4_294_967_295_999),
    };
    let d = Duration::milliseconds(ms);
    let s = d.to_string();
    c.input = format!("{ms} ms {s}");
    let back = iso8601::duration(&s).ok().and_then(|i| Duration::from_std(std::time::Duration::from(i)).ok());
    ensure!(s.starts_with('P') && back == Some(d), "{s} is read as {back:?}");
    let n = -d;
    ensure!(-n == d && n.num_milliseconds() == -ms, "negation");
    ensure!(ms == 0 || n.to_string() == format!("-{s}"), "negative: {n}");
    ensure!(d.to_std().ok().and_then(|x| Duration::from_std(x).ok()) == Some(d), "to_std");
    ensure!(ms == 0 || n.to_std().is_err(), "to_std of a negative one");
    Ok(())
}

fn zones(c: &mut Case) -> Res {
    let z = zone(&mut c.r);
    let odd = small(&mut c.r, 2);
    let n = z.name().to_string();
    let i = c.r.below(n.len() + 1);
    let s = if c.r.chance(1, 3) { n.clone() } else { format!("{}{odd}{}", &n[..i], &n[i..]) };
    c.input = s.clone();
    let got = s.parse::<Tz>().ok();
    ensure!(got == TZ_VARIANTS.iter().find(|x| x.name() == s).copied(), "parsed as {got:?}");
    ensure!(n.parse::<Tz>() == Ok(z) && format!("{z}") == n, "the name {n}");
    let l = datetime(&mut c.r);
    let u = z.from_utc_datetime(&l);
    ensure!(u.with_timezone(&Utc) == l.and_utc() && u.timezone() == z, "from_utc_datetime");
    let shows = |x: &DateTime<Tz>| x.naive_local() == l;
    let r = z.from_local_datetime(&l);
    ensure!(match &r {
        chrono::LocalResult::None => true,
        chrono::LocalResult::Single(x) => shows(x),
        chrono::LocalResult::Ambiguous(x, y) => shows(x) && shows(y) && x != y,
    }, "from_local_datetime gives {r:?}");
    // every instant within a day that shows l is among the results
    for m in -96..=96i64 {
        let x = z.from_utc_datetime(&(l + Duration::minutes(15 * m)));
        if shows(&x) {
            ensure!(match &r { chrono::LocalResult::None => false, chrono::LocalResult::Single(y) => *y == x, chrono::LocalResult::Ambiguous(y, w) => *y == x || *w == x }, "{x:?} shows it too");
        }
    }
    Ok(())
}

fn maps(c: &mut Case) -> Res {
    let n = c.r.below(9);
    let ps: Vec<(String, usize)> = (0..n).map(|i| (small(&mut c.r, 2), i)).collect();
    c.input = format!("{ps:?}");
    let (mut b, mut h) = (BTreeMap::new(), HashMap::new());
    let mut m: Vec<(String, usize)> = vec![];
    for (k, x) in &ps {
        let old = m.iter().position(|p| p.0 == *k);
        let want = old.map(|i| m[i].1);
        ensure!(b.get(k) == want.as_ref() && h.get(k) == want.as_ref() && b.contains_key(k) == want.is_some(), "get");
        if c.r.chance(1, 2) {
            *b.entry(k.clone()).or_insert(*x) += 100;
            *h.entry(k.clone()).or_insert(*x) += 100;
            match old { Some(i) => m[i].1 += 100, None => m.push((k.clone(), x + 100)) }
        } else {
            b.insert(k.clone(), *x);
            h.insert(k.clone(), *x);
            match old { Some(i) => m[i].1 = *x, None => m.push((k.clone(), *x)) }
        }
    }
    m.sort();
    let got: Vec<(String, usize)> = b.iter().map(|(k, x)| (k.clone(), *x)).collect();
    ensure!(got == m && b.values().copied().collect::<Vec<_>>() == m.iter().map(|p| p.1).collect::<Vec<_>>(), "BTreeMap holds {got:?}");
    let mut got: Vec<(String, usize)> = h.iter().map(|(k, x)| (k.clone(), *x)).collect();
    ensure!(h.values().copied().collect::<Vec<_>>() == got.iter().map(|p| p.1).collect::<Vec<_>>(), "HashMap's values");
    got.sort();
    ensure!(got == m, "HashMap holds {got:?}");
    // the order of a BTreeMap depends on its keys only
    let rev: BTreeMap<String, usize> = m.iter().rev().cloned().collect();
    ensure!(rev == b && rev.keys().eq(b.keys()), "order of insertion");
    let dup: HashMap<String, usize> = ps.iter().cloned().collect();
    let dub: BTreeMap<String, usize> = ps.iter().cloned().collect();
    for (k, x) in &dup {
        ensure!(ps.iter().rev().find(|p| p.0 == *k).map(|p| p.1) == Some(*x) && dub.get(k) == Some(x), "from_iter: {k:?}");
    }
    ensure!(dup.len() == dub.len(), "from_iter");
    Ok(())
}

pub fn audit() -> Vec<Oracle> {
    vec![
        Oracle { name: "texts", quick: 20000, exhaustive: false, rule: "methods of str, nom's compare", run: texts },
        Oracle { name: "characters", quick: 0x110000, exhaustive: true, rule: "every character: UTF-8 length, classes, lower case", run: characters },
        Oracle { name: "formats", quick: 10000, exhaustive: false, rule: "chrono's formats and fields, the clock, UUIDs", run: formats },
        Oracle { name: "durations", quick: 10000, exhaustive: false, rule: "chrono's and iso8601's durations", run: durations },
        Oracle { name: "zones", quick: 1000, exhaustive: false, rule: "chrono-tz", run: zones },
        Oracle { name: "maps", quick: 10000, exhaustive: false, rule: "BTreeMap and HashMap", run: maps },
    ]
}

//! C09 dates and date-times, C10 triggers and durations
use crate::gen;
use crate::o_text::print;
use crate::refs;
use crate::rng::Rng;
use crate::{ensure, Case, Oracle, Res};
use chrono::{DateTime, Datelike, Duration, NaiveDate, NaiveDateTime, Timelike, Utc};
use ic::{CalendarDateTime, Component, DatePerhapsTime, EventLike, Trigger};
use icalendar as ic;
use icalendar::parser as pp;
use std::str::FromStr;

pub fn date(r: &mut Rng) -> NaiveDate {
    let y = match r.below(6) {
        0 => *r.pick(&[0, 1, 4, 99, 100, 400, 999, 1000, 1582, 1899, 1900, 1969, 1970, 2000, 2038, 9998, 9999]),
        1 => r.range(0, 9999) as i32,
        _ => r.range(1950, 2100) as i32,
    };
    match r.below(4) {
        0 if r.chance(1, 6) => NaiveDate::from_ymd_opt(y, 12, 31).unwrap(),
        0 => NaiveDate::from_yo_opt(y, *r.pick(&[1, 31, 32, 59, 60, 61, 99, 100, 364, 365])).unwrap(),
        1 => NaiveDate::from_ymd_opt(y, 1 + r.below(12) as u32, *r.pick(&[1, 9, 10, 11, 28])).unwrap(),
        _ => NaiveDate::from_yo_opt(y, 1 + r.below(365) as u32).unwrap(),
    }
}

pub fn datetime(r: &mut Rng) -> NaiveDateTime {
    let d = date(r);
    let (h, m, s) = match r.below(4) {
        0 => (*r.pick(&[0, 12, 23]), *r.pick(&[0, 59]), *r.pick(&[0, 59])),
        _ => (r.below(24) as u32, r.below(60) as u32, r.below(60) as u32),
    };
    d.and_hms_opt(h, m, s).unwrap()
}

pub fn utc(r: &mut Rng) -> DateTime<Utc> {
    datetime(r).and_utc()
}

pub fn fmt_date(d: &NaiveDate) -> String {
    format!("{:04}{:02}{:02}", d.year(), d.month(), d.day())
}

pub fn fmt_dt(d: &NaiveDateTime) -> String {
    format!("{}T{:02}{:02}{:02}", fmt_date(&d.date()), d.hour(), d.minute(), d.second())
}

pub fn tzid(r: &mut Rng) -> String {
    match r.below(6) {
        0 => r.pick(&["UTC", "Z", "Etc/UTC", "GMT", "", "/freeassociation.sourceforge.net/Europe/Berlin", "DATE", "utc"]).to_string(),
        1 => gen::short(r, gen::Opt { lf: false, cr: false, quote: false, special: true }),
        _ => r.pick(&["Europe/Berlin", "America/New_York", "Pacific/Auckland", "(UTC+01:00) Amsterdam; Berlin", "W. Europe Standard Time"]).to_string(),
    }
}

pub fn cdt(r: &mut Rng) -> CalendarDateTime {
    match r.below(3) {
        0 => CalendarDateTime::Floating(datetime(r)),
        1 => CalendarDateTime::Utc(utc(r)),
        _ => CalendarDateTime::WithTimezone { date_time: datetime(r), tzid: tzid(r) },
    }
}

pub fn dpt(r: &mut Rng) -> DatePerhapsTime {
    if r.chance(1, 4) { DatePerhapsTime::Date(date(r)) } else { DatePerhapsTime::DateTime(cdt(r)) }
}

/// value and parameters RFC 5545 gives a date or date-time
pub fn wire(d: &DatePerhapsTime) -> (String, Vec<(String, Option<String>)>) {
    match d {
        DatePerhapsTime::Date(d) => (fmt_date(d), vec![("VALUE".into(), Some("DATE".into()))]),
        DatePerhapsTime::DateTime(CalendarDateTime::Floating(d)) => (fmt_dt(d), vec![]),
        DatePerhapsTime::DateTime(CalendarDateTime::Utc(d)) => (fmt_dt(&d.naive_utc()) + "Z", vec![]),
        DatePerhapsTime::DateTime(CalendarDateTime::WithTimezone { date_time, tzid }) => (fmt_dt(date_time), vec![("TZID".into(), Some(tzid.clone()))]),
    }
}

fn is_wire(p: &ic::Property, key: &str, d: &DatePerhapsTime) -> Res {
    let (v, params) = wire(d);
    ensure!(
        p.key() == key && p.value() == v && p.params().len() == params.len() && params.iter().all(|(k, v)| p.params().get(k).map(|q| q.value()) == v.as_deref()),
        "{d:?} is written as {p:?}, not {key} {v} {params:?}"
    );
    Ok(())
}

fn day_of(d: &DatePerhapsTime) -> NaiveDate {
    match d {
        DatePerhapsTime::Date(d) => *d,
        DatePerhapsTime::DateTime(CalendarDateTime::Floating(d)) => d.date(),
        DatePerhapsTime::DateTime(CalendarDateTime::Utc(d)) => d.naive_utc().date(),
        DatePerhapsTime::DateTime(CalendarDateTime::WithTimezone { date_time, .. }) => date_time.date(),
    }
}

fn date_check(d: &DatePerhapsTime, key: &str) -> Res {
    let p = d.to_property(key);
    is_wire(&p, key, d)?;
    let back = DatePerhapsTime::from_property(&p);
    ensure!(back.as_ref() == Some(d), "{d:?} written as {p:?} reads as {back:?}");
    ensure!(d.date_naive() == day_of(d), "date_naive of {d:?} is {}", d.date_naive());
    ensure!(NaiveDate::from(d.clone()) == day_of(d), "NaiveDate::from({d:?}) is {}", NaiveDate::from(d.clone()));
    Ok(())
}

fn date_random(c: &mut Case) -> Res {
    let d = dpt(&mut c.r);
    let key = c.r.pick(&["DTSTART", "DTEND", "DUE", "RECURRENCE-ID", "EXDATE", "X-DATE"]).to_string();
    c.input = format!("{key} {d:?}");
    date_check(&d, &key)?;
    // from the chrono types
    let n = datetime(&mut c.r);
    ensure!(DatePerhapsTime::from(n) == DatePerhapsTime::DateTime(CalendarDateTime::Floating(n)), "from NaiveDateTime");
    ensure!(DatePerhapsTime::from(n.and_utc()) == DatePerhapsTime::DateTime(CalendarDateTime::Utc(n.and_utc())), "from DateTime<Utc>");
    ensure!(CalendarDateTime::from(n) == CalendarDateTime::Floating(n) && CalendarDateTime::from(n.and_utc()) == CalendarDateTime::Utc(n.and_utc()), "CalendarDateTime from chrono types");
    #[allow(deprecated)]
    let day = chrono::Date::<Utc>::from_utc(n.date(), Utc);
    ensure!(DatePerhapsTime::from(day) == DatePerhapsTime::Date(n.date()), "from Date<Utc>");
    ensure!(DatePerhapsTime::from(CalendarDateTime::from(n)) == DatePerhapsTime::from(n), "from CalendarDateTime");
    ensure!(DatePerhapsTime::from(n.date()) == DatePerhapsTime::Date(n.date()), "from NaiveDate");
    Ok(())
}

/// every day, in all four forms
fn date_enum(c: &mut Case) -> Res {
    let first = NaiveDate::from_ymd_opt(0, 1, 1).unwrap();
    // 3_652_425 days in 10_000 years; a stride that is coprime visits distinct days
    let day = first + Duration::days((c.index as i64 * 104_729 + 58) % 3_652_425);
    let i = c.index;
    let t = day.and_hms_opt((i % 24) as u32, (i / 24 % 60) as u32, (i / 7 % 60) as u32).unwrap();
    let d = match i % 4 {
        0 => DatePerhapsTime::Date(day),
        1 => DatePerhapsTime::DateTime(CalendarDateTime::Floating(t)),
        2 => DatePerhapsTime::DateTime(CalendarDateTime::Utc(t.and_utc())),
        _ => DatePerhapsTime::DateTime(CalendarDateTime::WithTimezone { date_time: t, tzid: "Europe/Berlin".into() }),
    };
    c.input = format!("{d:?}");
    date_check(&d, "DTSTART")
}

fn date_setters(c: &mut Case) -> Res {
    let mut e = ic::Event::new();
    let mut t = ic::Todo::new();
    e.uid("u");
    t.uid("u");
    let (mut start, mut end, mut tstart, mut due) = (None, None, None, None);
    for _ in 0..1 + c.r.below(6) {
        let d = dpt(&mut c.r);
        match c.r.below(5) {
            0 => {
                e.starts(d.clone());
                start = Some(d.clone());
                c.input += &format!("starts({d:?}); ");
            }
            1 => {
                e.ends(d.clone());
                end = Some(d.clone());
                c.input += &format!("ends({d:?}); ");
            }
            2 => {
                let day = date(&mut c.r);
                e.all_day(day);
                start = Some(DatePerhapsTime::Date(day));
                end = start.clone();
                c.input += &format!("all_day({day:?}); ");
            }
            3 => {
                t.due(d.clone());
                due = Some(d.clone());
                c.input += &format!("due({d:?}); ");
            }
            _ => {
                t.starts(d.clone());
                tstart = Some(d.clone());
                c.input += &format!("todo starts({d:?}); ");
            }
        }
        let dt = utc(&mut c.r);
        e.timestamp(dt);
        ensure!(e.get_timestamp() == Some(dt), "timestamp({dt:?}) reads as {:?}", e.get_timestamp());
        ensure!(e.get_start() == start && e.get_end() == end, "get_start {:?} get_end {:?} after {}", e.get_start(), e.get_end(), c.input);
        ensure!(t.get_start() == tstart && t.get_due() == due, "get_start {:?} get_due {:?} after {}", t.get_start(), t.get_due(), c.input);
    }
    let stamp = e.get_timestamp();
    let mut cal = ic::Calendar::new();
    cal.push(e.done());
    cal.push(t.done());
    let s = cal.to_string();
    let back = ic::Calendar::from_str(&s).map_err(|m| format!("does not parse: {m}\n{s}"))?;
    let be = back.first().and_then(|x| x.as_event()).ok_or("the event is gone")?;
    let bt = back.get(1).and_then(|x| x.as_todo()).ok_or("the todo is gone")?;
    ensure!(be.get_timestamp() == stamp, "DTSTAMP reads back as {:?}", be.get_timestamp());
    ensure!(be.get_start() == start && be.get_end() == end, "reads back as {:?} to {:?} after {}\n{s}", be.get_start(), be.get_end(), c.input);
    ensure!(bt.get_start() == tstart && bt.get_due() == due, "reads back as {:?} due {:?} after {}\n{s}", bt.get_start(), bt.get_due(), c.input);
    Ok(())
}

/// the conversion of a property as parsed
fn date_parsed(c: &mut Case) -> Res {
    let d = dpt(&mut c.r);
    // an empty TZID has no value once parsed
    let d = match d {
        DatePerhapsTime::DateTime(CalendarDateTime::WithTimezone { date_time, tzid }) if tzid.is_empty() => {
            DatePerhapsTime::DateTime(CalendarDateTime::WithTimezone { date_time, tzid: "UTC".into() })
        }
        d => d,
    };
    let (v, params) = wire(&d);
    c.input = format!("{v} {params:?}");
    let p = pp::Property { name: "DTSTART".into(), val: v.as_str().into(), params: params.iter().map(|(k, v)| pp::Parameter::new_ref(k, v.as_deref())).collect() };
    let got = DatePerhapsTime::try_from(&p);
    ensure!(got.as_ref() == Ok(&d), "{p:?} reads as {got:?}, not {d:?}");
    Ok(())
}

pub fn c09() -> Vec<Oracle> {
    vec![
        Oracle { name: "date_enum", quick: 40_000, exhaustive: false, rule: "days spread over years 0 to 9999, times and the four forms in turn", run: date_enum },
        Oracle { name: "date_random", quick: 30_000, exhaustive: false, rule: "random dates and date-times near the edges of the calendar, all four forms and odd TZIDs", run: date_random },
        Oracle { name: "date_setters", quick: 8_000, exhaustive: false, rule: "histories of starts/ends/all_day/due, then written and parsed", run: date_setters },
        Oracle { name: "date_parsed", quick: 8_000, exhaustive: false, rule: "DatePerhapsTime from a parsed property", run: date_parsed },
    ]
}

// ---------------------------------------------------------------------------------------------- C10

/// non-negative whole milliseconds below 2^32 seconds
pub fn millis(r: &mut Rng) -> i64 {
    match r.below(9) {
        0 => *r.pick(&[0, 1, 999, 1000, 1001, 59_999, 60_000, 3_600_000, 86_399_999, 86_400_000, 86_400_001, 604_800_000, 4_294_967_295_000, 4_294_967_295_999, 2_147_483_648_000]),
        1 => r.range(0, 999),
        2 => r.range(0, 4_294_967_295) * 1000,
        3 => r.range(0, 4_294_967_295_999),
        4 => r.range(0, 10_000) * 1000,
        5 => r.range(0, 400) * 86_400_000,
        6 => r.range(0, 59) * 60_000,
        7 => r.range(0, 86_400_000),
        _ => r.range(0, 100_000) * 10,
    }
}

fn trigger(r: &mut Rng) -> Trigger {
    if r.chance(1, 3) {
        return Trigger::DateTime(cdt(r));
    }
    let ms = millis(r);
    let d = Duration::milliseconds(if r.chance(1, 2) { -ms } else { ms });
    Trigger::Duration(d, *r.pick(&[None, Some(ic::Related::Start), Some(ic::Related::End)]))
}

fn trig_check(t: &Trigger) -> Res {
    let p = ic::Property::from(t.clone());
    ensure!(p.key() == "TRIGGER", "{t:?} becomes {p:?}");
    let par = |k: &str| p.params().get(k).map(|q| q.value().to_string());
    match t {
        Trigger::Duration(d, rel) => {
            let want = rel.map(|r| if r == ic::Related::Start { "START" } else { "END" });
            ensure!(par("RELATED").as_deref() == want, "{t:?} becomes {p:?}");
            ensure!(par("VALUE").is_none_or(|v| v == "DURATION"), "{t:?} becomes {p:?}");
            let ms = refs::duration_ms(p.value());
            ensure!(ms == Some(d.num_milliseconds() as i128), "{t:?} is written as {:?} which is {ms:?} ms", p.value());
        }
        Trigger::DateTime(d) => {
            ensure!(par("VALUE").as_deref() == Some("DATE-TIME"), "{t:?} becomes {p:?}");
            let (v, params) = wire(&DatePerhapsTime::DateTime(d.clone()));
            ensure!(p.value() == v && p.params().len() == params.len() + 1, "{t:?} becomes {p:?}");
            ensure!(params.iter().all(|(k, v)| par(k) == *v), "{t:?} becomes {p:?}");
        }
    }
    let back = Trigger::try_from(&p);
    ensure!(back.as_ref() == Ok(t), "{t:?} written as {p:?} reads as {back:?}");
    // through the text
    let s = print(p.clone());
    let q = ic::Property::from_str(&pp::unfold(&s)).map_err(|e| format!("{s:?} does not parse: {e}"))?;
    let back = Trigger::try_from(&q);
    ensure!(back.as_ref() == Ok(t), "{t:?} written as {s:?} reads as {back:?}");
    Ok(())
}

fn trig_random(c: &mut Case) -> Res {
    let t = trigger(&mut c.r);
    c.input = format!("{t:?}");
    trig_check(&t)?;
    match &t {
        Trigger::Duration(d, rel) => {
            ensure!(t.as_duration() == Some(d) && t.related() == *rel && t.as_date_time().is_none(), "accessors of {t:?}");
            use ic::Related::*;
            for (got, want) in [
                (Trigger::after_start(*d), Trigger::Duration(*d, Some(Start))),
                (Trigger::after_end(*d), Trigger::Duration(*d, Some(End))),
                (Trigger::before_start(*d), Trigger::Duration(-*d, Some(Start))),
                (Trigger::before_end(*d), Trigger::Duration(-*d, Some(End))),
                (Trigger::from(*d), Trigger::Duration(*d, None)),
                (Trigger::from((*d, End)), Trigger::Duration(*d, Some(End))),
                (Trigger::from((*d, Start)), Trigger::Duration(*d, Some(Start))),
            ] {
                ensure!(got == want, "{got:?} instead of {want:?}");
            }
        }
        Trigger::DateTime(d) => {
            ensure!(t.as_date_time() == Some(d) && t.related().is_none() && t.as_duration().is_none(), "accessors of {t:?}");
            ensure!(Trigger::from(d.clone()) == t, "Trigger::from({d:?})");
        }
    }
    Ok(())
}

fn trig_enum(c: &mut Case) -> Res {
    let i = c.index as i64;
    let secs = match i % 4 {
        0 => i / 4,
        1 => 86_400 - 500 + i / 4,
        2 => 4_294_967_295 - i / 4,
        _ => 604_800 - 500 + i / 4,
    };
    let ms = [0, 1, 10, 100, 999, 500, 250, 50][(i / 16 % 8) as usize];
    let d = Duration::milliseconds(secs * 1000 + ms);
    let t = Trigger::Duration(if i % 3 == 0 { -d } else { d }, [None, Some(ic::Related::Start), Some(ic::Related::End)][(i / 3 % 3) as usize]);
    c.input = format!("{t:?}");
    trig_check(&t)
}

/// durations as RFC 5545 writes them
fn trig_read(c: &mut Case) -> Res {
    let r = &mut c.r;
    let mut s = String::from(*r.pick(&["", "", "-", "+"]));
    s += "P";
    if r.chance(1, 5) {
        s += &format!("{}W", r.below(500));
    } else {
        let date = r.chance(1, 2);
        if date {
            s += &format!("{}D", r.below(2000));
        }
        if !date || r.chance(1, 2) {
            s += "T";
            let from = r.below(3);
            let to = from + r.below(3 - from);
            for k in from..=to {
                let top = if r.chance(1, 8) { 1000 } else { 60 };
                s += &format!("{}{}", r.below(top), ["H", "M", "S"][k]);
            }
        }
    }
    c.input = s.clone();
    let want = refs::duration_ms(&s).ok_or("bad generator")?;
    let mut p = ic::Property::new("TRIGGER", s.as_str());
    let rel = *c.r.pick(&[None, Some(ic::Related::Start), Some(ic::Related::End)]);
    if c.r.chance(1, 3) {
        p.add_parameter("VALUE", "DURATION");
    }
    if let Some(r) = rel {
        p.add_parameter("RELATED", if r == ic::Related::Start { "START" } else { "END" });
    }
    c.input = format!("{p:?}");
    let got = Trigger::try_from(&p);
    let want = Trigger::Duration(Duration::milliseconds(want as i64), rel);
    ensure!(got.as_ref() == Ok(&want), "{s} reads as {got:?}, not {want:?}");
    Ok(())
}

fn alarms(c: &mut Case) -> Res {
    let t = trigger(&mut c.r);
    let text = gen::short(&mut c.r, gen::ANY);
    let (ms, n) = (millis(&mut c.r), *c.r.pick(&[0u32, 1, 2, 9, 10, 4_294_967_295]));
    let (audio, with) = (c.r.chance(1, 2), c.r.chance(2, 3));
    c.input = format!("{} {t:?} {text:?} duration_and_repeat {with} {ms} ms {n}", if audio { "audio" } else { "display" });
    let mut a = if audio { ic::Alarm::audio(t.clone()) } else { ic::Alarm::display(&text, t.clone()) };
    let base = if audio { 2 } else { 3 };
    let check = |a: &ic::Alarm, extra: usize| -> Res {
        let v = |k: &str| a.property_value(k);
        ensure!(a.component_kind() == "VALARM", "kind {}", a.component_kind());
        ensure!(v("ACTION") == Some(if audio { "AUDIO" } else { "DISPLAY" }), "ACTION {:?}", v("ACTION"));
        ensure!(v("DESCRIPTION") == if audio { None } else { Some(text.as_str()) }, "DESCRIPTION {:?}", v("DESCRIPTION"));
        let back = a.properties().get("TRIGGER").map(Trigger::try_from);
        ensure!(back == Some(Ok(t.clone())), "TRIGGER reads as {back:?}");
        ensure!(a.properties().len() == base + extra && a.multi_properties().is_empty() && a.components().is_empty(), "alarm is {a:?}");
        Ok(())
    };
    check(&a, 0)?;
    if with {
        a = a.duration_and_repeat(Duration::milliseconds(ms), n);
        check(&a, 2)?;
        let d = a.property_value("DURATION").and_then(refs::duration_ms);
        ensure!(d == Some(ms as i128), "DURATION {:?} is {d:?} ms", a.property_value("DURATION"));
        ensure!(a.property_value("REPEAT") == Some(n.to_string().as_str()), "REPEAT {:?}", a.property_value("REPEAT"));
    }
    // nested and through the text
    let mut e = ic::Event::new();
    e.uid("u").timestamp(utc(&mut c.r));
    a.uid("a").timestamp(utc(&mut c.r));
    e.alarm(a.done());
    let mut cal = ic::Calendar::new();
    cal.push(e.done());
    let s = cal.to_string();
    let back = ic::Calendar::from_str(&s).map_err(|m| format!("does not parse: {m}\n{s}"))?;
    let al = back.first().and_then(|x| x.as_event()).and_then(|e| e.components().first().cloned()).ok_or_else(|| format!("the alarm is gone\n{s}"))?;
    ensure!(al.component_kind() == "VALARM", "kind {}", al.component_kind());
    let bt = al.properties().get("TRIGGER").map(Trigger::try_from);
    ensure!(bt == Some(Ok(t.clone())), "after parsing TRIGGER reads as {bt:?}\n{s}");
    Ok(())
}

pub fn c10() -> Vec<Oracle> {
    vec![
        Oracle { name: "trig_enum", quick: 20_000, exhaustive: false, rule: "durations around 0, one day, one week and 2^32 seconds, with fractions and every relation", run: trig_enum },
        Oracle { name: "trig_random", quick: 40_000, exhaustive: false, rule: "random triggers of every kind, to a property and back, and through the text", run: trig_random },
        Oracle { name: "trig_read", quick: 20_000, exhaustive: false, rule: "RFC 5545 durations with weeks, days, hours, minutes, seconds and signs", run: trig_read },
        Oracle { name: "alarms", quick: 12_000, exhaustive: false, rule: "audio and display alarms with and without repetition, alone and inside a parsed calendar", run: alarms },
    ]
}

// ---------------------------------------------------------------- C16 zones
use chrono::{Offset, TimeZone};
use chrono_tz::{Tz, TZ_VARIANTS};

pub fn zone(r: &mut Rng) -> Tz {
    match r.below(3) {
        0 => *r.pick(&[Tz::Europe__Berlin, Tz::America__New_York, Tz::Australia__Lord_Howe, Tz::UTC, Tz::Asia__Kolkata, Tz::Pacific__Apia, Tz::America__St_Johns, Tz::Etc__GMTPlus12]),
        _ => TZ_VARIANTS[r.below(TZ_VARIANTS.len())],
    }
}

fn secs(tz: &Tz, utc: NaiveDateTime) -> i64 {
    tz.offset_from_utc_datetime(&utc).fix().local_minus_utc() as i64
}

/// a wall-clock time of the zone, one time in two within hours of a change of its offset
fn local(r: &mut Rng, tz: &Tz) -> NaiveDateTime {
    let t = match r.below(3) {
        0 => datetime(r),
        _ => NaiveDate::from_yo_opt(r.range(1900, 2060) as i32, 1 + r.below(365) as u32).unwrap().and_hms_opt(r.below(24) as u32, r.below(60) as u32, r.below(60) as u32).unwrap(),
    };
    if t.year() < 1 || t.year() > 9998 || r.chance(1, 2) {
        return t;
    }
    let mut a = t;
    for _ in 0..370 {
        let b = a + Duration::days(1);
        if secs(tz, a) != secs(tz, b) {
            let (mut lo, mut hi) = (a, b);
            while hi - lo > Duration::seconds(1) {
                let m = lo + (hi - lo) / 2;
                let m = m.with_nanosecond(0).unwrap();
                if secs(tz, m) == secs(tz, a) { lo = m } else { hi = m }
            }
            let near = hi + Duration::seconds(secs(tz, if r.chance(1, 2) { lo } else { hi }));
            return near + Duration::seconds(match r.below(4) {
                0 => *r.pick(&[-1, 0, 1, -3600, 3600, -3599, 3599, -1800, 1800, -7200, 7200]),
                1 => r.range(-60, 60),
                _ => r.range(-7200, 7200),
            });
        }
        a = b;
    }
    t
}

/// the instants at which the clocks of the zone show this time
fn instants(tz: &Tz, l: NaiveDateTime) -> Vec<NaiveDateTime> {
    let mut offs: Vec<i64> = (-48..=48).filter_map(|h| l.checked_add_signed(Duration::hours(h))).map(|u| secs(tz, u)).collect();
    offs.sort();
    offs.dedup();
    let mut v: Vec<NaiveDateTime> = offs.into_iter().filter_map(|o| l.checked_sub_signed(Duration::seconds(o)).filter(|u| secs(tz, *u) == o)).collect();
    v.sort();
    v
}

fn zoned(c: &mut Case) -> Res {
    let tz = zone(&mut c.r);
    let mut l = local(&mut c.r, &tz);
    if c.r.chance(1, 3) {
        // a fraction of a second
        l = l.with_nanosecond(*c.r.pick(&[1, 999, 1_000_000, 499_999_999, 500_000_000, 600_000_000, 999_999_999])).unwrap();
    }
    c.input = format!("{l} {}", tz.name());
    let want = CalendarDateTime::WithTimezone { date_time: l, tzid: tz.name().to_string() };
    let got = CalendarDateTime::from((l, tz));
    ensure!(got == want, "From<(NaiveDateTime, Tz)> gives {got:?}");
    let got = CalendarDateTime::try_from((l, tz.name()));
    ensure!(got.as_ref() == Ok(&want), "TryFrom<(NaiveDateTime, &str)> gives {got:?}");
    let day = DatePerhapsTime::DateTime(want.clone());
    let got = (DatePerhapsTime::from((l, tz)), DatePerhapsTime::try_from((l, tz.name())));
    ensure!(got == (day.clone(), Ok(day.clone())), "conversions to DatePerhapsTime give {got:?}");
    let is = instants(&tz, l);
    let utc = if is.len() == 1 { Some(is[0].and_utc()) } else { None };
    let got = want.try_into_utc();
    ensure!(got == utc, "{want:?} is {got:?} in UTC, the zone shows this time at {is:?}");
    for u in &is {
        let d: DateTime<Tz> = tz.from_utc_datetime(u);
        let got = CalendarDateTime::from_date_time(d);
        ensure!(got == want, "from_date_time({d:?}) gives {got:?}");
    }
    // to the minute, possible or not
    let (y, mo, d, h, mi) = (l.year(), if c.r.chance(1, 6) { c.r.below(15) as u32 } else { l.month() }, if c.r.chance(1, 3) { c.r.below(34) as u32 } else { l.day() },
        if c.r.chance(1, 8) { c.r.below(30) as u32 } else { l.hour() }, if c.r.chance(1, 8) { c.r.below(70) as u32 } else { l.minute() });
    let leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
    let days = match mo { 2 => if leap { 29 } else { 28 }, 4 | 6 | 9 | 11 => 30, 1..=12 => 31, _ => 0 };
    let possible = d >= 1 && d <= days && h < 24 && mi < 60;
    for (n, got) in [("from_ymd_hm_tzid", CalendarDateTime::from_ymd_hm_tzid(y, mo, d, h, mi, tz)), ("ymd_hm_tzid", ic::ymd_hm_tzid(y, mo, d, h, mi, tz))] {
        match got {
            None => ensure!(!possible, "{n}({y}, {mo}, {d}, {h}, {mi}, {}) is None", tz.name()),
            Some(CalendarDateTime::WithTimezone { date_time: t, tzid }) => ensure!(
                possible && (t.year(), t.month(), t.day(), t.hour(), t.minute(), t.second(), t.nanosecond()) == (y, mo, d, h, mi, 0, 0) && tzid == tz.name(),
                "{n}({y}, {mo}, {d}, {h}, {mi}, {}) is {t:?} {tzid}", tz.name()
            ),
            Some(x) => return Err(format!("{n} gives {x:?}")),
        }
    }
    Ok(())
}

fn unzoned(c: &mut Case) -> Res {
    let l = datetime(&mut c.r);
    let name = match c.r.below(3) {
        0 => tzid(&mut c.r),
        1 => gen::short(&mut c.r, gen::Opt { lf: true, cr: true, quote: true, special: true }),
        _ => {
            let z = zone(&mut c.r).name().to_string();
            // near misses: one change to the name of a zone
            let odd = *c.r.pick(&[" ", "/", "\t", "\"", "_", "-", "+", ".", ";", "0", "1", "é", "\\", "'", "GMT", "(", ")", "tz:", "/citadel.org/"]);
            match c.r.below(12) {
                0 => z.to_lowercase(),
                1 => z.to_uppercase(),
                2 => format!("{z}{odd}"),
                3 | 4 => format!("{odd}{z}"),
                5 => format!("{odd}{z}{odd}"),
                6 => z[..z.len() - 1].to_string(),
                7 => z[1..].to_string(),
                8 => z.replace('_', " "),
                9 => z.replace('/', "-"),
                10 => z.rsplit('/').next().unwrap_or("").to_string(),
                _ => {
                    let i = c.r.below(z.len() + 1);
                    format!("{}{odd}{}", &z[..i], &z[i..])
                }
            }
        }
    };
    let known = TZ_VARIANTS.iter().find(|z| z.name() == name);
    c.input = format!("{l} {name:?}");
    c.trivial = known.is_some();
    let got = CalendarDateTime::try_from((l, name.as_str()));
    match known {
        Some(_) => ensure!(got == Ok(CalendarDateTime::WithTimezone { date_time: l, tzid: name.clone() }), "TryFrom({l}, {name:?}) gives {got:?}"),
        None => ensure!(got.is_err(), "TryFrom({l}, {name:?}) gives {got:?}"),
    }
    if known.is_none() {
        let got = DatePerhapsTime::try_from((l, name.as_str()));
        ensure!(got.is_err(), "TryFrom({l}, {name:?}) gives {got:?}");
        let got = CalendarDateTime::WithTimezone { date_time: l, tzid: name.clone() }.try_into_utc();
        ensure!(got.is_none(), "{l} in the unknown zone {name:?} is {got:?} in UTC");
    }
    let got = CalendarDateTime::Floating(l).try_into_utc();
    ensure!(got.is_none(), "floating {l} is {got:?} in UTC");
    let got = CalendarDateTime::Utc(l.and_utc()).try_into_utc();
    ensure!(got == Some(l.and_utc()), "UTC {l} is {got:?} in UTC");
    Ok(())
}

/// set, written, parsed and read back
fn zoned_trip(c: &mut Case) -> Res {
    let tz = zone(&mut c.r);
    let mut l = local(&mut c.r, &tz);
    while !(0..=9999).contains(&l.year()) {
        l = local(&mut c.r, &tz);
    }
    let v = CalendarDateTime::from((l, tz));
    c.input = format!("{v:?}");
    let mut e = ic::Event::new();
    e.starts(v.clone());
    let text = ic::Calendar::new().push(e.done()).to_string();
    let back = ic::Calendar::from_str(&text).map_err(|x| format!("{text:?} does not parse: {x}"))?;
    let got = back.components.first().and_then(|c| c.as_event()).and_then(|e| e.get_start());
    let got = match got {
        Some(DatePerhapsTime::DateTime(d)) => d,
        x => return Err(format!("{v:?} reads back as {x:?}")),
    };
    ensure!(got == v && got.try_into_utc() == v.try_into_utc(), "{v:?} reads back as {got:?}");
    Ok(())
}

pub fn c16() -> Vec<Oracle> {
    vec![
        Oracle { name: "zoned", quick: 6000, exhaustive: false, rule: "wall-clock times of all zones of the IANA database, half of them within two hours of a change of the offset", run: zoned },
        Oracle { name: "unzoned", quick: 6000, exhaustive: false, rule: "unknown zone names, floating and UTC values", run: unzoned },
        Oracle { name: "zoned_trip", quick: 2000, exhaustive: false, rule: "zoned starts set, written, parsed and read back", run: zoned_trip },
    ]
}

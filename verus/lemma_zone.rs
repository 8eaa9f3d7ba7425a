// C16: zoned date-times keep wall clock and zone, and denote the right instant
pub mod lemma_zone {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::spec::*;
#[allow(unused_imports)] use crate::shim::*;
#[allow(unused_imports)] use crate::shim_time::*;
#[allow(unused_imports)] use crate::model::*;
#[allow(unused_imports)] use crate::value_types::*;

/// the instant a date-time denotes, if that is certain
pub open spec fn utc_instant(d: DptV) -> Option<DateTime<Utc>> {
    match d {
        DptV::Utc(u) => Some(u),
        DptV::Zoned(l, id) => match tz_of(id) { Some(t) => tz_instant(t, l), None => None },
        _ => None,
    }
}
pub open spec fn ymd_hm(y: int, m: int, d: int, h: int, mi: int) -> Option<NaiveDateTime> {
    match ymd_of(y, m, d) { Some(x) => hms_of(x, h, mi, 0), None => None }
}
pub open spec fn ymd_hm_zoned(y: int, m: int, d: int, h: int, mi: int, t: Tz) -> Option<DptV> {
    match ymd_hm(y, m, d, h, mi) { Some(l) => Some(DptV::Zoned(l, tz_name(t))), None => None }
}

/// C16: what a zoned value denotes is the one instant at which the clocks of its zone show its wall-clock time
pub proof fn lemma_c16(l: NaiveDateTime, t: Tz, u: DateTime<Utc>)
    ensures
        tz_only(t, l, u) ==> utc_instant(DptV::Zoned(l, tz_name(t))) == Some(u),
        (forall|w: DateTime<Utc>| !tz_only(t, l, w)) ==> utc_instant(DptV::Zoned(l, tz_name(t))) is None,
        utc_instant(DptV::Utc(u)) == Some(u),
        utc_instant(DptV::Floating(l)) is None,
{
    broadcast use axiom_tz_name;
    lemma_tz_instant(t, l, u);
}
/// an unknown zone denotes nothing
pub proof fn lemma_c16_unknown(l: NaiveDateTime, id: Seq<char>)
    requires tz_of(id) is None
    ensures utc_instant(DptV::Zoned(l, id)) is None
{}
/// C16: the value given field by field has these fields, to the minute
pub proof fn lemma_c16_fields(y: int, m: int, d: int, h: int, mi: int, t: Tz)
    ensures match ymd_hm_zoned(y, m, d, h, mi, t) {
        Some(DptV::Zoned(l, id)) => year(ndt_date(l)) == y && month(ndt_date(l)) == m && day(ndt_date(l)) == d
            && hour(l) == h && minute(l) == mi && second(l) == 0 && whole(l) && tz_of(id) == Some(t),
        Some(_) => false,
        None => ymd_of(y, m, d) is None || h >= 24 || mi >= 60,
    }
{
    broadcast use {axiom_ymd, axiom_hms, axiom_tz_name};
}
/// C16: and it still denotes that instant after it was written as a property and read back
pub proof fn lemma_c16_trip(l: NaiveDateTime, t: Tz, key: Seq<char>)
    requires ndt_ok(l), vt_default(key) != Some(ValueType::Date)
    ensures ({ let v = DptV::Zoned(l, tz_name(t)); dpt_of(dpt_prop(v, key)) == Some(v) && match dpt_of(dpt_prop(v, key)) { Some(w) => utc_instant(w) == utc_instant(v), None => false } })
{
    lemma_dpt(DptV::Zoned(l, tz_name(t)), key);
}
} // mod lemma_zone

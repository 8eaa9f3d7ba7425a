// chrono, iso8601, uuid
pub mod shim_time {
#[allow(unused_imports)]
use vstd::prelude::*;
#[allow(unused_imports)]
use crate::spec::*;
#[allow(unused_imports)]
use crate::shim::{Default, Clone, XDisp, XNeg, From};

#[verifier::external_body] pub struct NaiveDate { x: u8 }
#[verifier::external_body] pub struct NaiveDateTime { x: u8 }
#[verifier::external_body] pub struct Duration { x: u8 }
pub struct Utc;
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct DateTime<T> { x: T }
impl core::clone::Clone for NaiveDate { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl core::clone::Clone for NaiveDateTime { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl core::clone::Clone for Duration { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl core::clone::Clone for Utc { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl<T> core::clone::Clone for DateTime<T> { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl Copy for NaiveDate {}
impl Copy for NaiveDateTime {}
impl Copy for Duration {}
impl Copy for Utc {}
impl<T: Copy> Copy for DateTime<T> {}
impl Clone for NaiveDate { #[verifier::external_body] fn x_clone(&self) -> (r: Self) { unimplemented!() } }
impl Clone for NaiveDateTime { #[verifier::external_body] fn x_clone(&self) -> (r: Self) { unimplemented!() } }
impl Clone for Duration { #[verifier::external_body] fn x_clone(&self) -> (r: Self) { unimplemented!() } }
impl Clone for DateTime<Utc> { #[verifier::external_body] fn x_clone(&self) -> (r: Self) { unimplemented!() } }

// ---------------------------------------------------------------- formats
pub struct ChronoParseError;
/// what chrono prints for a format, and what it reads
pub uninterp spec fn date_fmt(d: NaiveDate, f: Seq<char>) -> Seq<char>;
pub uninterp spec fn ndt_fmt(d: NaiveDateTime, f: Seq<char>) -> Seq<char>;
pub uninterp spec fn utc_fmt(d: DateTime<Utc>, f: Seq<char>) -> Seq<char>;
pub uninterp spec fn date_parse(s: Seq<char>, f: Seq<char>) -> Option<NaiveDate>;
pub uninterp spec fn ndt_parse(s: Seq<char>, f: Seq<char>) -> Option<NaiveDateTime>;
pub uninterp spec fn utc_parse(s: Seq<char>, f: Seq<char>) -> Option<DateTime<Utc>>;
/// the naive local parts
pub uninterp spec fn utc_naive(d: DateTime<Utc>) -> NaiveDateTime;
pub uninterp spec fn ndt_date(d: NaiveDateTime) -> NaiveDate;
pub uninterp spec fn year(d: NaiveDate) -> int;
pub uninterp spec fn month(d: NaiveDate) -> int;
pub uninterp spec fn day(d: NaiveDate) -> int;
pub uninterp spec fn hour(d: NaiveDateTime) -> int;
pub uninterp spec fn minute(d: NaiveDateTime) -> int;
pub uninterp spec fn second(d: NaiveDateTime) -> int;
/// no fraction of a second, no leap second
pub uninterp spec fn whole(d: NaiveDateTime) -> bool;
pub open spec fn date_ok(d: NaiveDate) -> bool { 0 <= year(d) <= 9999 }
pub open spec fn ndt_ok(d: NaiveDateTime) -> bool { date_ok(ndt_date(d)) && whole(d) }
pub open spec fn utc_ok(d: DateTime<Utc>) -> bool { ndt_ok(utc_naive(d)) }
pub open spec fn pad2(n: int) -> Seq<char> { seq![dig((n / 10) % 10), dig(n % 10)] }
pub open spec fn dstamp(d: NaiveDate) -> Seq<char> { pad2(year(d) / 100) + pad2(year(d) % 100) + pad2(month(d)) + pad2(day(d)) }
pub open spec fn tstamp(d: NaiveDateTime) -> Seq<char> { dstamp(ndt_date(d)) + seq!['T'] + pad2(hour(d)) + pad2(minute(d)) + pad2(second(d)) }
/// chrono, for the formats of this crate: prints the fields zero padded, and reads back what it prints
pub axiom fn axiom_date(d: NaiveDate)
    requires date_ok(d)
    ensures date_fmt(d, "%Y%m%d"@) == dstamp(d), date_parse(dstamp(d), "%Y%m%d"@) == Some(d);
pub axiom fn axiom_ndt(d: NaiveDateTime)
    requires ndt_ok(d)
    ensures ndt_fmt(d, "%Y%m%dT%H%M%S"@) == tstamp(d), ndt_parse(tstamp(d), "%Y%m%dT%H%M%S"@) == Some(d),
        ndt_parse(tstamp(d) + seq!['Z'], "%Y%m%dT%H%M%S"@) is None, utc_parse(tstamp(d), "%Y%m%dT%H%M%SZ"@) is None;
pub axiom fn axiom_utc(d: DateTime<Utc>)
    requires utc_ok(d)
    ensures utc_fmt(d, "%Y%m%dT%H%M%SZ"@) == tstamp(utc_naive(d)) + seq!['Z'],
        utc_parse(tstamp(utc_naive(d)) + seq!['Z'], "%Y%m%dT%H%M%SZ"@) == Some(d);

/// no text is in two of the formats (parsing consumes the whole text)
pub broadcast axiom fn axiom_fmt_excl(s: Seq<char>)
    ensures #![trigger ndt_parse(s, "%Y%m%dT%H%M%S"@)] #![trigger utc_parse(s, "%Y%m%dT%H%M%SZ"@)] #![trigger date_parse(s, "%Y%m%d"@)]
        ndt_parse(s, "%Y%m%dT%H%M%S"@) is Some ==> utc_parse(s, "%Y%m%dT%H%M%SZ"@) is None && date_parse(s, "%Y%m%d"@) is None,
        utc_parse(s, "%Y%m%dT%H%M%SZ"@) is Some ==> date_parse(s, "%Y%m%d"@) is None;

pub struct XFmt { pub s: Ghost<Seq<char>> }
impl XDisp for XFmt {
    open spec fn disp(&self) -> Seq<char> { self.s@ }
    #[verifier::external_body]
    fn x_to_string(&self) -> (r: String) { unimplemented!() }
}
impl NaiveDate {
    #[verifier::external_body]
    pub fn format(&self, f: &str) -> (r: XFmt) ensures r.disp() == date_fmt(*self, f@) { unimplemented!() }
    #[verifier::external_body]
    pub fn parse_from_str(s: &str, f: &str) -> (r: Result<NaiveDate, ChronoParseError>)
        ensures match r { Ok(d) => date_parse(s@, f@) == Some(d), Err(_) => date_parse(s@, f@) is None } { unimplemented!() }
}
impl NaiveDateTime {
    #[verifier::external_body]
    pub fn format(&self, f: &str) -> (r: XFmt) ensures r.disp() == ndt_fmt(*self, f@) { unimplemented!() }
    #[verifier::external_body]
    pub fn parse_from_str(s: &str, f: &str) -> (r: Result<NaiveDateTime, ChronoParseError>)
        ensures match r { Ok(d) => ndt_parse(s@, f@) == Some(d), Err(_) => ndt_parse(s@, f@) is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn date(&self) -> (r: NaiveDate) ensures r == ndt_date(*self) { unimplemented!() }
}
impl DateTime<Utc> {
    #[verifier::external_body]
    pub fn format(&self, f: &str) -> (r: XFmt) ensures r.disp() == utc_fmt(*self, f@) { unimplemented!() }
    #[verifier::external_body]
    pub fn date_naive(&self) -> (r: NaiveDate) ensures r == ndt_date(utc_naive(*self)) { unimplemented!() }
}
impl Utc {
    #[verifier::external_body]
    pub fn now() -> (r: DateTime<Utc>) ensures utc_now_ok(r) { unimplemented!() }
    #[verifier::external_body]
    pub fn datetime_from_str(&self, s: &str, f: &str) -> (r: Result<DateTime<Utc>, ChronoParseError>)
        ensures match r { Ok(d) => utc_parse(s@, f@) == Some(d), Err(_) => utc_parse(s@, f@) is None } { unimplemented!() }
}
/// the stamp of now is 16 ASCII characters (fractions are not printed)
pub axiom fn axiom_utc_len(d: DateTime<Utc>)
    requires utc_now_ok(d)
    ensures utc_fmt(d, "%Y%m%dT%H%M%SZ"@).len() == 16, forall|i: int| 0 <= i < 16 ==> (#[trigger] utc_fmt(d, "%Y%m%dT%H%M%SZ"@)[i] as u32) < 0x80;
/// the clock shows a year before 10000
pub open spec fn utc_now_ok(d: DateTime<Utc>) -> bool { date_ok(ndt_date(utc_naive(d))) }

// ---------------------------------------------------------------- zones (chrono-tz)
#[verifier::external_body] pub struct Tz { x: u8 }
impl core::clone::Clone for Tz { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl Copy for Tz {}
pub struct TzParseError;
impl XDisp for TzParseError {
    uninterp spec fn disp(&self) -> Seq<char>;
    #[verifier::external_body]
    fn x_to_string(&self) -> (r: String) { unimplemented!() }
}
/// the IANA name of a zone, the zone of a name
pub uninterp spec fn tz_name(t: Tz) -> Seq<char>;
pub uninterp spec fn tz_of(s: Seq<char>) -> Option<Tz>;
/// a zone is found under its name and no other
pub broadcast axiom fn axiom_tz_name(t: Tz) ensures #[trigger] tz_of(tz_name(t)) == Some(t);
pub broadcast axiom fn axiom_tz_of(s: Seq<char>) ensures #[trigger] tz_of(s) is Some ==> tz_name(tz_of(s)->Some_0) == s;
/// the clocks of the zone show l at the instant u
pub uninterp spec fn tz_shows(t: Tz, u: DateTime<Utc>, l: NaiveDateTime) -> bool;
/// the only instant at which the clocks of the zone show l
pub open spec fn tz_only(t: Tz, l: NaiveDateTime, u: DateTime<Utc>) -> bool { tz_shows(t, u, l) && forall|w: DateTime<Utc>| #[trigger] tz_shows(t, w, l) ==> w == u }
pub open spec fn tz_instant(t: Tz, l: NaiveDateTime) -> Option<DateTime<Utc>> {
    if exists|u: DateTime<Utc>| tz_only(t, l, u) { Some(choose|u: DateTime<Utc>| tz_only(t, l, u)) } else { None }
}
pub proof fn lemma_tz_instant(t: Tz, l: NaiveDateTime, u: DateTime<Utc>)
    ensures tz_instant(t, l) == Some(u) <==> tz_only(t, l, u)
{
    if tz_only(t, l, u) { let w = choose|w: DateTime<Utc>| tz_only(t, l, w); assert(tz_shows(t, w, l)); }
}
pub trait OffsetName { spec fn tzid(&self) -> Seq<char>; fn tz_id(&self) -> (r: &str) ensures r@ == self.tzid(); }
pub trait TimeZone: Sized { type Offset; }
impl OffsetName for Tz { open spec fn tzid(&self) -> Seq<char> { tz_name(*self) } #[verifier::external_body] fn tz_id(&self) -> (r: &str) { unimplemented!() } }
impl TimeZone for Tz { type Offset = Tz; }
impl TimeZone for Utc { type Offset = Utc; }
/// what the clocks of its zone show, and the zone's offset, of a date-time
pub uninterp spec fn local_of<T>(d: DateTime<T>) -> NaiveDateTime;
pub uninterp spec fn offset_of<T: TimeZone>(d: DateTime<T>) -> T::Offset;
pub uninterp spec fn zone_of<T>(d: DateTime<T>) -> T;
/// the instant
pub uninterp spec fn instant_of<T>(d: DateTime<T>) -> DateTime<Utc>;
impl<T: TimeZone> DateTime<T> {
    #[verifier::external_body]
    pub fn naive_local(&self) -> (r: NaiveDateTime) ensures r == local_of(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn offset(&self) -> (r: &T::Offset) ensures *r == offset_of(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn timezone(&self) -> (r: T) ensures r == zone_of(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn with_timezone(&self, u: &Utc) -> (r: DateTime<Utc>) ensures r == instant_of(*self) { unimplemented!() }
}
pub enum LocalResult<T> { None, Single(T), Ambiguous(T, T) }
impl<T> LocalResult<T> {
    #[verifier::external_body]
    pub fn single(self) -> (r: Option<T>) ensures r == (match self { LocalResult::Single(x) => Some(x), _ => None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn earliest(self) -> (r: Option<T>) ensures r == (match self { LocalResult::Single(x) => Some(x), LocalResult::Ambiguous(x, _) => Some(x), _ => None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn latest(self) -> (r: Option<T>) ensures r == (match self { LocalResult::Single(x) => Some(x), LocalResult::Ambiguous(_, x) => Some(x), _ => None }) { unimplemented!() }
}
impl Tz {
    #[verifier::external_body]
    pub fn name(&self) -> (r: &'static str) ensures r@ == tz_name(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_local_datetime(&self, l: &NaiveDateTime) -> (r: LocalResult<DateTime<Tz>>)
        ensures match r {
            LocalResult::Single(d) => tz_only(*self, *l, instant_of(d)),
            LocalResult::Ambiguous(a, b) => instant_of(a) != instant_of(b) && tz_shows(*self, instant_of(a), *l) && tz_shows(*self, instant_of(b), *l),
            LocalResult::None => forall|u: DateTime<Utc>| !#[trigger] tz_shows(*self, u, *l),
        } { unimplemented!() }
    #[verifier::external_body]
    pub fn from_utc_datetime(&self, l: &NaiveDateTime) -> (r: DateTime<Tz>) ensures utc_naive(instant_of(r)) == *l { unimplemented!() }
}
impl crate::shim::XParse for Tz {
    type Err = TzParseError;
    open spec fn parse_rel(s: Seq<char>, r: Result<Self, Self::Err>) -> bool { match r { Ok(t) => tz_of(s) == Some(t), Err(_) => tz_of(s) is None } }
    #[verifier::external_body]
    fn x_parse_from(s: &str) -> (r: Result<Self, Self::Err>) { unimplemented!() }
}
/// the date of a year, a month and a day, the date-time of a date and a time of day
pub uninterp spec fn ymd_of(y: int, m: int, d: int) -> Option<NaiveDate>;
pub uninterp spec fn hms_of(d: NaiveDate, h: int, m: int, s: int) -> Option<NaiveDateTime>;
pub broadcast axiom fn axiom_ymd(y: int, m: int, d: int)
    ensures match #[trigger] ymd_of(y, m, d) { Some(x) => year(x) == y && month(x) == m && day(x) == d && 1 <= m <= 12 && 1 <= d <= 31, None => true };
pub broadcast axiom fn axiom_hms(x: NaiveDate, h: int, m: int, s: int)
    ensures match #[trigger] hms_of(x, h, m, s) { Some(t) => ndt_date(t) == x && hour(t) == h && minute(t) == m && second(t) == s && whole(t), None => h >= 24 || m >= 60 || s >= 60 };
impl NaiveDate {
    #[verifier::external_body]
    pub fn from_ymd_opt(y: i32, m: u32, d: u32) -> (r: Option<NaiveDate>) ensures r == ymd_of(y as int, m as int, d as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn and_hms_opt(&self, h: u32, m: u32, s: u32) -> (r: Option<NaiveDateTime>) ensures r == hms_of(*self, h as int, m as int, s as int) { unimplemented!() }
}
pub assume_specification<T, U>[ Option::<T>::zip ](o: Option<T>, p: Option<U>) -> (r: Option<(T, U)>)
    ensures r == (match (o, p) { (Some(a), Some(b)) => Some((a, b)), _ => None });

// ---------------------------------------------------------------- durations
impl Duration {
    /// nanoseconds
    pub uninterp spec fn ns(self) -> int;
    #[verifier::external_body]
    pub fn from_std(s: StdDuration) -> (r: Result<Duration, OutOfRange>)
        ensures r == (match std_chrono(s) { Some(d) => Ok(d), None => Err(OutOfRange) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_std(&self) -> (r: Result<StdDuration, OutOfRange>)
        ensures self.ns() >= 0 ==> r is Ok, r is Ok ==> std_chrono(r->Ok_0) == Some(*self) { unimplemented!() }
}
pub struct OutOfRange;
/// the duration of that many nanoseconds
pub uninterp spec fn dur(ns: int) -> Duration;
/// a duration is its number of nanoseconds, and has a negation
pub axiom fn axiom_dur_ns(ns: int, d: Duration)
    ensures dur(d.ns()) == d, ns == -d.ns() ==> dur(ns).ns() == ns;
impl XNeg for Duration {
    open spec fn neg_rel(self, r: Self) -> bool { r == dur(-self.ns()) }
    #[verifier::external_body]
    fn x_neg(self) -> (r: Self) { unimplemented!() }
}
impl XDisp for Duration {
    uninterp spec fn disp(&self) -> Seq<char>;
    #[verifier::external_body]
    fn x_to_string(&self) -> (r: String) { unimplemented!() }
}
#[verifier::external_body] pub struct StdDuration { x: u8 }
impl core::clone::Clone for StdDuration { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl Copy for StdDuration {}
pub struct IsoDuration { x: u8 }
pub uninterp spec fn std_chrono(s: StdDuration) -> Option<Duration>;
pub uninterp spec fn iso_std(i: IsoDuration) -> StdDuration;
pub uninterp spec fn iso_of(s: Seq<char>) -> Option<IsoDuration>;
impl From<IsoDuration> for StdDuration {
    open spec fn from_rel(t: IsoDuration, r: Self) -> bool { r == iso_std(t) }
    #[verifier::external_body]
    fn x_from(t: IsoDuration) -> (r: Self) { unimplemented!() }
}
pub mod iso8601 {
    #[allow(unused_imports)] use vstd::prelude::*;
    use super::*;
    #[verifier::external_body]
    pub fn duration(s: &str) -> (r: Result<IsoDuration, ChronoParseError>)
        ensures match r { Ok(i) => iso_of(s@) == Some(i), Err(_) => iso_of(s@) is None } { unimplemented!() }
}
/// what iso8601 and chrono make of an unsigned duration
pub open spec fn dur_abs(s: Seq<char>) -> Option<Duration> { match iso_of(s) { Some(i) => std_chrono(iso_std(i)), None => None } }
/// chrono prints a duration as ISO 8601, iso8601 reads that back (whole milliseconds, seconds below 2^32)
pub axiom fn axiom_dur(d: Duration)
    requires 0 <= d.ns() < 4_294_967_296_000_000_000, d.ns() % 1_000_000 == 0
    ensures d.disp().len() > 0, d.disp()[0] == 'P', dur_abs(d.disp()) == Some(d);
/// a negative one with a sign in front
pub axiom fn axiom_dur_neg(d: Duration)
    requires d.ns() < 0
    ensures d.disp() == seq!['-'] + dur(-d.ns()).disp();

// ---------------------------------------------------------------- uuid
#[verifier::external_body] pub struct Uuid { x: u8 }
impl Uuid {
    #[verifier::external_body]
    pub fn new_v4() -> (r: Uuid) { unimplemented!() }
}
/// the hyphenated form
pub axiom fn axiom_uuid_len(u: Uuid)
    ensures u.disp().len() == 36, forall|i: int| 0 <= i < 36 ==> (#[trigger] u.disp()[i] as u32) < 0x80;
impl XDisp for Uuid {
    uninterp spec fn disp(&self) -> Seq<char>;
    #[verifier::external_body]
    fn x_to_string(&self) -> (r: String) { unimplemented!() }
}
} // mod shim_time

// Components and dates: what setters write and getters read.
pub mod lemma_comp {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::spec::*;
#[allow(unused_imports)] use crate::shim::*;
#[allow(unused_imports)] use crate::model::*;
#[allow(unused_imports)] use crate::properties::*;
#[allow(unused_imports)] use crate::components::*;
#[allow(unused_imports)] use crate::components::date_time::*;
#[allow(unused_imports)] use crate::value_types::ValueType;

// ---------------------------------------------------------------- component state
pub open spec fn is_empty_ic(c: InnerComponent) -> bool {
    c.properties@ == Map::<Seq<char>, Property>::empty() && c.multi_properties@ == Map::<Seq<char>, Vec<Property>>::empty() && c.components@ == Seq::<Other>::empty()
}
/// n is o with the property p set, and nothing else touched
pub open spec fn put1(o: InnerComponent, n: InnerComponent, p: Property) -> bool {
    n.properties@ == o.properties@.insert(p.key@, p) && n.multi_properties == o.multi_properties && n.components == o.components
}
pub open spec fn put(o: InnerComponent, n: InnerComponent, v: PropV) -> bool {
    exists|p: Property| p.v() == v && #[trigger] put1(o, n, p)
}
pub open spec fn put2(o: InnerComponent, n: InnerComponent, v: PropV, w: PropV) -> bool {
    exists|p: Property, q: Property| #![trigger p.v(), q.v()] p.v() == v && q.v() == w
        && n.properties@ =~= o.properties@.insert(p.key@, p).insert(q.key@, q) && n.multi_properties == o.multi_properties && n.components == o.components
}
/// the values kept for a repeatable property
pub open spec fn mlist(c: InnerComponent, k: Seq<char>) -> Seq<Property> {
    if c.multi_properties@.dom().contains(k) { c.multi_properties@[k]@ } else { Seq::empty() }
}
/// n is o with p added at the end of the values of its key
pub open spec fn put_multi(o: InnerComponent, n: InnerComponent, p: Property) -> bool {
    &&& n.properties == o.properties && n.components == o.components
    &&& n.multi_properties@ =~= o.multi_properties@.insert(p.key@, n.multi_properties@[p.key@])
    &&& n.multi_properties@[p.key@]@ =~= mlist(o, p.key@).push(p)
}
/// n is o with the child c added at the end
pub open spec fn put_kid(o: InnerComponent, n: InnerComponent, c: Other) -> bool {
    n.properties == o.properties && n.multi_properties == o.multi_properties && n.components@ == o.components@.push(c)
}
/// value of the property of that name
pub open spec fn pv(c: InnerComponent, k: Seq<char>) -> Option<Seq<char>> {
    if c.properties@.dom().contains(k) { Some(c.properties@[k].val@) } else { None }
}
pub open spec fn ostr(r: Option<&str>, o: Option<Seq<char>>) -> bool {
    match r { Some(s) => o == Some(s@), None => o is None }
}
pub open spec fn u32_opt(o: Option<Seq<char>>) -> Option<u32> {
    match o { Some(s) => match u_of(s, u32::MAX as int) { Some(n) => Some(n as u32), None => None }, None => None }
}
pub open spec fn u8_opt(o: Option<Seq<char>>) -> Option<u8> {
    match o { Some(s) => match u_of(s, u8::MAX as int) { Some(n) => Some(n as u8), None => None }, None => None }
}
pub open spec fn priority_of(o: Option<Seq<char>>) -> Option<u32> {
    match u32_opt(o) { Some(n) => if n <= 10 { Some(n) } else { None }, None => None }
}

// ---------------------------------------------------------------- dates
pub open spec fn utc_text(d: DateTime<Utc>) -> Seq<char> { utc_fmt(d, "%Y%m%dT%H%M%SZ"@) }
pub open spec fn utc_of(s: Seq<char>) -> Option<DateTime<Utc>> { utc_parse(s, "%Y%m%dT%H%M%SZ"@) }
pub open spec fn ndt_text(d: NaiveDateTime) -> Seq<char> { ndt_fmt(d, "%Y%m%dT%H%M%S"@) }
pub open spec fn ndt_of(s: Seq<char>) -> Option<NaiveDateTime> { ndt_parse(s, "%Y%m%dT%H%M%S"@) }
pub open spec fn utc_opt(o: Option<Seq<char>>) -> Option<DateTime<Utc>> { match o { Some(s) => utc_of(s), None => None } }
pub ghost enum DptV { Floating(NaiveDateTime), Utc(DateTime<Utc>), Zoned(NaiveDateTime, Seq<char>), Date(NaiveDate) }
pub open spec fn cv(c: CalendarDateTime) -> DptV {
    match c {
        CalendarDateTime::Floating(d) => DptV::Floating(d),
        CalendarDateTime::Utc(d) => DptV::Utc(d),
        CalendarDateTime::WithTimezone { date_time, tzid } => DptV::Zoned(date_time, tzid@),
    }
}
pub open spec fn dv(c: DatePerhapsTime) -> DptV {
    match c { DatePerhapsTime::DateTime(d) => cv(d), DatePerhapsTime::Date(d) => DptV::Date(d) }
}
pub open spec fn ocv(o: Option<CalendarDateTime>) -> Option<DptV> { match o { Some(c) => Some(cv(c)), None => None } }
pub open spec fn odv(o: Option<DatePerhapsTime>) -> Option<DptV> { match o { Some(c) => Some(dv(c)), None => None } }
pub open spec fn par1(k: Seq<char>, v: Seq<char>) -> Map<Seq<char>, ParV> { Map::empty().insert(k, ParV { key: k, val: v }) }
/// the property that states a date
pub open spec fn dpt_prop(d: DptV, key: Seq<char>) -> PropV {
    match d {
        DptV::Floating(t) => prop0(key, ndt_text(t)),
        DptV::Utc(t) => prop0(key, utc_text(t)),
        DptV::Zoned(t, tz) => PropV { key: key, val: ndt_text(t), params: par1("TZID"@, tz) },
        DptV::Date(t) => PropV { key: key, val: date_fmt(t, "%Y%m%d"@), params: par1("VALUE"@, "DATE"@) },
    }
}
pub open spec fn cdt_of_text(s: Seq<char>) -> Option<DptV> {
    match utc_of(s) { Some(d) => Some(DptV::Utc(d)), None => match ndt_of(s) { Some(d) => Some(DptV::Floating(d)), None => None } }
}
pub open spec fn cdt_of(p: PropV) -> Option<DptV> {
    if p.params.dom().contains("TZID"@) { match ndt_of(p.val) { Some(d) => Some(DptV::Zoned(d, p.params["TZID"@].val)), None => None } }
    else { match ndt_of(p.val) { Some(d) => Some(DptV::Floating(d)), None => cdt_of_text(p.val) } }
}
pub open spec fn dpt_of(p: PropV) -> Option<DptV> {
    if vt_of(p) == Some(ValueType::Date) { match date_parse(p.val, "%Y%m%d"@) { Some(d) => Some(DptV::Date(d)), None => None } }
    else { cdt_of(p) }
}
pub open spec fn dpt_opt(c: InnerComponent, k: Seq<char>) -> Option<DptV> {
    if c.properties@.dom().contains(k) { dpt_of(c.properties@[k].v()) } else { None }
}
/// the calendar date that the value shows
pub open spec fn date_shown(d: DptV) -> NaiveDate {
    match d { DptV::Floating(t) => ndt_date(t), DptV::Utc(t) => ndt_date(utc_naive(t)), DptV::Zoned(t, _) => ndt_date(t), DptV::Date(t) => t }
}
pub open spec fn dpt_ok(d: DptV) -> bool {
    match d { DptV::Floating(t) => ndt_ok(t), DptV::Utc(t) => utc_ok(t), DptV::Zoned(t, _) => ndt_ok(t), DptV::Date(t) => date_ok(t) }
}
/// C09: a date reads back as the value that was set
pub proof fn lemma_dpt(d: DptV, key: Seq<char>)
    requires dpt_ok(d), vt_default(key) != Some(ValueType::Date)
    ensures dpt_of(dpt_prop(d, key)) == Some(d)
{
    lits!("TZID", "VALUE", "DATE", "DATE-TIME");
    lemma_vt_name(ValueType::Date);
    let p = dpt_prop(d, key);
    match d {
        DptV::Floating(t) => { axiom_ndt(t); }
        DptV::Utc(t) => { axiom_utc(t); axiom_ndt(utc_naive(t)); }
        DptV::Zoned(t, tz) => { axiom_ndt(t); assert(!p.params.dom().contains("VALUE"@)); }
        DptV::Date(t) => { axiom_date(t); assert(p.params["VALUE"@].val == "DATE"@); }
    }
}
/// C11: setting one property leaves the values of all others
pub proof fn lemma_put(o: InnerComponent, n: InnerComponent, v: PropV, k: Seq<char>)
    requires put(o, n, v)
    ensures pv(n, k) == (if k == v.key { Some(v.val) } else { pv(o, k) }),
        dpt_opt(n, k) == (if k == v.key { dpt_of(v) } else { dpt_opt(o, k) }),
        mlist(n, k) == mlist(o, k), n.components == o.components
{}
/// C11: the priority that was set, capped at 10
pub proof fn lemma_priority(o: InnerComponent, n: InnerComponent, x: u32)
    requires put(o, n, prop0("PRIORITY"@, udec(if x > 10 { 10 } else { x as nat })))
    ensures priority_of(pv(n, "PRIORITY"@)) == Some(if x > 10 { 10u32 } else { x })
{
    let m: nat = if x > 10 { 10 } else { x as nat };
    lemma_put(o, n, prop0("PRIORITY"@, udec(m)), "PRIORITY"@);
    lemma_u_of(m, u32::MAX as int);
}
} // mod lemma_comp

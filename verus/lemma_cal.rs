// Calendars: contents, what they are written as.
pub mod lemma_cal {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::spec::*;
#[allow(unused_imports)] use crate::shim::*;
#[allow(unused_imports)] use crate::model::*;
#[allow(unused_imports)] use crate::properties::*;
#[allow(unused_imports)] use crate::components::*;
#[allow(unused_imports)] use crate::calendar::*;
use crate::calendar::calendar_component::*;

/// kind and contents of a component of a calendar
pub open spec fn cck(c: CalendarComponent) -> Seq<char> {
    match c { CalendarComponent::Todo(x) => x.kind(), CalendarComponent::Event(x) => x.kind(), CalendarComponent::Venue(x) => x.kind(), CalendarComponent::Other(x) => x.kind() }
}
pub open spec fn cci(c: CalendarComponent) -> InnerComponent {
    match c { CalendarComponent::Todo(x) => x.ic(), CalendarComponent::Event(x) => x.ic(), CalendarComponent::Venue(x) => x.ic(), CalendarComponent::Other(x) => x.ic() }
}
/// value of the first property of that name
pub open spec fn cpv(ps: Seq<Property>, k: Seq<char>) -> Option<Seq<char>> decreases ps.len() {
    if ps.len() == 0 { None } else if ps[0].key@ == k { Some(ps[0].val@) } else { cpv(ps.skip(1), k) }
}
pub proof fn lemma_cpv_at(ps: Seq<Property>, k: Seq<char>, i: int)
    requires 0 <= i < ps.len(), ps[i].key@ == k, forall|j: int| 0 <= j < i ==> (#[trigger] ps[j]).key@ != k
    ensures cpv(ps, k) == Some(ps[i].val@)
    decreases i
{
    if i > 0 {
        assert(ps[0].key@ != k);
        assert forall|j: int| 0 <= j < i - 1 implies (#[trigger] ps.skip(1)[j]).key@ != k by { assert(ps.skip(1)[j] == ps[j + 1]); }
        lemma_cpv_at(ps.skip(1), k, i - 1);
    }
}
pub proof fn lemma_cpv_none(ps: Seq<Property>, k: Seq<char>)
    requires forall|j: int| 0 <= j < ps.len() ==> (#[trigger] ps[j]).key@ != k
    ensures cpv(ps, k) is None
    decreases ps.len()
{
    if ps.len() > 0 {
        assert(ps[0].key@ != k);
        assert forall|j: int| 0 <= j < ps.len() - 1 implies (#[trigger] ps.skip(1)[j]).key@ != k by { assert(ps.skip(1)[j] == ps[j + 1]); }
        lemma_cpv_none(ps.skip(1), k);
    }
}
pub broadcast proof fn lemma_cpv_first(ps: Seq<Property>, k: Seq<char>, i: int)
    requires 0 <= i < ps.len(), ps[i].key@ == k, forall|j: int| 0 <= j < i ==> (#[trigger] ps[j]).key@ != k
    ensures #![trigger ps[i], cpv(ps, k)] cpv(ps, k) == Some(ps[i].val@)
{ lemma_cpv_at(ps, k, i); }
pub broadcast proof fn lemma_cpv_nowhere(ps: Seq<Property>, k: Seq<char>)
    requires forall|j: int| 0 <= j < ps.len() ==> (#[trigger] ps[j]).key@ != k
    ensures #[trigger] cpv(ps, k) is None
{ lemma_cpv_none(ps, k); }
/// C13: a property at the end is found where there was none of its name, and changes no other
pub proof fn lemma_cpv_push(ps: Seq<Property>, p: Property, k: Seq<char>)
    ensures cpv(ps.push(p), k) == (match cpv(ps, k) { Some(v) => Some(v), None => if p.key@ == k { Some(p.val@) } else { None } })
    decreases ps.len()
{
    if ps.len() == 0 { assert(ps.push(p).skip(1) =~= Seq::<Property>::empty()); assert(cpv(ps.push(p).skip(1), k) is None); assert(ps.push(p)[0] == p); }
    else { assert(ps.push(p).skip(1) =~= ps.skip(1).push(p)); assert(ps.push(p)[0] == ps[0]); lemma_cpv_push(ps.skip(1), p, k); }
}
pub open spec fn opt_or(a: Option<Seq<char>>, b: Option<Seq<char>>) -> Option<Seq<char>> { match a { Some(_) => a, None => b } }
/// the standard name before the X- name
pub open spec fn cal_get(ps: Seq<Property>, a: Seq<char>, b: Seq<char>) -> Option<Seq<char>> { opt_or(cpv(ps, a), cpv(ps, b)) }
pub open spec fn iso_opt(o: Option<Seq<char>>) -> Option<IsoDuration> { match o { Some(s) => iso_of(s), None => None } }
pub open spec fn cal_ttl(ps: Seq<Property>) -> Option<Duration> {
    let i = match iso_opt(cpv(ps, "REFRESH-INTERVAL"@)) { Some(i) => Some(i), None => iso_opt(cpv(ps, "X-PUBLISHED-TTL"@)) };
    match i { Some(i) => std_chrono(iso_std(i)), None => None }
}
/// n is o with two properties at the end
pub open spec fn cal_put2(o: Calendar, n: Calendar, v: PropV, w: PropV) -> bool {
    n.components == o.components
    && exists|p: Property, q: Property| #![trigger p.v(), q.v()] p.v() == v && q.v() == w && n.properties@ == o.properties@.push(p).push(q)
}
/// C13: what a calendar setter writes, its getter returns
pub proof fn lemma_cal_get(o: Calendar, n: Calendar, v: PropV, w: PropV)
    requires cal_put2(o, n, v, w), v.key != w.key, cpv(o.properties@, v.key) is None
    ensures cal_get(n.properties@, v.key, w.key) == Some(v.val),
        forall|k: Seq<char>| k != v.key && k != w.key ==> cpv(n.properties@, k) == cpv(o.properties@, k)
{
    let (p, q) = choose|p: Property, q: Property| #![trigger p.v(), q.v()] p.v() == v && q.v() == w && n.properties@ == o.properties@.push(p).push(q);
    let m = o.properties@.push(p);
    lemma_cpv_push(o.properties@, p, v.key);
    lemma_cpv_push(m, q, v.key);
    assert forall|k: Seq<char>| k != v.key && k != w.key implies cpv(n.properties@, k) == cpv(o.properties@, k) by {
        lemma_cpv_push(o.properties@, p, k);
        lemma_cpv_push(m, q, k);
    }
}
/// C13: a time to live reads back
pub proof fn lemma_cal_ttl(o: Calendar, n: Calendar, d: Duration)
    requires cal_put2(o, n, ttl_prop(d), prop0("X-PUBLISHED-TTL"@, d.disp())), cpv(o.properties@, "REFRESH-INTERVAL"@) is None,
        dur_ok(d), d.ns() >= 0
    ensures cal_ttl(n.properties@) == Some(d)
{
    lits!("REFRESH-INTERVAL", "X-PUBLISHED-TTL", "VALUE", "DURATION");
    let (v, w) = (ttl_prop(d), prop0("X-PUBLISHED-TTL"@, d.disp()));
    let (p, q) = choose|p: Property, q: Property| #![trigger p.v(), q.v()] p.v() == v && q.v() == w && n.properties@ == o.properties@.push(p).push(q);
    lemma_cpv_push(o.properties@, p, v.key);
    lemma_cpv_push(o.properties@.push(p), q, v.key);
    axiom_dur(d);
}
pub open spec fn ttl_prop(d: Duration) -> PropV { PropV { key: "REFRESH-INTERVAL"@, val: d.disp(), params: par1("VALUE"@, "DURATION"@) } }
pub open spec fn is_default_props(ps: Seq<Property>) -> bool {
    ps.len() == 3 && ps[0].v() == prop0("VERSION"@, "2.0"@) && ps[1].v() == prop0("PRODID"@, "ICALENDAR-RS"@) && ps[2].v() == prop0("CALSCALE"@, "GREGORIAN"@)
}
/// r is what the elements of s become
pub open spec fn conv_all<C: Into<D>, D>(s: Seq<C>, r: Seq<D>) -> bool {
    s.len() == r.len() && forall|i: int| 0 <= i < s.len() ==> s[i].into_rel(#[trigger] r[i])
}
/// s is what the first components are written as, in order
#[verifier::opaque]
pub open spec fn comps_written(cs: Seq<CalendarComponent>, s: Seq<char>) -> bool decreases cs.len() {
    if cs.len() == 0 { s.len() == 0 }
    else { exists|a: Seq<char>, b: Seq<char>| comps_written(cs.drop_last(), a) && comp_written(cck(cs.last()), cci(cs.last()), b) && s == #[trigger] (a + b) }
}
pub proof fn lemma_comps_push(cs: Seq<CalendarComponent>, k: int, a: Seq<char>, b: Seq<char>)
    requires 0 <= k < cs.len(), comps_written(cs.take(k), a), comp_written(cck(cs[k]), cci(cs[k]), b)
    ensures comps_written(cs.take(k + 1), a + b)
{ reveal_with_fuel(comps_written, 2); assert(cs.take(k + 1).drop_last() =~= cs.take(k)); assert(cs.take(k + 1).last() == cs[k]); }
pub open spec fn cal_text(a: Seq<char>, b: Seq<char>) -> Seq<char> { begin_line("VCALENDAR"@) + a + b + end_line("VCALENDAR"@) }
/// s is what the calendar is written as: BEGIN, the properties in order, the components in order, END
pub open spec fn cal_written(c: Calendar, s: Seq<char>) -> bool {
    exists|a: Seq<char>, b: Seq<char>| list_written(refs(c.properties@), a) && comps_written(c.components@, b) && s == #[trigger] cal_text(a, b)
}
pub proof fn lemma_cal_lines()
    ensures "BEGIN:VCALENDAR\r\n"@ == begin_line("VCALENDAR"@), "END:VCALENDAR\r\n"@ == end_line("VCALENDAR"@)
{
    reveal_strlit("BEGIN:VCALENDAR\r\n"); reveal_strlit("END:VCALENDAR\r\n"); reveal_strlit("BEGIN:"); reveal_strlit("END:"); reveal_strlit("VCALENDAR");
    assert("BEGIN:VCALENDAR\r\n"@ =~= begin_line("VCALENDAR"@));
    assert("END:VCALENDAR\r\n"@ =~= end_line("VCALENDAR"@));
}
pub proof fn lemma_cal_none()
    ensures list_written(Seq::empty(), Seq::empty()), comps_written(Seq::empty(), Seq::empty())
{ reveal_with_fuel(comps_written, 2); reveal_with_fuel(list_written, 2); }
} // mod lemma_cal

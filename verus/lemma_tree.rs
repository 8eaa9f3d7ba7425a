// Parsed trees: what they are written as and what they become.
pub mod lemma_tree {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::spec::*;
#[allow(unused_imports)] use crate::shim::*;
#[allow(unused_imports)] use crate::model::*;
#[allow(unused_imports)] use crate::components::*;
use crate::parser::properties::Property;
use crate::parser::components::Component as Comp;
use crate::calendar::calendar_component::CalendarComponent;
use crate::shim_col::*;

/// s is the content lines of ps, in that order
#[verifier::opaque]
pub open spec fn plist_written(ps: Seq<PropS>, s: Seq<char>) -> bool decreases ps.len() {
    if ps.len() == 0 { s.len() == 0 }
    else { exists|a: Seq<char>, b: Seq<char>| plist_written(ps.drop_last(), a) && pwritten(ps.last(), b) && s == #[trigger] (a + b) }
}
pub proof fn lemma_plist_push(ps: Seq<PropS>, k: int, a: Seq<char>, b: Seq<char>)
    requires 0 <= k < ps.len(), plist_written(ps.take(k), a), pwritten(ps[k], b)
    ensures plist_written(ps.take(k + 1), a + b)
{ reveal_with_fuel(plist_written, 2); assert(ps.take(k + 1).drop_last() =~= ps.take(k)); assert(ps.take(k + 1).last() == ps[k]); }
pub open spec fn has_prop(ps: Seq<PropS>, n: Seq<char>) -> bool { exists|i: int| 0 <= i < ps.len() && #[trigger] ps[i].name == n }
/// a component called calendar, in any case, gets a time stamp and an identifier it may not have had
pub open spec fn cstamp_written(c: CompS, s: Seq<char>) -> bool {
    if lowered(c.name) != "calendar"@ || has_prop(c.props, "DTSTAMP"@) { s.len() == 0 }
    else { exists|d: DateTime<Utc>| utc_now_ok(d) && s == "DTSTAMP:"@ + #[trigger] utc_text(d) + crlf() }
}
pub open spec fn cuid_written(c: CompS, s: Seq<char>) -> bool {
    if lowered(c.name) != "calendar"@ || has_prop(c.props, "UID"@) { s.len() == 0 }
    else { exists|u: Uuid| s == "UID:"@ + #[trigger] u.disp() + crlf() }
}
pub ghost struct CParts { pub head: Seq<char>, pub stamp: Seq<char>, pub uid: Seq<char>, pub props: Seq<char>, pub kids: Seq<char>, pub tail: Seq<char> }
pub open spec fn cparts_text(x: CParts) -> Seq<char> { x.head + x.stamp + x.uid + x.props + x.kids + x.tail }
/// s is what the parsed component is written as: BEGIN, its properties in order, its children in order, END
#[verifier::opaque]
pub open spec fn cwritten(c: CompS, s: Seq<char>) -> bool decreases c, c.comps.len() + 1 {
    exists|x: CParts| s == #[trigger] cparts_text(x) && begin_of(c.name, x.head) && end_of(c.name, x.tail) && cstamp_written(c, x.stamp) && cuid_written(c, x.uid)
        && plist_written(c.props, x.props) && ckids_written(c, c.comps.len() as int, x.kids)
}
/// s is what the first n children are written as
#[verifier::opaque]
pub open spec fn ckids_written(c: CompS, n: int, s: Seq<char>) -> bool decreases c, n {
    if n <= 0 || n > c.comps.len() { s.len() == 0 }
    else { exists|a: Seq<char>, b: Seq<char>| ckids_written(c, n - 1, a) && cwritten(c.comps[n - 1], b) && s == #[trigger] (a + b) }
}
pub proof fn lemma_ckids_push(c: CompS, n: int, a: Seq<char>, b: Seq<char>)
    requires 0 <= n < c.comps.len(), ckids_written(c, n, a), cwritten(c.comps[n], b)
    ensures ckids_written(c, n + 1, a + b)
{ reveal_with_fuel(ckids_written, 2); reveal_with_fuel(cwritten, 2); assert(a + b == a + b); }
pub proof fn lemma_cnone(c: CompS)
    ensures plist_written(c.props.take(0), Seq::empty()), ckids_written(c, 0, Seq::empty())
{ reveal_with_fuel(plist_written, 2); reveal_with_fuel(ckids_written, 2); }
pub proof fn lemma_cdone(c: CompS, x: CParts)
    requires begin_of(c.name, x.head), end_of(c.name, x.tail), cstamp_written(c, x.stamp), cuid_written(c, x.uid), plist_written(c.props, x.props), ckids_written(c, c.comps.len() as int, x.kids)
    ensures cwritten(c, cparts_text(x))
{ reveal_with_fuel(cwritten, 2); reveal_with_fuel(ckids_written, 2); assert(cparts_text(x) == cparts_text(x)); }
pub broadcast proof fn lemma_refs_props<'a>(v: Seq<Property<'a>>, i: int)
    requires 0 <= i < v.len()
    ensures #![trigger props_sv(v)[i]] #![trigger refs(v)[i]] *refs(v)[i] == v[i], props_sv(v)[i] == v[i].sv()
{}
/// whether what n is borrowed as is the text p
pub open spec fn names<S: AsRef<str>>(n: S, p: Seq<char>, b: bool) -> bool { exists|t: &str| #[trigger] n.as_ref_rel(t) && b == (p == t@) }
/// o is h, then t and u, what the stamps of c are written as
pub open spec fn stamped_by(c: CompS, h: Seq<char>, o: Seq<char>, t: Seq<char>, u: Seq<char>) -> bool {
    cstamp_written(c, t) && cuid_written(c, u) && o =~= h + t + u
}

// ------------------------------------------------------------ dates
/// the first TZID parameter
pub open spec fn tz_par(ps: Seq<ParS>) -> Option<ParS> decreases ps.len() {
    if ps.len() == 0 { None } else if ps[0].key == "TZID"@ { Some(ps[0]) } else { tz_par(ps.skip(1)) }
}
pub proof fn lemma_tz_par(ps: Seq<ParS>, i: int)
    requires 0 <= i <= ps.len(), i < ps.len() ==> ps[i].key == "TZID"@, forall|j: int| 0 <= j < i ==> (#[trigger] ps[j]).key != "TZID"@
    ensures tz_par(ps) == (if i < ps.len() { Some(ps[i]) } else { None })
    decreases i
{
    if i > 0 {
        assert(ps[0].key != "TZID"@);
        assert forall|j: int| 0 <= j < i - 1 implies (#[trigger] ps.skip(1)[j]).key != "TZID"@ by { assert(ps[j + 1].key != "TZID"@); }
        lemma_tz_par(ps.skip(1), i - 1);
    }
}
/// the date a parsed property states
pub open spec fn dpt_try(p: PropS) -> Option<DptV> {
    match utc_of(p.val) { Some(d) => Some(DptV::Utc(d)), None => match date_parse(p.val, "%Y%m%d"@) { Some(d) => Some(DptV::Date(d)), None => match ndt_of(p.val) {
        None => None,
        Some(d) => match tz_par(p.params) { None => Some(DptV::Floating(d)), Some(z) => match z.val { Some(z) => Some(DptV::Zoned(d, z)), None => None } },
    } } }
}
// ------------------------------------------------------------ conversion
pub open spec fn pvm(m: Map<Seq<char>, crate::properties::Property>) -> Map<Seq<char>, PropV> { m.map_values(|p: crate::properties::Property| p.v()) }
pub open spec fn cpvs(s: Seq<crate::properties::Property>) -> Seq<PropV> { s.map_values(|p: crate::properties::Property| p.v()) }
pub open spec fn mvm(m: Map<Seq<char>, Vec<crate::properties::Property>>) -> Map<Seq<char>, Seq<PropV>> { m.map_values(|v: Vec<crate::properties::Property>| cpvs(v@)) }
/// properties there may be one of, and several of
pub open spec fn is_single() -> spec_fn(PropS) -> bool { |p: PropS| !is_multi_name(p.name) }
pub open spec fn is_multi() -> spec_fn(PropS) -> bool { |p: PropS| is_multi_name(p.name) }
/// by name, the last of a name counts
pub open spec fn smap(ps: Seq<PropS>) -> Map<Seq<char>, PropV> decreases ps.len() {
    if ps.len() == 0 { Map::empty() } else { smap(ps.drop_last()).insert(ps.last().name, prop_v(ps.last())) }
}
/// by name, all of a name in order
pub open spec fn mmap(ps: Seq<PropS>) -> Map<Seq<char>, Seq<PropV>> decreases ps.len() {
    if ps.len() == 0 { Map::empty() }
    else {
        let m = mmap(ps.drop_last());
        let k = ps.last().name;
        m.insert(k, (if m.dom().contains(k) { m[k] } else { Seq::empty() }).push(prop_v(ps.last())))
    }
}
/// r holds what c holds: single properties, repeatable ones, children
pub open spec fn inner_rel(c: CompS, r: InnerComponent) -> bool decreases c {
    &&& pvm(r.properties@) == smap(c.props.filter(is_single()))
    &&& mvm(r.multi_properties@) == mmap(c.props.filter(is_multi()))
    &&& r.components.len() == c.comps.len()
    &&& forall|i: int| 0 <= i < c.comps.len() ==> (#[trigger] r.components[i]).name@ == c.comps[i].name && inner_rel(c.comps[i], r.components[i].inner)
}
pub open spec fn other_rel(c: CompS, r: Other) -> bool { r.kind() == c.name && inner_rel(c, r.ic()) }
pub open spec fn cc_rel(c: CompS, r: CalendarComponent) -> bool {
    &&& cck(r) == c.name && inner_rel(c, cci(r))
    &&& match r {
        CalendarComponent::Event(_) => c.name == "VEVENT"@,
        CalendarComponent::Todo(_) => c.name == "VTODO"@,
        CalendarComponent::Venue(_) => c.name == "VVENUE"@,
        CalendarComponent::Other(_) => c.name != "VEVENT"@ && c.name != "VTODO"@ && c.name != "VVENUE"@,
    }
}
pub proof fn lemma_sift<T>(s: Seq<T>, keep: Seq<bool>, f: spec_fn(T) -> PropS, pred: spec_fn(PropS) -> bool)
    requires keep.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] keep[i] == pred(f(s[i]))
    ensures sift(s, keep).map_values(f) =~= s.map_values(f).filter(pred)
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let m = s.map_values(f);
        assert(m.drop_last() =~= s.drop_last().map_values(f));
        assert forall|i: int| 0 <= i < s.len() - 1 implies #[trigger] keep.drop_last()[i] == pred(f(s.drop_last()[i])) by { assert(keep[i] == pred(f(s[i]))); }
        lemma_sift(s.drop_last(), keep.drop_last(), f, pred);
        assert(keep[s.len() - 1] == pred(f(s[s.len() - 1])));
        assert(m.last() == f(s.last()));
    } else { assert(s.map_values(f).filter(pred) =~= Seq::empty()); }
}
pub open spec fn pairs_are(q: Seq<(String, crate::properties::Property)>, ps: Seq<PropS>) -> bool {
    q.len() == ps.len() && forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]).0@ == ps[i].name && q[i].1.v() == prop_v(ps[i])
}
pub proof fn lemma_smap(q: Seq<(String, crate::properties::Property)>, ps: Seq<PropS>)
    requires pairs_are(q, ps)
    ensures pvm(map_of(q)) =~= smap(ps)
    decreases q.len()
{
    if q.len() > 0 {
        assert(q.last() == q[q.len() - 1]);
        lemma_smap(q.drop_last(), ps.drop_last());
    }
}
/// the single properties of a component, collected
pub proof fn lemma_single<'a>(v: Seq<Property<'a>>, keep: Seq<bool>, q: Seq<(String, crate::properties::Property)>)
    requires keep.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> #[trigger] keep[i] == !is_multi_name(v[i].sv().name),
        q.len() == sift(refs(v), keep).len(),
        forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]).0@ == sift(refs(v), keep)[i].sv().name && q[i].1.v() == prop_v(sift(refs(v), keep)[i].sv())
    ensures pvm(map_of(q)) == smap(props_sv(v).filter(is_single()))
{
    let f = |p: &Property<'a>| p.sv();
    lemma_sift(refs(v), keep, f, is_single());
    assert(refs(v).map_values(f) =~= props_sv(v));
    lemma_smap(q, sift(refs(v), keep).map_values(f));
}
/// the repeatable ones
pub proof fn lemma_multi<'a>(v: Seq<Property<'a>>, keep: Seq<bool>)
    requires keep.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> #[trigger] keep[i] == is_multi_name(v[i].sv().name)
    ensures props_sv(sift(v, keep)) == props_sv(v).filter(is_multi())
{
    let f = |p: Property<'a>| p.sv();
    lemma_sift(v, keep, f, is_multi());
    assert(v.map_values(f) =~= props_sv(v));
    assert(sift(v, keep).map_values(f) =~= props_sv(sift(v, keep)));
}
pub proof fn lemma_mmap(ps: Seq<PropS>, n: int, o: InnerComponent, r: InnerComponent, p: crate::properties::Property)
    requires 0 <= n < ps.len(), mvm(o.multi_properties@) == mmap(ps.take(n)), put_multi(o, r, p), p.v() == prop_v(ps[n])
    ensures mvm(r.multi_properties@) == mmap(ps.take(n + 1))
{
    assert(ps.take(n + 1).drop_last() =~= ps.take(n));
    assert(ps.take(n + 1).last() == ps[n]);
    let k = ps[n].name;
    let m = mmap(ps.take(n));
    assert(mvm(o.multi_properties@).dom().contains(k) == o.multi_properties@.dom().contains(k));
    assert(cpvs(r.multi_properties@[k]@) =~= cpvs(mlist(o, k)).push(p.v()));
    assert(p.key@ == k);
    let e = if m.dom().contains(k) { m[k] } else { Seq::empty() };
    assert(cpvs(mlist(o, k)) =~= e) by { if m.dom().contains(k) { assert(mvm(o.multi_properties@)[k] == cpvs(o.multi_properties@[k]@)); } }
    assert(mmap(ps.take(n + 1)) == m.insert(k, e.push(prop_v(ps[n]))));
    assert(r.multi_properties@ == o.multi_properties@.insert(k, r.multi_properties@[k]));
    assert(mvm(o.multi_properties@.insert(k, r.multi_properties@[k])) =~= mvm(o.multi_properties@).insert(k, cpvs(r.multi_properties@[k]@)));
}
/// a conversion inside itself, of smaller things: by induction it does what it is specified to do
#[verifier::external_body]
pub fn rec_other<'a>(b: Ghost<CompS>) -> (r: impl Fn(Comp<'a>) -> Other)
    ensures forall|c: Comp<'a>| #[trigger] call_requires(r, (c,)) == decreases_to!(b@ => csv(c)),
        forall|c: Comp<'a>, o: Other| #[trigger] call_ensures(r, (c,), o) ==> <Other as From<Comp<'a>>>::from_rel(c, o)
{ |c: Comp<'a>| unimplemented!() }
} // mod lemma_tree

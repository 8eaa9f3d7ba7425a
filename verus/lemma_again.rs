// Trees written and read back: parsed trees (C14), calendars (C06).
pub mod lemma_again {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::spec::*;
#[allow(unused_imports)] use crate::shim::*;
#[allow(unused_imports)] use crate::shim_nom::*;
#[allow(unused_imports)] use crate::shim_col::*;
#[allow(unused_imports)] use crate::model::*;
#[allow(unused_imports)] use crate::components::*;
use crate::properties::Property;
use crate::calendar::Calendar;
use crate::calendar::calendar_component::CalendarComponent;

/// s unfolds to well-formed lines that spell out ps and cs
pub open spec fn body_of_text(ps: Seq<PropS>, cs: Seq<CompS>, s: Seq<char>) -> bool { exists|u: Seq<char>| #[trigger] unfolds(s, u) && sp_body(crlf(), ps, cs, u) }
/// s unfolds to a well-formed component and a line ending
pub open spec fn comp_of_text(c: CompS, s: Seq<char>) -> bool { exists|l: Seq<char>| #[trigger] sp_comp(crlf(), c, l) && unfolds(s, l + crlf()) }

proof fn lemma_crlf_gap()
    ensures gap(crlf(), crlf())
{ assert(crlf().take(2) =~= crlf()); }
/// bodies one after the other
pub proof fn lemma_body_add(m: Seq<char>, p1: Seq<PropS>, c1: Seq<CompS>, s1: Seq<char>, p2: Seq<PropS>, c2: Seq<CompS>, s2: Seq<char>)
    requires sp_body(m, p1, c1, s1), sp_body(m, p2, c2, s2)
    ensures sp_body(m, p1 + p2, c1 + c2, s1 + s2)
    decreases s1.len()
{
    let (p, c, s) = (p1 + p2, c1 + c2, s1 + s2);
    if s1.len() == 0 { assert(p =~= p2 && c =~= c2 && s =~= s2); }
    else if p1.len() > 0 && exists|l: Seq<char>, g: Seq<char>, u: Seq<char>| s1 == #[trigger] cat3(l, g, u) && u.len() < s1.len() && sp_line(p1[0], l) && gap(m, g) && sp_body(m, p1.skip(1), c1, u) {
        let (l, g, u) = choose|l: Seq<char>, g: Seq<char>, u: Seq<char>| s1 == #[trigger] cat3(l, g, u) && u.len() < s1.len() && sp_line(p1[0], l) && gap(m, g) && sp_body(m, p1.skip(1), c1, u);
        lemma_body_add(m, p1.skip(1), c1, u, p2, c2, s2);
        assert(p.skip(1) =~= p1.skip(1) + p2);
        assert(s =~= cat3(l, g, u + s2));
    } else {
        let (l, g, u) = choose|l: Seq<char>, g: Seq<char>, u: Seq<char>| s1 == #[trigger] cat3(l, g, u) && l.len() < s1.len() && u.len() < s1.len() && sp_comp(m, c1[0], l) && gap(m, g) && sp_body(m, p1, c1.skip(1), u);
        lemma_body_add(m, p1, c1.skip(1), u, p2, c2, s2);
        assert(c.skip(1) =~= c1.skip(1) + c2);
        assert(s =~= cat3(l, g, u + s2));
    }
}
proof fn lemma_body_none(m: Seq<char>)
    ensures sp_body(m, Seq::empty(), Seq::empty(), Seq::empty()), body_of_text(Seq::empty(), Seq::empty(), Seq::empty())
{
    lemma_unfolds_none();
    assert(sp_body(crlf(), Seq::empty(), Seq::empty(), Seq::empty()));
    assert(unfolds(Seq::empty(), Seq::empty()));
}
proof fn lemma_body_line(p: PropS, l: Seq<char>)
    requires sp_line(p, l)
    ensures sp_body(crlf(), seq![p], Seq::empty(), l + crlf())
{
    let e = Seq::<char>::empty();
    lemma_crlf_gap(); lemma_body_none(crlf());
    assert(l + crlf() =~= cat3(l, crlf(), e));
    assert(seq![p].skip(1) =~= Seq::empty());
}
proof fn lemma_body_comp(c: CompS, l: Seq<char>)
    requires sp_comp(crlf(), c, l)
    ensures sp_body(crlf(), Seq::empty(), seq![c], l + crlf())
{
    let e = Seq::<char>::empty();
    lemma_crlf_gap(); lemma_body_none(crlf());
    assert(l + crlf() =~= cat3(l, crlf(), e));
    assert(seq![c].skip(1) =~= Seq::empty());
}
proof fn lemma_text_add(p1: Seq<PropS>, c1: Seq<CompS>, s1: Seq<char>, p2: Seq<PropS>, c2: Seq<CompS>, s2: Seq<char>)
    requires body_of_text(p1, c1, s1), body_of_text(p2, c2, s2)
    ensures body_of_text(p1 + p2, c1 + c2, s1 + s2)
{
    let u1 = choose|u: Seq<char>| #[trigger] unfolds(s1, u) && sp_body(crlf(), p1, c1, u);
    let u2 = choose|u: Seq<char>| #[trigger] unfolds(s2, u) && sp_body(crlf(), p2, c2, u);
    lemma_unfolds_add(s1, u1, s2, u2);
    lemma_body_add(crlf(), p1, c1, u1, p2, c2, u2);
}
proof fn lemma_text_line(p: PropS, l: Seq<char>, s: Seq<char>)
    requires sp_line(p, l), unfolds(s, l + crlf())
    ensures body_of_text(seq![p], Seq::empty(), s)
{ lemma_body_line(p, l); }
proof fn lemma_text_comp(c: CompS, s: Seq<char>)
    requires comp_of_text(c, s)
    ensures body_of_text(Seq::empty(), seq![c], s)
{
    let l = choose|l: Seq<char>| #[trigger] sp_comp(crlf(), c, l) && unfolds(s, l + crlf());
    lemma_body_comp(c, l);
}
/// a folded content line unfolds to that line
proof fn lemma_line_of(l: Seq<char>, s: Seq<char>)
    requires line_of(l, s), no_lf(l), l.len() > 0, no_sp(l)
    ensures unfolds(s, l + crlf())
{
    let f = choose|f: Seq<char>| #[trigger] folded(l, f) && s == f + crlf();
    lemma_folded(l, f);
}
/// no character takes more than four octets
pub proof fn lemma_blen_few(l: Seq<char>)
    ensures blen(l) <= 4 * l.len()
    decreases l.len()
{ reveal_with_fuel(blen, 2); if l.len() > 0 { lemma_blen_few(l.drop_last()); } }
/// a line that fits is not changed
pub proof fn lemma_short(l: Seq<char>)
    requires blen(l) <= 75
    ensures line_of(l, l + crlf())
{
    let segs = seq![l];
    reveal_with_fuel(flat, 3); reveal_with_fuel(join, 3);
    assert(segs.drop_last() =~= Seq::<Seq<char>>::empty());
    assert(flat(segs) =~= l);
    assert(join(segs) =~= l);
    assert(fold_segs(l, l, segs));
    assert(folded(l, l));
}
pub proof fn lemma_cal_head()
    ensures begin_of("VCALENDAR"@, begin_line("VCALENDAR"@)), end_of("VCALENDAR"@, end_line("VCALENDAR"@))
{
    lits!("BEGIN:", "END:", "VCALENDAR");
    let n = "VCALENDAR"@;
    lemma_blen_few("BEGIN:"@ + n); lemma_blen_few("END:"@ + n);
    lemma_short("BEGIN:"@ + n); lemma_short("END:"@ + n);
}
/// BEGIN, a body, END
proof fn lemma_text_wrap(c: CompS, h: Seq<char>, y: Seq<char>, t: Seq<char>)
    requires keys(c.name), body_of_text(c.props, c.comps, y), begin_of(c.name, h), end_of(c.name, t)
    ensures comp_of_text(c, h + y + t)
{
    let n = c.name;
    let u = choose|u: Seq<char>| #[trigger] unfolds(y, u) && sp_body(crlf(), c.props, c.comps, u);
    let (b, e) = ("BEGIN:"@, "END:"@);
    reveal_strlit("BEGIN:"); reveal_strlit("END:");
    lemma_keys_no_lf(n);
    lemma_no_lf_add(b, n); lemma_no_lf_add(e, n);
    assert((b + n)[0] == b[0] && (e + n)[0] == e[0]);
    lemma_line_of(b + n, h); lemma_line_of(e + n, t);
    lemma_unfolds_add(h, begin_line(n), y, u);
    lemma_unfolds_add(h + y, begin_line(n) + u, t, end_line(n));
    let l = comp_text(b, n, crlf(), u, e + n);
    lemma_crlf_gap();
    assert(l.len() > u.len());
    assert(sp_comp(crlf(), c, l));
    assert(begin_line(n) + u + end_line(n) =~= l + crlf());
}

// ------------------------------------------------------------ parsed trees (C14)
/// a parsed tree the round trip keeps
pub open spec fn ok_comp(c: CompS) -> bool decreases c {
    &&& keys(c.name) && lowered(c.name) != "calendar"@
    &&& forall|i: int| 0 <= i < c.props.len() ==> ok_prop(#[trigger] c.props[i])
    &&& forall|i: int| 0 <= i < c.comps.len() ==> ok_comp(#[trigger] c.comps[i])
}
proof fn lemma_plist(ps: Seq<PropS>, s: Seq<char>)
    requires plist_written(ps, s), forall|i: int| 0 <= i < ps.len() ==> ok_prop(#[trigger] ps[i])
    ensures body_of_text(ps, Seq::empty(), s)
    decreases ps.len()
{
    reveal_with_fuel(plist_written, 2);
    if ps.len() == 0 { assert(ps =~= Seq::empty() && s =~= Seq::empty()); lemma_body_none(crlf()); }
    else {
        let (a, b) = choose|a: Seq<char>, b: Seq<char>| plist_written(ps.drop_last(), a) && pwritten(ps.last(), b) && s == #[trigger] (a + b);
        lemma_plist(ps.drop_last(), a);
        assert(ok_prop(ps[ps.len() - 1]));
        lemma_prop_trip(ps.last(), b);
        lemma_pline(ps.last());
        lemma_text_line(ps.last(), pline(ps.last()), b);
        lemma_text_add(ps.drop_last(), Seq::empty(), a, seq![ps.last()], Seq::empty(), b);
        assert(ps.drop_last() + seq![ps.last()] =~= ps);
        assert(Seq::<CompS>::empty() + Seq::<CompS>::empty() =~= Seq::empty());
    }
}
proof fn lemma_ckids(c: CompS, n: int, s: Seq<char>)
    requires ckids_written(c, n, s), 0 <= n <= c.comps.len(), forall|i: int| 0 <= i < c.comps.len() ==> ok_comp(#[trigger] c.comps[i])
    ensures body_of_text(Seq::empty(), c.comps.take(n), s)
    decreases c, n
{
    reveal_with_fuel(ckids_written, 2); reveal_with_fuel(cwritten, 2);
    if n == 0 { assert(c.comps.take(0) =~= Seq::empty() && s =~= Seq::empty()); lemma_body_none(crlf()); }
    else {
        let (a, b) = choose|a: Seq<char>, b: Seq<char>| ckids_written(c, n - 1, a) && cwritten(c.comps[n - 1], b) && s == #[trigger] (a + b);
        lemma_ckids(c, n - 1, a);
        let k = c.comps[n - 1];
        lemma_cwritten(k, b);
        lemma_text_comp(k, b);
        lemma_text_add(Seq::empty(), c.comps.take(n - 1), a, Seq::empty(), seq![k], b);
        assert(c.comps.take(n - 1) + seq![k] =~= c.comps.take(n));
        assert(Seq::<PropS>::empty() + Seq::<PropS>::empty() =~= Seq::empty());
    }
}
/// C14: what a parsed component is written as spells it out
pub proof fn lemma_cwritten(c: CompS, s: Seq<char>)
    requires cwritten(c, s), ok_comp(c)
    ensures comp_of_text(c, s)
    decreases c, c.comps.len() + 1
{
    reveal_with_fuel(cwritten, 2); reveal_with_fuel(ckids_written, 2);
    let x = choose|x: CParts| s == #[trigger] cparts_text(x) && begin_of(c.name, x.head) && end_of(c.name, x.tail) && cstamp_written(c, x.stamp) && cuid_written(c, x.uid)
        && plist_written(c.props, x.props) && ckids_written(c, c.comps.len() as int, x.kids);
    lemma_plist(c.props, x.props);
    lemma_ckids(c, c.comps.len() as int, x.kids);
    assert(c.comps.take(c.comps.len() as int) =~= c.comps);
    lemma_text_add(c.props, Seq::empty(), x.props, Seq::empty(), c.comps, x.kids);
    assert(c.props + Seq::<PropS>::empty() =~= c.props);
    assert(Seq::<CompS>::empty() + c.comps =~= c.comps);
    lemma_text_wrap(c, x.head, x.props + x.kids, x.tail);
    assert(s =~= x.head + (x.props + x.kids) + x.tail);
}
/// a text that unfolds to a component is read as that component
pub proof fn lemma_read_comp(c: CompS, s: Seq<char>)
    requires comp_of_text(c, s)
    ensures comp_p(unf(s)) == PR::Ok(Seq::<char>::empty(), c), comps_p(unf(s)) is Ok, comps_p(unf(s))->Ok_1 == seq![c]
{
    let l = choose|l: Seq<char>| #[trigger] sp_comp(crlf(), c, l) && unfolds(s, l + crlf());
    lemma_unfolds(s, l + crlf());
    let e = Seq::<char>::empty();
    let m = crlf();
    lemma_crlf_gap();
    lemma_not_key('\r');
    lemma_comp_fresh(m, c, l, m);
    lemma_sk_id(l + m);
    lemma_sp_comp(m, c, l, m, l + m);
    lemma_sk_gap(m, m, e);
    assert(m + e =~= m);
    assert(sp_roots(m, Seq::empty(), e));
    assert(l + m =~= cat3(l, m, e));
    assert(seq![c].skip(1) =~= Seq::empty());
    assert(seq![c][0] == c);
    assert(sp_roots(m, seq![c], l + m));
    lemma_sp_roots(m, seq![c], l + m, l + m);
}
/// C14: a printed component or calendar is parsed as what it was
pub proof fn lemma_c14(c: CompS, s: Seq<char>)
    requires cwritten(c, s), ok_comp(c)
    ensures comp_p(unf(s)) == PR::Ok(Seq::<char>::empty(), c), comps_p(unf(s)) is Ok, comps_p(unf(s))->Ok_1 == seq![c]
{ lemma_cwritten(c, s); lemma_read_comp(c, s); }
/// C14: a printed calendar
pub proof fn lemma_c14_cal(c: CompS, s: Seq<char>)
    requires cwritten(c, s), ok_comp(c), c.name == "VCALENDAR"@
    ensures comps_p(unf(s)) is Ok, cal_of(comps_p(unf(s))->Ok_1) == (c.props, c.comps)
{ lemma_c14(c, s); assert(seq![c][0] == c); }

// ------------------------------------------------------------ components of the crate (C06)
/// equal components: properties by name, repeatable ones in order, children in order
pub open spec fn same_ic(a: InnerComponent, b: InnerComponent) -> bool decreases a {
    &&& pvm(a.properties@) == pvm(b.properties@)
    &&& mvm(a.multi_properties@) == mvm(b.multi_properties@)
    &&& a.components.len() == b.components.len()
    &&& forall|i: int| 0 <= i < a.components.len() ==> (#[trigger] a.components[i]).name@ == b.components[i].name@ && same_ic(a.components[i].inner, b.components[i].inner)
}
/// a component the round trip keeps
pub open spec fn ok_ic(a: InnerComponent) -> bool decreases a {
    &&& a.properties@.dom().contains("DTSTAMP"@) && a.properties@.dom().contains("UID"@)
    &&& forall|k: Seq<char>| #[trigger] a.properties@.dom().contains(k) ==> a.properties@[k].key@ == k && !is_multi_name(k) && ok_pv(a.properties@[k].v())
    &&& forall|k: Seq<char>| #[trigger] a.multi_properties@.dom().contains(k) ==> is_multi_name(k) && a.multi_properties@[k].len() > 0 && ok_list(k, a.multi_properties@[k]@)
    &&& forall|i: int| 0 <= i < a.components.len() ==> keys((#[trigger] a.components[i]).name@) && ok_ic(a.components[i].inner)
}
pub open spec fn ok_list(k: Seq<char>, v: Seq<Property>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).key@ == k && ok_pv(v[i].v()) }
/// the parsed properties that ps are read back as
pub open spec fn spells(qs: Seq<PropS>, ps: Seq<&Property>) -> bool { qs.len() == ps.len() && forall|i: int| 0 <= i < qs.len() ==> prop_v(#[trigger] qs[i]) == ps[i].v() }
/// the parsed component that a is read back as
pub open spec fn spells_ic(c: CompS, a: InnerComponent) -> bool decreases a {
    &&& smap(c.props.filter(is_single())) == pvm(a.properties@)
    &&& mmap(c.props.filter(is_multi())) == mvm(a.multi_properties@)
    &&& c.comps.len() == a.components.len()
    &&& forall|i: int| 0 <= i < a.components.len() ==> (#[trigger] a.components[i]).name@ == c.comps[i].name && spells_ic(c.comps[i], a.components[i].inner)
}
proof fn lemma_list(ps: Seq<&Property>, s: Seq<char>) -> (qs: Seq<PropS>)
    requires list_written(ps, s), forall|i: int| 0 <= i < ps.len() ==> ok_pv((#[trigger] ps[i]).v())
    ensures body_of_text(qs, Seq::empty(), s), spells(qs, ps)
    decreases ps.len()
{
    reveal_with_fuel(list_written, 2);
    if ps.len() == 0 { assert(s =~= Seq::empty()); lemma_body_none(crlf()); Seq::empty() }
    else {
        let (a, b) = choose|a: Seq<char>, b: Seq<char>| list_written(ps.drop_last(), a) && written(ps.last().v(), b) && s == #[trigger] (a + b);
        assert forall|i: int| 0 <= i < ps.len() - 1 implies ok_pv((#[trigger] ps.drop_last()[i]).v()) by { assert(ok_pv(ps[i].v())); }
        let qs = lemma_list(ps.drop_last(), a);
        let p = ps.last().v();
        assert(ok_pv(ps[ps.len() - 1].v()));
        let (l, f) = choose|l: Seq<char>, f: Seq<char>| is_line(p, l) && #[trigger] folded(l, f) && b == f + crlf();
        let o = choose|o: Seq<Seq<char>>| is_order(o, p.params.dom()) && l == #[trigger] line_in(p, o);
        let q = prop_s(o, p);
        lemma_line_in(p, o);
        lemma_sp_line_no_lf(q, l);
        lemma_folded(l, f);
        lemma_text_line(q, l, b);
        lemma_text_add(qs, Seq::empty(), a, seq![q], Seq::empty(), b);
        assert(Seq::<CompS>::empty() + Seq::<CompS>::empty() =~= Seq::empty());
        let r = qs + seq![q];
        assert forall|i: int| 0 <= i < r.len() implies prop_v(#[trigger] r[i]) == ps[i].v() by { if i < qs.len() { assert(r[i] == qs[i]); assert(ps.drop_last()[i] == ps[i]); } }
        r
    }
}
/// the single properties
proof fn lemma_smap_vals(o: Seq<Seq<char>>, m: Map<Seq<char>, Property>, qs: Seq<PropS>, n: int)
    requires 0 <= n <= o.len(), o.no_duplicates(), spells(qs, refs(vals(o, m))),
        forall|i: int| 0 <= i < o.len() ==> m.dom().contains(#[trigger] o[i]) && m[o[i]].key@ == o[i]
    ensures forall|k: Seq<char>| #[trigger] smap(qs.take(n)).dom().contains(k) <==> o.take(n).contains(k),
        forall|k: Seq<char>| o.take(n).contains(k) ==> #[trigger] smap(qs.take(n))[k] == m[k].v(),
    decreases n
{
    if n == 0 { assert(qs.take(0) =~= Seq::empty()); }
    else {
        lemma_smap_vals(o, m, qs, n - 1);
        let k = o[n - 1];
        assert(m.dom().contains(k));
        let (a, b) = (smap(qs.take(n - 1)), smap(qs.take(n)));
        let (u, w) = (o.take(n - 1), o.take(n));
        assert(qs.take(n).drop_last() =~= qs.take(n - 1));
        assert(qs.take(n).last() == qs[n - 1]);
        assert(prop_v(qs[n - 1]) == refs(vals(o, m))[n - 1].v());
        assert(*refs(vals(o, m))[n - 1] == m[k]);
        assert(qs[n - 1].name == k) by { assert(prop_v(qs[n - 1]).key == m[k].v().key); }
        assert(b == a.insert(k, m[k].v()));
        assert(!u.contains(k)) by { if u.contains(k) { let j = choose|j: int| 0 <= j < n - 1 && u[j] == k; assert(o[j] == o[n - 1]); } }
        assert(w[n - 1] == k);
        assert forall|q: Seq<char>| #[trigger] b.dom().contains(q) <==> w.contains(q) by {
            if u.contains(q) { let j = choose|j: int| 0 <= j < n - 1 && u[j] == q; assert(w[j] == q); }
            if w.contains(q) && q != k { let j = choose|j: int| 0 <= j < n && w[j] == q; assert(u[j] == q); }
        }
        assert forall|q: Seq<char>| w.contains(q) implies #[trigger] b[q] == m[q].v() by { assert(b.dom().contains(q)); if q != k { assert(a.dom().contains(q)); assert(u.contains(q)); assert(a[q] == m[q].v()); } }
    }
}
/// several of one name in a row
proof fn lemma_mmap_block(a: Seq<PropS>, b: Seq<PropS>, k: Seq<char>)
    requires forall|i: int| 0 <= i < b.len() ==> (#[trigger] b[i]).name == k, !mmap(a).dom().contains(k), b.len() > 0
    ensures mmap(a + b) == mmap(a).insert(k, b.map_values(|p: PropS| prop_v(p)))
    decreases b.len()
{
    let f = |p: PropS| prop_v(p);
    let c = a + b;
    let d = b.drop_last();
    assert(c.drop_last() =~= a + d);
    assert(c.last() == b[b.len() - 1]);
    assert(b.map_values(f) =~= d.map_values(f).push(prop_v(b.last())));
    if d.len() == 0 {
        assert(a + d =~= a);
        assert(d.map_values(f) =~= Seq::empty());
        assert(mmap(c) =~= mmap(a).insert(k, Seq::empty().push(prop_v(b.last()))));
    } else {
        lemma_mmap_block(a, d, k);
        assert(mmap(c) =~= mmap(a).insert(k, b.map_values(f)));
    }
}
proof fn lemma_flatten_push<T>(s: Seq<Seq<T>>, x: Seq<T>)
    ensures flatten(s.push(x)) == flatten(s) + x
    decreases s.len()
{
    let t = s.push(x);
    if s.len() == 0 { assert(t.skip(1) =~= Seq::empty()); reveal_with_fuel(flatten, 2); assert(flatten(t.skip(1)) =~= Seq::empty()); assert(t[0] == x); assert(flatten(t) =~= x); assert(flatten(s) + x =~= x); }
    else { lemma_flatten_push(s.skip(1), x); assert(t.skip(1) =~= s.skip(1).push(x)); assert(flatten(t) =~= flatten(s) + x); }
}
/// the repeatable properties
proof fn lemma_mmap_vals(o: Seq<Seq<char>>, m: Map<Seq<char>, Vec<Property>>, qs: Seq<PropS>, n: int)
    requires 0 <= n <= o.len(), o.no_duplicates(), spells(qs, lists(refs(vals(o, m).take(n)))),
        forall|i: int| 0 <= i < o.len() ==> m.dom().contains(#[trigger] o[i]) && m[o[i]].len() > 0 && ok_list(o[i], m[o[i]]@)
    ensures forall|k: Seq<char>| #[trigger] mmap(qs).dom().contains(k) <==> o.take(n).contains(k),
        forall|k: Seq<char>| o.take(n).contains(k) ==> #[trigger] mmap(qs)[k] == cpvs(m[k]@),
        forall|i: int| 0 <= i < qs.len() ==> o.contains((#[trigger] qs[i]).name),
    decreases n
{
    let g = |v: &Vec<Property>| refs(v@);
    if n == 0 { assert(refs(vals(o, m).take(0)).map_values(g) =~= Seq::empty()); assert(qs =~= Seq::empty()); }
    else {
        let k = o[n - 1];
        let v = m[k];
        let r0 = refs(vals(o, m).take(n - 1));
        let r1 = refs(vals(o, m).take(n));
        assert(m.dom().contains(k));
        assert(r1.map_values(g) =~= r0.map_values(g).push(refs(v@)));
        lemma_flatten_push(r0.map_values(g), refs(v@));
        let z = lists(r0).len() as int;
        assert(lists(r1) == lists(r0) + refs(v@));
        let (a, b) = (qs.take(z), qs.skip(z));
        assert(qs =~= a + b);
        assert forall|i: int| 0 <= i < a.len() implies prop_v(#[trigger] a[i]) == lists(r0)[i].v() by { assert(prop_v(qs[i]) == lists(r1)[i].v()); }
        lemma_mmap_vals(o, m, a, n - 1);
        assert forall|i: int| 0 <= i < b.len() implies prop_v(#[trigger] b[i]) == v@[i].v() && b[i].name == k by {
            assert(prop_v(qs[i + z]) == lists(r1)[i + z].v());
            assert(lists(r1)[i + z] == refs(v@)[i]);
            assert(*refs(v@)[i] == v@[i]);
            assert(v@[i].key@ == k);
            assert(prop_v(b[i]).key == v@[i].v().key);
        }
        let (u, w) = (o.take(n - 1), o.take(n));
        assert(!u.contains(k)) by { if u.contains(k) { let j = choose|j: int| 0 <= j < n - 1 && u[j] == k; assert(o[j] == o[n - 1]); } }
        lemma_mmap_block(a, b, k);
        assert(b.map_values(|p: PropS| prop_v(p)) =~= cpvs(v@));
        let (x, y) = (mmap(a), mmap(qs));
        assert(w[n - 1] == k);
        assert forall|q: Seq<char>| #[trigger] y.dom().contains(q) <==> w.contains(q) by {
            if u.contains(q) { let j = choose|j: int| 0 <= j < n - 1 && u[j] == q; assert(w[j] == q); }
            if w.contains(q) && q != k { let j = choose|j: int| 0 <= j < n && w[j] == q; assert(u[j] == q); }
        }
        assert forall|q: Seq<char>| w.contains(q) implies #[trigger] y[q] == cpvs(m[q]@) by { assert(y.dom().contains(q)); if q != k { assert(x.dom().contains(q)); assert(u.contains(q)); assert(x[q] == cpvs(m[q]@)); } }
        assert forall|i: int| 0 <= i < qs.len() implies o.contains((#[trigger] qs[i]).name) by { if i < z { assert(a[i] == qs[i]); } else { assert(b[i - z] == qs[i]); assert(o[n - 1] == k); } }
    }
}
proof fn lemma_filter_add(a: Seq<PropS>, b: Seq<PropS>, f: spec_fn(PropS) -> bool)
    ensures (a + b).filter(f) == a.filter(f) + b.filter(f)
    decreases b.len()
{
    reveal(Seq::filter);
    if b.len() == 0 { assert(a + b =~= a); assert(b.filter(f) =~= Seq::empty()); assert(a.filter(f) + b.filter(f) =~= a.filter(f)); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_filter_add(a, b.drop_last(), f);
        assert((a + b).filter(f) =~= a.filter(f) + b.filter(f));
    }
}
proof fn lemma_filter_all(a: Seq<PropS>, f: spec_fn(PropS) -> bool, g: spec_fn(PropS) -> bool)
    requires forall|i: int| 0 <= i < a.len() ==> f(#[trigger] a[i]) && !g(a[i])
    ensures a.filter(f) == a, a.filter(g) == Seq::<PropS>::empty()
    decreases a.len()
{
    reveal(Seq::filter);
    if a.len() > 0 {
        let d = a.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies f(#[trigger] d[i]) && !g(d[i]) by { assert(f(a[i]) && !g(a[i])); }
        lemma_filter_all(d, f, g);
        assert(f(a[a.len() - 1]) && !g(a[a.len() - 1]));
        assert(d.push(a.last()) =~= a);
    } else { assert(a.filter(f) =~= a); assert(a.filter(g) =~= Seq::empty()); }
}
/// the properties of a component, written and read back
proof fn lemma_ic_props(a: InnerComponent, s1: Seq<char>, s2: Seq<char>) -> (ps: Seq<PropS>)
    requires ok_ic(a), list_written(pseq(a), s1), list_written(mseq(a), s2)
    ensures body_of_text(ps, Seq::empty(), s1 + s2), smap(ps.filter(is_single())) == pvm(a.properties@), mmap(ps.filter(is_multi())) == mvm(a.multi_properties@)
{
    broadcast use axiom_key_order, axiom_btree_finite;
    let (o1, o2) = (a.properties.order(), a.multi_properties.order());
    let (m1, m2) = (a.properties@, a.multi_properties@);
    assert(is_order(o1, m1.dom()) && is_order(o2, m2.dom()));
    assert forall|i: int| 0 <= i < o1.len() implies m1.dom().contains(#[trigger] o1[i]) by { assert(o1.to_set().contains(o1[i])); }
    assert forall|i: int| 0 <= i < o2.len() implies m2.dom().contains(#[trigger] o2[i]) by { assert(o2.to_set().contains(o2[i])); }
    assert forall|i: int| 0 <= i < pseq(a).len() implies ok_pv((#[trigger] pseq(a)[i]).v()) by { assert(m1.dom().contains(o1[i])); assert(*pseq(a)[i] == m1[o1[i]]); }
    let q1 = lemma_list(pseq(a), s1);
    lemma_smap_vals(o1, m1, q1, o1.len() as int);
    assert(q1.take(o1.len() as int) =~= q1);
    assert(o1.take(o1.len() as int) =~= o1);
    assert forall|k: Seq<char>| o1.contains(k) == #[trigger] m1.dom().contains(k) by { assert(o1.to_set().contains(k) == o1.contains(k)); }
    assert(smap(q1) =~= pvm(m1));
    assert forall|i: int| 0 <= i < q1.len() implies !is_multi_name((#[trigger] q1[i]).name) by {
        assert(prop_v(q1[i]) == pseq(a)[i].v()); assert(*pseq(a)[i] == m1[o1[i]]); assert(m1.dom().contains(o1[i])); assert(prop_v(q1[i]).key == q1[i].name); }
    lemma_mseq_ok(o2, m2, o2.len() as int);
    assert(vals(o2, m2).take(o2.len() as int) =~= vals(o2, m2));
    let q2 = lemma_list(mseq(a), s2);
    lemma_mmap_vals(o2, m2, q2, o2.len() as int);
    assert(o2.take(o2.len() as int) =~= o2);
    assert forall|k: Seq<char>| o2.contains(k) == #[trigger] m2.dom().contains(k) by { assert(o2.to_set().contains(k) == o2.contains(k)); }
    assert(mmap(q2) =~= mvm(m2));
    assert forall|i: int| 0 <= i < q2.len() implies is_multi_name((#[trigger] q2[i]).name) by { assert(o2.contains(q2[i].name)); assert(m2.dom().contains(q2[i].name)); }
    lemma_filter_all(q1, is_single(), is_multi());
    lemma_filter_all(q2, is_multi(), is_single());
    lemma_filter_add(q1, q2, is_single());
    lemma_filter_add(q1, q2, is_multi());
    assert(q1 + Seq::<PropS>::empty() =~= q1);
    assert(Seq::<PropS>::empty() + q2 =~= q2);
    lemma_text_add(q1, Seq::empty(), s1, q2, Seq::empty(), s2);
    assert(Seq::<CompS>::empty() + Seq::<CompS>::empty() =~= Seq::empty());
    q1 + q2
}
proof fn lemma_mseq_ok(o: Seq<Seq<char>>, m: Map<Seq<char>, Vec<Property>>, n: int)
    requires 0 <= n <= o.len(), forall|i: int| 0 <= i < o.len() ==> ok_list(#[trigger] o[i], m[o[i]]@)
    ensures forall|i: int| 0 <= i < lists(refs(vals(o, m).take(n))).len() ==> ok_pv((#[trigger] lists(refs(vals(o, m).take(n)))[i]).v())
    decreases n
{
    let g = |v: &Vec<Property>| refs(v@);
    if n == 0 { assert(refs(vals(o, m).take(0)).map_values(g) =~= Seq::empty()); }
    else {
        let v = m[o[n - 1]];
        let r0 = refs(vals(o, m).take(n - 1));
        let r1 = refs(vals(o, m).take(n));
        assert(r1.map_values(g) =~= r0.map_values(g).push(refs(v@)));
        lemma_flatten_push(r0.map_values(g), refs(v@));
        lemma_mseq_ok(o, m, n - 1);
        let z = lists(r0).len() as int;
        assert forall|i: int| 0 <= i < lists(r1).len() implies ok_pv((#[trigger] lists(r1)[i]).v()) by {
            if i < z { assert(lists(r1)[i] == lists(r0)[i]); }
            else { assert(lists(r1)[i] == refs(v@)[i - z]); assert(*refs(v@)[i - z] == v@[i - z]); assert(ok_list(o[n - 1], v@)); }
        }
    }
}
pub proof fn lemma_ic_kids(a: InnerComponent, n: int, s: Seq<char>) -> (cs: Seq<CompS>)
    requires ok_ic(a), 0 <= n <= a.components.len(), kids_written(a, n, s)
    ensures body_of_text(Seq::empty(), cs, s), cs.len() == n,
        forall|i: int| 0 <= i < n ==> (#[trigger] a.components[i]).name@ == cs[i].name && spells_ic(cs[i], a.components[i].inner)
    decreases a, n
{
    reveal_with_fuel(kids_written, 2); reveal_with_fuel(comp_written, 2);
    if n == 0 { assert(s =~= Seq::empty()); lemma_body_none(crlf()); Seq::empty() }
    else {
        let k = a.components[n - 1];
        assert(decreases_to!(a => k));
        let (x, y) = choose|x: Seq<char>, y: Seq<char>| kids_written(a, n - 1, x) && comp_written(k.name@, k.inner, y) && s == #[trigger] (x + y);
        let cs = lemma_ic_kids(a, n - 1, x);
        let c = lemma_ic(k.name@, k.inner, y);
        lemma_text_comp(c, y);
        lemma_text_add(Seq::empty(), cs, x, Seq::empty(), seq![c], y);
        assert(Seq::<PropS>::empty() + Seq::<PropS>::empty() =~= Seq::empty());
        let r = cs + seq![c];
        assert forall|i: int| 0 <= i < n implies (#[trigger] a.components[i]).name@ == r[i].name && spells_ic(r[i], a.components[i].inner) by { if i < n - 1 { assert(r[i] == cs[i]); } }
        r
    }
}
/// what a component is written as unfolds to a well-formed component with the same contents
pub proof fn lemma_ic(k: Seq<char>, a: InnerComponent, s: Seq<char>) -> (c: CompS)
    requires ok_ic(a), keys(k), comp_written(k, a, s)
    ensures comp_of_text(c, s), c.name == k, spells_ic(c, a)
    decreases a, a.components.len() + 1
{
    reveal_with_fuel(comp_written, 2); reveal_with_fuel(kids_written, 2);
    let x = choose|x: Parts| s == #[trigger] parts_text(x) && begin_of(k, x.head) && end_of(k, x.tail) && stamp_written(a, x.stamp) && uid_written(a, x.uid)
        && list_written(pseq(a), x.props) && list_written(mseq(a), x.multi) && kids_written(a, a.components.len() as int, x.kids);
    let ps = lemma_ic_props(a, x.props, x.multi);
    let cs = lemma_ic_kids(a, a.components.len() as int, x.kids);
    let e = Seq::<char>::empty();
    lemma_text_add(ps, Seq::empty(), x.props + x.multi, Seq::empty(), cs, x.kids);
    assert(ps + Seq::<PropS>::empty() =~= ps);
    assert(Seq::<CompS>::empty() + cs =~= cs);
    let c = CompS { name: k, props: ps, comps: cs };
    lemma_text_wrap(c, x.head, x.props + x.multi + x.kids, x.tail);
    assert(s =~= x.head + (x.props + x.multi + x.kids) + x.tail);
    c
}
pub proof fn lemma_same(c: CompS, a: InnerComponent, r: InnerComponent)
    requires spells_ic(c, a), inner_rel(c, r)
    ensures same_ic(a, r)
    decreases a
{
    assert forall|i: int| 0 <= i < a.components.len() implies (#[trigger] a.components[i]).name@ == r.components[i].name@ && same_ic(a.components[i].inner, r.components[i].inner) by {
        assert(decreases_to!(a => a.components[i]));
        assert(r.components[i].name@ == c.comps[i].name);
        lemma_same(c.comps[i], a.components[i].inner, r.components[i].inner);
    }
}
// ------------------------------------------------------------ calendars (C06)
pub open spec fn same_comps(a: Seq<CalendarComponent>, b: Seq<CalendarComponent>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> same_cc(#[trigger] a[i], b[i])
}
/// same kind and same contents
pub open spec fn same_cc(a: CalendarComponent, b: CalendarComponent) -> bool {
    same_ic(cci(a), cci(b)) && cck(a) == cck(b) && match (a, b) {
        (CalendarComponent::Event(_), CalendarComponent::Event(_)) => true,
        (CalendarComponent::Todo(_), CalendarComponent::Todo(_)) => true,
        (CalendarComponent::Venue(_), CalendarComponent::Venue(_)) => true,
        (CalendarComponent::Other(_), CalendarComponent::Other(_)) => true,
        _ => false,
    }
}
pub open spec fn same_cal(a: Calendar, b: Calendar) -> bool { cpvs(a.properties@) == cpvs(b.properties@) && same_comps(a.components@, b.components@) }
pub open spec fn ok_cc(a: CalendarComponent) -> bool {
    ok_ic(cci(a)) && keys(cck(a)) && (a is Other ==> cck(a) != "VEVENT"@ && cck(a) != "VTODO"@ && cck(a) != "VVENUE"@)
}
pub open spec fn ok_cal(a: Calendar) -> bool {
    &&& forall|i: int| 0 <= i < a.properties.len() ==> ok_pv((#[trigger] a.properties[i]).v())
    &&& forall|i: int| 0 <= i < a.components.len() ==> ok_cc(#[trigger] a.components[i])
}
pub proof fn lemma_cal_comps(a: Seq<CalendarComponent>, s: Seq<char>) -> (cs: Seq<CompS>)
    requires comps_written(a, s), forall|i: int| 0 <= i < a.len() ==> ok_cc(#[trigger] a[i])
    ensures body_of_text(Seq::empty(), cs, s), cs.len() == a.len(), forall|i: int| 0 <= i < a.len() ==> cs[i].name == cck(#[trigger] a[i]) && spells_ic(cs[i], cci(a[i]))
    decreases a.len()
{
    reveal_with_fuel(comps_written, 2);
    if a.len() == 0 { assert(s =~= Seq::empty()); lemma_body_none(crlf()); Seq::empty() }
    else {
        let k = a.last();
        assert(ok_cc(a[a.len() - 1]));
        let d = a.drop_last();
        let (x, y) = choose|x: Seq<char>, y: Seq<char>| comps_written(d, x) && comp_written(cck(k), cci(k), y) && s == #[trigger] (x + y);
        assert forall|i: int| 0 <= i < d.len() implies ok_cc(#[trigger] d[i]) by { assert(ok_cc(a[i])); }
        let cs = lemma_cal_comps(d, x);
        let c = lemma_ic(cck(k), cci(k), y);
        lemma_text_comp(c, y);
        lemma_text_add(Seq::empty(), cs, x, Seq::empty(), seq![c], y);
        assert(Seq::<PropS>::empty() + Seq::<PropS>::empty() =~= Seq::empty());
        let r = cs + seq![c];
        assert forall|i: int| 0 <= i < a.len() implies r[i].name == cck(#[trigger] a[i]) && spells_ic(r[i], cci(a[i])) by { if i < a.len() - 1 { assert(r[i] == cs[i]); assert(d[i] == a[i]); } }
        r
    }
}
/// what a calendar is written as is read as a component with the same contents
pub proof fn lemma_cal_text(a: Calendar, s: Seq<char>) -> (c: CompS)
    requires ok_cal(a), cal_written(a, s)
    ensures comps_p(unf(s)) is Ok, cal_comp(comps_p(unf(s))->Ok_1) == c, spells(c.props, refs(a.properties@)), c.comps.len() == a.components.len(),
        forall|i: int| 0 <= i < a.components.len() ==> c.comps[i].name == cck(#[trigger] a.components@[i]) && spells_ic(c.comps[i], cci(a.components@[i]))
{
    let (x, y) = choose|x: Seq<char>, y: Seq<char>| list_written(refs(a.properties@), x) && comps_written(a.components@, y) && s == #[trigger] cal_text(x, y);
    let rs = refs(a.properties@);
    assert forall|i: int| 0 <= i < rs.len() implies ok_pv((#[trigger] rs[i]).v()) by { assert(*rs[i] == a.properties[i]); }
    let ps = lemma_list(rs, x);
    let cs = lemma_cal_comps(a.components@, y);
    lemma_text_add(ps, Seq::empty(), x, Seq::empty(), cs, y);
    assert(ps + Seq::<PropS>::empty() =~= ps);
    assert(Seq::<CompS>::empty() + cs =~= cs);
    let n = "VCALENDAR"@;
    reveal_strlit("VCALENDAR");
    assert(keys(n)) by { assert forall|i: int| 0 <= i < n.len() implies is_key(#[trigger] n[i]) by { axiom_is_alnum_ascii(n[i]); } }
    let c = CompS { name: n, props: ps, comps: cs };
    lemma_cal_head();
    lemma_text_wrap(c, begin_line(n), x + y, end_line(n));
    assert(s =~= begin_line(n) + (x + y) + end_line(n));
    lemma_read_comp(c, s);
    assert(seq![c][0] == c);
    c
}
proof fn lemma_same_cc(c: CompS, e: CalendarComponent, f: CalendarComponent)
    requires ok_cc(e), c.name == cck(e), spells_ic(c, cci(e)), cc_rel(c, f)
    ensures same_cc(e, f)
{
    lemma_same(c, cci(e), cci(f));
    lits!("VEVENT", "VTODO", "VVENUE");
}
/// C06: a written calendar is read back equal
pub proof fn lemma_c06(a: Calendar, s: Seq<char>, r: Result<Calendar, String>)
    requires ok_cal(a), cal_written(a, s), <Calendar as FromStr>::from_str_rel(s, r)
    ensures r is Ok, same_cal(a, r->Ok_0)
{
    let c = lemma_cal_text(a, s);
    let b = r->Ok_0;
    assert(pcal_rel(c, b));
    assert(cpvs(a.properties@) =~= cpvs(b.properties@)) by {
        let rs = refs(a.properties@);
        assert forall|i: int| 0 <= i < rs.len() implies a.properties@[i].v() == (#[trigger] b.properties@[i]).v() by { assert(prop_v(c.props[i]) == rs[i].v()); assert(*rs[i] == a.properties@[i]); }
    }
    assert forall|i: int| 0 <= i < a.components.len() implies same_cc(#[trigger] a.components@[i], b.components@[i]) by {
        assert(ok_cc(a.components@[i]));
        lemma_same_cc(c.comps[i], a.components@[i], b.components@[i]);
    }
}
} // mod lemma_again

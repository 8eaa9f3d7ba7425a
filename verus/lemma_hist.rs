// Histories of calls (C11), and what getters return after a round trip (C09).
pub mod lemma_hist {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::spec::*;
#[allow(unused_imports)] use crate::shim::*;
#[allow(unused_imports)] use crate::shim_col::*;
#[allow(unused_imports)] use crate::shim_time::*;
#[allow(unused_imports)] use crate::model::*;
#[allow(unused_imports)] use crate::components::*;
use crate::properties::Property;
use crate::calendar::Calendar;
use crate::calendar::calendar_component::CalendarComponent;

/// what a call may do to the single properties: it sets or takes away those in w, the others stay
pub open spec fn step(o: InnerComponent, n: InnerComponent, w: Map<Seq<char>, Option<PropV>>) -> bool {
    forall|k: Seq<char>| pvm(n.properties@).dom().contains(k) == (if w.dom().contains(k) { w[k] is Some } else { pvm(o.properties@).dom().contains(k) })
        && (pvm(n.properties@).dom().contains(k) ==> #[trigger] pvm(n.properties@)[k] == (if w.dom().contains(k) { w[k]->Some_0 } else { pvm(o.properties@)[k] }))
}
/// the calls that the setters' contracts describe are such steps
pub proof fn lemma_step_put(o: InnerComponent, n: InnerComponent, v: PropV)
    requires put(o, n, v)
    ensures step(o, n, Map::empty().insert(v.key, Some(v)))
{ let p = choose|p: Property| p.v() == v && #[trigger] put1(o, n, p); assert(p.key@ == v.key); }
pub proof fn lemma_step_put2(o: InnerComponent, n: InnerComponent, v: PropV, w: PropV)
    requires put2(o, n, v, w)
    ensures step(o, n, Map::empty().insert(v.key, Some(v)).insert(w.key, Some(w)))
{
    let (p, q) = choose|p: Property, q: Property| #![trigger p.v(), q.v()] p.v() == v && q.v() == w
        && n.properties@ =~= o.properties@.insert(p.key@, p).insert(q.key@, q) && n.multi_properties == o.multi_properties && n.components == o.components;
    assert(p.key@ == v.key && q.key@ == w.key);
}
pub proof fn lemma_step_multi(o: InnerComponent, n: InnerComponent, p: Property)
    requires put_multi(o, n, p)
    ensures step(o, n, Map::empty())
{}
pub proof fn lemma_step_kid(o: InnerComponent, n: InnerComponent, c: Other)
    requires put_kid(o, n, c)
    ensures step(o, n, Map::empty())
{}
/// C11: after any history of calls the property k is what the last call that writes k made it
pub proof fn lemma_history(c: Seq<InnerComponent>, w: Seq<Map<Seq<char>, Option<PropV>>>, k: Seq<char>, j: int)
    requires c.len() == w.len() + 1, forall|i: int| 0 <= i < w.len() ==> step(c[i], c[i + 1], #[trigger] w[i]),
        -1 <= j < w.len(), j >= 0 ==> w[j].dom().contains(k), forall|i: int| j < i < w.len() ==> !(#[trigger] w[i]).dom().contains(k)
    ensures ({
        let m = pvm(c.last().properties@);
        if j >= 0 { m.dom().contains(k) == (w[j][k] is Some) && (m.dom().contains(k) ==> m[k] == w[j][k]->Some_0) }
        else { m.dom().contains(k) == pvm(c[0].properties@).dom().contains(k) && (m.dom().contains(k) ==> m[k] == pvm(c[0].properties@)[k]) }
    })
    decreases w.len()
{
    if w.len() == 0 { }
    else {
        let n = w.len() - 1;
        assert(step(c[n], c[n + 1], w[n]));
        let m = pvm(c[n + 1].properties@)[k];
        if j < n {
            let (d, x) = (c.drop_last(), w.drop_last());
            assert forall|i: int| 0 <= i < x.len() implies step(d[i], d[i + 1], #[trigger] x[i]) by { assert(step(c[i], c[i + 1], w[i])); }
            assert forall|i: int| j < i < x.len() implies !(#[trigger] x[i]).dom().contains(k) by { assert(!w[i].dom().contains(k)); }
            lemma_history(d, x, k, j);
            assert(!w[n].dom().contains(k));
        }
    }
}
/// C09, C11: getters depend on the contents only, so an equal component gives equal values
pub proof fn lemma_same_values(a: InnerComponent, b: InnerComponent, k: Seq<char>)
    requires same_ic(a, b)
    ensures pv(a, k) == pv(b, k), dpt_opt(a, k) == dpt_opt(b, k), a.properties@.dom().contains(k) ==> b.properties@.dom().contains(k) && a.properties@[k].v() == b.properties@[k].v()
{
    let (x, y) = (pvm(a.properties@), pvm(b.properties@));
    assert(x == y);
    assert(x.dom().contains(k) == a.properties@.dom().contains(k) && y.dom().contains(k) == b.properties@.dom().contains(k));
    if x.dom().contains(k) { assert(x[k] == a.properties@[k].v() && y[k] == b.properties@[k].v()); }
}
/// C09: a date set on a component of a calendar reads back after the calendar was written and parsed
pub proof fn lemma_c09_again(c: Calendar, s: Seq<char>, r: Result<Calendar, String>, i: int, d: DptV, key: Seq<char>)
    requires ok_cal(c), cal_written(c, s), <Calendar as FromStr>::from_str_rel(s, r),
        0 <= i < c.components.len(), cci(c.components@[i]).properties@.dom().contains(key), cci(c.components@[i]).properties@[key].v() == dpt_prop(d, key),
        dpt_ok(d), vt_default(key) != Some(ValueType::Date)
    ensures r is Ok, r->Ok_0.components.len() == c.components.len(), dpt_opt(cci(r->Ok_0.components@[i]), key) == Some(d)
{
    lemma_c06(c, s, r);
    assert(same_cc(c.components@[i], r->Ok_0.components@[i]));
    lemma_same_values(cci(c.components@[i]), cci(r->Ok_0.components@[i]), key);
    lemma_dpt(d, key);
}
} // mod lemma_hist

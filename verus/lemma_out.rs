// What components and calendars are written as.
pub mod lemma_out {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::spec::*;
#[allow(unused_imports)] use crate::shim::*;
#[allow(unused_imports)] use crate::model::*;
#[allow(unused_imports)] use crate::properties::*;
#[allow(unused_imports)] use crate::components::*;
#[allow(unused_imports)] use crate::calendar::*;

/// s is the content lines of ps, in that order
#[verifier::opaque]
pub open spec fn list_written(ps: Seq<&Property>, s: Seq<char>) -> bool decreases ps.len() {
    if ps.len() == 0 { s.len() == 0 }
    else { exists|a: Seq<char>, b: Seq<char>| list_written(ps.drop_last(), a) && written(ps.last().v(), b) && s == #[trigger] (a + b) }
}
pub proof fn lemma_list_push(ps: Seq<&Property>, k: int, a: Seq<char>, b: Seq<char>)
    requires 0 <= k < ps.len(), list_written(ps.take(k), a), written(ps[k].v(), b)
    ensures list_written(ps.take(k + 1), a + b)
{ reveal_with_fuel(list_written, 2); assert(ps.take(k + 1).drop_last() =~= ps.take(k)); assert(ps.take(k + 1).last() == ps[k]); }

/// s is the content line l, folded
pub open spec fn line_of(l: Seq<char>, s: Seq<char>) -> bool { exists|f: Seq<char>| #[trigger] folded(l, f) && s == f + crlf() }
pub open spec fn begin_of(k: Seq<char>, s: Seq<char>) -> bool { line_of("BEGIN:"@ + k, s) }
pub open spec fn end_of(k: Seq<char>, s: Seq<char>) -> bool { line_of("END:"@ + k, s) }
/// BEGIN:kind or END:kind
pub open spec fn begin_line(k: Seq<char>) -> Seq<char> { "BEGIN:"@ + k + crlf() }
pub open spec fn end_line(k: Seq<char>) -> Seq<char> { "END:"@ + k + crlf() }
/// the time stamp every component needs, where it has none of its own
pub open spec fn stamp_written(c: InnerComponent, s: Seq<char>) -> bool {
    if c.properties@.dom().contains("DTSTAMP"@) { s.len() == 0 }
    else { exists|d: DateTime<Utc>| utc_now_ok(d) && s == "DTSTAMP:"@ + #[trigger] utc_text(d) + crlf() }
}
pub open spec fn uid_written(c: InnerComponent, s: Seq<char>) -> bool {
    if c.properties@.dom().contains("UID"@) { s.len() == 0 }
    else { exists|u: Uuid| s == "UID:"@ + #[trigger] u.disp() + crlf() }
}
/// the properties of a component in the order they are written
pub open spec fn pseq<'a>(c: InnerComponent) -> Seq<&'a Property> { refs(vals(c.properties.order(), c.properties@)) }
pub open spec fn mseq<'a>(c: InnerComponent) -> Seq<&'a Property> { lists(refs(vals(c.multi_properties.order(), c.multi_properties@))) }
pub ghost struct Parts { pub head: Seq<char>, pub stamp: Seq<char>, pub props: Seq<char>, pub uid: Seq<char>, pub multi: Seq<char>, pub kids: Seq<char>, pub tail: Seq<char> }
pub open spec fn parts_text(x: Parts) -> Seq<char> {
    x.head + x.stamp + x.props + x.uid + x.multi + x.kids + x.tail
}
/// s is what the component of that kind is written as: BEGIN, every property once, every child once
/// and in order, END
#[verifier::opaque]
pub open spec fn comp_written(k: Seq<char>, c: InnerComponent, s: Seq<char>) -> bool decreases c, c.components.len() + 1 {
    exists|x: Parts| s == #[trigger] parts_text(x) && begin_of(k, x.head) && end_of(k, x.tail) && stamp_written(c, x.stamp) && uid_written(c, x.uid)
        && list_written(pseq(c), x.props) && list_written(mseq(c), x.multi) && kids_written(c, c.components.len() as int, x.kids)
}
pub proof fn lemma_comp_done(k: Seq<char>, c: InnerComponent, x: Parts)
    requires begin_of(k, x.head), end_of(k, x.tail), stamp_written(c, x.stamp), uid_written(c, x.uid),
        list_written(pseq(c), x.props), list_written(mseq(c), x.multi), kids_written(c, c.components.len() as int, x.kids)
    ensures comp_written(k, c, parts_text(x))
{ reveal_with_fuel(comp_written, 2); reveal_with_fuel(kids_written, 2); reveal_with_fuel(list_written, 2); assert(parts_text(x) == parts_text(x)); }
/// o is b followed by something f holds of: what was appended
pub open spec fn app(b: Seq<char>, o: Seq<char>) -> Seq<char> { o.skip(b.len() as int) }
pub proof fn lemma_app(b: Seq<char>, s: Seq<char>)
    ensures app(b, b + s) == s
{ assert(app(b, b + s) =~= s); }
pub proof fn lemma_stamp_none(c: InnerComponent)
    requires c.properties@.dom().contains("DTSTAMP"@)
    ensures stamp_written(c, Seq::empty())
{}
pub proof fn lemma_join(o: Seq<char>, x: Parts)
    ensures o + x.head + x.stamp + x.props + x.uid + x.multi + x.kids + x.tail == o + parts_text(x)
{ assert(o + x.head + x.stamp + x.props + x.uid + x.multi + x.kids + x.tail =~= o + parts_text(x)); }
/// s is what the first n children are written as
#[verifier::opaque]
pub open spec fn kids_written(c: InnerComponent, n: int, s: Seq<char>) -> bool decreases c, n via kids_dec {
    if n <= 0 || n > c.components.len() { n == 0 && s.len() == 0 }
    else { exists|a: Seq<char>, b: Seq<char>| kids_written(c, n - 1, a) && comp_written(c.components[n - 1].name@, c.components[n - 1].inner, b) && s == #[trigger] (a + b) }
}
#[via_fn]
proof fn kids_dec(c: InnerComponent, n: int, s: Seq<char>) {
    if n <= 0 || n > c.components.len() {} else { assert(decreases_to!(c => c.components[n - 1])); }
}
pub proof fn lemma_kids_push(c: InnerComponent, n: int, a: Seq<char>, b: Seq<char>)
    requires 0 <= n < c.components.len(), kids_written(c, n, a), comp_written(c.components[n].name@, c.components[n].inner, b)
    ensures kids_written(c, n + 1, a + b)
{ reveal_with_fuel(kids_written, 2); reveal_with_fuel(comp_written, 2); assert(a + b == a + b); }
pub proof fn lemma_none(c: InnerComponent)
    ensures list_written(Seq::empty(), Seq::empty()), kids_written(c, 0, Seq::empty())
{ reveal_with_fuel(kids_written, 2); reveal_with_fuel(list_written, 2); }
} // mod lemma_out

// Physical lines: whatever is written splits into lines of at most 75 octets (C01).
pub mod lemma_lines {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::spec::*;
#[allow(unused_imports)] use crate::shim::*;
#[allow(unused_imports)] use crate::shim_col::*;
#[allow(unused_imports)] use crate::shim_time::*;
#[allow(unused_imports)] use crate::model::*;
#[allow(unused_imports)] use crate::components::*;
use crate::properties::Property;
use crate::calendar::Calendar;
use crate::calendar::calendar_component::CalendarComponent;

/// s is made of pieces of at most 75 octets, each with a CRLF after it
pub open spec fn lines(s: Seq<char>) -> bool decreases s.len() {
    s.len() == 0 || exists|a: Seq<char>, l: Seq<char>| a.len() < s.len() && s == #[trigger] (a + l + crlf()) && lines(a) && blen(l) <= 75
}
/// a CRLF stands at p
pub open spec fn brk(s: Seq<char>, p: int) -> bool { 0 <= p && p + 1 < s.len() && s[p] == '\r' && s[p + 1] == '\n' }
/// no piece of s that overlaps no CRLF is longer than 75 octets
pub open spec fn short_lines(s: Seq<char>) -> bool {
    forall|i: int, j: int| 0 <= i <= j <= s.len() && (forall|p: int| i - 1 <= p < j ==> !#[trigger] brk(s, p)) ==> blen(#[trigger] s.subrange(i, j)) <= 75
}
/// C01: what splits into such pieces has no physical line of more than 75 octets
pub proof fn lemma_short_lines(s: Seq<char>)
    requires lines(s)
    ensures short_lines(s)
    decreases s.len()
{
    if s.len() == 0 {
        assert forall|i: int, j: int| 0 <= i <= j <= s.len() && (forall|p: int| i - 1 <= p < j ==> !#[trigger] brk(s, p)) implies blen(#[trigger] s.subrange(i, j)) <= 75 by {
            assert(s.subrange(i, j).len() == 0);
        }
    } else {
        let (a, l) = choose|a: Seq<char>, l: Seq<char>| a.len() < s.len() && s == #[trigger] (a + l + crlf()) && lines(a) && blen(l) <= 75;
        lemma_short_lines(a);
        let (n, m) = (a.len() as int, (a.len() + l.len()) as int);
        assert(brk(s, m));
        if n > 0 {
            let (b, k) = choose|b: Seq<char>, k: Seq<char>| b.len() < a.len() && a == #[trigger] (b + k + crlf()) && lines(b) && blen(k) <= 75;
            assert(a[n - 2] == '\r' && a[n - 1] == '\n');
            assert(brk(s, n - 2));
        }
        assert forall|i: int, j: int| 0 <= i <= j <= s.len() && (forall|p: int| i - 1 <= p < j ==> !#[trigger] brk(s, p)) implies blen(#[trigger] s.subrange(i, j)) <= 75 by {
            if i == j { assert(s.subrange(i, j).len() == 0); }
            else if j <= n {
                assert(s.subrange(i, j) =~= a.subrange(i, j));
                assert forall|p: int| i - 1 <= p < j implies !#[trigger] brk(a, p) by { if brk(a, p) { assert(brk(s, p)); } }
            } else {
                if i < n { assert(i - 1 <= n - 2 < j); assert(false); }
                if j > m { assert(i - 1 <= m < j); assert(false); }
                let (x, y) = (i - n, j - n);
                assert(s.subrange(i, j) =~= l.subrange(x, y));
                assert(l =~= l.take(x) + (l.subrange(x, y) + l.skip(y)));
                lemma_blen_add(l.take(x), l.subrange(x, y) + l.skip(y));
                lemma_blen_add(l.subrange(x, y), l.skip(y));
            }
        }
    }
}
pub proof fn lemma_lines_add(a: Seq<char>, b: Seq<char>)
    requires lines(a), lines(b)
    ensures lines(a + b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else {
        let (c, l) = choose|c: Seq<char>, l: Seq<char>| c.len() < b.len() && b == #[trigger] (c + l + crlf()) && lines(c) && blen(l) <= 75;
        lemma_lines_add(a, c);
        assert(a + b =~= (a + c) + l + crlf());
    }
}
pub proof fn lemma_lines_one(l: Seq<char>)
    requires blen(l) <= 75
    ensures lines(l + crlf())
{ reveal_with_fuel(lines, 2); let e = Seq::<char>::empty(); assert(lines(e)); assert(l + crlf() =~= e + l + crlf()); }
/// a folded content line
pub proof fn lemma_lines_join(segs: Seq<Seq<char>>)
    requires segs.len() > 0, forall|i: int| 0 <= i < segs.len() ==> blen(#[trigger] segs[i]) <= (if i == 0 { 75int } else { 74 })
    ensures lines(join(segs) + crlf())
    decreases segs.len()
{
    if segs.len() == 1 { lemma_lines_one(segs[0]); }
    else {
        let d = segs.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies blen(#[trigger] d[i]) <= (if i == 0 { 75int } else { 74 }) by { assert(d[i] == segs[i]); }
        lemma_lines_join(d);
        let z = segs[segs.len() - 1];
        let l = seq![' '] + z;
        assert(blen(seq![' ']) == 1) by { reveal_with_fuel(blen, 2); assert(seq![' '].drop_last() =~= Seq::<char>::empty()); }
        lemma_blen_add(seq![' '], z);
        lemma_lines_one(l);
        lemma_lines_add(join(d) + crlf(), l + crlf());
        assert(join(segs) + crlf() =~= (join(d) + crlf()) + (l + crlf()));
    }
}
pub proof fn lemma_lines_of(l: Seq<char>, s: Seq<char>)
    requires line_of(l, s)
    ensures lines(s)
{
    let f = choose|f: Seq<char>| #[trigger] folded(l, f) && s == f + crlf();
    let segs = choose|segs: Seq<Seq<char>>| fold_segs(l, f, segs);
    lemma_lines_join(segs);
}
pub proof fn lemma_blen_ascii(l: Seq<char>)
    requires forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i] as u32) < 0x80
    ensures blen(l) == l.len()
    decreases l.len()
{
    if l.len() > 0 {
        let d = l.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i] as u32) < 0x80 by { assert(d[i] == l[i]); }
        lemma_blen_ascii(d);
        assert((l[l.len() - 1] as u32) < 0x80);
    }
}
pub proof fn lemma_lines_stamp(d: DateTime<Utc>)
    requires utc_now_ok(d)
    ensures lines("DTSTAMP:"@ + utc_text(d) + crlf())
{
    axiom_utc_len(d); reveal_strlit("DTSTAMP:");
    let u = utc_fmt(d, "%Y%m%dT%H%M%SZ"@);
    let l = "DTSTAMP:"@ + u;
    let t = "DTSTAMP:"@;
    assert(t =~= seq!['D', 'T', 'S', 'T', 'A', 'M', 'P', ':']);
    assert(t.len() == 8 && u.len() == 16);
    assert forall|i: int| 0 <= i < 8 implies (#[trigger] t[i] as u32) < 0x80 by {}
    assert forall|i: int| 0 <= i < 16 implies (#[trigger] u[i] as u32) < 0x80 by {}
    assert forall|i: int| 0 <= i < l.len() implies (#[trigger] l[i] as u32) < 0x80 by { if i >= 8 { assert(l[i] == u[i - 8]); } else { assert(l[i] == t[i]); } }
    lemma_blen_ascii(l); lemma_lines_one(l);
}
pub proof fn lemma_lines_uid(u: Uuid)
    ensures lines("UID:"@ + u.disp() + crlf())
{
    axiom_uuid_len(u); lits!("UID:");
    let l = "UID:"@ + u.disp();
    assert forall|i: int| 0 <= i < l.len() implies (#[trigger] l[i] as u32) < 0x80 by { if i >= 4 { assert(l[i] == u.disp()[i - 4]); } }
    lemma_blen_ascii(l); lemma_lines_one(l);
}
/// C01: a written property
pub proof fn lemma_lines_prop(p: PropV, s: Seq<char>)
    requires written(p, s)
    ensures lines(s)
{
    let (l, f) = choose|l: Seq<char>, f: Seq<char>| is_line(p, l) && #[trigger] folded(l, f) && s == f + crlf();
    lemma_lines_of(l, s);
}
/// C01: a printed parsed property
pub proof fn lemma_lines_pprop(p: PropS, s: Seq<char>)
    requires pwritten(p, s)
    ensures lines(s)
{ lemma_lines_of(pline(p), s); }
pub proof fn lemma_lines_list(ps: Seq<&Property>, s: Seq<char>)
    requires list_written(ps, s)
    ensures lines(s)
    decreases ps.len()
{
    reveal_with_fuel(list_written, 2);
    if ps.len() > 0 {
        let (a, b) = choose|a: Seq<char>, b: Seq<char>| list_written(ps.drop_last(), a) && written(ps.last().v(), b) && s == #[trigger] (a + b);
        lemma_lines_list(ps.drop_last(), a);
        lemma_lines_prop(ps.last().v(), b);
        lemma_lines_add(a, b);
    }
}
pub proof fn lemma_lines_kids(c: InnerComponent, n: int, s: Seq<char>)
    requires kids_written(c, n, s)
    ensures lines(s)
    decreases c, n
{
    reveal_with_fuel(kids_written, 2); reveal_with_fuel(comp_written, 2);
    if n <= 0 || n > c.components.len() {}
    else {
        let k = c.components[n - 1];
        assert(decreases_to!(c => k));
        let (a, b) = choose|a: Seq<char>, b: Seq<char>| kids_written(c, n - 1, a) && comp_written(k.name@, k.inner, b) && s == #[trigger] (a + b);
        lemma_lines_kids(c, n - 1, a);
        lemma_lines_comp(k.name@, k.inner, b);
        lemma_lines_add(a, b);
    }
}
/// C01: a written component
pub proof fn lemma_lines_comp(k: Seq<char>, c: InnerComponent, s: Seq<char>)
    requires comp_written(k, c, s)
    ensures lines(s)
    decreases c, c.components.len() + 1
{
    reveal_with_fuel(comp_written, 2); reveal_with_fuel(kids_written, 2);
    let x = choose|x: Parts| s == #[trigger] parts_text(x) && begin_of(k, x.head) && end_of(k, x.tail) && stamp_written(c, x.stamp) && uid_written(c, x.uid)
        && list_written(pseq(c), x.props) && list_written(mseq(c), x.multi) && kids_written(c, c.components.len() as int, x.kids);
    if c.properties@.dom().contains("DTSTAMP"@) {} else {
        let d = choose|d: DateTime<Utc>| utc_now_ok(d) && x.stamp == "DTSTAMP:"@ + #[trigger] utc_text(d) + crlf();
        lemma_lines_stamp(d);
    }
    if c.properties@.dom().contains("UID"@) {} else {
        let u = choose|u: Uuid| x.uid == "UID:"@ + #[trigger] u.disp() + crlf();
        lemma_lines_uid(u);
    }
    lemma_lines_of("BEGIN:"@ + k, x.head); lemma_lines_of("END:"@ + k, x.tail);
    lemma_lines_list(pseq(c), x.props); lemma_lines_list(mseq(c), x.multi);
    lemma_lines_kids(c, c.components.len() as int, x.kids);
    lemma_lines_add(x.head, x.stamp);
    lemma_lines_add(x.head + x.stamp, x.props);
    lemma_lines_add(x.head + x.stamp + x.props, x.uid);
    lemma_lines_add(x.head + x.stamp + x.props + x.uid, x.multi);
    lemma_lines_add(x.head + x.stamp + x.props + x.uid + x.multi, x.kids);
    lemma_lines_add(x.head + x.stamp + x.props + x.uid + x.multi + x.kids, x.tail);
}
pub proof fn lemma_lines_comps(cs: Seq<CalendarComponent>, s: Seq<char>)
    requires comps_written(cs, s)
    ensures lines(s)
    decreases cs.len()
{
    reveal_with_fuel(comps_written, 2);
    if cs.len() > 0 {
        let (a, b) = choose|a: Seq<char>, b: Seq<char>| comps_written(cs.drop_last(), a) && comp_written(cck(cs.last()), cci(cs.last()), b) && s == #[trigger] (a + b);
        lemma_lines_comps(cs.drop_last(), a);
        lemma_lines_comp(cck(cs.last()), cci(cs.last()), b);
        lemma_lines_add(a, b);
    }
}
/// C01: a written calendar
pub proof fn lemma_c01(c: Calendar, s: Seq<char>)
    requires cal_written(c, s)
    ensures lines(s), short_lines(s)
{
    let (a, b) = choose|a: Seq<char>, b: Seq<char>| list_written(refs(c.properties@), a) && comps_written(c.components@, b) && s == #[trigger] cal_text(a, b);
    let n = "VCALENDAR"@;
    lemma_cal_head();
    lemma_lines_of("BEGIN:"@ + n, begin_line(n)); lemma_lines_of("END:"@ + n, end_line(n));
    lemma_lines_list(refs(c.properties@), a);
    lemma_lines_comps(c.components@, b);
    lemma_lines_add(begin_line(n), a);
    lemma_lines_add(begin_line(n) + a, b);
    lemma_lines_add(begin_line(n) + a + b, end_line(n));
    lemma_short_lines(s);
}
pub proof fn lemma_lines_plist(ps: Seq<PropS>, s: Seq<char>)
    requires plist_written(ps, s)
    ensures lines(s)
    decreases ps.len()
{
    reveal_with_fuel(plist_written, 2);
    if ps.len() > 0 {
        let (a, b) = choose|a: Seq<char>, b: Seq<char>| plist_written(ps.drop_last(), a) && pwritten(ps.last(), b) && s == #[trigger] (a + b);
        lemma_lines_plist(ps.drop_last(), a);
        lemma_lines_pprop(ps.last(), b);
        lemma_lines_add(a, b);
    }
}
pub proof fn lemma_lines_ckids(c: CompS, n: int, s: Seq<char>)
    requires ckids_written(c, n, s)
    ensures lines(s)
    decreases c, n
{
    reveal_with_fuel(ckids_written, 2); reveal_with_fuel(cwritten, 2);
    if n <= 0 || n > c.comps.len() {}
    else {
        let (a, b) = choose|a: Seq<char>, b: Seq<char>| ckids_written(c, n - 1, a) && cwritten(c.comps[n - 1], b) && s == #[trigger] (a + b);
        lemma_lines_ckids(c, n - 1, a);
        lemma_c01_parsed(c.comps[n - 1], b);
        lemma_lines_add(a, b);
    }
}
/// C01: a printed parsed component or calendar
pub proof fn lemma_c01_parsed(c: CompS, s: Seq<char>)
    requires cwritten(c, s)
    ensures lines(s), short_lines(s)
    decreases c, c.comps.len() + 1
{
    reveal_with_fuel(cwritten, 2); reveal_with_fuel(ckids_written, 2);
    let x = choose|x: CParts| s == #[trigger] cparts_text(x) && begin_of(c.name, x.head) && end_of(c.name, x.tail) && cstamp_written(c, x.stamp) && cuid_written(c, x.uid)
        && plist_written(c.props, x.props) && ckids_written(c, c.comps.len() as int, x.kids);
    if lowered(c.name) != "calendar"@ || has_prop(c.props, "DTSTAMP"@) {} else {
        let d = choose|d: DateTime<Utc>| utc_now_ok(d) && x.stamp == "DTSTAMP:"@ + #[trigger] utc_text(d) + crlf();
        lemma_lines_stamp(d);
    }
    if lowered(c.name) != "calendar"@ || has_prop(c.props, "UID"@) {} else {
        let u = choose|u: Uuid| x.uid == "UID:"@ + #[trigger] u.disp() + crlf();
        lemma_lines_uid(u);
    }
    lemma_lines_of("BEGIN:"@ + c.name, x.head); lemma_lines_of("END:"@ + c.name, x.tail);
    lemma_lines_plist(c.props, x.props);
    lemma_lines_ckids(c, c.comps.len() as int, x.kids);
    lemma_lines_add(x.head, x.stamp);
    lemma_lines_add(x.head + x.stamp, x.uid);
    lemma_lines_add(x.head + x.stamp + x.uid, x.props);
    lemma_lines_add(x.head + x.stamp + x.uid + x.props, x.kids);
    lemma_lines_add(x.head + x.stamp + x.uid + x.props + x.kids, x.tail);
    lemma_short_lines(s);
}
} // mod lemma_lines

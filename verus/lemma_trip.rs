// Writing and reading back: properties (C04), parsed trees (C14), calendars (C06).
pub mod lemma_trip {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::spec::*;
#[allow(unused_imports)] use crate::shim::*;
#[allow(unused_imports)] use crate::shim_nom::*;
#[allow(unused_imports)] use crate::shim_col::*;
#[allow(unused_imports)] use crate::model::*;
#[allow(unused_imports)] use crate::components::*;
use crate::properties::{Parameter, Property};
use crate::value_types::ValueType;
use crate::calendar::Calendar;

// ------------------------------------------------------------ unfolding what was written
/// s starts with no space or tab
pub open spec fn no_sp(s: Seq<char>) -> bool { s.len() == 0 || (s[0] != ' ' && s[0] != '\t') }
/// s unfolds to l, whatever follows it on a new line
pub open spec fn unfolds(s: Seq<char>, l: Seq<char>) -> bool {
    &&& no_sp(s) && no_sp(l)
    &&& forall|x: Seq<char>| no_sp(x) ==> #[trigger] unf(s + x) == l + unf(x)
}
proof fn lemma_unf_skip(a: Seq<char>, x: Seq<char>)
    requires no_lf(a), x.len() > 0 ==> x[0] != '\n'
    ensures unf(a + x) == a + unf(x)
    decreases a.len()
{
    if a.len() == 0 { assert(a + x =~= x); assert(a + unf(x) =~= unf(x)); }
    else {
        let s = a + x;
        assert(s[0] == a[0]);
        if s.len() > 1 { if a.len() > 1 { assert(s[1] == a[1]); } else { assert(s[1] == x[0]); } }
        assert(fold_at(s) == 0);
        assert(s.skip(1) =~= a.skip(1) + x);
        lemma_unf_skip(a.skip(1), x);
        assert(seq![a[0]] + (a.skip(1) + unf(x)) =~= a + unf(x));
    }
}
proof fn lemma_unf_crlf(x: Seq<char>)
    requires no_sp(x)
    ensures unf(crlf() + x) == crlf() + unf(x)
{
    let s = crlf() + x;
    assert(fold_at(s) == 0);
    let t = seq!['\n'] + x;
    assert(s.skip(1) =~= t);
    assert(fold_at(t) == 0);
    assert(t.skip(1) =~= x);
    assert(unf(t) == seq!['\n'] + unf(x));
    assert(unf(s) == seq!['\r'] + unf(t));
    assert(seq!['\r'] + (seq!['\n'] + unf(x)) =~= crlf() + unf(x));
}
proof fn lemma_flat_no_lf(segs: Seq<Seq<char>>)
    requires no_lf(flat(segs)), segs.len() > 0
    ensures no_lf(segs.last()), no_lf(flat(segs.drop_last()))
{
    let (a, b) = (flat(segs.drop_last()), segs.last());
    assert(flat(segs) == a + b);
    assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] != '\n' by { assert((a + b)[i] == a[i]); }
    assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] != '\n' by { assert((a + b)[i + a.len()] == b[i]); }
}
/// what is folded unfolds to itself
proof fn lemma_unf_join(segs: Seq<Seq<char>>, x: Seq<char>)
    requires segs.len() > 0, no_lf(flat(segs)), x.len() > 0 ==> x[0] != '\n'
    ensures unf(join(segs) + x) == flat(segs) + unf(x)
    decreases segs.len()
{
    lemma_flat_no_lf(segs);
    let b = segs.last();
    lemma_unf_skip(b, x);
    if segs.len() == 1 {
        assert(flat(segs.drop_last()) =~= Seq::empty());
        assert(flat(segs) =~= b);
    } else {
        let d = segs.drop_last();
        let y = fold_sep() + (b + x);
        assert(join(segs) + x =~= join(d) + y);
        lemma_unf_join(d, y);
        assert(fold_at(y) == 3);
        assert(y.skip(3) =~= b + x);
        assert(flat(d) + (b + unf(x)) =~= flat(segs) + unf(x));
    }
}
/// a written line unfolds to the line
pub proof fn lemma_folded(l: Seq<char>, f: Seq<char>)
    requires folded(l, f), no_lf(l), l.len() > 0, no_sp(l)
    ensures unfolds(f + crlf(), l + crlf())
{
    let segs = choose|segs: Seq<Seq<char>>| fold_segs(l, f, segs);
    assert forall|x: Seq<char>| no_sp(x) implies #[trigger] unf(f + crlf() + x) == l + crlf() + unf(x) by {
        assert(f + crlf() + x =~= f + (crlf() + x));
        lemma_unf_join(segs, crlf() + x);
        lemma_unf_crlf(x);
        assert(l + (crlf() + unf(x)) =~= l + crlf() + unf(x));
    }
    lemma_join_first(segs);
    assert(no_sp(f + crlf())) by { if f.len() > 0 { assert((f + crlf())[0] == f[0]); } }
    assert((l + crlf())[0] == l[0]);
}
/// a folded line starts as the line does, or with a fold
proof fn lemma_join_first(segs: Seq<Seq<char>>)
    requires segs.len() > 0
    ensures join(segs).len() > 0 ==> join(segs)[0] == '\r' || (flat(segs).len() > 0 && join(segs)[0] == flat(segs)[0]),
        join(segs).len() == 0 ==> flat(segs).len() == 0
    decreases segs.len()
{
    let b = segs.last();
    if segs.len() == 1 { assert(flat(segs.drop_last()) =~= Seq::empty()); assert(flat(segs) =~= b); }
    else {
        let d = segs.drop_last();
        lemma_join_first(d);
        if join(d).len() > 0 { assert(join(segs)[0] == join(d)[0]); if flat(d).len() > 0 { assert(flat(segs)[0] == flat(d)[0]); } }
        else { assert(join(segs)[0] == fold_sep()[0]); }
    }
}
pub proof fn lemma_unfolds_add(a: Seq<char>, la: Seq<char>, b: Seq<char>, lb: Seq<char>)
    requires unfolds(a, la), unfolds(b, lb)
    ensures unfolds(a + b, la + lb)
{
    assert forall|x: Seq<char>| no_sp(x) implies #[trigger] unf(a + b + x) == la + lb + unf(x) by {
        assert(a + b + x =~= a + (b + x));
        assert(no_sp(b + x)) by { if b.len() > 0 { assert((b + x)[0] == b[0]); } else { assert(b + x =~= x); } }
        assert(unf(a + (b + x)) == la + unf(b + x));
        assert(la + (lb + unf(x)) =~= la + lb + unf(x));
    }
    assert(no_sp(a + b)) by { if a.len() > 0 { assert((a + b)[0] == a[0]); } else { assert(a + b =~= b); } }
    assert(no_sp(la + lb)) by { if la.len() > 0 { assert((la + lb)[0] == la[0]); } else { assert(la + lb =~= lb); } }
}
pub proof fn lemma_unfolds_none()
    ensures unfolds(Seq::empty(), Seq::empty())
{
    assert forall|x: Seq<char>| no_sp(x) implies #[trigger] unf(Seq::<char>::empty() + x) == Seq::<char>::empty() + unf(x) by {
        assert(Seq::<char>::empty() + x =~= x); assert(Seq::<char>::empty() + unf(x) =~= unf(x));
    }
}
/// a line short enough not to be folded
pub proof fn lemma_unfolds_line(l: Seq<char>)
    requires no_lf(l), l.len() > 0, no_sp(l)
    ensures unfolds(l + crlf(), l + crlf())
{
    assert forall|x: Seq<char>| no_sp(x) implies #[trigger] unf(l + crlf() + x) == l + crlf() + unf(x) by {
        assert(l + crlf() + x =~= l + (crlf() + x));
        lemma_unf_skip(l, crlf() + x);
        lemma_unf_crlf(x);
        assert(l + (crlf() + unf(x)) =~= l + crlf() + unf(x));
    }
    assert((l + crlf())[0] == l[0]);
}
pub proof fn lemma_unfolds(s: Seq<char>, l: Seq<char>)
    requires unfolds(s, l)
    ensures unf(s) == l
{
    let e = Seq::<char>::empty();
    assert(unf(s + e) == l + unf(e));
    assert(s + e =~= s); assert(l + unf(e) =~= l);
}

// ------------------------------------------------------------ properties
/// a parameter the round trip keeps
pub open spec fn ok_par(p: ParS) -> bool { keys(p.key) && match p.val { Some(v) => v.len() > 0 && par_chs(v), None => true } }
/// a parsed property the round trip keeps
pub open spec fn ok_prop(p: PropS) -> bool {
    &&& pname(p.name)
    &&& forall|i: int| 0 <= i < p.params.len() ==> ok_par(#[trigger] p.params[i])
    &&& vt_s(p.name, p.params) == Some(ValueType::Text) || no_lf(p.val)
}
proof fn lemma_quoted_chars(v: Seq<char>)
    ensures quoted(v) == (if bare(v) { v } else { seq!['"'] + v + seq!['"'] })
{
    if !bare(v) { let i = choose|i: int| 0 <= i < v.len() && !(#[trigger] v[i] != ';' && v[i] != ':'); assert(v.contains(v[i])); }
}
pub proof fn lemma_partext(p: ParS)
    requires ok_par(p)
    ensures sp_par(p, partext(p))
{
    if let Some(v) = p.val {
        lemma_quoted_chars(v);
        assert(seq![';'] + p.key + seq!['='] + (seq!['"'] + v + seq!['"']) =~= seq![';'] + p.key + seq!['=', '"'] + v + seq!['"']);
    }
}
proof fn lemma_sp_pars_push(ps: Seq<ParS>, x: Seq<char>, p: ParS, y: Seq<char>)
    requires sp_pars(ps, x), sp_par(p, y)
    ensures sp_pars(ps.push(p), x + y)
    decreases ps.len()
{
    let qs = ps.push(p);
    if ps.len() == 0 {
        let e = Seq::<char>::empty();
        assert(x + y =~= y + e);
        assert(qs.skip(1) =~= Seq::empty());
        assert(sp_pars(qs.skip(1), e));
    } else {
        let (a, b) = choose|a: Seq<char>, b: Seq<char>| sp_par(ps[0], a) && sp_pars(ps.skip(1), b) && x == #[trigger] (a + b);
        lemma_sp_pars_push(ps.skip(1), b, p, y);
        assert(qs.skip(1) =~= ps.skip(1).push(p));
        assert(x + y =~= a + (b + y));
    }
}
proof fn lemma_parstext(ps: Seq<ParS>)
    requires forall|i: int| 0 <= i < ps.len() ==> ok_par(#[trigger] ps[i])
    ensures sp_pars(ps, parstext(ps))
    decreases ps.len()
{
    if ps.len() > 0 {
        lemma_parstext(ps.drop_last());
        lemma_partext(ps.last());
        lemma_sp_pars_push(ps.drop_last(), parstext(ps.drop_last()), ps.last(), partext(ps.last()));
        assert(ps.drop_last().push(ps.last()) =~= ps);
    }
}
pub proof fn lemma_no_lf_add(a: Seq<char>, b: Seq<char>)
    requires no_lf(a), no_lf(b)
    ensures no_lf(a + b)
{ assert forall|i: int| 0 <= i < (a + b).len() implies #[trigger] (a + b)[i] != '\n' by { if i < a.len() { assert((a + b)[i] == a[i]); } else { assert((a + b)[i] == b[i - a.len()]); } } }
pub proof fn lemma_keys_no_lf(k: Seq<char>)
    requires keys(k)
    ensures no_lf(k), no_sp(k), k[0] != '\r', k[0] != '\n'
{ assert forall|i: int| 0 <= i < k.len() implies #[trigger] k[i] != '\n' by { lemma_key_char(k[i]); } lemma_key_char(k[0]); }
proof fn lemma_sp_par_no_lf(p: ParS, x: Seq<char>)
    requires sp_par(p, x)
    ensures no_lf(x)
{
    lemma_keys_no_lf(p.key);
    lemma_no_lf_add(seq![';'], p.key);
    let h = seq![';'] + p.key;
    lemma_no_lf_add(h, seq!['=']);
    lemma_no_lf_add(h, seq!['=', '"']);
    if let Some(v) = p.val {
        assert(no_lf(v)) by { assert forall|i: int| 0 <= i < v.len() implies #[trigger] v[i] != '\n' by { assert(par_ch(v[i])); } }
        lemma_no_lf_add(h + seq!['='], v);
        lemma_no_lf_add(h + seq!['=', '"'], v);
        lemma_no_lf_add(h + seq!['=', '"'] + v, seq!['"']);
    }
}
proof fn lemma_sp_pars_no_lf(ps: Seq<ParS>, x: Seq<char>)
    requires sp_pars(ps, x)
    ensures no_lf(x)
    decreases ps.len()
{
    if ps.len() > 0 {
        let (a, b) = choose|a: Seq<char>, b: Seq<char>| sp_par(ps[0], a) && sp_pars(ps.skip(1), b) && x == #[trigger] (a + b);
        lemma_sp_par_no_lf(ps[0], a);
        lemma_sp_pars_no_lf(ps.skip(1), b);
        lemma_no_lf_add(a, b);
    }
}
pub proof fn lemma_sp_line_no_lf(p: PropS, l: Seq<char>)
    requires sp_line(p, l)
    ensures no_lf(l), l.len() > 0, no_sp(l)
{
    let (x, w) = choose|x: Seq<char>, w: Seq<char>| sp_pars(p.params, x) && no_lf(w) && p.val == unesc_vt(vt_s(p.name, p.params), w) && l == #[trigger] line_text(p.name, x, w);
    lemma_keys_no_lf(p.name);
    lemma_sp_pars_no_lf(p.params, x);
    lemma_no_lf_add(p.name, x);
    lemma_no_lf_add(p.name + x, seq![':']);
    lemma_no_lf_add(p.name + x + seq![':'], w);
    assert(l[0] == p.name[0]);
}
/// the line of a parsed property spells it out
pub proof fn lemma_pline(p: PropS)
    requires ok_prop(p)
    ensures sp_line(p, pline(p))
{
    lemma_parstext(p.params);
    let w = if vt_s(p.name, p.params) == Some(ValueType::Text) { esc(p.val) } else { p.val };
    lemma_unesc_esc(p.val);
    lemma_esc_no_lf(p.val);
    assert(pline(p) == line_text(p.name, parstext(p.params), w));
}
/// a line on its own
proof fn lemma_one_line(p: PropS, l: Seq<char>)
    requires sp_line(p, l)
    ensures prop_p(l + crlf()) == PR::Ok(Seq::<char>::empty(), p)
{
    assert(crlf().take(crlf().len() as int) =~= crlf());
    lemma_sp_line(crlf(), p, l, crlf());
    assert(crlf().skip(2) =~= Seq::empty());
}
/// C14: a printed property is parsed as the property it was
pub proof fn lemma_prop_trip(p: PropS, s: Seq<char>)
    requires ok_prop(p), pwritten(p, s)
    ensures prop_p(unf(s)) == PR::Ok(Seq::<char>::empty(), p), unfolds(s, pline(p) + crlf())
{
    let f = choose|f: Seq<char>| #[trigger] folded(pline(p), f) && s == f + crlf();
    lemma_pline(p);
    lemma_sp_line_no_lf(p, pline(p));
    lemma_folded(pline(p), f);
    lemma_unfolds(s, pline(p) + crlf());
    lemma_one_line(p, pline(p));
}
// ------------------------------------------------------------ properties of the crate
/// a property the round trip keeps
pub open spec fn ok_pv(p: PropV) -> bool {
    &&& pname(p.key)
    &&& p.params.dom().finite()
    &&& forall|k: Seq<char>| #[trigger] p.params.dom().contains(k) ==> p.params[k].key == k && keys(k) && par_chs(p.params[k].val)
    &&& vt_of(p) == Some(ValueType::Text) || no_lf(p.val)
}
/// its parameters in the order o
pub open spec fn par_s(v: ParV) -> ParS { ParS { key: v.key, val: if v.val.len() == 0 { None } else { Some(v.val) } } }
pub open spec fn pars_s(o: Seq<Seq<char>>, m: Map<Seq<char>, ParV>) -> Seq<ParS> { o.map_values(|k: Seq<char>| par_s(m[k])) }
pub open spec fn prop_s(o: Seq<Seq<char>>, p: PropV) -> PropS { PropS { name: p.key, val: p.val, params: pars_s(o, p.params) } }
proof fn lemma_pars_s(o: Seq<Seq<char>>, m: Map<Seq<char>, ParV>, n: int)
    requires 0 <= n <= o.len(), forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> m[k].key == k && keys(k) && par_chs(m[k].val),
        forall|i: int| 0 <= i < o.len() ==> m.dom().contains(#[trigger] o[i]), o.no_duplicates()
    ensures sp_pars(pars_s(o, m).take(n), ptext(vals(o, m).take(n))),
        forall|k: Seq<char>| #[trigger] par_map(pars_s(o, m).take(n)).dom().contains(k) <==> o.take(n).contains(k),
        forall|k: Seq<char>| o.take(n).contains(k) ==> #[trigger] par_map(pars_s(o, m).take(n))[k] == m[k],
    decreases n
{
    let ps = pars_s(o, m);
    let vs = vals(o, m);
    if n == 0 { assert(vs.take(0) =~= Seq::empty()); assert(ps.take(0) =~= Seq::empty()); }
    else {
        lemma_pars_s(o, m, n - 1);
        let k = o[n - 1];
        let (p, v) = (ps[n - 1], vs[n - 1]);
        assert(m.dom().contains(k));
        assert(vs.take(n).drop_last() =~= vs.take(n - 1));
        assert(ps.take(n).drop_last() =~= ps.take(n - 1));
        assert(ps.take(n) =~= ps.take(n - 1).push(p));
        assert(v == m[k] && p == par_s(v));
        let t = seq![';'] + v.key + seq!['='] + quoted(v.val);
        lemma_quoted_chars(v.val);
        if v.val.len() > 0 { assert(seq![';'] + k + seq!['='] + (seq!['"'] + v.val + seq!['"']) =~= seq![';'] + k + seq!['=', '"'] + v.val + seq!['"']); }
        else { assert(t =~= seq![';'] + k + seq!['=']); }
        assert(sp_par(p, t));
        lemma_sp_pars_push(ps.take(n - 1), ptext(vs.take(n - 1)), p, t);
        assert(par_v(p) == v) by { if v.val.len() == 0 { assert(v.val =~= Seq::empty()); } }
        let (a, b) = (par_map(ps.take(n - 1)), par_map(ps.take(n)));
        let (u, w) = (o.take(n - 1), o.take(n));
        assert(b == a.insert(k, v));
        assert(w =~= u.push(k));
        assert(!u.contains(k)) by { if u.contains(k) { let j = choose|j: int| 0 <= j < n - 1 && u[j] == k; assert(o[j] == o[n - 1]); } }
        assert(w[n - 1] == k);
        assert forall|q: Seq<char>| #[trigger] b.dom().contains(q) <==> w.contains(q) by {
            if u.contains(q) { let j = choose|j: int| 0 <= j < n - 1 && u[j] == q; assert(w[j] == q); }
            if w.contains(q) && q != k { let j = choose|j: int| 0 <= j < n && w[j] == q; assert(u[j] == q); }
        }
        assert forall|q: Seq<char>| w.contains(q) implies #[trigger] b[q] == m[q] by { assert(b.dom().contains(q)); if q != k { assert(a.dom().contains(q)); assert(u.contains(q)); assert(a[q] == m[q]); } }
    }
}
/// the first VALUE parameter in the list is the one in the map
proof fn lemma_value_of(o: Seq<Seq<char>>, m: Map<Seq<char>, ParV>)
    requires o.no_duplicates(), forall|i: int| 0 <= i < o.len() ==> #[trigger] m[o[i]].key == o[i]
    ensures value_par(pars_s(o, m)) == (if o.contains("VALUE"@) { par_s(m["VALUE"@]).val } else { None })
    decreases o.len()
{
    if o.len() > 0 {
        let r = o.skip(1);
        assert forall|i: int| 0 <= i < r.len() implies #[trigger] m[r[i]].key == r[i] by { assert(r[i] == o[i + 1]); assert(m[o[i + 1]].key == o[i + 1]); }
        lemma_value_of(r, m);
        assert(pars_s(o, m).skip(1) =~= pars_s(r, m));
        assert(m[o[0]].key == o[0]);
        assert(pars_s(o, m)[0] == par_s(m[o[0]]));
        let v = "VALUE"@;
        if o[0] == v { assert(o.contains(v)); }
        else if o.contains(v) { let j = choose|j: int| 0 <= j < o.len() && o[j] == v; assert(r[j - 1] == v); }
        else if r.contains(v) { let j = choose|j: int| 0 <= j < r.len() && r[j] == v; assert(o[j + 1] == v); }
    }
}
/// the order a map is written in gives a parsed property that is the same to the crate
pub proof fn lemma_line_in(p: PropV, o: Seq<Seq<char>>)
    requires ok_pv(p), is_order(o, p.params.dom())
    ensures sp_line(prop_s(o, p), line_in(p, o)), prop_v(prop_s(o, p)) == p
{
    let q = prop_s(o, p);
    let m = p.params;
    lemma_pars_s(o, m, o.len() as int);
    assert(pars_s(o, m).take(o.len() as int) =~= pars_s(o, m));
    assert(vals(o, m).take(o.len() as int) =~= vals(o, m));
    assert(o.take(o.len() as int) =~= o);
    assert(par_map(q.params) =~= m);
    assert forall|i: int| 0 <= i < o.len() implies #[trigger] m[o[i]].key == o[i] by { assert(o.to_set().contains(o[i])); }
    lemma_value_of(o, m);
    let v = "VALUE"@;
    assert(o.contains(v) <==> m.dom().contains(v));
    lemma_vt_empty();
    assert(vt_s(q.name, q.params) == vt_of(p)) by {
        if m.dom().contains(v) && m[v].val.len() == 0 { assert(m[v].val =~= ""@) by { reveal_strlit(""); } }
    }
    let w = vtext(p);
    lemma_unesc_esc(p.val);
    lemma_esc_no_lf(p.val);
    assert(line_in(p, o) == line_text(p.key, ptext(vals(o, m)), w));
}
proof fn lemma_vt_empty()
    ensures vt_name_of(""@) is None
{
    lits!("", "BINARY", "BOOLEAN", "CAL-ADDRESS", "DATE", "DATE-TIME", "DURATION", "FLOAT", "INTEGER", "PERIOD", "RECUR", "TEXT", "TIME", "URI", "UTC-OFFSET");
}
/// C04: a written property is read back as the property it was
pub proof fn lemma_pv_trip(p: PropV, s: Seq<char>)
    requires ok_pv(p), written(p, s)
    ensures prop_p(unf(s)) is Ok, prop_v(prop_p(unf(s))->Ok_1) == p
{
    let (l, f) = choose|l: Seq<char>, f: Seq<char>| is_line(p, l) && #[trigger] folded(l, f) && s == f + crlf();
    let o = choose|o: Seq<Seq<char>>| is_order(o, p.params.dom()) && l == #[trigger] line_in(p, o);
    lemma_line_in(p, o);
    lemma_sp_line_no_lf(prop_s(o, p), l);
    lemma_folded(l, f);
    lemma_unfolds(s, l + crlf());
    lemma_one_line(prop_s(o, p), l);
}
/// C04: over the contracts of writing and reading
pub proof fn lemma_c04(p: Property, s: Seq<char>, r: Result<Property, String>)
    requires ok_pv(p.v()), written(p.v(), s), <Property as FromStr>::from_str_rel(unf(s), r)
    ensures r is Ok, r->Ok_0.v() == p.v()
{ lemma_pv_trip(p.v(), s); }
} // mod lemma_trip

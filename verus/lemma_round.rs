// Documents: what the parser returns for well-formed text (C07).
pub mod lemma_round {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::spec::*;
#[allow(unused_imports)] use crate::shim::*;
#[allow(unused_imports)] use crate::shim_nom::*;
#[allow(unused_imports)] use crate::model::*;
use crate::value_types::ValueType;

pub open spec fn lf() -> Seq<char> { seq!['\n'] }
/// s is one or more line endings m
pub open spec fn gap(m: Seq<char>, g: Seq<char>) -> bool decreases g.len() {
    m.len() > 0 && m.is_prefix_of(g) && (g == m || gap(m, g.skip(m.len() as int)))
}
/// one kind of line ending throughout s
pub open spec fn mode(m: Seq<char>, s: Seq<char>) -> bool { m == crlf() || (m == lf() && !occurs(s, crlf())) }
pub open spec fn no_lf(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != '\n' }
pub open spec fn keys(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> is_key(#[trigger] s[i]) }
/// equal but for the case of ASCII letters
pub open spec fn ci_eq(a: Seq<char>, b: Seq<char>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> lo(#[trigger] a[i]) == lo(b[i]) }
/// a name a property may have
pub open spec fn pname(s: Seq<char>) -> bool { keys(s) && !ci_eq(s, "BEGIN"@) && !ci_eq(s, "END"@) }
/// a character a parameter value may have
pub open spec fn par_ch(c: char) -> bool { c != '"' && c != '\r' && c != '\n' }
pub open spec fn par_chs(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> par_ch(#[trigger] s[i]) }
pub open spec fn bare(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != ';' && s[i] != ':' }
/// x is how the parameter p may be written, behind the semicolon
pub open spec fn sp_par(p: ParS, x: Seq<char>) -> bool {
    &&& keys(p.key)
    &&& match p.val {
        None => x == seq![';'] + p.key || x == seq![';'] + p.key + seq!['='],
        Some(v) => v.len() > 0 && par_chs(v)
            && (x == seq![';'] + p.key + seq!['=', '"'] + v + seq!['"'] || (bare(v) && x == seq![';'] + p.key + seq!['='] + v)),
    }
}
pub open spec fn sp_pars(ps: Seq<ParS>, x: Seq<char>) -> bool decreases ps.len() {
    if ps.len() == 0 { x.len() == 0 }
    else { exists|a: Seq<char>, b: Seq<char>| sp_par(ps[0], a) && sp_pars(ps.skip(1), b) && x == #[trigger] (a + b) }
}
pub open spec fn line_text(n: Seq<char>, x: Seq<char>, w: Seq<char>) -> Seq<char> { n + x + seq![':'] + w }
/// l is a content line of p
pub open spec fn sp_line(p: PropS, l: Seq<char>) -> bool {
    pname(p.name) && exists|x: Seq<char>, w: Seq<char>| sp_pars(p.params, x) && no_lf(w) && p.val == unesc_vt(vt_s(p.name, p.params), w) && l == #[trigger] line_text(p.name, x, w)
}

// ------------------------------------------------------------ characters
pub proof fn lemma_key_char(c: char)
    requires is_key(c)
    ensures c != ';' && c != ':' && c != '=' && c != '"' && c != ' ' && c != '\t' && c != '\r' && c != '\n' && lo(c) != ':' as int
{
    axiom_is_alnum_ascii(';'); axiom_is_alnum_ascii(':'); axiom_is_alnum_ascii('='); axiom_is_alnum_ascii('"');
    axiom_is_alnum_ascii(' '); axiom_is_alnum_ascii('\t'); axiom_is_alnum_ascii('\r'); axiom_is_alnum_ascii('\n');
}
pub proof fn lemma_not_key(c: char)
    requires c == ';' || c == ':' || c == '=' || c == '"' || c == ' ' || c == '\t' || c == '\r' || c == '\n'
    ensures !is_key(c)
{ if is_key(c) { lemma_key_char(c); } }
/// keys are what the parser takes for keys
proof fn lemma_keys(k: Seq<char>, m: Seq<char>)
    requires keys(k), m.len() > 0 ==> !is_key(m[0])
    ensures pre(0, k + m) == k, post(0, k + m) == m
{ lemma_longest(0, k + m, k, m); }
/// where a line starts that is neither a BEGIN nor an END line
pub open spec fn fresh(s: Seq<char>) -> bool { s.len() > 0 && s[0] != '\r' && s[0] != '\n' && s[0] != ' ' && s[0] != '\t' }
proof fn lemma_ci(n: Seq<char>, m: Seq<char>, t: Seq<char>)
    requires keys(n), m.len() > 0, m[0] == ';' || m[0] == ':', !ci_eq(n, t), forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] != ';' && t[i] != ':'
    ensures !ci_prefix(t + seq![':'], n + m)
{
    let (s, u) = (n + m, t + seq![':']);
    if ci_prefix(u, s) {
        if n.len() > t.len() {
            assert(lo(s[t.len() as int]) == lo(u[t.len() as int]));
            assert(u[t.len() as int] == ':' && s[t.len() as int] == n[t.len() as int]);
            lemma_key_char(n[t.len() as int]);
        } else if n.len() < t.len() {
            assert(lo(s[n.len() as int]) == lo(u[n.len() as int]));
            assert(s[n.len() as int] == m[0] && u[n.len() as int] == t[n.len() as int]);
        } else {
            assert forall|i: int| 0 <= i < n.len() implies lo(#[trigger] n[i]) == lo(t[i]) by { assert(lo(s[i]) == lo(u[i])); }
        }
    }
}

// ------------------------------------------------------------ line endings
pub proof fn lemma_gap1(m: Seq<char>, g: Seq<char>)
    requires gap(m, g), m == crlf() || m == lf()
    ensures g.len() >= m.len() > 0, at_le(g), le_len(g) == m.len(), g == m || gap(m, g.skip(m.len() as int)), g == m + g.skip(m.len() as int), g[0] == '\r' || g[0] == '\n'
{
    assert(g.take(m.len() as int) =~= m);
    assert(g[0] == m[0]);
    if m == crlf() { assert(g[1] == m[1]); }
    assert(g =~= m + g.skip(m.len() as int));
}
/// line endings are skipped
pub proof fn lemma_sk_gap(m: Seq<char>, g: Seq<char>, x: Seq<char>)
    requires gap(m, g), m == crlf() || m == lf()
    ensures sk_le(g + x) == sk_le(x), sk_le(opt_le(g + x)) == sk_le(x)
    decreases g.len()
{
    lemma_gap1(m, g);
    let n = m.len() as int;
    assert(g.take(n) =~= m);
    assert((g + x)[0] == g[0]);
    if m == crlf() { assert((g + x)[1] == g[1]); }
    assert((g + x).skip(n) =~= g.skip(n) + x);
    if g == m { assert(g.skip(n) + x =~= x); } else { lemma_sk_gap(m, g.skip(n), x); }
}
pub proof fn lemma_sk_id(s: Seq<char>)
    requires fresh(s)
    ensures sk_le(s) == s, sk_nl(s) == s
{}
pub proof fn lemma_sk_twice(s: Seq<char>)
    ensures sk_le(sk_le(s)) == sk_le(s), !at_le(sk_le(s)), sk_nl(sk_le(s)) == sk_le(s)
    decreases s.len()
{ if at_le(s) { lemma_sk_twice(s.skip(le_len(s))); } }
pub proof fn lemma_mode(m: Seq<char>, a: Seq<char>, b: Seq<char>)
    requires mode(m, a + b)
    ensures mode(m, a), mode(m, b)
{
    if occurs(a, crlf()) {
        let i = choose|i: int| 0 <= i <= a.len() - crlf().len() && #[trigger] a.subrange(i, i + crlf().len()) == crlf();
        assert((a + b).subrange(i, i + crlf().len()) =~= crlf());
    }
    if occurs(b, crlf()) {
        let i = choose|i: int| 0 <= i <= b.len() - crlf().len() && #[trigger] b.subrange(i, i + crlf().len()) == crlf();
        let j = i + a.len();
        assert((a + b).subrange(j, j + crlf().len()) =~= crlf());
    }
}
/// a value ends where its line ends
proof fn lemma_value_line(m: Seq<char>, w: Seq<char>, x: Seq<char>)
    requires no_lf(w), m.is_prefix_of(x), m == crlf() || m == lf(), mode(m, w + x)
    ensures value_end(w + x) == w.len()
{
    let v = w + x;
    let n = w.len() as int;
    assert(x.take(m.len() as int) =~= m);
    assert(v.subrange(n, n + m.len()) =~= m);
    assert forall|j: int| 0 <= j < n && j <= v.len() - m.len() implies #[trigger] v.subrange(j, j + m.len()) != m by {
        let y = v.subrange(j, j + m.len());
        if y == m {
            if m == crlf() { assert(y[1] == v[j + 1]); if j + 1 < n { assert(v[j + 1] == w[j + 1]); } else { assert(v[j + 1] == x[0] && x[0] == m[0]); } }
            else { assert(y[0] == v[j] && v[j] == w[j]); }
        }
    }
    assert(first_at(v, m, n));
    lemma_first_at(v, m, n);
}

// ------------------------------------------------------------ parameters
proof fn lemma_pval(v: Option<Seq<char>>, x: Seq<char>, y: Seq<char>)
    requires y.len() > 0, y[0] == ';' || y[0] == ':', match v { None => x.len() == 0, Some(v) => v.len() > 0 && par_chs(v) && (x == seq!['"'] + v + seq!['"'] || (bare(v) && x == v)) }
    ensures pval_p(x + y) == (y, v)
{
    let s = x + y;
    match v {
        None => { assert(s =~= y); lemma_longest(1, s, Seq::empty(), s); }
        Some(v) => {
            if x == seq!['"'] + v + seq!['"'] {
                let q = seq!['"'] + y;
                assert(s.skip(1) =~= v + q);
                assert forall|i: int| 0 <= i < v.len() implies cls(2, #[trigger] v[i]) by { assert(par_ch(v[i])); }
                lemma_longest(2, s.skip(1), v, q);
                assert(q.skip(1) =~= y);
            } else {
                lemma_longest(1, s, v, y);
                assert(par_ch(v[0]) && s[0] == v[0]);
            }
        }
    }
}
proof fn lemma_par(p: ParS, x: Seq<char>, y: Seq<char>)
    requires sp_par(p, x), y.len() > 0, y[0] == ';' || y[0] == ':'
    ensures par_p(x + y) == Some((y, p)), x.len() > 0, x[0] == ';'
{
    let s = x + y;
    let k = p.key;
    lemma_not_key(y[0]); lemma_not_key('=');
    lemma_key_char(k[0]);
    if x == seq![';'] + k {
        let a = k + y;
        assert(s.skip(1) =~= a);
        assert(a[0] == k[0]);
        lemma_longest(4, a, Seq::empty(), a);
        lemma_keys(k, y);
    } else {
        let z = match p.val { None => Seq::empty(), Some(v) => if x == seq![';'] + k + seq!['=', '"'] + v + seq!['"'] { seq!['"'] + v + seq!['"'] } else { v } };
        let b = seq!['='] + (z + y);
        let a = k + b;
        assert(s.skip(1) =~= a);
        assert(a[0] == k[0]);
        lemma_longest(4, a, Seq::empty(), a);
        lemma_keys(k, b);
        assert(b.skip(1) =~= z + y);
        lemma_pval(p.val, z, y);
    }
}
proof fn lemma_params(ps: Seq<ParS>, x: Seq<char>, y: Seq<char>)
    requires sp_pars(ps, x), y.len() > 0, y[0] == ':'
    ensures pars_p(x + y) == (y, ps), x.len() > 0 ==> x[0] == ';'
    decreases ps.len()
{
    if ps.len() == 0 { assert(x + y =~= y); assert(ps =~= Seq::empty()); }
    else {
        let (a, b) = choose|a: Seq<char>, b: Seq<char>| sp_par(ps[0], a) && sp_pars(ps.skip(1), b) && x == #[trigger] (a + b);
        lemma_params(ps.skip(1), b, y);
        assert(x + y =~= a + (b + y));
        lemma_par(ps[0], a, b + y);
        assert(seq![ps[0]] + ps.skip(1) =~= ps);
    }
}
/// a content line is read as the property it spells out
pub proof fn lemma_sp_line(m: Seq<char>, p: PropS, l: Seq<char>, x: Seq<char>)
    requires sp_line(p, l), m.is_prefix_of(x), m == crlf() || m == lf(), mode(m, l + x)
    ensures prop_p(l + x) == PR::Ok(opt_le(x), p), fresh(l + x), !ci_prefix("BEGIN:"@, l + x), !ci_prefix("END:"@, l + x), begin_p(l + x) is None
{
    let (y, w) = choose|y: Seq<char>, w: Seq<char>| sp_pars(p.params, y) && no_lf(w) && p.val == unesc_vt(vt_s(p.name, p.params), w) && l == #[trigger] line_text(p.name, y, w);
    let s = l + x;
    let v = w + x;
    let c = seq![':'] + v;
    assert(s =~= p.name + (y + c));
    assert(s[0] == p.name[0]);
    lemma_key_char(p.name[0]);
    lemma_longest(3, s, Seq::empty(), s);
    lemma_params(p.params, y, c);
    lemma_not_key(';'); lemma_not_key(':');
    lemma_keys(p.name, y + c);
    reveal_strlit("BEGIN:"); reveal_strlit("BEGIN"); reveal_strlit("END:"); reveal_strlit("END");
    assert("BEGIN:"@ =~= "BEGIN"@ + seq![':']);
    assert("END:"@ =~= "END"@ + seq![':']);
    lemma_ci(p.name, y + c, "BEGIN"@);
    lemma_ci(p.name, y + c, "END"@);
    assert(c.skip(1) =~= v);
    assert(p.name + y + seq![':'] + v =~= s);
    lemma_mode(m, p.name + y + seq![':'], v);
    lemma_value_line(m, w, x);
    assert(v.skip(w.len() as int) =~= x);
    assert(v.take(w.len() as int) =~= w);
    assert(ci_eq("BEGIN"@, "BEGIN"@) && ci_eq("END"@, "END"@));
}

// ------------------------------------------------------------ components
pub open spec fn cat3(a: Seq<char>, b: Seq<char>, c: Seq<char>) -> Seq<char> { a + b + c }
/// an opening line, a body, and the start of a closing line; b and e are BEGIN: and END: in any letter case
pub open spec fn comp_text(b: Seq<char>, n: Seq<char>, g: Seq<char>, y: Seq<char>, e: Seq<char>) -> Seq<char> { b + n + g + y + e }
/// s is a well-formed component that spells out c, without the line ending after it
pub open spec fn sp_comp(m: Seq<char>, c: CompS, s: Seq<char>) -> bool decreases s.len(), 0int {
    keys(c.name) && exists|b: Seq<char>, g: Seq<char>, y: Seq<char>, e: Seq<char>| s == #[trigger] comp_text(b, c.name, g, y, e + c.name)
        && y.len() < s.len() && ci_eq("BEGIN:"@, b) && gap(m, g) && sp_body(m, c.props, c.comps, y) && ci_eq("END:"@, e)
}
/// s is content lines and components that spell out props and comps, each followed by line endings
pub open spec fn sp_body(m: Seq<char>, props: Seq<PropS>, comps: Seq<CompS>, s: Seq<char>) -> bool decreases s.len(), 1int {
    ||| s.len() == 0 && props.len() == 0 && comps.len() == 0
    ||| props.len() > 0 && exists|l: Seq<char>, g: Seq<char>, u: Seq<char>| s == #[trigger] cat3(l, g, u) && u.len() < s.len() && sp_line(props[0], l) && gap(m, g) && sp_body(m, props.skip(1), comps, u)
    ||| comps.len() > 0 && exists|l: Seq<char>, g: Seq<char>, u: Seq<char>| s == #[trigger] cat3(l, g, u) && l.len() < s.len() && u.len() < s.len() && sp_comp(m, comps[0], l) && gap(m, g) && sp_body(m, props, comps.skip(1), u)
}
/// s is components one after the other, with line endings between them and maybe after the last one
pub open spec fn sp_roots(m: Seq<char>, cs: Seq<CompS>, s: Seq<char>) -> bool decreases s.len() {
    ||| s.len() == 0 && cs.len() == 0
    ||| cs.len() > 0 && exists|l: Seq<char>, g: Seq<char>, u: Seq<char>| s == #[trigger] cat3(l, g, u) && u.len() < s.len() && sp_comp(m, cs[0], l) && (gap(m, g) || (g.len() == 0 && u.len() == 0)) && sp_roots(m, cs.skip(1), u)
}
/// blank lines may come first
pub open spec fn sp_doc(m: Seq<char>, cs: Seq<CompS>, s: Seq<char>) -> bool {
    (m == crlf() || m == lf()) && mode(m, s) && exists|g: Seq<char>, u: Seq<char>| s == #[trigger] (g + u) && (gap(m, g) || g.len() == 0) && sp_roots(m, cs, u)
}

proof fn lemma_begin(m: Seq<char>, b: Seq<char>, n: Seq<char>, g: Seq<char>, y: Seq<char>)
    requires ci_eq("BEGIN:"@, b), keys(n), gap(m, g), m == crlf() || m == lf()
    ensures fresh(b + n + g + y), begin_p(b + n + g + y) == Some((sk_le(y), n)), !ci_prefix("END:"@, b + n + g + y), b.len() == 6
{
    let s = b + n + g + y;
    reveal_strlit("BEGIN:"); reveal_strlit("END:");
    assert(b.len() == 6);
    let t = "BEGIN:"@;
    assert(lo(t[0]) == lo(b[0]));
    assert(s[0] == b[0]);
    assert forall|i: int| 0 <= i < t.len() implies lo(#[trigger] s[i]) == lo(t[i]) by { assert(s[i] == b[i]); assert(lo(t[i]) == lo(b[i])); }
    lemma_sk_id(s);
    assert(s.skip(6) =~= n + (g + y));
    lemma_gap1(m, g);
    lemma_not_key(g[0]);
    lemma_keys(n, g + y);
    lemma_sk_gap(m, g, y);
    if ci_prefix("END:"@, s) { assert(lo(s[1]) == lo("END:"@[1])); assert(lo(s[1]) == lo(t[1])); }
}
/// the END line: the name there, and what follows it
proof fn lemma_end(name: Seq<char>, e: Seq<char>, n: Seq<char>, t: Seq<char>)
    requires ci_eq("END:"@, e), keys(n), keys(name), t.len() > 0 ==> !is_key(t[0])
    ensures fresh(e + n + t), end_p(name, e + n + t) == (if n == name { PR::Ok(sk_le(t), ()) } else { PR::Fail::<()> }), e.len() == 4
{
    let s = e + n + t;
    reveal_strlit("END:");
    let k = "END:"@;
    assert(lo(k[0]) == lo(e[0]));
    assert(s[0] == e[0]);
    assert forall|i: int| 0 <= i < k.len() implies lo(#[trigger] s[i]) == lo(k[i]) by { assert(s[i] == e[i]); assert(lo(k[i]) == lo(e[i])); }
    lemma_sk_id(s);
    let b = n + t;
    assert(s.skip(4) =~= b);
    if n == name { assert(b.take(n.len() as int) =~= n); assert(b.skip(n.len() as int) =~= t); }
    else if name.is_prefix_of(b) {
        assert(b.take(name.len() as int) =~= name);
        if name.len() > n.len() { assert(name[n.len() as int] == b[n.len() as int]); assert(b[n.len() as int] == t[0]); }
        else if name.len() == n.len() { assert(b.take(name.len() as int) =~= n); }
        else { assert(b.skip(name.len() as int)[0] == n[name.len() as int]); }
    }
}
proof fn lemma_end_sk(name: Seq<char>, s: Seq<char>)
    ensures end_p(name, sk_le(s)) == end_p(name, s), begin_p(sk_le(s)) == begin_p(s)
{ lemma_sk_twice(s); }
proof fn lemma_comp_sk(s: Seq<char>)
    ensures begin_p(s) is Some ==> comp_p(sk_le(s)) == comp_p(s)
{
    lemma_end_sk(seq![], s); lemma_begin_len(s); lemma_begin_len(sk_le(s));
}
/// a body starts with a line of its own, if it is not empty
proof fn lemma_body_fresh(m: Seq<char>, props: Seq<PropS>, comps: Seq<CompS>, s: Seq<char>, t: Seq<char>)
    requires sp_body(m, props, comps, s), m == crlf() || m == lf(), mode(m, s + t), fresh(t)
    ensures fresh(s + t)
{
    if s.len() == 0 { assert(s + t =~= t); }
    else if props.len() > 0 && exists|l: Seq<char>, g: Seq<char>, u: Seq<char>| s == #[trigger] cat3(l, g, u) && u.len() < s.len() && sp_line(props[0], l) && gap(m, g) && sp_body(m, props.skip(1), comps, u) {
        let (l, g, u) = choose|l: Seq<char>, g: Seq<char>, u: Seq<char>| s == #[trigger] cat3(l, g, u) && u.len() < s.len() && sp_line(props[0], l) && gap(m, g) && sp_body(m, props.skip(1), comps, u);
        let x = g + (u + t);
        assert(s + t =~= l + x);
        lemma_gap1(m, g);
        assert(x.take(m.len() as int) =~= g.take(m.len() as int));
        lemma_sp_line(m, props[0], l, x);
    } else {
        let (l, g, u) = choose|l: Seq<char>, g: Seq<char>, u: Seq<char>| s == #[trigger] cat3(l, g, u) && l.len() < s.len() && u.len() < s.len() && sp_comp(m, comps[0], l) && gap(m, g) && sp_body(m, props, comps.skip(1), u);
        lemma_comp_fresh(m, comps[0], l, g + u + t);
        assert(s + t =~= l + (g + u + t));
    }
}
pub proof fn lemma_comp_fresh(m: Seq<char>, c: CompS, l: Seq<char>, t: Seq<char>)
    requires sp_comp(m, c, l), m == crlf() || m == lf()
    ensures fresh(l + t), begin_p(l + t) is Some, !ci_prefix("END:"@, l + t)
{
    let (b, g, y, e) = choose|b: Seq<char>, g: Seq<char>, y: Seq<char>, e: Seq<char>| l == #[trigger] comp_text(b, c.name, g, y, e + c.name)
        && y.len() < l.len() && ci_eq("BEGIN:"@, b) && gap(m, g) && sp_body(m, c.props, c.comps, y) && ci_eq("END:"@, e);
    lemma_begin(m, b, c.name, g, y + (e + c.name) + t);
    assert(l + t =~= b + c.name + g + (y + (e + c.name) + t));
}
/// C07: a well-formed component is read as what it spells out
pub proof fn lemma_sp_comp(m: Seq<char>, c: CompS, s: Seq<char>, t: Seq<char>, s0: Seq<char>)
    requires sp_comp(m, c, s), m == crlf() || m == lf(), sk_le(s0) == s + t, t.len() > 0 ==> !is_key(t[0]), mode(m, s + t)
    ensures comp_p(s0) == PR::Ok(sk_le(t), c)
    decreases s.len(), 0int
{
    let (b, g, y, e) = choose|b: Seq<char>, g: Seq<char>, y: Seq<char>, e: Seq<char>| s == #[trigger] comp_text(b, c.name, g, y, e + c.name)
        && y.len() < s.len() && ci_eq("BEGIN:"@, b) && gap(m, g) && sp_body(m, c.props, c.comps, y) && ci_eq("END:"@, e);
    let z = e + c.name + t;
    assert(s + t =~= b + c.name + g + (y + z));
    lemma_begin(m, b, c.name, g, y + z);
    lemma_end_sk(seq![], s0);
    lemma_end(c.name, e, c.name, t);
    lemma_mode(m, b + c.name + g, y + z);
    lemma_body_fresh(m, c.props, c.comps, y, z);
    lemma_sk_id(y + z);
    lemma_begin_len(s0);
    lemma_sp_body(m, c.props, c.comps, y, z, y + z, c.name, PR::Ok(sk_le(t), ()));
    lemma_sk_twice(t);
    assert(comp_p(s0) == PR::Ok(sk_le(t), CompS { name: c.name, props: c.props, comps: c.comps }));
}
pub open spec fn with_body(r: PR<()>, b: BodyS) -> PR<BodyS> { match r { PR::Ok(q, _) => PR::Ok(q, b), PR::Err => PR::Err, PR::Fail => PR::Fail } }
/// one more element
proof fn lemma_body_step(name: Seq<char>, s0: Seq<char>, u: Seq<char>, x: ElS, b: BodyS, r: PR<()>)
    requires end_p(name, s0) is Err, el_p(s0) == PR::Ok(u, x), u.len() < s0.len(), body_p(name, u) == with_body(r, b), r is Ok || r is Fail
    ensures body_p(name, s0) == with_body(r, add_el(x, b))
{}
proof fn lemma_body_end(name: Seq<char>, s0: Seq<char>, r: PR<()>)
    requires end_p(name, s0) == r, r is Ok || r is Fail
    ensures body_p(name, s0) == with_body(r, BodyS { props: seq![], comps: seq![] })
{}
/// an element that is a line
proof fn lemma_el_prop(m: Seq<char>, p: PropS, l: Seq<char>, g: Seq<char>, y: Seq<char>, s0: Seq<char>, name: Seq<char>)
    requires sk_le(s0) == l + (g + y), sp_line(p, l), gap(m, g), m == crlf() || m == lf(), mode(m, l + (g + y)), fresh(y)
    ensures el_p(s0) == PR::Ok(y, ElS::P(p)), y.len() < s0.len(), end_p(name, s0) is Err, mode(m, y)
{
    let x = g + y;
    let a = sk_le(s0);
    lemma_sk_le_len(s0);
    lemma_gap1(m, g);
    assert(x.take(m.len() as int) =~= g.take(m.len() as int));
    assert(m.is_prefix_of(x));
    lemma_sp_line(m, p, l, x);
    lemma_sk_twice(s0);
    lemma_sk_gap(m, g, y);
    lemma_sk_id(y);
    lemma_end_sk(name, s0);
    assert(l + g + y =~= l + x);
    lemma_mode(m, l + g, y);
    assert(comp_p(a) is Err);
}
proof fn lemma_el_comp(m: Seq<char>, c: CompS, l: Seq<char>, g: Seq<char>, y: Seq<char>, s0: Seq<char>, name: Seq<char>)
    requires sk_le(s0) == l + (g + y), sp_comp(m, c, l), gap(m, g), m == crlf() || m == lf(), mode(m, l + (g + y)), fresh(y), comp_p(l + (g + y)) == PR::Ok(sk_le(g + y), c)
    ensures el_p(s0) == PR::Ok(y, ElS::C(c)), y.len() < s0.len(), end_p(name, s0) is Err, mode(m, y)
{
    let x = g + y;
    lemma_sk_le_len(s0);
    lemma_gap1(m, g);
    lemma_sk_twice(s0);
    lemma_comp_fresh(m, c, l, x);
    lemma_sk_gap(m, g, y);
    lemma_sk_id(y);
    lemma_end_sk(name, s0);
    assert(l + g + y =~= l + x);
    lemma_mode(m, l + g, y);
}
pub proof fn lemma_sp_body(m: Seq<char>, props: Seq<PropS>, comps: Seq<CompS>, s: Seq<char>, t: Seq<char>, s0: Seq<char>, name: Seq<char>, r: PR<()>)
    requires sp_body(m, props, comps, s), m == crlf() || m == lf(), sk_le(s0) == s + t, mode(m, s + t), fresh(t), end_p(name, t) == r, r is Ok || r is Fail
    ensures body_p(name, s0) == with_body(r, BodyS { props, comps })
    decreases s.len(), 1int
{
    hide(body_p); hide(comp_p); hide(el_p); hide(prop_p);
    let a = sk_le(s0);
    if s.len() == 0 {
        lemma_end_sk(name, s0);
        assert(s + t =~= t);
        assert(props =~= Seq::empty() && comps =~= Seq::empty());
        lemma_body_end(name, s0, r);
    } else if props.len() > 0 && exists|l: Seq<char>, g: Seq<char>, u: Seq<char>| s == #[trigger] cat3(l, g, u) && u.len() < s.len() && sp_line(props[0], l) && gap(m, g) && sp_body(m, props.skip(1), comps, u) {
        let (l, g, u) = choose|l: Seq<char>, g: Seq<char>, u: Seq<char>| s == #[trigger] cat3(l, g, u) && u.len() < s.len() && sp_line(props[0], l) && gap(m, g) && sp_body(m, props.skip(1), comps, u);
        let y = u + t;
        assert(a =~= l + (g + y));
        assert(a =~= (l + g) + y);
        lemma_mode(m, l + g, y);
        lemma_body_fresh(m, props.skip(1), comps, u, t);
        lemma_el_prop(m, props[0], l, g, y, s0, name);
        lemma_sk_id(y);
        lemma_sp_body(m, props.skip(1), comps, u, t, y, name, r);
        lemma_body_step(name, s0, y, ElS::P(props[0]), BodyS { props: props.skip(1), comps }, r);
        assert(seq![props[0]] + props.skip(1) =~= props);
    } else {
        let (l, g, u) = choose|l: Seq<char>, g: Seq<char>, u: Seq<char>| s == #[trigger] cat3(l, g, u) && l.len() < s.len() && u.len() < s.len() && sp_comp(m, comps[0], l) && gap(m, g) && sp_body(m, props, comps.skip(1), u);
        let y = u + t;
        assert(a =~= l + (g + y));
        assert(a =~= (l + g) + y);
        lemma_mode(m, l + g, y);
        lemma_body_fresh(m, props, comps.skip(1), u, t);
        lemma_gap1(m, g);
        lemma_not_key(g[0]);
        lemma_sk_twice(s0);
        lemma_sp_comp(m, comps[0], l, g + y, a);
        lemma_el_comp(m, comps[0], l, g, y, s0, name);
        lemma_sk_id(y);
        lemma_sp_body(m, props, comps.skip(1), u, t, y, name, r);
        lemma_body_step(name, s0, y, ElS::C(comps[0]), BodyS { props, comps: comps.skip(1) }, r);
        assert(seq![comps[0]] + comps.skip(1) =~= comps);
    }
}
proof fn lemma_roots_fresh(m: Seq<char>, cs: Seq<CompS>, s: Seq<char>)
    requires sp_roots(m, cs, s), m == crlf() || m == lf()
    ensures sk_le(s) == s
{
    if s.len() > 0 {
        let (l, g, u) = choose|l: Seq<char>, g: Seq<char>, u: Seq<char>| s == #[trigger] cat3(l, g, u) && u.len() < s.len() && sp_comp(m, cs[0], l) && (gap(m, g) || (g.len() == 0 && u.len() == 0)) && sp_roots(m, cs.skip(1), u);
        lemma_comp_fresh(m, cs[0], l, g + u);
        assert(s =~= l + (g + u));
        lemma_sk_id(s);
    }
}
/// C07: a document is read as the components it is made of
pub proof fn lemma_sp_roots(m: Seq<char>, cs: Seq<CompS>, s: Seq<char>, s0: Seq<char>)
    requires sp_roots(m, cs, s), m == crlf() || m == lf(), mode(m, s), sk_le(s0) == s
    ensures comps_p(s0) is Ok, comps_p(s0)->Ok_1 == cs
    decreases s.len()
{
    hide(body_p); hide(el_p); hide(prop_p);
    if s.len() == 0 {
        reveal_strlit("BEGIN:");
        assert(begin_p(s0) is None);
        assert(cs =~= Seq::empty());
    } else {
        let (l, g, u) = choose|l: Seq<char>, g: Seq<char>, u: Seq<char>| s == #[trigger] cat3(l, g, u) && u.len() < s.len() && sp_comp(m, cs[0], l) && (gap(m, g) || (g.len() == 0 && u.len() == 0)) && sp_roots(m, cs.skip(1), u);
        let t = g + u;
        assert(s =~= l + t);
        assert(s =~= (l + g) + u);
        lemma_mode(m, l + g, u);
        lemma_comp_fresh(m, cs[0], l, t);
        if g.len() > 0 { lemma_gap1(m, g); lemma_not_key(g[0]); lemma_sk_gap(m, g, u); } else { assert(t =~= u); }
        lemma_sp_comp(m, cs[0], l, t, s0);
        lemma_roots_fresh(m, cs.skip(1), u);
        lemma_sp_roots(m, cs.skip(1), u, u);
        lemma_comp_len(s0);
        assert(sk_le(t) == u);
        assert(seq![cs[0]] + cs.skip(1) =~= cs);
    }
}
pub proof fn lemma_sp_doc(m: Seq<char>, cs: Seq<CompS>, s: Seq<char>)
    requires sp_doc(m, cs, s)
    ensures comps_p(s) is Ok, comps_p(s)->Ok_1 == cs
{
    let (g, u) = choose|g: Seq<char>, u: Seq<char>| s == #[trigger] (g + u) && (gap(m, g) || g.len() == 0) && sp_roots(m, cs, u);
    lemma_mode(m, g, u);
    lemma_roots_fresh(m, cs, u);
    if g.len() > 0 { lemma_sk_gap(m, g, u); } else { assert(s =~= u); }
    lemma_sp_roots(m, cs, u, s);
}
// ------------------------------------------------------------ an END line with another name
/// s is a component up to an END line, somewhere in it, that has not the name of the innermost open component
pub open spec fn bad_comp(m: Seq<char>, s: Seq<char>) -> bool decreases s.len() {
    exists|b: Seq<char>, n: Seq<char>, g: Seq<char>, y: Seq<char>, ps: Seq<PropS>, cs: Seq<CompS>, x: Seq<char>| s == #[trigger] bad_text(b, n, g, y, ps, cs, x)
        && x.len() < s.len() && ci_eq("BEGIN:"@, b) && keys(n) && gap(m, g) && sp_body(m, ps, cs, y) && (bad_comp(m, x) || bad_end(n, x))
}
pub open spec fn bad_text(b: Seq<char>, n: Seq<char>, g: Seq<char>, y: Seq<char>, ps: Seq<PropS>, cs: Seq<CompS>, x: Seq<char>) -> Seq<char> { b + n + g + y + x }
/// s starts with an END line that has not the name n
pub open spec fn bad_end(n: Seq<char>, s: Seq<char>) -> bool {
    exists|e: Seq<char>, k: Seq<char>, t: Seq<char>| s == #[trigger] cat3(e, k, t) && ci_eq("END:"@, e) && keys(k) && k != n && (t.len() > 0 ==> !is_key(t[0]))
}
/// a document with such a component behind well-formed ones
pub open spec fn bad_doc(m: Seq<char>, s: Seq<char>) -> bool decreases s.len() {
    bad_comp(m, s) || exists|g: Seq<char>, l: Seq<char>, h: Seq<char>, c: CompS, u: Seq<char>| s == #[trigger] bad_doc_text(g, l, h, c, u)
        && u.len() < s.len() && (g.len() == 0 || gap(m, g)) && sp_comp(m, c, l) && gap(m, h) && bad_doc(m, u)
}
pub open spec fn bad_doc_text(g: Seq<char>, l: Seq<char>, h: Seq<char>, c: CompS, u: Seq<char>) -> Seq<char> { g + l + h + u }
proof fn lemma_bad_end(n: Seq<char>, s: Seq<char>)
    requires bad_end(n, s), keys(n)
    ensures end_p(n, s) is Fail, fresh(s)
{
    let (e, k, t) = choose|e: Seq<char>, k: Seq<char>, t: Seq<char>| s == #[trigger] cat3(e, k, t) && ci_eq("END:"@, e) && keys(k) && k != n && (t.len() > 0 ==> !is_key(t[0]));
    lemma_end(n, e, k, t);
}
/// a child that fails fails
proof fn lemma_body_fail(m: Seq<char>, props: Seq<PropS>, comps: Seq<CompS>, s: Seq<char>, t: Seq<char>, s0: Seq<char>, name: Seq<char>)
    requires sp_body(m, props, comps, s), m == crlf() || m == lf(), sk_le(s0) == s + t, mode(m, s + t), fresh(t), comp_p(t) is Fail, !ci_prefix("END:"@, t)
    ensures body_p(name, s0) is Fail
    decreases s.len()
{
    hide(prop_p);
    let a = sk_le(s0);
    lemma_sk_le_len(s0);
    if s.len() == 0 {
        lemma_end_sk(name, s0);
        assert(s + t =~= t);
        assert(el_p(s0) is Fail);
    } else if props.len() > 0 && exists|l: Seq<char>, g: Seq<char>, u: Seq<char>| s == #[trigger] cat3(l, g, u) && u.len() < s.len() && sp_line(props[0], l) && gap(m, g) && sp_body(m, props.skip(1), comps, u) {
        let (l, g, u) = choose|l: Seq<char>, g: Seq<char>, u: Seq<char>| s == #[trigger] cat3(l, g, u) && u.len() < s.len() && sp_line(props[0], l) && gap(m, g) && sp_body(m, props.skip(1), comps, u);
        let y = u + t;
        assert(a =~= l + (g + y));
        assert(a =~= (l + g) + y);
        lemma_mode(m, l + g, y);
        lemma_body_fresh(m, props.skip(1), comps, u, t);
        lemma_el_prop(m, props[0], l, g, y, s0, name);
        lemma_sk_id(y);
        lemma_body_fail(m, props.skip(1), comps, u, t, y, name);
        assert(el_p(s0) == PR::Ok(y, ElS::P(props[0])));
    } else {
        let (l, g, u) = choose|l: Seq<char>, g: Seq<char>, u: Seq<char>| s == #[trigger] cat3(l, g, u) && l.len() < s.len() && u.len() < s.len() && sp_comp(m, comps[0], l) && gap(m, g) && sp_body(m, props, comps.skip(1), u);
        let y = u + t;
        assert(a =~= l + (g + y));
        assert(a =~= (l + g) + y);
        lemma_mode(m, l + g, y);
        lemma_body_fresh(m, props, comps.skip(1), u, t);
        lemma_gap1(m, g);
        lemma_not_key(g[0]);
        lemma_sk_twice(s0);
        lemma_sp_comp(m, comps[0], l, g + y, a);
        lemma_el_comp(m, comps[0], l, g, y, s0, name);
        lemma_sk_id(y);
        lemma_body_fail(m, props, comps.skip(1), u, t, y, name);
        assert(el_p(s0) == PR::Ok(y, ElS::C(comps[0])));
    }
}
pub proof fn lemma_bad_comp(m: Seq<char>, s: Seq<char>, s0: Seq<char>)
    requires bad_comp(m, s), m == crlf() || m == lf(), mode(m, s), sk_le(s0) == s
    ensures comp_p(s0) is Fail, fresh(s), !ci_prefix("END:"@, s)
    decreases s.len()
{
    let (b, n, g, y, ps, cs, x) = choose|b: Seq<char>, n: Seq<char>, g: Seq<char>, y: Seq<char>, ps: Seq<PropS>, cs: Seq<CompS>, x: Seq<char>| s == #[trigger] bad_text(b, n, g, y, ps, cs, x)
        && x.len() < s.len() && ci_eq("BEGIN:"@, b) && keys(n) && gap(m, g) && sp_body(m, ps, cs, y) && (bad_comp(m, x) || bad_end(n, x));
    assert(s =~= b + n + g + (y + x));
    lemma_begin(m, b, n, g, y + x);
    lemma_end_sk(seq![], s0);
    lemma_begin_len(s0);
    lemma_mode(m, b + n + g, y + x);
    if bad_end(n, x) {
        lemma_bad_end(n, x);
        lemma_body_fresh(m, ps, cs, y, x);
        lemma_sk_id(y + x);
        lemma_sp_body(m, ps, cs, y, x, y + x, n, end_p(n, x));
    } else {
        lemma_mode(m, y, x);
        lemma_sk_bad(m, x);
        lemma_bad_comp(m, x, x);
        lemma_body_fresh(m, ps, cs, y, x);
        lemma_sk_id(y + x);
        lemma_body_fail(m, ps, cs, y, x, y + x, n);
    }
}
proof fn lemma_sk_bad(m: Seq<char>, s: Seq<char>)
    requires bad_comp(m, s), m == crlf() || m == lf()
    ensures sk_le(s) == s
{
    let (b, n, g, y, ps, cs, x) = choose|b: Seq<char>, n: Seq<char>, g: Seq<char>, y: Seq<char>, ps: Seq<PropS>, cs: Seq<CompS>, x: Seq<char>| s == #[trigger] bad_text(b, n, g, y, ps, cs, x)
        && x.len() < s.len() && ci_eq("BEGIN:"@, b) && keys(n) && gap(m, g) && sp_body(m, ps, cs, y) && (bad_comp(m, x) || bad_end(n, x));
    assert(s =~= b + n + g + (y + x));
    lemma_begin(m, b, n, g, y + x);
    lemma_sk_id(s);
}
/// C07: an END line with another name fails
pub proof fn lemma_bad_doc(m: Seq<char>, s: Seq<char>)
    requires bad_doc(m, s), m == crlf() || m == lf(), mode(m, s)
    ensures comps_p(s) is Fail
    decreases s.len()
{
    hide(body_p); hide(el_p); hide(prop_p);
    if bad_comp(m, s) { lemma_sk_bad(m, s); lemma_bad_comp(m, s, s); }
    else {
        let (g, l, h, c, u) = choose|g: Seq<char>, l: Seq<char>, h: Seq<char>, c: CompS, u: Seq<char>| s == #[trigger] bad_doc_text(g, l, h, c, u)
            && u.len() < s.len() && (g.len() == 0 || gap(m, g)) && sp_comp(m, c, l) && gap(m, h) && bad_doc(m, u);
        let t = h + u;
        assert(s =~= g + (l + t));
        assert(s =~= (g + l + h) + u);
        lemma_mode(m, g, l + t);
        lemma_mode(m, g + l + h, u);
        lemma_comp_fresh(m, c, l, t);
        lemma_sk_id(l + t);
        if g.len() > 0 { lemma_sk_gap(m, g, l + t); } else { assert(s =~= l + t); }
        lemma_gap1(m, h);
        lemma_not_key(h[0]);
        lemma_sp_comp(m, c, l, t, s);
        lemma_sk_gap(m, h, u);
        lemma_comp_len(s);
        lemma_bad_doc(m, u);
        lemma_comps_sk(u);
    }
}
/// line endings at the start make no difference
proof fn lemma_comps_sk(s: Seq<char>)
    requires comps_p(s) is Fail
    ensures comps_p(sk_le(s)) is Fail
{
    hide(body_p); hide(el_p); hide(prop_p);
    lemma_end_sk(seq![], s); lemma_begin_len(s); lemma_begin_len(sk_le(s)); lemma_comp_len(s); lemma_comp_len(sk_le(s));
    if begin_p(s) is Some { lemma_comp_sk(s); }
}
} // mod lemma_round

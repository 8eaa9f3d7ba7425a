// The grammar of the parser as functions on texts.
pub mod spec_parse {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::spec::*;
#[allow(unused_imports)] use crate::model::*;
#[allow(unused_imports)] use crate::value_types::ValueType;
#[allow(unused_imports)] use crate::shim_nom::PR;

pub uninterp spec fn is_alnum(c: char) -> bool;
pub axiom fn axiom_is_alnum_ascii(c: char)
    requires (c as u32) < 128
    ensures is_alnum(c) == ('a' <= c <= 'z' || 'A' <= c <= 'Z' || '0' <= c <= '9');
pub open spec fn is_key(c: char) -> bool { c == '.' || c == ',' || c == '/' || c == '_' || c == '-' || is_alnum(c) }
/// classes of characters
pub open spec fn cls(k: int, c: char) -> bool {
    if k == 0 { is_key(c) } else if k == 1 { c != ';' && c != ':' } else if k == 2 { c != '"' }
    else if k == 3 { c == ' ' || c == '\t' || c == '\r' || c == '\n' } else { c == ' ' || c == '\t' }
}
/// length of the longest prefix of characters of class k
pub open spec fn plen(k: int, s: Seq<char>) -> int decreases s.len() {
    if s.len() > 0 && cls(k, s[0]) { 1 + plen(k, s.skip(1)) } else { 0 }
}
pub open spec fn pre(k: int, s: Seq<char>) -> Seq<char> { s.take(plen(k, s)) }
pub open spec fn post(k: int, s: Seq<char>) -> Seq<char> { s.skip(plen(k, s)) }
pub open spec fn sk_ms(s: Seq<char>) -> Seq<char> { post(3, s) }
pub open spec fn sk_sp(s: Seq<char>) -> Seq<char> { post(4, s) }
/// a line ending
pub open spec fn at_le(s: Seq<char>) -> bool { (s.len() >= 1 && s[0] == '\n') || (s.len() >= 2 && s[0] == '\r' && s[1] == '\n') }
pub open spec fn le_len(s: Seq<char>) -> int { if s.len() >= 1 && s[0] == '\n' { 1 } else { 2 } }
pub open spec fn sk_le(s: Seq<char>) -> Seq<char> decreases s.len() { if at_le(s) { sk_le(s.skip(le_len(s))) } else { s } }
pub open spec fn opt_le(s: Seq<char>) -> Seq<char> { if at_le(s) { s.skip(le_len(s)) } else { s } }
pub open spec fn sk_nl(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && s[0] == '\n' { sk_nl(s.skip(1)) } else { s } }
/// equal but for the case of ASCII letters
pub open spec fn lo(c: char) -> int { if 'A' <= c <= 'Z' { c as int + 32 } else { c as int } }
pub open spec fn ci_prefix(t: Seq<char>, s: Seq<char>) -> bool { s.len() >= t.len() && forall|i: int| 0 <= i < t.len() ==> lo(#[trigger] s[i]) == lo(t[i]) }
/// ASCII, without the letters some other character is a case of (k, s)
pub open spec fn ci_ascii(t: Seq<char>) -> bool {
    forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i] as u32) < 128 && t[i] != 'k' && t[i] != 'K' && t[i] != 's' && t[i] != 'S' }
/// t occurs in s at i and not before
pub open spec fn first_at(s: Seq<char>, t: Seq<char>, i: int) -> bool {
    0 <= i <= s.len() - t.len() && s.subrange(i, i + t.len()) == t && forall|j: int| 0 <= j < i && j <= s.len() - t.len() ==> #[trigger] s.subrange(j, j + t.len()) != t
}

// ------------------------------------------------------------ parsed values
pub ghost struct ParS { pub key: Seq<char>, pub val: Option<Seq<char>> }
pub ghost struct PropS { pub name: Seq<char>, pub val: Seq<char>, pub params: Seq<ParS> }
pub ghost struct CompS { pub name: Seq<char>, pub props: Seq<PropS>, pub comps: Seq<CompS> }

/// the value the first VALUE parameter has
pub open spec fn value_par(ps: Seq<ParS>) -> Option<Seq<char>> decreases ps.len() {
    if ps.len() == 0 { None } else if ps[0].key == "VALUE"@ { ps[0].val } else { value_par(ps.skip(1)) }
}
/// value type of a parsed property
pub open spec fn vt_s(name: Seq<char>, ps: Seq<ParS>) -> Option<ValueType> {
    match value_par(ps) {
        Some(v) => if vt_name_of(v) is Some { vt_name_of(v) } else { vt_default(name) },
        None => vt_default(name),
    }
}

// ------------------------------------------------------------ the grammar
/// a parameter value: nothing, quoted, or up to the next ; or :
pub open spec fn pval_p(s: Seq<char>) -> (Seq<char>, Option<Seq<char>>) {
    if s.len() == 0 { (s, None) }
    else if s[0] == '"' && plen(2, s.skip(1)) > 0 && post(2, s.skip(1)).len() > 0 { (post(2, s.skip(1)).skip(1), Some(pre(2, s.skip(1)))) }
    else if plen(1, s) > 0 { (post(1, s), Some(pre(1, s))) }
    else { (s, None) }
}
pub open spec fn par_p(s: Seq<char>) -> Option<(Seq<char>, ParS)> {
    if s.len() == 0 || s[0] != ';' { None }
    else {
        let a = sk_sp(s.skip(1));
        let b = post(0, a);
        if b.len() > 0 && b[0] == '=' { Some((pval_p(b.skip(1)).0, ParS { key: pre(0, a), val: pval_p(b.skip(1)).1 })) }
        else { Some((b, ParS { key: pre(0, a), val: None })) }
    }
}
/// a parameter with an equals sign
pub open spec fn has_eq(s: Seq<char>) -> bool {
    s.len() > 0 && s[0] == ';' && { let b = post(0, sk_sp(s.skip(1))); b.len() > 0 && b[0] == '=' }
}
pub open spec fn pars_p(s: Seq<char>) -> (Seq<char>, Seq<ParS>) decreases s.len() {
    match par_p(s) {
        Some((r, p)) => if r.len() < s.len() { (pars_p(r).0, seq![p] + pars_p(r).1) } else { (s, seq![]) },
        None => (s, seq![]),
    }
}
/// the value of a property: up to the end of the line
pub open spec fn value_end(s: Seq<char>) -> int {
    if occurs(s, seq!['\r', '\n']) { choose|i: int| first_at(s, seq!['\r', '\n'], i) }
    else if occurs(s, seq!['\n']) { choose|i: int| first_at(s, seq!['\n'], i) }
    else { s.len() as int }
}
pub open spec fn unesc_vt(t: Option<ValueType>, s: Seq<char>) -> Seq<char> { if t == Some(ValueType::Text) { unesc(s) } else { s } }
pub open spec fn prop_p(s: Seq<char>) -> PR<PropS> {
    let a = sk_ms(s);
    let k = pre(0, a);
    let b = pars_p(post(0, a)).0;
    let ps = pars_p(post(0, a)).1;
    if k == "END"@ || k == "BEGIN"@ { PR::Fail }
    else if b.len() > 0 && b[0] == ':' {
        let v = b.skip(1);
        PR::Ok(opt_le(v.skip(value_end(v))), PropS { name: k, val: unesc_vt(vt_s(k, ps), v.take(value_end(v))), params: ps })
    } else { PR::Ok(opt_le(post(0, s)), PropS { name: pre(0, s), val: seq![], params: seq![] }) }
}
/// the END line of the component called name
pub open spec fn end_p(name: Seq<char>, s: Seq<char>) -> PR<()> {
    let a = sk_le(s);
    if !ci_prefix("END:"@, a) { PR::Err }
    else {
        let b = a.skip(4);
        if !name.is_prefix_of(b) { PR::Fail }
        else {
            let c = b.skip(name.len() as int);
            if c.len() > 0 && is_key(c[0]) { PR::Fail } else { PR::Ok(sk_le(c), ()) }
        }
    }
}
pub open spec fn begin_p(s: Seq<char>) -> Option<(Seq<char>, Seq<char>)> {
    let a = sk_le(s);
    if ci_prefix("BEGIN:"@, a) { Some((sk_le(post(0, a.skip(6))), pre(0, a.skip(6)))) } else { None }
}
pub ghost struct BodyS { pub props: Seq<PropS>, pub comps: Seq<CompS> }
pub ghost enum ElS { P(PropS), C(CompS) }
pub open spec fn add_el(e: ElS, b: BodyS) -> BodyS {
    match e { ElS::P(p) => BodyS { props: seq![p] + b.props, comps: b.comps }, ElS::C(c) => BodyS { props: b.props, comps: seq![c] + b.comps } }
}
/// a component
pub open spec fn comp_p(s: Seq<char>) -> PR<CompS> decreases s.len(), 0int {
    match begin_p(s) {
        None => PR::Err,
        Some((b, name)) => if b.len() < s.len() {
            match body_p(name, b) {
                PR::Ok(r, x) => PR::Ok(sk_nl(r), CompS { name, props: x.props, comps: x.comps }),
                PR::Err => PR::Err,
                PR::Fail => PR::Fail,
            } } else { PR::Err },
    }
}
/// one element of a component
pub open spec fn el_p(s: Seq<char>) -> PR<ElS> decreases s.len(), 1int {
    let a = sk_le(s);
    if a.len() > s.len() { PR::Fail } else {
    match comp_p(a) {
        PR::Ok(r, c) => PR::Ok(sk_le(r), ElS::C(c)),
        PR::Fail => PR::Fail,
        PR::Err => match prop_p(a) {
            PR::Ok(r, p) => PR::Ok(sk_le(r), ElS::P(p)),
            _ => PR::Fail,
        },
    } }
}
/// the elements up to the END line
pub open spec fn body_p(name: Seq<char>, s: Seq<char>) -> PR<BodyS> decreases s.len(), 2int {
    match end_p(name, s) {
        PR::Ok(r, _) => PR::Ok(r, BodyS { props: seq![], comps: seq![] }),
        PR::Fail => PR::Fail,
        PR::Err => match el_p(s) {
            PR::Ok(r, e) => if r.len() < s.len() {
                match body_p(name, r) { PR::Ok(q, b) => PR::Ok(q, add_el(e, b)), PR::Err => PR::Err, PR::Fail => PR::Fail }
            } else { PR::Err },
            _ => PR::Fail,
        },
    }
}
/// components one after the other; what follows the last one is not looked at
pub open spec fn comps_p(s: Seq<char>) -> PR<Seq<CompS>> decreases s.len() {
    match comp_p(s) {
        PR::Ok(r, c) => if r.len() < s.len() {
            match comps_p(r) { PR::Ok(q, cs) => PR::Ok(q, seq![c] + cs), PR::Err => PR::Err, PR::Fail => PR::Fail }
        } else { PR::Err },
        PR::Err => PR::Ok(s, seq![]),
        PR::Fail => PR::Fail,
    }
}

// ------------------------------------------------------------ lemmas about it
pub broadcast proof fn lemma_prefix1_b(c: char, s: Seq<char>)
    ensures #[trigger] seq![c].is_prefix_of(s) <==> (s.len() > 0 && s[0] == c)
{ if s.len() > 0 && s[0] == c { assert(s.take(1) =~= seq![c]); } if seq![c].is_prefix_of(s) { assert(seq![c][0] == s[0]); } }
pub proof fn lemma_plen(k: int, s: Seq<char>)
    ensures 0 <= plen(k, s) <= s.len(),
        forall|i: int| 0 <= i < plen(k, s) ==> cls(k, #[trigger] s[i]),
        plen(k, s) < s.len() ==> !cls(k, s[plen(k, s)]),
    decreases s.len()
{
    if s.len() > 0 && cls(k, s[0]) {
        lemma_plen(k, s.skip(1));
        assert forall|i: int| 0 <= i < plen(k, s) implies cls(k, #[trigger] s[i]) by { if i > 0 { assert(s[i] == s.skip(1)[i - 1]); } }
        if plen(k, s) < s.len() { assert(s[plen(k, s)] == s.skip(1)[plen(k, s) - 1]); }
    }
}
pub broadcast proof fn lemma_plen_b(k: int, s: Seq<char>) ensures 0 <= #[trigger] plen(k, s) <= s.len() { lemma_plen(k, s); }
/// the longest prefix is the longest prefix
pub proof fn lemma_longest(k: int, s: Seq<char>, o: Seq<char>, m: Seq<char>)
    requires s == o + m, forall|i: int| 0 <= i < o.len() ==> cls(k, #[trigger] o[i]), m.len() > 0 ==> !cls(k, m[0])
    ensures plen(k, s) == o.len(), pre(k, s) == o, post(k, s) == m
{
    lemma_plen(k, s);
    let n = plen(k, s);
    if n < o.len() { assert(s[n] == o[n]); }
    if n > o.len() { assert(s[o.len() as int] == m[0]); }
    assert(pre(k, s) =~= o);
    assert(post(k, s) =~= m);
}
/// m is the end of s
#[verifier::opaque]
pub open spec fn suf(s: Seq<char>, m: Seq<char>) -> bool { m.len() <= s.len() && m == s.skip(s.len() - m.len()) }
pub broadcast proof fn lemma_suf_len(s: Seq<char>, m: Seq<char>) requires #[trigger] suf(s, m) ensures m.len() <= s.len() { reveal(suf); }
pub broadcast proof fn lemma_suf_skip(s: Seq<char>, n: int) requires 0 <= n <= s.len() ensures suf(s, #[trigger] s.skip(n)) { reveal(suf); }
pub broadcast proof fn lemma_suf_all(s: Seq<char>, m: Seq<char>) requires s == m ensures #[trigger] suf(s, m) { reveal(suf); assert(s.skip(0) =~= s); }
pub broadcast proof fn lemma_suf_trans(s: Seq<char>, m: Seq<char>, k: Seq<char>) requires #[trigger] suf(s, m), #[trigger] suf(m, k) ensures suf(s, k)
{ reveal(suf); assert(m.skip(m.len() - k.len()) =~= s.skip(s.len() - k.len())); }
pub broadcast proof fn lemma_suf_cat(o: Seq<char>, m: Seq<char>) ensures suf(#[trigger] (o + m), m) { reveal(suf); assert((o + m).skip(o.len() as int) =~= m); }
pub proof fn lemma_suf_post(k: int, s: Seq<char>) ensures suf(s, post(k, s)) { lemma_plen(k, s); lemma_suf_skip(s, plen(k, s)); }
pub broadcast group group_suf { lemma_suf_len, lemma_suf_skip, lemma_suf_all, lemma_suf_trans, lemma_suf_cat }
pub broadcast proof fn lemma_sk_le_len(s: Seq<char>) ensures (#[trigger] sk_le(s)).len() <= s.len(), suf(s, sk_le(s)) decreases s.len()
{ broadcast use group_suf; if at_le(s) { lemma_sk_le_len(s.skip(le_len(s))); } }
pub broadcast proof fn lemma_sk_nl_len(s: Seq<char>) ensures (#[trigger] sk_nl(s)).len() <= s.len(), suf(s, sk_nl(s)) decreases s.len()
{ broadcast use group_suf; if s.len() > 0 && s[0] == '\n' { lemma_sk_nl_len(s.skip(1)); } }
pub proof fn lemma_first_at(s: Seq<char>, t: Seq<char>, i: int)
    requires first_at(s, t, i)
    ensures occurs(s, t), (choose|j: int| first_at(s, t, j)) == i
{
    let j = choose|j: int| first_at(s, t, j);
    assert(s.subrange(i, i + t.len()) == t);
    if j < i { assert(s.subrange(j, j + t.len()) != t); }
    if i < j { assert(s.subrange(i, i + t.len()) != t); }
}
/// what occurs occurs somewhere first
pub proof fn lemma_first(s: Seq<char>, t: Seq<char>)
    requires occurs(s, t)
    ensures exists|i: int| #[trigger] first_at(s, t, i)
{
    let i = choose|i: int| 0 <= i <= s.len() - t.len() && #[trigger] s.subrange(i, i + t.len()) == t;
    lemma_first_from(s, t, i);
}
proof fn lemma_first_from(s: Seq<char>, t: Seq<char>, i: int)
    requires 0 <= i <= s.len() - t.len(), s.subrange(i, i + t.len()) == t
    ensures exists|j: int| #[trigger] first_at(s, t, j)
    decreases i
{
    if exists|j: int| 0 <= j < i && #[trigger] s.subrange(j, j + t.len()) == t {
        let j = choose|j: int| 0 <= j < i && #[trigger] s.subrange(j, j + t.len()) == t;
        lemma_first_from(s, t, j);
    } else { assert(first_at(s, t, i)); }
}
pub proof fn lemma_value_end(s: Seq<char>)
    ensures 0 <= value_end(s) <= s.len()
{
    if occurs(s, seq!['\r', '\n']) { lemma_first(s, seq!['\r', '\n']); }
    else if occurs(s, seq!['\n']) { lemma_first(s, seq!['\n']); }
}
pub broadcast proof fn lemma_pval_len(s: Seq<char>) ensures (#[trigger] pval_p(s)).0.len() <= s.len(), suf(s, pval_p(s).0)
{ broadcast use group_suf; lemma_suf_post(2, s.skip(1)); lemma_suf_post(1, s); lemma_plen(2, s.skip(1)); lemma_plen(1, s); }
pub proof fn lemma_par_len(s: Seq<char>) ensures par_p(s) is Some ==> par_p(s)->Some_0.0.len() < s.len() && suf(s, par_p(s)->Some_0.0)
{
    broadcast use group_suf;
    if s.len() > 0 && s[0] == ';' {
        lemma_suf_post(4, s.skip(1));
        lemma_suf_post(0, sk_sp(s.skip(1)));
        lemma_plen(4, s.skip(1));
        lemma_plen(0, sk_sp(s.skip(1)));
        let b = post(0, sk_sp(s.skip(1)));
        if b.len() > 0 { lemma_pval_len(b.skip(1)); }
    }
}
pub proof fn lemma_par_suf(s: Seq<char>) ensures par_p(s) is Some ==> suf(s, par_p(s)->Some_0.0) { lemma_par_len(s); }
pub broadcast proof fn lemma_pars_len(s: Seq<char>) ensures (#[trigger] pars_p(s)).0.len() <= s.len(), suf(s, pars_p(s).0) decreases s.len()
{ broadcast use group_suf; lemma_par_len(s); if let Some((r, p)) = par_p(s) { if r.len() < s.len() { lemma_pars_len(r); } } }
pub broadcast proof fn lemma_prop_len(s: Seq<char>) ensures match #[trigger] prop_p(s) { PR::Ok(r, _) => r.len() <= s.len() && suf(s, r), _ => true }
{
    broadcast use group_suf;
    lemma_suf_post(3, s); lemma_suf_post(0, s); lemma_suf_post(0, sk_ms(s));
    lemma_plen(3, s); lemma_plen(0, s); lemma_plen(0, sk_ms(s)); lemma_pars_len(post(0, sk_ms(s)));
    let b = pars_p(post(0, sk_ms(s))).0;
    if b.len() > 0 { lemma_value_end(b.skip(1)); }
}
pub proof fn lemma_end_len(name: Seq<char>, s: Seq<char>) ensures match end_p(name, s) { PR::Ok(r, _) => r.len() < s.len() && suf(s, r), _ => true }
{
    broadcast use group_suf;
    lemma_sk_le_len(s);
    lits!("END:");
    let a = sk_le(s);
    if ci_prefix("END:"@, a) { let b = a.skip(4); if name.is_prefix_of(b) { lemma_sk_le_len(b.skip(name.len() as int)); } }
}
pub proof fn lemma_begin_len(s: Seq<char>) ensures match begin_p(s) { Some((b, _)) => b.len() < s.len() && suf(s, b), _ => true }
{
    broadcast use group_suf;
    lemma_sk_le_len(s);
    lits!("BEGIN:");
    let a = sk_le(s);
    if ci_prefix("BEGIN:"@, a) { lemma_plen(0, a.skip(6)); lemma_suf_post(0, a.skip(6)); lemma_sk_le_len(post(0, a.skip(6))); }
}
pub proof fn lemma_comp_len(s: Seq<char>) ensures match comp_p(s) { PR::Ok(r, _) => r.len() < s.len() && suf(s, r), _ => true } decreases s.len(), 0int
{
    broadcast use group_suf;
    if let Some((b, name)) = begin_p(s) { lemma_begin_len(s); lemma_body_len(name, b); if let PR::Ok(r, x) = body_p(name, b) { lemma_sk_nl_len(r); } }
}
pub proof fn lemma_el_len(s: Seq<char>) ensures match el_p(s) { PR::Ok(r, _) => r.len() <= s.len() && suf(s, r), _ => true } decreases s.len(), 1int
{
    broadcast use group_suf;
    lemma_sk_le_len(s);
    let a = sk_le(s);
    lemma_comp_len(a); lemma_prop_len(a);
    if let PR::Ok(r, c) = comp_p(a) { lemma_sk_le_len(r); }
    if let PR::Ok(r, c) = prop_p(a) { lemma_sk_le_len(r); }
}
pub proof fn lemma_body_len(name: Seq<char>, s: Seq<char>) ensures match body_p(name, s) { PR::Ok(r, _) => r.len() < s.len() && suf(s, r), _ => true } decreases s.len(), 2int
{
    broadcast use group_suf;
    lemma_end_len(name, s); lemma_el_len(s);
    if let PR::Ok(r, e) = el_p(s) { if r.len() < s.len() { lemma_body_len(name, r); } }
}
} // mod spec_parse

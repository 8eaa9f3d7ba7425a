// What parsed values mean; repetition.
pub mod lemma_parse {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::spec::*;
#[allow(unused_imports)] use crate::shim::*;
#[allow(unused_imports)] use crate::model::*;
use crate::parser::parameters::Parameter;
use crate::parser::properties::Property;
use crate::parser::components::Component;
use crate::parser::parsed_string::ParseString;
#[allow(unused_imports)] use crate::value_types::ValueType;

impl<'a> Parameter<'a> {
    pub open spec fn sv(&self) -> ParS { ParS { key: self.key.sv(), val: match self.val { Some(v) => Some(v.sv()), None => None } } }
}
pub open spec fn pars_sv(v: Seq<Parameter>) -> Seq<ParS> { v.map_values(|p: Parameter| p.sv()) }
impl<'a> Property<'a> {
    pub open spec fn sv(&self) -> PropS { PropS { name: self.name.sv(), val: self.val.sv(), params: pars_sv(self.params@) } }
}
pub open spec fn props_sv(v: Seq<Property>) -> Seq<PropS> { v.map_values(|p: Property| p.sv()) }
pub open spec fn csv(c: Component) -> CompS decreases c, c.components.len() + 1 {
    CompS { name: c.name.sv(), props: props_sv(c.properties@), comps: csvs(c, c.components.len() as int) }
}
pub open spec fn csvs(c: Component, n: int) -> Seq<CompS> decreases c, n via csvs_dec {
    if n <= 0 || n > c.components.len() { Seq::empty() } else { csvs(c, n - 1).push(csv(c.components[n - 1])) }
}
#[via_fn]
proof fn csvs_dec(c: Component, n: int) {
    if n <= 0 || n > c.components.len() {} else { assert(decreases_to!(c => c.components[n - 1])); }
}
pub open spec fn comps_sv(v: Seq<Component>) -> Seq<CompS> { v.map_values(|c: Component| csv(c)) }
pub proof fn lemma_csvs(c: Component, n: int)
    requires 0 <= n <= c.components.len()
    ensures csvs(c, n) == comps_sv(c.components@.take(n))
    decreases n
{
    if n > 0 { lemma_csvs(c, n - 1); assert(c.components@.take(n).drop_last() =~= c.components@.take(n - 1)); }
    assert(csvs(c, n) =~= comps_sv(c.components@.take(n)));
}
pub broadcast proof fn lemma_csv(c: Component)
    ensures (#[trigger] csv(c)).comps == comps_sv(c.components@), csv(c).name == c.name.sv(), csv(c).props == props_sv(c.properties@)
{ lemma_csvs(c, c.components.len() as int); assert(c.components@.take(c.components.len() as int) =~= c.components@); }

/// what a parsed parameter is to the rest of the crate
pub open spec fn par_v(p: ParS) -> ParV { ParV { key: p.key, val: match p.val { Some(v) => v, None => Seq::empty() } } }

// ------------------------------------------------------------ results
pub open spec fn po<'a, O, E, P: Parser<&'a str, O, E>>(p: P, s: Seq<char>, r: PR<O>) -> bool { p.out(s, r) }
/// the parser takes exactly the line endings at the start
pub open spec fn is_le_p<'a, O, E, P: Parser<&'a str, O, E>>(p: P) -> bool {
    forall|s: Seq<char>, r: PR<O>| #[trigger] p.out(s, r) ==> match r { PR::Ok(m, _) => at_le(s) && m == s.skip(le_len(s)), PR::Err => !at_le(s), PR::Fail => false }
}
pub proof fn lemma_chain_le<'a, O, E, P: Parser<&'a str, O, E>>(p: P, s: Seq<char>, os: Seq<O>, m: Seq<char>)
    requires is_le_p::<O, E, P>(p), chain::<O, E, P>(p, s, os, m), p.out(m, PR::Err)
    ensures sk_le(s) == m
    decreases os.len()
{
    reveal_with_fuel(chain, 2);
    if os.len() > 0 {
        let k = choose|k: Seq<char>| k.len() < s.len() && #[trigger] p.out(s, PR::Ok(k, os[0])) && chain::<O, E, P>(p, k, os.skip(1), m);
        lemma_chain_le::<O, E, P>(p, k, os.skip(1), m);
    }
}
/// the parser takes all line endings at the start
pub open spec fn is_les_p<'a, O, E, P: Parser<&'a str, O, E>>(p: P) -> bool {
    forall|s: Seq<char>, r: PR<O>| #[trigger] p.out(s, r) ==> (r matches PR::Ok(m, _) && m == sk_le(s))
}
pub proof fn lemma_many_le<'a, O, E, P: Parser<&'a str, O, E>>(p: Many0<P, O>)
    requires is_le_p::<O, E, P>(p.p)
    ensures is_les_p::<Vec<O>, E, Many0<P, O>>(p)
{
    assert forall|s: Seq<char>, r: PR<Vec<O>>| #[trigger] po::<Vec<O>, E, Many0<P, O>>(p, s, r) implies (r matches PR::Ok(m, _) && m == sk_le(s)) by {
        match r {
            PR::Ok(m, v) => { lemma_chain_le::<O, E, P>(p.p, s, v@, m); }
            _ => {}
        }
    }
    assert forall|s: Seq<char>, r: PR<Vec<O>>| #[trigger] p.out(s, r) implies (r matches PR::Ok(m, _) && m == sk_le(s)) by { assert(po::<Vec<O>, E, Many0<P, O>>(p, s, r)); }
}
pub open spec fn sep_out<'a, O, E, F: Parser<&'a str, O, E>>(f: F, s: Seq<char>, q: PR<O>) -> bool {
    match q {
        PR::Ok(e, o) => exists|m: Seq<char>| #[trigger] f.out(sk_le(s), PR::Ok(m, o)) && e == sk_le(m),
        _ => f.out(sk_le(s), q),
    }
}
pub open spec fn line_out<'a, O, E, F: Parser<&'a str, O, E>>(t: Seq<char>, f: F, s: Seq<char>, q: PR<O>) -> bool {
    let a = sk_le(s);
    match q {
        PR::Ok(e, o) => ci_prefix(t, a) && exists|m: Seq<char>| #[trigger] f.out(a.skip(t.len() as int), PR::Ok(m, o)) && e == sk_le(m),
        PR::Err => !ci_prefix(t, a) || f.out(a.skip(t.len() as int), q),
        PR::Fail => ci_prefix(t, a) && f.out(a.skip(t.len() as int), q),
    }
}
// ------------------------------------------------------------ parameters
pub open spec fn is_eof_p<'a, E, P: Parser<&'a str, &'a str, E>>(p: P) -> bool {
    forall|s: Seq<char>, r: PR<&'a str>| #[trigger] <P as Parser<&'a str, &'a str, E>>::out(&p, s, r) ==> match r { PR::Ok(m, o) => s.len() == 0 && m == s && o@ == s, PR::Err => s.len() > 0, PR::Fail => false }
}
pub open spec fn some_text(x: Seq<char>) -> Option<Seq<char>> { if x.len() == 0 { None } else { Some(x) } }
pub open spec fn is_val_p<'a, E, P: Parser<&'a str, &'a str, E>>(p: P) -> bool {
    forall|s: Seq<char>, r: PR<&'a str>| #[trigger] <P as Parser<&'a str, &'a str, E>>::out(&p, s, r) ==> match r {
        PR::Ok(m, o) => pval_p(s) == (m, some_text(o@)), PR::Err => pval_p(s) == (s, None::<Seq<char>>), PR::Fail => false }
}
pub type QuotedP<'b> = Delimited<Tag<'b>, IsNot<'b>, Tag<'b>, &'b str, &'b str>;
pub open spec fn q_ok(s: Seq<char>) -> bool { s.len() > 0 && s[0] == '"' && plen(2, s.skip(1)) > 0 && post(2, s.skip(1)).len() > 0 }
proof fn lemma_quoted<'a, E>(d: QuotedP<'a>, s: Seq<char>, r: PR<&'a str>)
    requires d.a.t@ == seq!['"'], d.b.t@ == seq!['"'], d.c.t@ == seq!['"'], po::<&'a str, E, QuotedP<'a>>(d, s, r)
    ensures match r { PR::Ok(m, o) => q_ok(s) && m == post(2, s.skip(1)).skip(1) && o@ == pre(2, s.skip(1)) && o@.len() > 0, PR::Err => !q_ok(s), PR::Fail => false }
{
    broadcast use lemma_prefix1_b;
    let t = s.skip(1);
    lemma_plen(2, t);
    assert(forall|c: char| #[trigger] seq!['"'].contains(c) <==> c == '"') by { assert(seq!['"'][0] == '"'); }
    assert forall|m: Seq<char>, o: &'a str| #[trigger] <IsNot<'a> as Parser<&'a str, &'a str, E>>::out(&d.b, t, PR::Ok(m, o)) implies o@ == pre(2, t) && m == post(2, t) && plen(2, t) > 0 by {
        lemma_longest(2, t, o@, m);
    }
    if r is Err && q_ok(s) {
        assert(!<IsNot<'a> as Parser<&'a str, &'a str, E>>::out(&d.b, t, PR::Err)) by { assert(t.len() > 0 && t[0] != '"'); }
    }
    assert(s.len() > 0 && s[0] == '"' ==> s.skip(seq!['"'].len() as int) == t);
    if let PR::Ok(m, o) = r {
        assert(exists|k: Seq<char>, q: PR<&'a str>| #[trigger] <IsNot<'a> as Parser<&'a str, &'a str, E>>::out(&d.b, t, PR::Ok(k, o)) && #[trigger] <Tag<'a> as Parser<&'a str, &'a str, E>>::out(&d.c, k, q) && (q matches PR::Ok(e, _) && e == m));
    }
}
pub proof fn lemma_val<'a, E, Z: Parser<&'a str, &'a str, E>, F: Fn(char) -> bool>(t: (Z, QuotedP<'a>, TakeTill1<F>))
    requires is_eof_p::<E, Z>(t.0), t.1.a.t@ == seq!['"'], t.1.b.t@ == seq!['"'], t.1.c.t@ == seq!['"'],
        forall|c: char, b: bool| #[trigger] call_ensures(t.2.f, (c,), b) ==> b == !cls(1, c)
    ensures is_val_p::<E, Alt<(Z, QuotedP<'a>, TakeTill1<F>)>>(Alt { t })
{
    let p = Alt { t };
    assert forall|s: Seq<char>, r: PR<&'a str>| #[trigger] <Alt<(Z, QuotedP<'a>, TakeTill1<F>)> as Parser<&'a str, &'a str, E>>::out(&p, s, r) implies match r {
        PR::Ok(m, o) => pval_p(s) == (m, some_text(o@)), PR::Err => pval_p(s) == (s, None::<Seq<char>>), PR::Fail => false } by {
        lemma_plen(1, s);
        assert(po::<&'a str, E, Z>(t.0, s, r) || po::<&'a str, E, Z>(t.0, s, PR::Err));
        if po::<&'a str, E, QuotedP<'a>>(t.1, s, r) { lemma_quoted::<E>(t.1, s, r); }
        if po::<&'a str, E, QuotedP<'a>>(t.1, s, PR::Err) { lemma_quoted::<E>(t.1, s, PR::Err); }
        if let PR::Ok(m, o) = r { if po::<&'a str, E, TakeTill1<F>>(t.2, s, r) {
            lemma_longest(1, s, o@, m);
            assert(!q_ok(s) ==> pval_p(s) == (m, some_text(o@)));
        } }
        assert(po::<&'a str, E, Z>(t.0, s, r) && !(r is Err) ==> (r matches PR::Ok(m, o) && pval_p(s) == (m, some_text(o@))));
        assert(r is Err ==> pval_p(s) == (s, None::<Seq<char>>));
        assert(!(r is Fail));
    }
}
pub open spec fn par_rel(r: PR<Parameter>, s: Seq<char>) -> bool {
    match r { PR::Ok(m, o) => par_p(s) == Some((m, o.sv())), PR::Err => par_p(s) is None, PR::Fail => false }
}
pub open spec fn is_par_p<'a, E, P: Parser<&'a str, Parameter<'a>, E>>(p: P) -> bool {
    forall|s: Seq<char>, r: PR<Parameter<'a>>| #[trigger] <P as Parser<&'a str, Parameter<'a>, E>>::out(&p, s, r) ==> par_rel(r, s)
}
pub open spec fn is_pars_p<'a, E, P: Parser<&'a str, Vec<Parameter<'a>>, E>>(p: P) -> bool {
    forall|s: Seq<char>, r: PR<Vec<Parameter<'a>>>| #[trigger] <P as Parser<&'a str, Vec<Parameter<'a>>, E>>::out(&p, s, r) ==> (r matches PR::Ok(m, o) && pars_p(s) == (m, pars_sv(o@)))
}
proof fn lemma_chain_pars<'a, E, P: Parser<&'a str, Parameter<'a>, E>>(p: P, s: Seq<char>, os: Seq<Parameter<'a>>, m: Seq<char>)
    requires is_par_p::<E, P>(p), chain::<Parameter<'a>, E, P>(p, s, os, m)
    ensures par_p(m) is None ==> pars_p(s) == (m, pars_sv(os))
    decreases os.len()
{
    reveal_with_fuel(chain, 2);
    if os.len() > 0 {
        let k = choose|k: Seq<char>| k.len() < s.len() && #[trigger] p.out(s, PR::Ok(k, os[0])) && chain::<Parameter<'a>, E, P>(p, k, os.skip(1), m);
        assert(par_rel(PR::Ok(k, os[0]), s));
        lemma_chain_pars::<E, P>(p, k, os.skip(1), m);
        assert(pars_sv(os) =~= seq![os[0].sv()] + pars_sv(os.skip(1)));
    } else { assert(pars_sv(os) =~= seq![]); }
}
pub proof fn lemma_pars<'a, E, P: Parser<&'a str, Parameter<'a>, E>>(p: Many0<P, Parameter<'a>>)
    requires is_par_p::<E, P>(p.p)
    ensures is_pars_p::<E, Many0<P, Parameter<'a>>>(p)
{
    assert forall|s: Seq<char>, r: PR<Vec<Parameter<'a>>>| #[trigger] <Many0<P, Parameter<'a>> as Parser<&'a str, Vec<Parameter<'a>>, E>>::out(&p, s, r) implies (r matches PR::Ok(m, o) && pars_p(s) == (m, pars_sv(o@))) by {
        match r {
            PR::Ok(m, v) => { lemma_chain_pars::<E, P>(p.p, s, v@, m); assert(par_rel(PR::Err, m)); }
            PR::Fail => {
                let (os, m) = choose|os: Seq<Parameter<'a>>, m: Seq<char>| #[trigger] chain::<Parameter<'a>, E, P>(p.p, s, os, m) && <P as Parser<&'a str, Parameter<'a>, E>>::out(&p.p, m, PR::Fail);
                assert(par_rel(PR::Fail, m));
            }
            PR::Err => {
                let (os, m, k, o) = choose|os: Seq<Parameter<'a>>, m: Seq<char>, k: Seq<char>, o: Parameter<'a>| #[trigger] chain::<Parameter<'a>, E, P>(p.p, s, os, m) && #[trigger] <P as Parser<&'a str, Parameter<'a>, E>>::out(&p.p, m, PR::Ok(k, o)) && k.len() >= m.len();
                assert(par_rel(PR::Ok(k, o), m)); lemma_par_len(m);
            }
        }
    }
}
// ------------------------------------------------------------ properties
/// the names of the properties a component may have several of
pub open spec fn is_multi_name(n: Seq<char>) -> bool {
    n == "ATTACH"@ || n == "ATTENDEE"@ || n == "CATEGORIES"@ || n == "COMMENT"@ || n == "CONTACT"@ || n == "EXDATE"@ || n == "FREEBUSY"@
    || n == "IANA-PROP"@ || n == "RDATE"@ || n == "RELATED-TO"@ || n == "RESOURCES"@ || n == "REQUEST-STATUS"@ || n == "X-PROP"@
}
/// parameters as the parser's own types write them
pub open spec fn partext(p: ParS) -> Seq<char> {
    match p.val { Some(v) => seq![';'] + p.key + seq!['='] + quoted(v), None => seq![';'] + p.key }
}
pub open spec fn parstext(ps: Seq<ParS>) -> Seq<char> decreases ps.len() {
    if ps.len() == 0 { seq![] } else { parstext(ps.drop_last()) + partext(ps.last()) }
}
pub open spec fn pline(p: PropS) -> Seq<char> {
    p.name + parstext(p.params) + seq![':'] + (if vt_s(p.name, p.params) == Some(ValueType::Text) { esc(p.val) } else { p.val })
}
pub open spec fn pwritten(p: PropS, s: Seq<char>) -> bool { exists|f: Seq<char>| #[trigger] folded(pline(p), f) && s == f + crlf() }
/// parameters by name: the last of a name counts
pub open spec fn par_map(ps: Seq<ParS>) -> Map<Seq<char>, ParV> decreases ps.len() {
    if ps.len() == 0 { Map::empty() } else { par_map(ps.drop_last()).insert(ps.last().key, par_v(ps.last())) }
}
/// what a parsed property is to the rest of the crate
pub open spec fn prop_v(p: PropS) -> PropV { PropV { key: p.name, val: p.val, params: par_map(p.params) } }
pub open spec fn pairs_of(q: Seq<(String, crate::properties::Parameter)>, ps: Seq<ParS>) -> bool {
    q.len() == ps.len() && forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]).0@ == ps[i].key && q[i].1.v() == par_v(ps[i])
}
pub proof fn lemma_par_map(q: Seq<(String, crate::properties::Parameter)>, ps: Seq<ParS>)
    requires pairs_of(q, ps)
    ensures pmap(map_of(q)) == par_map(ps)
    decreases q.len()
{
    broadcast use lemma_pmap_empty, lemma_pmap_insert;
    if q.len() > 0 { assert(q.last() == q[q.len() - 1]); lemma_par_map(q.drop_last(), ps.drop_last()); }
}
/// the first parameter called VALUE
pub proof fn lemma_value_par(ps: Seq<ParS>, i: int)
    requires 0 <= i < ps.len(), ps[i].key == "VALUE"@, forall|j: int| 0 <= j < i ==> (#[trigger] ps[j]).key != "VALUE"@
    ensures value_par(ps) == ps[i].val
    decreases i
{
    if i > 0 {
        assert(ps[0].key != "VALUE"@);
        assert forall|j: int| 0 <= j < i - 1 implies (#[trigger] ps.skip(1)[j]).key != "VALUE"@ by { assert(ps[j + 1].key != "VALUE"@); }
        lemma_value_par(ps.skip(1), i - 1);
    }
}
pub proof fn lemma_no_value_par(ps: Seq<ParS>)
    requires forall|j: int| 0 <= j < ps.len() ==> (#[trigger] ps[j]).key != "VALUE"@
    ensures value_par(ps) is None
    decreases ps.len()
{
    if ps.len() > 0 {
        assert(ps[0].key != "VALUE"@);
        assert forall|j: int| 0 <= j < ps.len() - 1 implies (#[trigger] ps.skip(1)[j]).key != "VALUE"@ by { assert(ps[j + 1].key != "VALUE"@); }
        lemma_no_value_par(ps.skip(1));
    }
}
pub open spec fn is_value_p<'a, E, P: Parser<&'a str, &'a str, E>>(p: P) -> bool {
    forall|s: Seq<char>, r: PR<&'a str>| #[trigger] <P as Parser<&'a str, &'a str, E>>::out(&p, s, r) ==>
        (r matches PR::Ok(m, o) && m == s.skip(value_end(s)) && o@ == s.take(value_end(s)))
}
pub proof fn lemma_value<'a, E, F: Fn(char) -> bool>(t: (TakeUntil<'a>, TakeUntil<'a>, TakeWhile<F>))
    requires t.0.t@ == seq!['\r', '\n'], t.1.t@ == seq!['\n'], forall|c: char, b: bool| #[trigger] call_ensures(t.2.f, (c,), b) ==> b
    ensures is_value_p::<E, Alt<(TakeUntil<'a>, TakeUntil<'a>, TakeWhile<F>)>>(Alt { t })
{
    let p = Alt { t };
    assert forall|s: Seq<char>, r: PR<&'a str>| #[trigger] <Alt<(TakeUntil<'a>, TakeUntil<'a>, TakeWhile<F>)> as Parser<&'a str, &'a str, E>>::out(&p, s, r) implies
        (r matches PR::Ok(m, o) && m == s.skip(value_end(s)) && o@ == s.take(value_end(s))) by {
        if let PR::Ok(m, o) = r {
            let n = o@.len() as int;
            if first_at(s, seq!['\r', '\n'], n) { lemma_first_at(s, seq!['\r', '\n'], n); }
            if first_at(s, seq!['\n'], n) { lemma_first_at(s, seq!['\n'], n); }
            assert(s.skip(n) =~= m && s.take(n) =~= o@);
        }
    }
}
/// the parts of a property
pub open spec fn is_name_p<'a, E, P: Parser<&'a str, ParseString<'a>, E>>(p: P) -> bool {
    forall|s: Seq<char>, r: PR<ParseString<'a>>| #[trigger] <P as Parser<&'a str, ParseString<'a>, E>>::out(&p, s, r) ==> {
        let k = pre(0, sk_ms(s));
        match r { PR::Ok(m, o) => m == post(0, sk_ms(s)) && o.sv() == k && k != "END"@ && k != "BEGIN"@, PR::Err => false, PR::Fail => k == "END"@ || k == "BEGIN"@ } }
}
pub open spec fn is_head_p<'a, E, P: Parser<&'a str, (ParseString<'a>, Vec<Parameter<'a>>), E>>(p: P) -> bool {
    forall|s: Seq<char>, r: PR<(ParseString<'a>, Vec<Parameter<'a>>)>| #[trigger] <P as Parser<&'a str, (ParseString<'a>, Vec<Parameter<'a>>), E>>::out(&p, s, r) ==> {
        let k = pre(0, sk_ms(s));
        match r { PR::Ok(m, o) => (m, pars_sv(o.1@)) == pars_p(post(0, sk_ms(s))) && o.0.sv() == k && k != "END"@ && k != "BEGIN"@, PR::Err => false, PR::Fail => k == "END"@ || k == "BEGIN"@ } }
}
pub type RawP<'a> = ((ParseString<'a>, Vec<Parameter<'a>>), ParseString<'a>);
pub open spec fn is_full_p<'a, E, P: Parser<&'a str, RawP<'a>, E>>(p: P) -> bool {
    forall|s: Seq<char>, r: PR<RawP<'a>>| #[trigger] <P as Parser<&'a str, RawP<'a>, E>>::out(&p, s, r) ==> {
        let k = pre(0, sk_ms(s));
        let (b, ps) = pars_p(post(0, sk_ms(s)));
        match r {
            PR::Ok(m, o) => k != "END"@ && k != "BEGIN"@ && b.len() > 0 && b[0] == ':' && m == b.skip(1).skip(value_end(b.skip(1)))
                && o.0.0.sv() == k && pars_sv(o.0.1@) == ps && o.1.sv() == b.skip(1).take(value_end(b.skip(1))),
            PR::Err => k != "END"@ && k != "BEGIN"@ && !(b.len() > 0 && b[0] == ':'), PR::Fail => k == "END"@ || k == "BEGIN"@ } }
}
pub open spec fn is_bare_p<'a, E, P: Parser<&'a str, RawP<'a>, E>>(p: P) -> bool {
    forall|s: Seq<char>, r: PR<RawP<'a>>| #[trigger] <P as Parser<&'a str, RawP<'a>, E>>::out(&p, s, r) ==>
        (r matches PR::Ok(m, o) && m == post(0, s) && o.0.0.sv() == pre(0, s) && o.0.1@.len() == 0 && o.1.sv().len() == 0)
}
pub open spec fn prop_rel(r: PR<Property>, s: Seq<char>) -> bool {
    match (r, prop_p(s)) { (PR::Ok(m, o), PR::Ok(n, x)) => m == n && o.sv() == x, (PR::Err, PR::Err) => true, (PR::Fail, PR::Fail) => true, _ => false }
}
pub open spec fn comp_rel(r: PR<Component>, s: Seq<char>) -> bool {
    match (r, comp_p(s)) { (PR::Ok(m, o), PR::Ok(n, x)) => m == n && csv(o) == x, (PR::Err, PR::Err) => true, (PR::Fail, PR::Fail) => true, _ => false }
}
} // mod lemma_parse

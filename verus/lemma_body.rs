// Components: elements up to the END line.
pub mod lemma_body {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::spec::*;
#[allow(unused_imports)] use crate::shim::*;
#[allow(unused_imports)] use crate::shim_nom::*;
#[allow(unused_imports)] use crate::model::*;
use crate::parser::properties::Property;
#[allow(unused_imports)] use crate::calendar::calendar_component::CalendarComponent;
use crate::parser::components::{Component, ComponentChild};

pub open spec fn esv(c: ComponentChild) -> ElS { match c { ComponentChild::Property(p) => ElS::P(p.sv()), ComponentChild::Component(c) => ElS::C(csv(c)) } }
pub open spec fn esvs(v: Seq<ComponentChild>) -> Seq<ElS> { v.map_values(|c: ComponentChild| esv(c)) }
pub open spec fn el_rel(r: PR<ComponentChild>, s: Seq<char>) -> bool {
    match (r, el_p(s)) { (PR::Ok(m, o), PR::Ok(n, x)) => m == n && esv(o) == x, (PR::Err, PR::Err) => true, (PR::Fail, PR::Fail) => true, _ => false }
}
pub open spec fn is_el_p<'a, E, P: Parser<&'a str, ComponentChild<'a>, E>>(p: P, n: nat) -> bool {
    forall|s: Seq<char>, r: PR<ComponentChild<'a>>| s.len() <= n && #[trigger] <P as Parser<&'a str, ComponentChild<'a>, E>>::out(&p, s, r) ==> el_rel(r, s)
}
pub open spec fn is_end_p<'a, E, P: Parser<&'a str, &'a str, E>>(p: P, name: Seq<char>) -> bool {
    forall|s: Seq<char>, r: PR<&'a str>| #[trigger] <P as Parser<&'a str, &'a str, E>>::out(&p, s, r) ==>
        match (r, end_p(name, s)) { (PR::Ok(m, _), PR::Ok(n, _)) => m == n, (PR::Err, PR::Err) => true, (PR::Fail, PR::Fail) => true, _ => false }
}
pub open spec fn body_of(es: Seq<ElS>) -> BodyS decreases es.len() {
    if es.len() == 0 { BodyS { props: seq![], comps: seq![] } } else { add_el(es[0], body_of(es.skip(1))) }
}
pub type RawB<'a> = (Vec<ComponentChild<'a>>, &'a str);
pub open spec fn is_body_p<'a, E, P: Parser<&'a str, RawB<'a>, E>>(p: P, name: Seq<char>, n: nat) -> bool {
    forall|s: Seq<char>, r: PR<RawB<'a>>| s.len() <= n && #[trigger] <P as Parser<&'a str, RawB<'a>, E>>::out(&p, s, r) ==>
        match (r, body_p(name, s)) { (PR::Ok(m, o), PR::Ok(k, b)) => m == k && body_of(esvs(o.0@)) == b, (PR::Err, PR::Err) => true, (PR::Fail, PR::Fail) => true, _ => false }
}
/// the elements es, then the rest
pub open spec fn after(es: Seq<ElS>, r: PR<BodyS>) -> PR<BodyS> decreases es.len() {
    if es.len() == 0 { r } else { match after(es.skip(1), r) { PR::Ok(q, b) => PR::Ok(q, add_el(es[0], b)), PR::Err => PR::Err, PR::Fail => PR::Fail } }
}
pub proof fn lemma_after(es: Seq<ElS>, m: Seq<char>)
    ensures after(es, PR::Ok(m, BodyS { props: seq![], comps: seq![] })) == PR::<BodyS>::Ok(m, body_of(es)), after(es, PR::Err) is Err, after(es, PR::Fail) is Fail
    decreases es.len()
{ if es.len() > 0 { lemma_after(es.skip(1), m); } }
pub proof fn lemma_chain_body<'a, E, P: Parser<&'a str, ComponentChild<'a>, E>, G: Parser<&'a str, &'a str, E>>(p: P, g: G, name: Seq<char>, n: nat, s: Seq<char>, os: Seq<ComponentChild<'a>>, m: Seq<char>)
    requires is_el_p::<E, P>(p, n), is_end_p::<E, G>(g, name), chain_t::<ComponentChild<'a>, &'a str, E, P, G>(p, g, s, os, m), s.len() <= n
    ensures body_p(name, s) == after(esvs(os), body_p(name, m)), m.len() <= n
    decreases os.len()
{
    assert(esvs(os).len() == os.len());
    if os.len() > 0 {
        let k = choose|k: Seq<char>| k.len() < s.len() && #[trigger] <P as Parser<&'a str, ComponentChild<'a>, E>>::out(&p, s, PR::Ok(k, os[0])) && chain_t::<ComponentChild<'a>, &'a str, E, P, G>(p, g, k, os.skip(1), m);
        assert(el_rel(PR::Ok(k, os[0]), s));
        assert(<G as Parser<&'a str, &'a str, E>>::out(&g, s, PR::Err));
        assert(end_p(name, s) is Err);
        lemma_chain_body::<E, P, G>(p, g, name, n, k, os.skip(1), m);
        assert(esvs(os).skip(1) =~= esvs(os.skip(1)));
        assert(esvs(os)[0] == esv(os[0]));
    }
}
pub proof fn lemma_till<'a, E, P: Parser<&'a str, ComponentChild<'a>, E>, G: Parser<&'a str, &'a str, E>>(p: ManyTill<P, G, ComponentChild<'a>, &'a str>, name: Seq<char>, n: nat)
    requires is_el_p::<E, P>(p.p, n), is_end_p::<E, G>(p.g, name)
    ensures is_body_p::<E, ManyTill<P, G, ComponentChild<'a>, &'a str>>(p, name, n)
{
    assert forall|s: Seq<char>, r: PR<RawB<'a>>| s.len() <= n && #[trigger] <ManyTill<P, G, ComponentChild<'a>, &'a str> as Parser<&'a str, RawB<'a>, E>>::out(&p, s, r) implies
        (match (r, body_p(name, s)) { (PR::Ok(m, o), PR::Ok(k, b)) => m == k && body_of(esvs(o.0@)) == b, (PR::Err, PR::Err) => true, (PR::Fail, PR::Fail) => true, _ => false }) by {
        match r {
            PR::Ok(e, o) => {
                let m = choose|m: Seq<char>| #[trigger] chain_t::<ComponentChild<'a>, &'a str, E, P, G>(p.p, p.g, s, o.0@, m) && <G as Parser<&'a str, &'a str, E>>::out(&p.g, m, PR::Ok(e, o.1));
                lemma_chain_body::<E, P, G>(p.p, p.g, name, n, s, o.0@, m);
                assert(end_p(name, m) is Ok);
                assert(body_p(name, m) == PR::<BodyS>::Ok(e, BodyS { props: seq![], comps: seq![] }));
                lemma_after(esvs(o.0@), e);
            }
            PR::Fail => {
                let (os, m) = choose|os: Seq<ComponentChild<'a>>, m: Seq<char>| #[trigger] chain_t::<ComponentChild<'a>, &'a str, E, P, G>(p.p, p.g, s, os, m)
                    && (<G as Parser<&'a str, &'a str, E>>::out(&p.g, m, PR::Fail) || (<G as Parser<&'a str, &'a str, E>>::out(&p.g, m, PR::Err) && <P as Parser<&'a str, ComponentChild<'a>, E>>::out(&p.p, m, PR::Fail)));
                lemma_chain_body::<E, P, G>(p.p, p.g, name, n, s, os, m);
                if <G as Parser<&'a str, &'a str, E>>::out(&p.g, m, PR::Fail) { assert(end_p(name, m) is Fail); }
                else { assert(end_p(name, m) is Err); assert(el_rel(PR::Fail, m)); }
                assert(body_p(name, m) is Fail);
                lemma_after(esvs(os), m);
            }
            PR::Err => {
                let (os, m) = choose|os: Seq<ComponentChild<'a>>, m: Seq<char>| #[trigger] chain_t::<ComponentChild<'a>, &'a str, E, P, G>(p.p, p.g, s, os, m) && <G as Parser<&'a str, &'a str, E>>::out(&p.g, m, PR::Err)
                    && (<P as Parser<&'a str, ComponentChild<'a>, E>>::out(&p.p, m, PR::Err) || (exists|k: Seq<char>, o: ComponentChild<'a>| #[trigger] <P as Parser<&'a str, ComponentChild<'a>, E>>::out(&p.p, m, PR::Ok(k, o)) && k.len() >= m.len()));
                lemma_chain_body::<E, P, G>(p.p, p.g, name, n, s, os, m);
                assert(end_p(name, m) is Err);
                if <P as Parser<&'a str, ComponentChild<'a>, E>>::out(&p.p, m, PR::Err) { assert(el_rel(PR::Err, m)); assert(el_p(m) is Err); lemma_el_not_err(m); }
                else {
                    let (k, o) = choose|k: Seq<char>, o: ComponentChild<'a>| #[trigger] <P as Parser<&'a str, ComponentChild<'a>, E>>::out(&p.p, m, PR::Ok(k, o)) && k.len() >= m.len();
                    assert(el_rel(PR::Ok(k, o), m));
                }
                assert(body_p(name, m) is Err);
                lemma_after(esvs(os), m);
            }
        }
    }
}
pub proof fn lemma_el_not_err(s: Seq<char>) ensures !(el_p(s) is Err) { }
/// the component parser inside itself, on shorter texts: by induction it does what it is specified to do
pub struct RecComponent { pub n: Ghost<nat> }
pub fn rec_component(n: Ghost<nat>) -> (r: RecComponent) ensures r.n == n { RecComponent { n } }
impl<'a, E> Parser<&'a str, Component<'a>, E> for RecComponent {
    proof fn l_mono(&self, n: nat, k: nat) { }
    proof fn l_suf(&self, s: Seq<char>, r: PR<Component<'a>>) { }
    open spec fn req(&self, n: nat) -> bool { n < self.n@ }
    open spec fn out(&self, s: Seq<char>, r: PR<Component<'a>>) -> bool { shr(s, r) && (s.len() < self.n@ ==> comp_rel(r, s)) }
    #[verifier::external_body]
    fn x_parse(&self, i: &'a str) -> (r: IResult<&'a str, Component<'a>, E>) { unimplemented!() }
}
/// the properties and components among the elements
pub open spec fn split_is(es: Seq<ElS>, ps: Seq<PropS>, cs: Seq<CompS>) -> bool { body_of(es) == (BodyS { props: ps, comps: cs }) }
pub proof fn lemma_body_push(es: Seq<ElS>, e: ElS)
    ensures body_of(es.push(e)) == (match e { ElS::P(p) => BodyS { props: body_of(es).props.push(p), comps: body_of(es).comps }, ElS::C(c) => BodyS { props: body_of(es).props, comps: body_of(es).comps.push(c) } })
    decreases es.len()
{
    if es.len() > 0 {
        lemma_body_push(es.skip(1), e);
        assert(es.push(e).skip(1) =~= es.skip(1).push(e));
        assert(es.push(e)[0] == es[0]);
        let a = body_of(es.push(e)); let b = body_of(es);
        match e {
            ElS::P(p) => { assert(a.props =~= b.props.push(p)); assert(a.comps =~= b.comps); }
            ElS::C(c) => { assert(a.props =~= b.props); assert(a.comps =~= b.comps.push(c)); }
        }
    } else {
        assert(es.push(e).skip(1) =~= es);
        assert(body_of(es) == BodyS { props: seq![], comps: seq![] });
        assert(es.push(e)[0] == e);
        let a = body_of(es.push(e));
        match e {
            ElS::P(p) => { assert(a.props =~= Seq::empty().push(p)); assert(a.comps =~= Seq::empty()); }
            ElS::C(c) => { assert(a.props =~= Seq::empty()); assert(a.comps =~= Seq::empty().push(c)); }
        }
    }
}
/// the first n elements
pub open spec fn upto(v: Seq<ComponentChild>, n: int) -> BodyS { body_of(esvs(v.take(n))) }
pub broadcast proof fn lemma_upto(v: Seq<ComponentChild>, n: int)
    ensures #![trigger upto(v, n)] n == 0 ==> upto(v, n) == (BodyS { props: seq![], comps: seq![] }), n == v.len() ==> upto(v, n) == body_of(esvs(v))
{ if n == v.len() { assert(v.take(n) =~= v); } }
pub proof fn lemma_upto_next(v: Seq<ComponentChild>, n: int)
    requires 0 <= n < v.len()
    ensures upto(v, n + 1) == (match esv(v[n]) { ElS::P(p) => BodyS { props: upto(v, n).props.push(p), comps: upto(v, n).comps }, ElS::C(c) => BodyS { props: upto(v, n).props, comps: upto(v, n).comps.push(c) } })
{ assert(esvs(v.take(n + 1)) =~= esvs(v.take(n)).push(esv(v[n]))); lemma_body_push(esvs(v.take(n)), esv(v[n])); }
pub open spec fn is_sepcomp_p<'a, E, P: Parser<&'a str, Component<'a>, E>>(p: P, n: nat) -> bool {
    forall|s: Seq<char>, r: PR<Component<'a>>| s.len() <= n && #[trigger] <P as Parser<&'a str, Component<'a>, E>>::out(&p, s, r) ==>
        match (r, comp_p(sk_le(s))) { (PR::Ok(m, o), PR::Ok(k, x)) => m == sk_le(k) && csv(o) == x, (PR::Err, PR::Err) => true, (PR::Fail, PR::Fail) => true, _ => false }
}
pub open spec fn is_sepprop_p<'a, E, P: Parser<&'a str, Property<'a>, E>>(p: P) -> bool {
    forall|s: Seq<char>, r: PR<Property<'a>>| #[trigger] <P as Parser<&'a str, Property<'a>, E>>::out(&p, s, r) ==>
        match (r, prop_p(sk_le(s))) { (PR::Ok(m, o), PR::Ok(k, x)) => m == sk_le(k) && o.sv() == x, (PR::Err, PR::Err) => true, (PR::Fail, PR::Fail) => true, _ => false }
}
pub type ElAlt<'a, A, GA, B, GB> = Cut<Same<Alt<(MapP<A, GA, Component<'a>>, MapP<B, GB, Property<'a>>)>>>;
pub proof fn lemma_el<'a, E, A: Parser<&'a str, Component<'a>, E>, GA: Fn(Component<'a>) -> ComponentChild<'a>, B: Parser<&'a str, Property<'a>, E>, GB: Fn(Property<'a>) -> ComponentChild<'a>>(p: ElAlt<'a, A, GA, B, GB>, n: nat)
    requires is_sepcomp_p::<E, A>(p.p.p.t.0.p, n), is_sepprop_p::<E, B>(p.p.p.t.1.p),
        forall|x: Component<'a>, y: ComponentChild<'a>| #[trigger] call_ensures(p.p.p.t.0.g, (x,), y) ==> y == ComponentChild::Component(x),
        forall|x: Property<'a>, y: ComponentChild<'a>| #[trigger] call_ensures(p.p.p.t.1.g, (x,), y) ==> y == ComponentChild::Property(x),
    ensures is_el_p::<E, ElAlt<'a, A, GA, B, GB>>(p, n)
{
    assert forall|s: Seq<char>, r: PR<ComponentChild<'a>>| s.len() <= n && #[trigger] <ElAlt<'a, A, GA, B, GB> as Parser<&'a str, ComponentChild<'a>, E>>::out(&p, s, r) implies el_rel(r, s) by {
        lemma_sk_le_len(s);
        let q: PR<Component<'a>> = PR::Err;
        match comp_p(sk_le(s)) {
            PR::Ok(k, c) => {}
            PR::Fail => {}
            PR::Err => { }
        }
    }
}
pub proof fn lemma_chain_nl<'a, 'b, E>(p: Tag<'b>, s: Seq<char>, os: Seq<&'a str>, m: Seq<char>)
    requires p.t@ == seq!['\n'], chain::<&'a str, E, Tag<'b>>(p, s, os, m), <Tag<'b> as Parser<&'a str, &'a str, E>>::out(&p, m, PR::Err)
    ensures sk_nl(s) == m
    decreases os.len()
{
    broadcast use lemma_prefix1_b;
    if os.len() > 0 {
        let k = choose|k: Seq<char>| k.len() < s.len() && #[trigger] <Tag<'b> as Parser<&'a str, &'a str, E>>::out(&p, s, PR::Ok(k, os[0])) && chain::<&'a str, E, Tag<'b>>(p, k, os.skip(1), m);
        assert(k == s.skip(1));
        lemma_chain_nl::<E>(p, k, os.skip(1), m);
    }
}
pub open spec fn is_nls_p<'a, E, P: Parser<&'a str, Vec<&'a str>, E>>(p: P) -> bool {
    forall|s: Seq<char>, r: PR<Vec<&'a str>>| #[trigger] <P as Parser<&'a str, Vec<&'a str>, E>>::out(&p, s, r) ==> (r matches PR::Ok(m, o) && m == sk_nl(s))
}
pub proof fn lemma_nls<'a, 'b, E>(p: Many0<Tag<'b>, &'a str>)
    requires p.p.t@ == seq!['\n']
    ensures is_nls_p::<E, Many0<Tag<'b>, &'a str>>(p)
{
    broadcast use lemma_prefix1_b;
    assert forall|s: Seq<char>, r: PR<Vec<&'a str>>| #[trigger] <Many0<Tag<'b>, &'a str> as Parser<&'a str, Vec<&'a str>, E>>::out(&p, s, r) implies (r matches PR::Ok(m, o) && m == sk_nl(s)) by {
        match r {
            PR::Ok(m, v) => { lemma_chain_nl::<E>(p.p, s, v@, m); }
            PR::Fail => {
                let (os, m) = choose|os: Seq<&'a str>, m: Seq<char>| #[trigger] chain::<&'a str, E, Tag<'b>>(p.p, s, os, m) && <Tag<'b> as Parser<&'a str, &'a str, E>>::out(&p.p, m, PR::Fail);
                assert(false);
            }
            PR::Err => {
                let (os, m, k, o) = choose|os: Seq<&'a str>, m: Seq<char>, k: Seq<char>, o: &'a str| #[trigger] chain::<&'a str, E, Tag<'b>>(p.p, s, os, m) && #[trigger] <Tag<'b> as Parser<&'a str, &'a str, E>>::out(&p.p, m, PR::Ok(k, o)) && k.len() >= m.len();
                assert(k == m.skip(1) && m.len() > 0);
                assert(false);
            }
        }
    }
}

// ------------------------------------------------------------ components one after the other
pub open spec fn comps_rel(r: PR<Vec<Component>>, s: Seq<char>) -> bool {
    match (r, comps_p(s)) { (PR::Ok(m, o), PR::Ok(n, x)) => m == n && comps_sv(o@) == x, (PR::Err, PR::Err) => true, (PR::Fail, PR::Fail) => true, _ => false }
}
pub open spec fn is_comp_p<'a, E, P: Parser<&'a str, Component<'a>, E>>(p: P) -> bool {
    forall|s: Seq<char>, r: PR<Component<'a>>| #[trigger] <P as Parser<&'a str, Component<'a>, E>>::out(&p, s, r) ==> comp_rel(r, s)
}
pub open spec fn is_comps_p<'a, E, P: Parser<&'a str, Vec<Component<'a>>, E>>(p: P) -> bool {
    forall|s: Seq<char>, r: PR<Vec<Component<'a>>>| #[trigger] <P as Parser<&'a str, Vec<Component<'a>>, E>>::out(&p, s, r) ==> comps_rel(r, s)
}
pub open spec fn then(cs: Seq<CompS>, r: PR<Seq<CompS>>) -> PR<Seq<CompS>> {
    match r { PR::Ok(q, x) => PR::Ok(q, cs + x), PR::Err => PR::Err, PR::Fail => PR::Fail }
}
pub proof fn lemma_chain_comps<'a, E, P: Parser<&'a str, Component<'a>, E>>(p: P, s: Seq<char>, os: Seq<Component<'a>>, m: Seq<char>)
    requires is_comp_p::<E, P>(p), chain::<Component<'a>, E, P>(p, s, os, m)
    ensures comps_p(s) == then(comps_sv(os), comps_p(m))
    decreases os.len()
{
    if os.len() > 0 {
        let k = choose|k: Seq<char>| k.len() < s.len() && #[trigger] <P as Parser<&'a str, Component<'a>, E>>::out(&p, s, PR::Ok(k, os[0])) && chain::<Component<'a>, E, P>(p, k, os.skip(1), m);
        assert(comp_rel(PR::Ok(k, os[0]), s));
        lemma_chain_comps::<E, P>(p, k, os.skip(1), m);
        assert(comps_sv(os) =~= seq![csv(os[0])] + comps_sv(os.skip(1)));
        if let PR::Ok(q, x) = comps_p(m) { assert(seq![csv(os[0])] + (comps_sv(os.skip(1)) + x) =~= comps_sv(os) + x); }
    } else {
        if let PR::Ok(q, x) = comps_p(m) { assert(comps_sv(os) + x =~= x); }
    }
}
pub proof fn lemma_comps<'a, E, P: Parser<&'a str, Component<'a>, E>>(p: Many0<P, Component<'a>>)
    requires is_comp_p::<E, P>(p.p)
    ensures is_comps_p::<E, Many0<P, Component<'a>>>(p)
{
    assert forall|s: Seq<char>, r: PR<Vec<Component<'a>>>| #[trigger] <Many0<P, Component<'a>> as Parser<&'a str, Vec<Component<'a>>, E>>::out(&p, s, r) implies comps_rel(r, s) by {
        match r {
            PR::Ok(m, v) => {
                lemma_chain_comps::<E, P>(p.p, s, v@, m); assert(comp_rel(PR::Err, m));
                assert(comps_p(m) == PR::Ok(m, Seq::<CompS>::empty()));
                assert(comps_sv(v@) + Seq::<CompS>::empty() =~= comps_sv(v@));
            }
            PR::Fail => {
                let (os, m) = choose|os: Seq<Component<'a>>, m: Seq<char>| #[trigger] chain::<Component<'a>, E, P>(p.p, s, os, m) && <P as Parser<&'a str, Component<'a>, E>>::out(&p.p, m, PR::Fail);
                lemma_chain_comps::<E, P>(p.p, s, os, m); assert(comp_rel(PR::Fail, m)); assert(comps_p(m) is Fail);
            }
            PR::Err => {
                let (os, m, k, o) = choose|os: Seq<Component<'a>>, m: Seq<char>, k: Seq<char>, o: Component<'a>| #[trigger] chain::<Component<'a>, E, P>(p.p, s, os, m) && #[trigger] <P as Parser<&'a str, Component<'a>, E>>::out(&p.p, m, PR::Ok(k, o)) && k.len() >= m.len();
                assert(comp_rel(PR::Ok(k, o), m)); lemma_comp_len(m);
            }
        }
    }
}
pub proof fn lemma_comps_len(s: Seq<char>) ensures match comps_p(s) { PR::Ok(r, _) => r.len() <= s.len() && suf(s, r), _ => true } decreases s.len()
{ broadcast use group_suf; lemma_comp_len(s); if let PR::Ok(r, c) = comp_p(s) { if r.len() < s.len() { lemma_comps_len(r); } } }
/// a calendar: the first root if that is one, else everything
pub open spec fn cal_of(cs: Seq<CompS>) -> (Seq<PropS>, Seq<CompS>) {
    if cs.len() > 0 && cs[0].name == "VCALENDAR"@ { (cs[0].props, cs[0].comps) } else { (seq![], cs) }
}
pub open spec fn cal_comp(cs: Seq<CompS>) -> CompS { CompS { name: "VCALENDAR"@, props: cal_of(cs).0, comps: cal_of(cs).1 } }
/// the components cs become
pub open spec fn all_cc(cs: Seq<CompS>, r: Seq<CalendarComponent>) -> bool { cs.len() == r.len() && forall|i: int| 0 <= i < cs.len() ==> cc_rel(cs[i], #[trigger] r[i]) }
/// r holds the properties and components of c, in order
pub open spec fn pcal_rel(c: CompS, r: crate::Calendar) -> bool {
    all_props(c.props, r.properties@) && all_cc(c.comps, r.components@) }
pub open spec fn all_props(ps: Seq<PropS>, r: Seq<crate::Property>) -> bool { ps.len() == r.len() && forall|i: int| 0 <= i < ps.len() ==> (#[trigger] r[i]).v() == prop_v(ps[i]) }
} // mod lemma_body

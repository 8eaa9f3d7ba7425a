// Stand-ins for nom 7.1.3.  Every combinator is a value; `out` relates an input to the results its
// parser may return on it.  The bodies marked //@nom and //@nomfn are put in from the source of nom and verified; the rest is assumed.
pub mod shim_nom {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::spec::*;
#[allow(unused_imports)] use crate::spec_parse::*;
#[allow(unused_imports)] use crate::shim::{Display, x_slice, x_slice_from};
use core::marker::PhantomData;

/// nom::Err without Incomplete, which no parser for complete input returns
pub enum Err<E> { Error(E), Failure(E) }
pub type IResult<I, O, E> = Result<(I, O), Err<E>>;
pub enum ErrorKind { Tag, Alpha, Digit, AlphaNumeric, Space, MultiSpace, LengthValue, Eof, Alt, Many0, Many1, ManyTill, Count, Not, Complete, Verify, TakeUntil, TakeTill1, IsNot, Satisfy, Char, CrLf, Fail }
pub trait ParseError<I>: Sized { fn from_error_kind(input: I, kind: ErrorKind) -> Self; }
pub trait ContextError<I>: Sized { }
#[verifier::external_body]
#[verifier::accept_recursive_types(I)]
pub struct VerboseError<I> { i: I }
#[verifier::external_body]
#[verifier::accept_recursive_types(I)]
pub struct NomError<I> { i: I }
impl<'a> ParseError<&'a str> for VerboseError<&'a str> {
    #[verifier::external_body] fn from_error_kind(input: &'a str, kind: ErrorKind) -> Self { unimplemented!() } }
impl<'a> ContextError<&'a str> for VerboseError<&'a str> { }
impl<'a> ParseError<&'a str> for NomError<&'a str> {
    #[verifier::external_body] fn from_error_kind(input: &'a str, kind: ErrorKind) -> Self { unimplemented!() } }
impl<'a> ContextError<&'a str> for NomError<&'a str> { }
impl<I: core::clone::Clone> crate::shim::Clone for VerboseError<I> {
    #[verifier::external_body] fn x_clone(&self) -> (r: Self) { unimplemented!() } }
#[verifier::external_body]
pub fn convert_error(input: &str, e: VerboseError<&str>) -> (r: String) { unimplemented!() }
#[verifier::external_body]
pub fn make_error<I, E: ParseError<I>>(input: I, kind: ErrorKind) -> (r: E) { unimplemented!() }
pub mod nom { pub use super::{Err, IResult}; pub mod error { pub use super::super::{make_error, convert_error, ErrorKind, VerboseError, ParseError, ContextError}; } }
pub trait Finish<I, O, E>: Sized {
    spec fn finish_rel(self, r: Result<(I, O), E>) -> bool;
    fn finish(self) -> (r: Result<(I, O), E>) ensures self.finish_rel(r);
}
impl<I, O, E> Finish<I, O, E> for Result<(I, O), Err<E>> {
    open spec fn finish_rel(self, r: Result<(I, O), E>) -> bool {
        match self { Ok(x) => r == Ok::<(I, O), E>(x), Err(Err::Error(e)) => r == Err::<(I, O), E>(e), Err(Err::Failure(e)) => r == Err::<(I, O), E>(e) } }
    fn finish(self) -> (r: Result<(I, O), E>) { match self { Ok(x) => Ok(x), Err(Err::Error(e)) => Err(e), Err(Err::Failure(e)) => Err(e) } }
}

/// what a parser may return: the rest and the result, an error, a failure
pub ghost enum PR<O> { Ok(Seq<char>, O), Err, Fail }
pub open spec fn prv<I: View<V = Seq<char>>, O, E>(r: IResult<I, O, E>) -> PR<O> {
    match r { Ok((a, o)) => PR::Ok(a.view(), o), Err(Err::Error(_)) => PR::Err, Err(Err::Failure(_)) => PR::Fail }
}
pub trait Parser<I: View<V = Seq<char>>, O, E>: Sized {
    /// may be run on inputs of up to n characters, and never hands back more than it was given
    spec fn req(&self, n: nat) -> bool;
    spec fn out(&self, s: Seq<char>, r: PR<O>) -> bool;
    fn x_parse(&self, i: I) -> (r: IResult<I, O, E>)
        requires self.req(i.view().len())
        ensures self.out(i.view(), prv(r));
    proof fn l_mono(&self, n: nat, k: nat) requires self.req(n), k <= n ensures self.req(k);
    proof fn l_suf(&self, s: Seq<char>, r: PR<O>) requires self.req(s.len()), self.out(s, r) ensures shr(s, r);
}
pub broadcast proof fn b_mono<'a, O, E, P: Parser<&'a str, O, E>>(p: P, n: nat, k: nat)
    requires #[trigger] <P as Parser<&'a str, O, E>>::req(&p, n), k <= n
    ensures #[trigger] <P as Parser<&'a str, O, E>>::req(&p, k)
{ <P as Parser<&'a str, O, E>>::l_mono(&p, n, k); }
pub broadcast proof fn b_suf<'a, O, E, P: Parser<&'a str, O, E>>(p: P, s: Seq<char>, r: PR<O>)
    requires <P as Parser<&'a str, O, E>>::req(&p, s.len()), #[trigger] <P as Parser<&'a str, O, E>>::out(&p, s, r)
    ensures shr(s, r)
{ <P as Parser<&'a str, O, E>>::l_suf(&p, s, r); }
pub broadcast group group_nom { b_mono, b_suf, lemma_suf_len, lemma_suf_all, lemma_suf_trans, lemma_suf_blen, lemma_chain_push, lemma_chain_t_push }
// error values: nothing is said about them
#[verifier::external_body]
pub fn x_from_error_kind<I, E>(i: I, k: ErrorKind) -> (r: E) { unimplemented!() }
#[verifier::external_body]
pub fn x_append<I, E>(i: I, k: ErrorKind, e: E) -> (r: E) { unimplemented!() }
#[verifier::external_body]
pub fn x_add_context<I, E>(i: I, e: E) -> (r: E) { unimplemented!() }
#[verifier::external_body]
pub fn x_or<E>(a: E, b: E) -> (r: E) { unimplemented!() }
#[verifier::external_body]
pub fn x_input_len(i: &str) -> (r: usize) ensures r == blen(i@) { unimplemented!() }
/// shorter in bytes is shorter in characters, for an end of a text
pub broadcast proof fn lemma_suf_blen(s: Seq<char>, m: Seq<char>)
    requires suf(s, m)
    ensures #![trigger suf(s, m), blen(m), blen(s)] blen(m) == blen(s) <==> m.len() == s.len(), m.len() == s.len() ==> m == s
{
    reveal(suf);
    let a = s.take(s.len() - m.len());
    assert(a + m =~= s);
    lemma_blen_add(a, m);
    reveal_with_fuel(blen, 2);
}
/// Parser::map
pub trait PMap: Sized {
    fn map<G, O, O2>(self, g: G) -> (r: MapP<Self, G, O>) where G: Fn(O) -> O2
        ensures r.p == self, r.g == g;
}
impl<T> PMap for T {
    fn map<G, O, O2>(self, g: G) -> (r: MapP<Self, G, O>) where G: Fn(O) -> O2
    { MapP { p: self, g, o: PhantomData } }
}
/// what is left is the end of what was given
pub open spec fn shr<O>(s: Seq<char>, r: PR<O>) -> bool { match r { PR::Ok(m, _) => suf(s, m), _ => true } }
pub open spec fn fn_ok<'a, O, E, F: Fn(&'a str) -> IResult<&'a str, O, E>>(f: F, x: &'a str) -> bool {
    call_requires(f, (x,)) && forall|y: IResult<&'a str, O, E>| #[trigger] call_ensures(f, (x,), y) ==> shr(x@, prv(y))
}
pub open spec fn fn_req<'a, O, E, F: Fn(&'a str) -> IResult<&'a str, O, E>>(f: F, n: nat) -> bool {
    forall|x: &'a str| #![trigger call_requires(f, (x,))] #![trigger fn_ok::<O, E, F>(f, x)] x@.len() <= n ==> fn_ok::<O, E, F>(f, x)
}
/// functions are parsers
impl<'a, O, E, F: Fn(&'a str) -> IResult<&'a str, O, E>> Parser<&'a str, O, E> for F {
    proof fn l_mono(&self, n: nat, k: nat) {
        assert forall|x: &'a str| #![trigger call_requires(*self, (x,))] #![trigger fn_ok::<O, E, F>(*self, x)] x@.len() <= k implies fn_ok::<O, E, F>(*self, x) by { }
    }
    proof fn l_suf(&self, s: Seq<char>, r: PR<O>) { broadcast use group_suf; if let PR::Ok(m, o) = r { let (x, y) = choose|x: &'a str, y: IResult<&'a str, O, E>| x@ == s && prv(y) == r && #[trigger] call_ensures(*self, (x,), y); assert(call_requires(*self, (x,))); } }
    open spec fn req(&self, n: nat) -> bool { fn_req::<O, E, F>(*self, n) }
    open spec fn out(&self, s: Seq<char>, r: PR<O>) -> bool {
        exists|x: &'a str, y: IResult<&'a str, O, E>| x@ == s && prv(y) == r && #[trigger] call_ensures(*self, (x,), y) }
    //@nom internal.rs F
    #[verifier::external_body]
    fn x_parse(&self, i: &'a str) -> (r: IResult<&'a str, O, E>) { unimplemented!() }
}
pub struct MapP<P, G, O> { pub p: P, pub g: G, pub o: PhantomData<O> }
impl<'a, O, O2, E, P: Parser<&'a str, O, E>, G: Fn(O) -> O2> Parser<&'a str, O2, E> for MapP<P, G, O> {
    proof fn l_mono(&self, n: nat, k: nat) { broadcast use group_nom; }
    proof fn l_suf(&self, s: Seq<char>, r: PR<O2>) { broadcast use group_nom, group_suf;  }
    open spec fn req(&self, n: nat) -> bool { self.p.req(n) && forall|x: O| call_requires(self.g, (x,)) }
    open spec fn out(&self, s: Seq<char>, r: PR<O2>) -> bool {
        exists|q: PR<O>| #[trigger] self.p.out(s, q)
            && (match q { PR::Ok(m, o) => r is Ok && r->Ok_0 == m && call_ensures(self.g, (o,), r->Ok_1), _ => bad(r, q) }) }
    //@nom internal.rs Map self.f=self.p self.g=self.g
    #[verifier::external_body]
    fn x_parse(&self, i: &'a str) -> (r: IResult<&'a str, O2, E>) { unimplemented!() }
}
/// the failing results of a step
pub open spec fn bad<O, O2>(r: PR<O>, q: PR<O2>) -> bool { (r is Err && q is Err) || (r is Fail && q is Fail) }

// ---- alternatives and sequences
pub struct Alt<T> { pub t: T }
pub fn alt<T>(t: T) -> (r: Alt<T>) ensures r.t == t { Alt { t } }
impl<'a, O, E, A: Parser<&'a str, O, E>, B: Parser<&'a str, O, E>> Parser<&'a str, O, E> for Alt<(A, B)> {
    proof fn l_mono(&self, n: nat, k: nat) { broadcast use group_nom; }
    proof fn l_suf(&self, s: Seq<char>, r: PR<O>) { broadcast use group_nom, group_suf;  }
    open spec fn req(&self, n: nat) -> bool { self.t.0.req(n) && self.t.1.req(n) }
    open spec fn out(&self, s: Seq<char>, r: PR<O>) -> bool {
        (self.t.0.out(s, r) && !(r is Err)) || (self.t.0.out(s, PR::Err) && self.t.1.out(s, r)) }
    //@nom branch/mod.rs alt2
    #[verifier::external_body]
    fn x_parse(&self, i: &'a str) -> (r: IResult<&'a str, O, E>) { unimplemented!() }
}
impl<'a, O, E, A: Parser<&'a str, O, E>, B: Parser<&'a str, O, E>, C: Parser<&'a str, O, E>> Parser<&'a str, O, E> for Alt<(A, B, C)> {
    proof fn l_mono(&self, n: nat, k: nat) { broadcast use group_nom; }
    proof fn l_suf(&self, s: Seq<char>, r: PR<O>) { broadcast use group_nom, group_suf;  }
    open spec fn req(&self, n: nat) -> bool { self.t.0.req(n) && self.t.1.req(n) && self.t.2.req(n) }
    open spec fn out(&self, s: Seq<char>, r: PR<O>) -> bool {
        (self.t.0.out(s, r) && !(r is Err))
        || (self.t.0.out(s, PR::Err) && self.t.1.out(s, r) && !(r is Err))
        || (self.t.0.out(s, PR::Err) && self.t.1.out(s, PR::Err) && self.t.2.out(s, r)) }
    //@nom branch/mod.rs alt3
    #[verifier::external_body]
    fn x_parse(&self, i: &'a str) -> (r: IResult<&'a str, O, E>) { unimplemented!() }
}
pub struct Tup<T, U> { pub t: T, pub o: PhantomData<U> }
pub fn tuple<T, U>(t: T) -> (r: Tup<T, U>) ensures r.t == t { Tup { t, o: PhantomData } }
impl<'a, X, Y, E, A: Parser<&'a str, X, E>, B: Parser<&'a str, Y, E>> Parser<&'a str, (X, Y), E> for Tup<(A, B), (X, Y)> {
    proof fn l_mono(&self, n: nat, k: nat) { broadcast use group_nom; }
    proof fn l_suf(&self, s: Seq<char>, r: PR<(X, Y)>) { broadcast use group_nom, group_suf;  }
    open spec fn req(&self, n: nat) -> bool { self.t.0.req(n) && self.t.1.req(n) }
    open spec fn out(&self, s: Seq<char>, r: PR<(X, Y)>) -> bool {
        (exists|q: PR<X>| #[trigger] self.t.0.out(s, q) && bad(r, q))
        || (exists|m: Seq<char>, x: X, q: PR<Y>| #[trigger] self.t.0.out(s, PR::Ok(m, x)) && #[trigger] self.t.1.out(m, q)
            && (match q { PR::Ok(e, y) => r == PR::<(X, Y)>::Ok(e, (x, y)), _ => bad(r, q) })) }
    //@nom sequence/mod.rs tuple2
    #[verifier::external_body]
    fn x_parse(&self, i: &'a str) -> (r: IResult<&'a str, (X, Y), E>) { unimplemented!() }
}
pub struct Preceded<A, B, X> { pub a: A, pub b: B, pub o: PhantomData<X> }
pub fn preceded<A, B, X>(a: A, b: B) -> (r: Preceded<A, B, X>)
    ensures r.a == a, r.b == b { Preceded { a, b, o: PhantomData } }
impl<'a, X, O, E, A: Parser<&'a str, X, E>, B: Parser<&'a str, O, E>> Parser<&'a str, O, E> for Preceded<A, B, X> {
    proof fn l_mono(&self, n: nat, k: nat) { broadcast use group_nom; }
    proof fn l_suf(&self, s: Seq<char>, r: PR<O>) { broadcast use group_nom, group_suf;  }
    open spec fn req(&self, n: nat) -> bool { self.a.req(n) && self.b.req(n) }
    open spec fn out(&self, s: Seq<char>, r: PR<O>) -> bool {
        (exists|m: Seq<char>, x: X| #[trigger] self.a.out(s, PR::Ok(m, x)) && self.b.out(m, r))
        || (exists|q: PR<X>| #[trigger] self.a.out(s, q) && bad(r, q)) }
    //@nom sequence/mod.rs preceded first=self.a second=self.b
    #[verifier::external_body]
    fn x_parse(&self, i: &'a str) -> (r: IResult<&'a str, O, E>) { unimplemented!() }
}
pub struct Terminated<A, B, X> { pub a: A, pub b: B, pub o: PhantomData<X> }
pub fn terminated<A, B, X>(a: A, b: B) -> (r: Terminated<A, B, X>)
    ensures r.a == a, r.b == b { Terminated { a, b, o: PhantomData } }
impl<'a, X, O, E, A: Parser<&'a str, O, E>, B: Parser<&'a str, X, E>> Parser<&'a str, O, E> for Terminated<A, B, X> {
    proof fn l_mono(&self, n: nat, k: nat) { broadcast use group_nom; }
    proof fn l_suf(&self, s: Seq<char>, r: PR<O>) { broadcast use group_nom, group_suf;  }
    open spec fn req(&self, n: nat) -> bool { self.a.req(n) && self.b.req(n) }
    open spec fn out(&self, s: Seq<char>, r: PR<O>) -> bool {
        (!(r is Ok) && self.a.out(s, r))
        || (exists|m: Seq<char>, o: O, q: PR<X>| #[trigger] self.a.out(s, PR::Ok(m, o)) && #[trigger] self.b.out(m, q)
            && (match q { PR::Ok(e, _) => r == PR::<O>::Ok(e, o), _ => bad(r, q) })) }
    //@nom sequence/mod.rs terminated first=self.a second=self.b
    #[verifier::external_body]
    fn x_parse(&self, i: &'a str) -> (r: IResult<&'a str, O, E>) { unimplemented!() }
}
pub struct Delimited<A, B, C, X, Z> { pub a: A, pub b: B, pub c: C, pub o: PhantomData<(X, Z)> }
pub fn delimited<A, B, C, X, Z>(a: A, b: B, c: C) -> (r: Delimited<A, B, C, X, Z>)
    ensures r.a == a, r.b == b, r.c == c { Delimited { a, b, c, o: PhantomData } }
impl<'a, X, O, Z, E, A: Parser<&'a str, X, E>, B: Parser<&'a str, O, E>, C: Parser<&'a str, Z, E>> Parser<&'a str, O, E> for Delimited<A, B, C, X, Z> {
    proof fn l_mono(&self, n: nat, k: nat) { broadcast use group_nom; }
    proof fn l_suf(&self, s: Seq<char>, r: PR<O>) { broadcast use group_nom, group_suf;  }
    open spec fn req(&self, n: nat) -> bool { self.a.req(n) && self.b.req(n) && self.c.req(n) }
    open spec fn out(&self, s: Seq<char>, r: PR<O>) -> bool {
        (exists|q: PR<X>| #[trigger] self.a.out(s, q) && bad(r, q))
        || (exists|m: Seq<char>, x: X| #[trigger] self.a.out(s, PR::Ok(m, x)) && (
            (!(r is Ok) && self.b.out(m, r))
            || (exists|k: Seq<char>, o: O, q: PR<Z>| #[trigger] self.b.out(m, PR::Ok(k, o)) && #[trigger] self.c.out(k, q)
                && (match q { PR::Ok(e, _) => r == PR::<O>::Ok(e, o), _ => bad(r, q) })))) }
    //@nom sequence/mod.rs delimited first=self.a second=self.b third=self.c
    #[verifier::external_body]
    fn x_parse(&self, i: &'a str) -> (r: IResult<&'a str, O, E>) { unimplemented!() }
}
pub struct SepPair<A, B, C, Y> { pub a: A, pub b: B, pub c: C, pub o: PhantomData<Y> }
pub fn separated_pair<A, B, C, Y>(a: A, b: B, c: C) -> (r: SepPair<A, B, C, Y>)
    ensures r.a == a, r.b == b, r.c == c { SepPair { a, b, c, o: PhantomData } }
impl<'a, X, Y, Z, E, A: Parser<&'a str, X, E>, B: Parser<&'a str, Y, E>, C: Parser<&'a str, Z, E>> Parser<&'a str, (X, Z), E> for SepPair<A, B, C, Y> {
    proof fn l_mono(&self, n: nat, k: nat) { broadcast use group_nom; }
    proof fn l_suf(&self, s: Seq<char>, r: PR<(X, Z)>) { broadcast use group_nom, group_suf;  }
    open spec fn req(&self, n: nat) -> bool { self.a.req(n) && self.b.req(n) && self.c.req(n) }
    open spec fn out(&self, s: Seq<char>, r: PR<(X, Z)>) -> bool {
        (exists|q: PR<X>| #[trigger] self.a.out(s, q) && bad(r, q))
        || (exists|m: Seq<char>, x: X, q: PR<Y>| #[trigger] self.a.out(s, PR::Ok(m, x)) && #[trigger] self.b.out(m, q) && (
            bad(r, q)
            || (q matches PR::Ok(k, _) && exists|p: PR<Z>| #[trigger] self.c.out(k, p)
                && (match p { PR::Ok(e, z) => r == PR::<(X, Z)>::Ok(e, (x, z)), _ => bad(r, p) })))) }
    //@nom sequence/mod.rs separated_pair first=self.a sep=self.b second=self.c
    #[verifier::external_body]
    fn x_parse(&self, i: &'a str) -> (r: IResult<&'a str, (X, Z), E>) { unimplemented!() }
}

// ---- modifiers
pub struct Cut<P> { pub p: P }
pub fn cut<P>(p: P) -> (r: Cut<P>) ensures r.p == p { Cut { p } }
impl<'a, O, E, P: Parser<&'a str, O, E>> Parser<&'a str, O, E> for Cut<P> {
    proof fn l_mono(&self, n: nat, k: nat) { broadcast use group_nom; }
    proof fn l_suf(&self, s: Seq<char>, r: PR<O>) { broadcast use group_nom, group_suf;  }
    open spec fn req(&self, n: nat) -> bool { self.p.req(n) }
    open spec fn out(&self, s: Seq<char>, r: PR<O>) -> bool {
        !(r is Err) && (self.p.out(s, r) || (r is Fail && self.p.out(s, PR::Err))) }
    //@nom combinator/mod.rs cut parser=self.p
    #[verifier::external_body]
    fn x_parse(&self, i: &'a str) -> (r: IResult<&'a str, O, E>) { unimplemented!() }
}
/// context and complete change the error value only
pub struct Same<P> { pub p: P }
pub fn context<P>(c: &'static str, p: P) -> (r: Same<P>) ensures r.p == p { Same { p } }
pub fn complete<P>(p: P) -> (r: Same<P>) ensures r.p == p { Same { p } }
impl<'a, O, E, P: Parser<&'a str, O, E>> Parser<&'a str, O, E> for Same<P> {
    proof fn l_mono(&self, n: nat, k: nat) { broadcast use group_nom; }
    proof fn l_suf(&self, s: Seq<char>, r: PR<O>) { broadcast use group_nom, group_suf;  }
    open spec fn req(&self, n: nat) -> bool { self.p.req(n) }
    open spec fn out(&self, s: Seq<char>, r: PR<O>) -> bool { self.p.out(s, r) }
    //@nom combinator/mod.rs complete f=self.p
    #[verifier::external_body]
    fn x_parse(&self, i: &'a str) -> (r: IResult<&'a str, O, E>) { unimplemented!() }
}
impl<P> Same<P> {
    //@nom error.rs context f=self.p
    #[verifier::external_body]
    fn x_parse_context<'a, O, E>(&self, i: &'a str) -> (r: IResult<&'a str, O, E>) where P: Parser<&'a str, O, E> requires <Self as Parser<&'a str, O, E>>::req(self, i@.len()) ensures <Self as Parser<&'a str, O, E>>::out(self, i@, prv(r)) { unimplemented!() }
}
pub struct Opt<P> { pub p: P }
pub fn opt<P>(p: P) -> (r: Opt<P>) ensures r.p == p { Opt { p } }
impl<'a, O, E, P: Parser<&'a str, O, E>> Parser<&'a str, Option<O>, E> for Opt<P> {
    proof fn l_mono(&self, n: nat, k: nat) { broadcast use group_nom; }
    proof fn l_suf(&self, s: Seq<char>, r: PR<Option<O>>) { broadcast use group_nom, group_suf;  }
    open spec fn req(&self, n: nat) -> bool { self.p.req(n) }
    open spec fn out(&self, s: Seq<char>, r: PR<Option<O>>) -> bool {
        match r { PR::Ok(m, Some(o)) => self.p.out(s, PR::Ok(m, o)), PR::Ok(m, None) => m == s && self.p.out(s, PR::Err), PR::Err => false, PR::Fail => self.p.out(s, PR::Fail) } }
    //@nom combinator/mod.rs opt f=self.p
    #[verifier::external_body]
    fn x_parse(&self, i: &'a str) -> (r: IResult<&'a str, Option<O>, E>) { unimplemented!() }
}
pub struct Not<P, O> { pub p: P, pub o: PhantomData<O> }
pub fn not<P, O>(p: P) -> (r: Not<P, O>)
    ensures r.p == p { Not { p, o: PhantomData } }
impl<'a, O, E, P: Parser<&'a str, O, E>> Parser<&'a str, (), E> for Not<P, O> {
    proof fn l_mono(&self, n: nat, k: nat) { broadcast use group_nom; }
    proof fn l_suf(&self, s: Seq<char>, r: PR<()>) { broadcast use group_nom, group_suf;  }
    open spec fn req(&self, n: nat) -> bool { self.p.req(n) }
    open spec fn out(&self, s: Seq<char>, r: PR<()>) -> bool {
        match r { PR::Ok(m, _) => m == s && self.p.out(s, PR::Err), PR::Err => exists|m: Seq<char>, o: O| self.p.out(s, PR::Ok(m, o)), PR::Fail => self.p.out(s, PR::Fail) } }
    //@nom combinator/mod.rs not parser=self.p
    #[verifier::external_body]
    fn x_parse(&self, i: &'a str) -> (r: IResult<&'a str, (), E>) { unimplemented!() }
}

// ---- repetition
/// p, run again and again from s, yields os and arrives at m; every round consumes something
pub open spec fn chain<'a, O, E, P: Parser<&'a str, O, E>>(p: P, s: Seq<char>, os: Seq<O>, m: Seq<char>) -> bool decreases os.len() {
    if os.len() == 0 { s == m }
    else { exists|k: Seq<char>| k.len() < s.len() && #[trigger] p.out(s, PR::Ok(k, os[0])) && chain::<O, E, P>(p, k, os.skip(1), m) }
}
pub broadcast proof fn lemma_chain_push<'a, O, E, P: Parser<&'a str, O, E>>(p: P, s: Seq<char>, os: Seq<O>, m: Seq<char>, k: Seq<char>, o: O)
    requires #[trigger] chain::<O, E, P>(p, s, os, m), #[trigger] <P as Parser<&'a str, O, E>>::out(&p, m, PR::Ok(k, o)), k.len() < m.len()
    ensures chain::<O, E, P>(p, s, os.push(o), k)
    decreases os.len()
{
    if os.len() > 0 {
        let j = choose|j: Seq<char>| j.len() < s.len() && #[trigger] <P as Parser<&'a str, O, E>>::out(&p, s, PR::Ok(j, os[0])) && chain::<O, E, P>(p, j, os.skip(1), m);
        lemma_chain_push::<O, E, P>(p, j, os.skip(1), m, k, o);
        assert(os.push(o).skip(1) =~= os.skip(1).push(o));
        assert(os.push(o)[0] == os[0]);
    } else {
        assert(os.push(o)[0] == o);
        assert(chain::<O, E, P>(p, k, os.push(o).skip(1), k));
    }
}
pub proof fn lemma_chain_suf<'a, O, E, P: Parser<&'a str, O, E>>(p: P, s: Seq<char>, os: Seq<O>, m: Seq<char>)
    requires chain::<O, E, P>(p, s, os, m), <P as Parser<&'a str, O, E>>::req(&p, s.len())
    ensures suf(s, m)
    decreases os.len()
{
    broadcast use group_nom;
    if os.len() > 0 {
        let j = choose|j: Seq<char>| j.len() < s.len() && #[trigger] <P as Parser<&'a str, O, E>>::out(&p, s, PR::Ok(j, os[0])) && chain::<O, E, P>(p, j, os.skip(1), m);
        lemma_chain_suf::<O, E, P>(p, j, os.skip(1), m);
    }
}
pub struct Many0<P, O> { pub p: P, pub o: PhantomData<O> }
pub fn many0<P, O>(p: P) -> (r: Many0<P, O>)
    ensures r.p == p { Many0 { p, o: PhantomData } }
impl<'a, O, E, P: Parser<&'a str, O, E>> Parser<&'a str, Vec<O>, E> for Many0<P, O> {
    proof fn l_mono(&self, n: nat, k: nat) { broadcast use group_nom; }
    proof fn l_suf(&self, s: Seq<char>, r: PR<Vec<O>>) { broadcast use group_nom, group_suf; if let PR::Ok(m, v) = r { lemma_chain_suf::<O, E, P>(self.p, s, v@, m); } }
    open spec fn req(&self, n: nat) -> bool { self.p.req(n) }
    open spec fn out(&self, s: Seq<char>, r: PR<Vec<O>>) -> bool {
        match r {
            PR::Ok(m, v) => chain::<O, E, P>(self.p, s, v@, m) && self.p.out(m, PR::Err),
            PR::Fail => exists|os: Seq<O>, m: Seq<char>| #[trigger] chain::<O, E, P>(self.p, s, os, m) && self.p.out(m, PR::Fail),
            PR::Err => exists|os: Seq<O>, m: Seq<char>, k: Seq<char>, o: O| #[trigger] chain::<O, E, P>(self.p, s, os, m) && #[trigger] self.p.out(m, PR::Ok(k, o)) && k.len() >= m.len(),
        } }
    //@nom multi/mod.rs many0 f=self.p
    //@inv invariant chain::<O, E, P>(self.p, vx_i@, acc@, i@), suf(vx_i@, i@), self.req(vx_i@.len()) decreases i@.len()
    #[verifier::external_body]
    fn x_parse(&self, i: &'a str) -> (r: IResult<&'a str, Vec<O>, E>) { unimplemented!() }
}
/// as chain, with g failing before every round
pub open spec fn chain_t<'a, O, Q, E, P: Parser<&'a str, O, E>, G: Parser<&'a str, Q, E>>(p: P, g: G, s: Seq<char>, os: Seq<O>, m: Seq<char>) -> bool decreases os.len() {
    if os.len() == 0 { s == m }
    else { g.out(s, PR::Err) && exists|k: Seq<char>| k.len() < s.len() && #[trigger] p.out(s, PR::Ok(k, os[0])) && chain_t::<O, Q, E, P, G>(p, g, k, os.skip(1), m) }
}
pub broadcast proof fn lemma_chain_t_push<'a, O, Q, E, P: Parser<&'a str, O, E>, G: Parser<&'a str, Q, E>>(p: P, g: G, s: Seq<char>, os: Seq<O>, m: Seq<char>, k: Seq<char>, o: O)
    requires #[trigger] chain_t::<O, Q, E, P, G>(p, g, s, os, m), <G as Parser<&'a str, Q, E>>::out(&g, m, PR::Err), #[trigger] <P as Parser<&'a str, O, E>>::out(&p, m, PR::Ok(k, o)), k.len() < m.len()
    ensures chain_t::<O, Q, E, P, G>(p, g, s, os.push(o), k)
    decreases os.len()
{
    if os.len() > 0 {
        let j = choose|j: Seq<char>| j.len() < s.len() && #[trigger] <P as Parser<&'a str, O, E>>::out(&p, s, PR::Ok(j, os[0])) && chain_t::<O, Q, E, P, G>(p, g, j, os.skip(1), m);
        lemma_chain_t_push::<O, Q, E, P, G>(p, g, j, os.skip(1), m, k, o);
        assert(os.push(o).skip(1) =~= os.skip(1).push(o));
        assert(os.push(o)[0] == os[0]);
    } else {
        assert(os.push(o)[0] == o);
        assert(chain_t::<O, Q, E, P, G>(p, g, k, os.push(o).skip(1), k));
    }
}
pub proof fn lemma_chain_t_suf<'a, O, Q, E, P: Parser<&'a str, O, E>, G: Parser<&'a str, Q, E>>(p: P, g: G, s: Seq<char>, os: Seq<O>, m: Seq<char>)
    requires chain_t::<O, Q, E, P, G>(p, g, s, os, m), <P as Parser<&'a str, O, E>>::req(&p, s.len())
    ensures suf(s, m)
    decreases os.len()
{
    broadcast use group_nom;
    if os.len() > 0 {
        let j = choose|j: Seq<char>| j.len() < s.len() && #[trigger] <P as Parser<&'a str, O, E>>::out(&p, s, PR::Ok(j, os[0])) && chain_t::<O, Q, E, P, G>(p, g, j, os.skip(1), m);
        lemma_chain_t_suf::<O, Q, E, P, G>(p, g, j, os.skip(1), m);
    }
}
pub struct ManyTill<P, G, O, Q> { pub p: P, pub g: G, pub o: PhantomData<(O, Q)> }
pub fn many_till<P, G, O, Q>(p: P, g: G) -> (r: ManyTill<P, G, O, Q>)
    ensures r.p == p, r.g == g { ManyTill { p, g, o: PhantomData } }
impl<'a, O, Q, E, P: Parser<&'a str, O, E>, G: Parser<&'a str, Q, E>> Parser<&'a str, (Vec<O>, Q), E> for ManyTill<P, G, O, Q> {
    proof fn l_mono(&self, n: nat, k: nat) { broadcast use group_nom; }
    proof fn l_suf(&self, s: Seq<char>, r: PR<(Vec<O>, Q)>) { broadcast use group_nom, group_suf; if let PR::Ok(e, z) = r { let (v, m, p) = choose|v: Vec<O>, m: Seq<char>, p: PR<Q>| #[trigger] chain_t::<O, Q, E, P, G>(self.p, self.g, s, v@, m) && #[trigger] self.g.out(m, p) && p is Ok && p->Ok_0 == e && z == (v, p->Ok_1); lemma_chain_t_suf::<O, Q, E, P, G>(self.p, self.g, s, v@, m); } }
    open spec fn req(&self, n: nat) -> bool { self.p.req(n) && self.g.req(n) }
    open spec fn out(&self, s: Seq<char>, r: PR<(Vec<O>, Q)>) -> bool {
        match r {
            PR::Ok(e, z) => exists|v: Vec<O>, m: Seq<char>, p: PR<Q>| #[trigger] chain_t::<O, Q, E, P, G>(self.p, self.g, s, v@, m) && #[trigger] self.g.out(m, p) && p is Ok && p->Ok_0 == e && z == (v, p->Ok_1),
            PR::Fail => exists|os: Seq<O>, m: Seq<char>| #[trigger] chain_t::<O, Q, E, P, G>(self.p, self.g, s, os, m)
                && (self.g.out(m, PR::Fail) || (self.g.out(m, PR::Err) && self.p.out(m, PR::Fail))),
            PR::Err => exists|os: Seq<O>, m: Seq<char>| #[trigger] chain_t::<O, Q, E, P, G>(self.p, self.g, s, os, m) && self.g.out(m, PR::Err)
                && (self.p.out(m, PR::Err) || (exists|k: Seq<char>, o: O| #[trigger] self.p.out(m, PR::Ok(k, o)) && k.len() >= m.len())),
        } }
    //@nom multi/mod.rs many_till f=self.p g=self.g
    //@inv invariant chain_t::<O, Q, E, P, G>(self.p, self.g, vx_i@, res@, i@), suf(vx_i@, i@), self.req(vx_i@.len()) decreases i@.len()
    #[verifier::external_body]
    fn x_parse(&self, i: &'a str) -> (r: IResult<&'a str, (Vec<O>, Q), E>) { unimplemented!() }
}

/// o is the longest prefix of s of characters f holds of, m the rest
pub open spec fn longest<F: Fn(char) -> bool>(f: F, want: bool, s: Seq<char>, o: Seq<char>, m: Seq<char>) -> bool {
    s == o + m && (forall|i: int| 0 <= i < o.len() ==> call_ensures(f, (#[trigger] o[i],), want)) && (m.len() > 0 ==> call_ensures(f, (m[0],), !want))
}
// ---- nom's methods of &str, over those of str
pub enum CompareResult { Ok, Incomplete, Error }
#[verifier::external_body]
pub fn x_find_pred<P: Fn(char) -> bool>(s: &str, p: P) -> (r: Option<usize>)
    requires forall|c: char| call_requires(p, (c,))
    ensures match r {
        Some(i) => exists|k: int| 0 <= k < s@.len() && #[trigger] blen(s@.take(k)) == i && call_ensures(p, (s@[k],), true) && forall|j: int| 0 <= j < k ==> call_ensures(p, (#[trigger] s@[j],), false),
        None => forall|j: int| 0 <= j < s@.len() ==> call_ensures(p, (#[trigger] s@[j],), false) }
{ unimplemented!() }
#[verifier::external_body]
pub fn x_find_str(s: &str, t: &str) -> (r: Option<usize>)
    ensures match r { Some(i) => exists|k: int| first_at(s@, t@, k) && #[trigger] blen(s@.take(k)) == i, None => !occurs(s@, t@) }
{ unimplemented!() }
/// get_unchecked(..i), without a check in the code: i has to be at a boundary
#[verifier::external_body]
pub fn x_slice_to<'a>(s: &'a str, i: usize) -> (r: &'a str)
    requires is_bd(s@, i as int) ensures r@ == s@.take(bd_ix(s@, i as int))
{ unimplemented!() }
#[verifier::external_body]
pub fn x_split_at<'a>(s: &'a str, i: usize) -> (r: (&'a str, &'a str))
    requires is_bd(s@, i as int) ensures r.0@ == s@.take(bd_ix(s@, i as int)), r.1@ == s@.skip(bd_ix(s@, i as int))
{ unimplemented!() }
/// nom compares the bytes of UTF-8
#[verifier::external_body]
pub fn x_compare(s: &str, t: &str) -> (r: CompareResult)
    ensures match r { CompareResult::Ok => t@.is_prefix_of(s@), CompareResult::Incomplete => s@.is_prefix_of(t@) && s@.len() < t@.len(), CompareResult::Error => !t@.is_prefix_of(s@) && !s@.is_prefix_of(t@) }
{ unimplemented!() }
/// chars().any(|i| i == c)
#[verifier::external_body]
pub fn x_find_token(s: &str, c: char) -> (r: bool) ensures r == s@.contains(c) { unimplemented!() }
/// chars().next()
#[verifier::external_body]
pub fn x_first(s: &str) -> (r: Option<char>) ensures match r { Some(c) => s@.len() > 0 && c == s@[0], None => s@.len() == 0 } { unimplemented!() }
#[verifier::external_body]
pub fn x_len_utf8(c: char) -> (r: usize) ensures r == ulen(c) { unimplemented!() }
/// what char::to_lowercase yields
pub uninterp spec fn lower1(c: char) -> Seq<char>;
#[verifier::external_body]
pub fn x_lower_ne(a: char, b: char) -> (r: bool) ensures r == (lower1(a) != lower1(b)) { unimplemented!() }
/// of all characters, only the two cases of an ASCII character other than k and s have its lower case (checked for all characters by the harness)
pub axiom fn axiom_lower1(a: char, b: char)
    requires (b as u32) < 128, b != 'k', b != 'K', b != 's', b != 'S'
    ensures (lower1(a) == lower1(b)) == (lo(a) == lo(b));
/// a.chars().zip(b.chars()).position(f)
#[verifier::external_body]
pub fn x_zip_position<P: Fn(char, char) -> bool>(a: &str, b: &str, f: P) -> (r: Option<usize>)
    requires forall|c: char, d: char| call_requires(f, (c, d))
    ensures match r {
        Some(i) => i < a@.len() && i < b@.len() && call_ensures(f, (a@[i as int], b@[i as int]), true),
        None => forall|i: int| 0 <= i < a@.len() && i < b@.len() ==> call_ensures(f, (#[trigger] a@[i], b@[i]), false) }
{ unimplemented!() }
//@nomfn traits.rs compare_no_case impl<'a,_'b>_Compare<&'b_str>_for_&'a_str_{
//@sub self .chars() .zip(t.chars()) .position(|(a, b)| a.to_lowercase().ne(b.to_lowercase())) ~> x_zip_position(vx_i, t, |a: char, b: char| -> (r: bool) ensures r == (lower1(a) != lower1(b)) { x_lower_ne(a, b) })
//@sub self.len() ~> x_input_len(vx_i)
//@sub t.len() ~> x_input_len(t)
#[verifier::external_body]
pub fn compare_no_case(vx_i: &str, t: &str) -> (r: CompareResult)
    ensures match r {
        CompareResult::Error => exists|i: int| 0 <= i < vx_i@.len() && i < t@.len() && lower1(#[trigger] vx_i@[i]) != lower1(t@[i]),
        _ => (forall|i: int| 0 <= i < vx_i@.len() && i < t@.len() ==> lower1(#[trigger] vx_i@[i]) == lower1(t@[i])) && (r is Ok <==> blen(vx_i@) >= blen(t@)) }
{ unimplemented!() }
//@nomfn traits.rs take_split impl<'a>_InputTake_for_&'a_str_{
//@sub self.split_at(count) ~> x_split_at(vx_i, count)
#[verifier::external_body]
pub fn take_split<'a>(vx_i: &'a str, count: usize) -> (r: (&'a str, &'a str))
    requires is_bd(vx_i@, count as int)
    ensures r.0@ == vx_i@.skip(bd_ix(vx_i@, count as int)), r.1@ == vx_i@.take(bd_ix(vx_i@, count as int))
{ unimplemented!() }
//@nomfn traits.rs split_at_position_complete impl<'a>_InputTakeAtPosition_for_&'a_str_{
//@entry lemma_found(vx_i@);
//@sub self.find(predicate) ~> x_find_pred(vx_i, predicate)
//@sub unsafe ~> 
//@sub self.get_unchecked(i..) ~> x_slice_from(vx_i, i)
//@sub self.get_unchecked(..i) ~> x_slice_to(vx_i, i)
//@sub self.get_unchecked(self.len()..) ~> x_slice_from(vx_i, x_input_len(vx_i))
//@sub self.get_unchecked(..self.len()) ~> x_slice_to(vx_i, x_input_len(vx_i))
#[verifier::external_body]
pub fn split_at_position_complete<'a, P: Fn(char) -> bool, E>(vx_i: &'a str, predicate: P) -> (r: IResult<&'a str, &'a str, E>)
    requires forall|c: char| call_requires(predicate, (c,))
    ensures match prv(r) { PR::Ok(m, o) => longest(predicate, false, vx_i@, o@, m), _ => false }
{ unimplemented!() }
//@nomfn traits.rs split_at_position1_complete impl<'a>_InputTakeAtPosition_for_&'a_str_{
//@sub self.find(predicate) ~> x_find_pred(vx_i, predicate)
//@sub self.is_empty() ~> (x_input_len(vx_i) == 0)
//@sub unsafe ~> 
//@sub E::from_error_kind(self, e) ~> x_from_error_kind(vx_i, e)
//@sub self.get_unchecked(i..) ~> x_slice_from(vx_i, i)
//@sub self.get_unchecked(..i) ~> x_slice_to(vx_i, i)
//@sub self.get_unchecked(self.len()..) ~> x_slice_from(vx_i, x_input_len(vx_i))
//@sub self.get_unchecked(..self.len()) ~> x_slice_to(vx_i, x_input_len(vx_i))
//@entry lemma_found(vx_i@);
#[verifier::external_body]
pub fn split_at_position1_complete<'a, P: Fn(char) -> bool, E>(vx_i: &'a str, predicate: P, e: ErrorKind) -> (r: IResult<&'a str, &'a str, E>)
    requires forall|c: char| call_requires(predicate, (c,))
    ensures match prv(r) { PR::Ok(m, o) => o@.len() > 0 && longest(predicate, false, vx_i@, o@, m), PR::Err => vx_i@.len() == 0 || call_ensures(predicate, (vx_i@[0],), true), PR::Fail => false }
{ unimplemented!() }
/// every boundary of s
pub proof fn lemma_found(s: Seq<char>)
    ensures
        blen(s.take(0)) == 0, blen(s.take(s.len() as int)) == blen(s), s.take(s.len() as int) == s, s.len() > 0 ==> blen(s) > 0,
        forall|k: int| 0 <= k <= s.len() ==> is_bd(s, #[trigger] blen(s.take(k)) as int) && bd_ix(s, blen(s.take(k)) as int) == k && (blen(s.take(k)) == 0 ==> k == 0),
        forall|k: int| 0 <= k <= s.len() ==> #[trigger] s.take(k) + s.skip(k) == s,
{
    assert(s.take(s.len() as int) =~= s);
    reveal_with_fuel(blen, 1);
    assert forall|k: int| 0 <= k <= s.len() implies is_bd(s, #[trigger] blen(s.take(k)) as int) && bd_ix(s, blen(s.take(k)) as int) == k && (blen(s.take(k)) == 0 ==> k == 0) by { lemma_bd_unique(s, k); lemma_blen_mono(s, 0, k); }
    assert forall|k: int| 0 <= k <= s.len() implies #[trigger] s.take(k) + s.skip(k) == s by { assert(s.take(k) + s.skip(k) =~= s); }
    if s.len() > 0 { lemma_blen_mono(s, 0, s.len() as int); }
}
pub proof fn lemma_tag(s: Seq<char>, t: Seq<char>)
    ensures t.is_prefix_of(s) ==> is_bd(s, blen(t) as int) && bd_ix(s, blen(t) as int) == t.len() && s.take(t.len() as int) == t
{ if t.is_prefix_of(s) { lemma_found(s); assert(s.take(t.len() as int) =~= t); } }
pub proof fn lemma_blen_lt128(l: Seq<char>)
    requires forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i] as u32) < 128
    ensures blen(l) == l.len()
    decreases l.len()
{ if l.len() > 0 { let d = l.drop_last(); assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i] as u32) < 128 by { assert(d[i] == l[i]); } lemma_blen_lt128(d); } }
pub proof fn lemma_ci_tag(s: Seq<char>, t: Seq<char>)
    requires ci_ascii(t)
    ensures
        (forall|i: int| 0 <= i < s.len() && i < t.len() ==> lower1(#[trigger] s[i]) == lower1(t[i])) ==> (blen(s) >= blen(t) <==> ci_prefix(t, s)),
        (exists|i: int| 0 <= i < s.len() && i < t.len() && lower1(#[trigger] s[i]) != lower1(t[i])) ==> !ci_prefix(t, s),
        ci_prefix(t, s) ==> is_bd(s, blen(t) as int) && bd_ix(s, blen(t) as int) == t.len(),
{
    lemma_blen_lt128(t);
    lemma_found(s);
    assert forall|i: int| 0 <= i < s.len() && i < t.len() implies (lower1(#[trigger] s[i]) == lower1(t[i])) == (lo(s[i]) == lo(t[i])) by { axiom_lower1(s[i], t[i]); }
    lemma_blen_mono(s, 0, s.len() as int);
    if forall|i: int| 0 <= i < s.len() && i < t.len() ==> lower1(#[trigger] s[i]) == lower1(t[i]) {
        if s.len() < t.len() {
            assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i] as u32) < 128 by { assert(lo(s[i]) == lo(t[i])); }
            lemma_blen_lt128(s);
        }
    }
    if ci_prefix(t, s) {
        let a = s.take(t.len() as int);
        assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i] as u32) < 128 by { assert(lo(s[i]) == lo(t[i])); }
        lemma_blen_lt128(a);
    }
}
pub proof fn lemma_first_occ(s: Seq<char>, t: Seq<char>, index: int)
    ensures forall|k: int| first_at(s, t, k) && #[trigger] blen(s.take(k)) == index ==> is_bd(s, index) && bd_ix(s, index) == k && s == s.take(k) + s.skip(k) && t.is_prefix_of(s.skip(k)) && s.take(k).len() == k
{
    lemma_found(s);
    assert forall|k: int| first_at(s, t, k) && #[trigger] blen(s.take(k)) == index implies t.is_prefix_of(s.skip(k)) by {
        assert(s.skip(k).take(t.len() as int) =~= s.subrange(k, k + t.len()));
    }
}
pub proof fn lemma_first(s: Seq<char>)
    ensures s.len() > 0 ==> is_bd(s, ulen(s[0]) as int) && bd_ix(s, ulen(s[0]) as int) == 1
{ if s.len() > 0 { lemma_found(s); assert(s.take(1).drop_last() =~= Seq::<char>::empty()); reveal_with_fuel(blen, 2); assert(blen(s.take(1)) == ulen(s[0])); } }
pub proof fn lemma_le(s: Seq<char>)
    ensures
        at_le(s) <==> "\n"@.is_prefix_of(s) || "\r\n"@.is_prefix_of(s),
        "\n"@.is_prefix_of(s) <==> s.len() > 0 && s[0] == '\n',
        "\n"@.len() == 1, "\r\n"@.len() == 2, is_bd(s, 0), bd_ix(s, 0) == 0,
        at_le(s) ==> is_bd(s, le_len(s)) && bd_ix(s, le_len(s)) == le_len(s)
{
    reveal_strlit("\n"); reveal_strlit("\r\n");
    lemma_found(s);
    assert("\n"@ =~= seq!['\n']); assert("\r\n"@ =~= seq!['\r', '\n']);
    if s.len() > 0 { assert(s.take(1) =~= seq![s[0]]); }
    if s.len() > 1 { assert(s.take(2) =~= seq![s[0], s[1]]); }
    if at_le(s) {
        let a = s.take(le_len(s));
        assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i] as u32) < 128 by { }
        lemma_blen_lt128(a);
    }
}

// ---- texts and characters
pub struct Tag<'b> { pub t: &'b str }
pub fn tag<'b>(t: &'b str) -> (r: Tag<'b>) ensures r.t == t { Tag { t } }
impl<'a, 'b, E> Parser<&'a str, &'a str, E> for Tag<'b> {
    proof fn l_mono(&self, n: nat, k: nat) { broadcast use group_nom; }
    proof fn l_suf(&self, s: Seq<char>, r: PR<&'a str>) { broadcast use group_nom, group_suf;  }
    open spec fn req(&self, n: nat) -> bool { true }
    open spec fn out(&self, s: Seq<char>, r: PR<&'a str>) -> bool {
        match r { PR::Ok(m, o) => self.t@.is_prefix_of(s) && m == s.skip(self.t@.len() as int) && o@ == self.t@, PR::Err => !self.t@.is_prefix_of(s), PR::Fail => false } }
    //@nom bytes/complete.rs tag
    //@sub tag.input_len() ~> x_input_len(self.t)
    //@sub tag.clone() ~> self.t
    //@sub IResult<_, _, Error> ~> IResult<&'a str, &'a str, E>
    //@sub i.compare(t) ~> x_compare(i, t)
    //@sub i.take_split(tag_len) ~> take_split(i, tag_len)
    //@entry lemma_tag(vx_i@, self.t@);
    #[verifier::external_body]
    fn x_parse(&self, i: &'a str) -> (r: IResult<&'a str, &'a str, E>) { unimplemented!() }
}
/// tag_no_case for a tag of ASCII characters no other character is equal to but for case
pub struct TagNoCase<'b> { pub t: &'b str }
pub fn tag_no_case<'b>(t: &'b str) -> (r: TagNoCase<'b>) ensures r.t == t { TagNoCase { t } }
impl<'a, 'b, E> Parser<&'a str, &'a str, E> for TagNoCase<'b> {
    proof fn l_mono(&self, n: nat, k: nat) { broadcast use group_nom; }
    proof fn l_suf(&self, s: Seq<char>, r: PR<&'a str>) { broadcast use group_nom, group_suf;  }
    open spec fn req(&self, n: nat) -> bool { ci_ascii(self.t@) }
    open spec fn out(&self, s: Seq<char>, r: PR<&'a str>) -> bool {
        match r { PR::Ok(m, o) => ci_prefix(self.t@, s) && m == s.skip(self.t@.len() as int) && o@ == s.take(self.t@.len() as int), PR::Err => !ci_prefix(self.t@, s), PR::Fail => false } }
    //@nom bytes/complete.rs tag_no_case
    //@sub tag.input_len() ~> x_input_len(self.t)
    //@sub tag.clone() ~> self.t
    //@sub IResult<_, _, Error> ~> IResult<&'a str, &'a str, E>
    //@sub (i).compare_no_case(t) ~> compare_no_case(i, t)
    //@entry lemma_ci_tag(vx_i@, self.t@);
    //@sub i.take_split(tag_len) ~> take_split(i, tag_len)
    #[verifier::external_body]
    fn x_parse(&self, i: &'a str) -> (r: IResult<&'a str, &'a str, E>) { unimplemented!() }
}
pub struct TakeWhile<F> { pub f: F }
pub fn take_while<F: Fn(char) -> bool>(f: F) -> (r: TakeWhile<F>) ensures r.f == f { TakeWhile { f } }
impl<'a, E, F: Fn(char) -> bool> Parser<&'a str, &'a str, E> for TakeWhile<F> {
    proof fn l_mono(&self, n: nat, k: nat) { broadcast use group_nom; }
    proof fn l_suf(&self, s: Seq<char>, r: PR<&'a str>) { broadcast use group_nom, group_suf;  }
    open spec fn req(&self, n: nat) -> bool { forall|c: char| call_requires(self.f, (c,)) }
    open spec fn out(&self, s: Seq<char>, r: PR<&'a str>) -> bool {
        match r { PR::Ok(m, o) => longest(self.f, true, s, o@, m), _ => false } }
    //@nom bytes/complete.rs take_while
    //@sub i.split_at_position_complete(|c| !cond(c)) ~> split_at_position_complete(i, |c: char| -> (b: bool) requires call_requires(self.f, (c,)) ensures call_ensures(self.f, (c,), !b) { !(self.f)(c) })
    #[verifier::external_body]
    fn x_parse(&self, i: &'a str) -> (r: IResult<&'a str, &'a str, E>) { unimplemented!() }
}
pub struct TakeTill1<F> { pub f: F }
pub fn take_till1<F: Fn(char) -> bool>(f: F) -> (r: TakeTill1<F>) ensures r.f == f { TakeTill1 { f } }
impl<'a, E, F: Fn(char) -> bool> Parser<&'a str, &'a str, E> for TakeTill1<F> {
    proof fn l_mono(&self, n: nat, k: nat) { broadcast use group_nom; }
    proof fn l_suf(&self, s: Seq<char>, r: PR<&'a str>) { broadcast use group_nom, group_suf;  }
    open spec fn req(&self, n: nat) -> bool { forall|c: char| call_requires(self.f, (c,)) }
    open spec fn out(&self, s: Seq<char>, r: PR<&'a str>) -> bool {
        match r { PR::Ok(m, o) => o@.len() > 0 && longest(self.f, false, s, o@, m), PR::Err => s.len() == 0 || call_ensures(self.f, (s[0],), true), PR::Fail => false } }
    //@nom bytes/complete.rs take_till1
    //@sub i.split_at_position1_complete(|c| cond(c), e) ~> split_at_position1_complete(i, |c: char| -> (b: bool) requires call_requires(self.f, (c,)) ensures call_ensures(self.f, (c,), b) { (self.f)(c) }, e)
    #[verifier::external_body]
    fn x_parse(&self, i: &'a str) -> (r: IResult<&'a str, &'a str, E>) { unimplemented!() }
}
pub struct IsNot<'b> { pub t: &'b str }
pub fn is_not<'b>(t: &'b str) -> (r: IsNot<'b>) ensures r.t == t { IsNot { t } }
impl<'a, 'b, E> Parser<&'a str, &'a str, E> for IsNot<'b> {
    proof fn l_mono(&self, n: nat, k: nat) { broadcast use group_nom; }
    proof fn l_suf(&self, s: Seq<char>, r: PR<&'a str>) { broadcast use group_nom, group_suf;  }
    open spec fn req(&self, n: nat) -> bool { true }
    open spec fn out(&self, s: Seq<char>, r: PR<&'a str>) -> bool {
        match r {
            PR::Ok(m, o) => o@.len() > 0 && s == o@ + m && (forall|i: int| 0 <= i < o@.len() ==> !self.t@.contains(#[trigger] o@[i])) && (m.len() > 0 ==> self.t@.contains(m[0])),
            PR::Err => s.len() == 0 || self.t@.contains(s[0]),
            PR::Fail => false } }
    //@nom bytes/complete.rs is_not
    //@sub i.split_at_position1_complete(|c| arr.find_token(c), e) ~> split_at_position1_complete(i, |c: char| -> (b: bool) ensures b == self.t@.contains(c) { x_find_token(self.t, c) }, e)
    #[verifier::external_body]
    fn x_parse(&self, i: &'a str) -> (r: IResult<&'a str, &'a str, E>) { unimplemented!() }
}
pub struct TakeUntil<'b> { pub t: &'b str }
pub fn take_until<'b>(t: &'b str) -> (r: TakeUntil<'b>) ensures r.t == t { TakeUntil { t } }
impl<'a, 'b, E> Parser<&'a str, &'a str, E> for TakeUntil<'b> {
    proof fn l_mono(&self, n: nat, k: nat) { broadcast use group_nom; }
    proof fn l_suf(&self, s: Seq<char>, r: PR<&'a str>) { broadcast use group_nom, group_suf;  }
    open spec fn req(&self, n: nat) -> bool { true }
    open spec fn out(&self, s: Seq<char>, r: PR<&'a str>) -> bool {
        match r {
            PR::Ok(m, o) => s == o@ + m && self.t@.is_prefix_of(m) && first_at(s, self.t@, o@.len() as int),
            PR::Err => !occurs(s, self.t@),
            PR::Fail => false } }
    //@nom bytes/complete.rs take_until
    //@sub tag.clone() ~> self.t
    //@sub IResult<_, _, Error> ~> IResult<&'a str, &'a str, E>
    //@sub i.find_substring(t) ~> x_find_str(i, t)
    //@sub i.take_split(index) ~> { proof { lemma_first_occ(i@, t@, index as int); } take_split(i, index) }
    #[verifier::external_body]
    fn x_parse(&self, i: &'a str) -> (r: IResult<&'a str, &'a str, E>) { unimplemented!() }
}
pub struct Satisfy<F> { pub f: F }
pub fn satisfy<F: Fn(char) -> bool>(f: F) -> (r: Satisfy<F>) ensures r.f == f { Satisfy { f } }
impl<'a, E, F: Fn(char) -> bool> Parser<&'a str, char, E> for Satisfy<F> {
    proof fn l_mono(&self, n: nat, k: nat) { broadcast use group_nom; }
    proof fn l_suf(&self, s: Seq<char>, r: PR<char>) { broadcast use group_nom, group_suf;  }
    open spec fn req(&self, n: nat) -> bool { forall|c: char| call_requires(self.f, (c,)) }
    open spec fn out(&self, s: Seq<char>, r: PR<char>) -> bool {
        match r { PR::Ok(m, o) => s.len() > 0 && o == s[0] && m == s.skip(1) && call_ensures(self.f, (s[0],), true), PR::Err => s.len() == 0 || call_ensures(self.f, (s[0],), false), PR::Fail => false } }
    //@nom character/complete.rs satisfy
    //@sub (i).iter_elements().next().map(|t| { let c = t.as_char(); let b = cond(c); (c, b) }) ~> (match x_first(i) { Some(t) => Some({ let c = t; let b = (self.f)(c); (c, b) }), None => None })
    //@sub i.slice(c.len()..) ~> x_slice_from(i, x_len_utf8(c))
    //@entry lemma_first(vx_i@);
    #[verifier::external_body]
    fn x_parse(&self, i: &'a str) -> (r: IResult<&'a str, char, E>) { unimplemented!() }
}
//@nomfn character/complete.rs line_ending
//@sub input.compare("\n") ~> x_compare(input, "\n")
//@sub input.compare("\r\n") ~> x_compare(input, "\r\n")
//@sub input.slice(1..) ~> x_slice_from(input, 1)
//@sub input.slice(2..) ~> x_slice_from(input, 2)
//@sub input.slice(0..1) ~> x_slice(input, 0, 1)
//@sub input.slice(0..2) ~> x_slice(input, 0, 2)
//@entry lemma_le(vx_i@); if at_le(vx_i@) { lemma_suf_skip(vx_i@, le_len(vx_i@)); }
#[verifier::external_body]
pub fn line_ending<'a, E: ParseError<&'a str>>(vx_i: &'a str) -> (r: IResult<&'a str, &'a str, E>)
    ensures shr(vx_i@, prv(r)), match prv(r) { PR::Ok(m, o) => at_le(vx_i@) && m == vx_i@.skip(le_len(vx_i@)) && o@ == vx_i@.take(le_len(vx_i@)), PR::Err => !at_le(vx_i@), PR::Fail => false }
{ unimplemented!() }
//@nomfn character/complete.rs multispace0
//@sub input.split_at_position_complete(|item| { let c = item.as_char(); ~> split_at_position_complete(input, |item: char| -> (b: bool) ensures b == !cls(3, item) { let c = item;
//@exit if let Ok((m, o)) = vx_r { lemma_longest(3, vx_i@, o@, m@); lemma_suf_post(3, vx_i@); }
#[verifier::external_body]
pub fn multispace0<'a, E: ParseError<&'a str>>(vx_i: &'a str) -> (r: IResult<&'a str, &'a str, E>)
    ensures shr(vx_i@, prv(r)), match prv(r) { PR::Ok(m, o) => m == sk_ms(vx_i@) && vx_i@ == o@ + m, _ => false }
{ unimplemented!() }
//@nomfn character/complete.rs space0
//@sub input.split_at_position_complete(|item| { let c = item.as_char(); ~> split_at_position_complete(input, |item: char| -> (b: bool) ensures b == !cls(4, item) { let c = item;
//@exit if let Ok((m, o)) = vx_r { lemma_longest(4, vx_i@, o@, m@); lemma_suf_post(4, vx_i@); }
#[verifier::external_body]
pub fn space0<'a, E: ParseError<&'a str>>(vx_i: &'a str) -> (r: IResult<&'a str, &'a str, E>)
    ensures shr(vx_i@, prv(r)), match prv(r) { PR::Ok(m, o) => m == sk_sp(vx_i@) && vx_i@ == o@ + m, _ => false }
{ unimplemented!() }
//@nomfn combinator/mod.rs eof
//@entry reveal_with_fuel(blen, 2); lemma_blen_mono(vx_i@, 0, vx_i@.len() as int);
#[verifier::external_body]
pub fn eof<'a, E: ParseError<&'a str>>(vx_i: &'a str) -> (r: IResult<&'a str, &'a str, E>)
    ensures shr(vx_i@, prv(r)), match prv(r) { PR::Ok(m, o) => vx_i@.len() == 0 && m == vx_i@ && o@ == vx_i@, PR::Err => vx_i@.len() > 0, PR::Fail => false }
{ unimplemented!() }
} // mod shim_nom

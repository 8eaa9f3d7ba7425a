// Stand-ins for std and the dependencies, with the contracts assumed about them.
// Every `external_body` here is an assumption; check.py lists them in the evidence.
pub mod shim {
#[allow(unused_imports)]
use vstd::prelude::*;
#[allow(unused_imports)]
use crate::spec::*;
#[allow(unused_imports)]
pub use crate::shim_col::*;
#[allow(unused_imports)]
pub use crate::shim_time::*;
#[allow(unused_imports)]
pub use crate::shim_nom::*;
#[allow(unused_imports)]
use crate::spec_parse::is_alnum;
pub type FmtResult = Result<(), Error>;

// ---------------------------------------------------------------- equality
/// two strings with the same characters are the same string
pub broadcast axiom fn axiom_string_ext(a: String, b: String)
    ensures #[trigger] a@ == #[trigger] b@ ==> a == b;
pub broadcast axiom fn axiom_str_ext(a: &str, b: &str)
    ensures #[trigger] a@ == #[trigger] b@ ==> a == b;
pub broadcast axiom fn axiom_vec_ext<T>(a: Vec<T>, b: Vec<T>)
    ensures #[trigger] a@ == #[trigger] b@ ==> a == b;

// ---------------------------------------------------------------- conversion traits
pub trait From<T>: Sized {
    spec fn from_rel(t: T, r: Self) -> bool;
    fn x_from(t: T) -> (r: Self) ensures Self::from_rel(t, r);
}
pub trait Into<T>: Sized {
    spec fn into_rel(self, r: T) -> bool;
    fn x_into(self) -> (r: T) ensures self.into_rel(r);
}
impl<T, U: From<T>> Into<U> for T {
    open spec fn into_rel(self, r: U) -> bool { U::from_rel(self, r) }
    fn x_into(self) -> (r: U) { U::x_from(self) }
}
pub trait TryFrom<T>: Sized {
    type Error;
    spec fn try_from_rel(t: T, r: Result<Self, Self::Error>) -> bool;
    fn x_try_from(t: T) -> (r: Result<Self, Self::Error>) ensures Self::try_from_rel(t, r);
}
pub trait TryInto<T>: Sized {
    type Error;
    spec fn try_into_rel(self, r: Result<T, Self::Error>) -> bool;
    fn x_try_into(self) -> (r: Result<T, Self::Error>) ensures self.try_into_rel(r);
}
impl<T, U: TryFrom<T>> TryInto<U> for T {
    type Error = <U as TryFrom<T>>::Error;
    open spec fn try_into_rel(self, r: Result<U, <U as TryFrom<T>>::Error>) -> bool { <U as TryFrom<T>>::try_from_rel(self, r) }
    fn x_try_into(self) -> (r: Result<U, <U as TryFrom<T>>::Error>) { <U as TryFrom<T>>::x_try_from(self) }
}
pub trait FromStr: Sized {
    type Err;
    spec fn from_str_rel(s: Seq<char>, r: Result<Self, Self::Err>) -> bool;
    fn x_from_str(s: &str) -> (r: Result<Self, Self::Err>) ensures Self::from_str_rel(s@, r);
}
pub trait Default: Sized {
    spec fn is_default(r: Self) -> bool;
    fn x_default() -> (r: Self) ensures Self::is_default(r);
}
pub trait Clone: Sized {
    fn x_clone(&self) -> (r: Self) ensures r == *self;
}
impl Clone for String {
    #[verifier::external_body]
    fn x_clone(&self) -> (r: Self) { unimplemented!() }
}
impl<T: Clone> Clone for Option<T> {
    #[verifier::external_body]
    fn x_clone(&self) -> (r: Self) { unimplemented!() }
}
impl<T: Clone> Clone for Vec<T> {
    #[verifier::external_body]
    fn x_clone(&self) -> (r: Self) { unimplemented!() }
}
pub trait XOptRef<T> { spec fn ov(&self) -> Option<T>; fn x_as_ref(&self) -> (r: Option<&T>) ensures match r { Some(x) => self.ov() == Some(*x), None => self.ov() is None }; }
impl<T> XOptRef<T> for Option<T> {
    open spec fn ov(&self) -> Option<T> { *self }
    #[verifier::external_body]
    fn x_as_ref(&self) -> (r: Option<&T>) { unimplemented!() } }
pub trait AsRef<T: ?Sized> {
    spec fn as_ref_rel(&self, r: &T) -> bool;
    fn x_as_ref(&self) -> (r: &T) ensures self.as_ref_rel(r);
}
impl Default for u32 {
    open spec fn is_default(r: Self) -> bool { r == 0 }
    fn x_default() -> (r: Self) { 0 }
}
impl Default for String {
    open spec fn is_default(r: Self) -> bool { r@ == Seq::<char>::empty() }
    #[verifier::external_body]
    fn x_default() -> (r: Self) { unimplemented!() }
}
impl<T> Default for Vec<T> {
    open spec fn is_default(r: Self) -> bool { r@ == Seq::<T>::empty() }
    #[verifier::external_body]
    fn x_default() -> (r: Self) { unimplemented!() }
}
impl<'a> From<&'a str> for String {
    open spec fn from_rel(t: &'a str, r: Self) -> bool { r@ == t@ }
    #[verifier::external_body]
    fn x_from(t: &'a str) -> (r: Self) { unimplemented!() }
}
impl<'a> From<&'a String> for String {
    open spec fn from_rel(t: &'a String, r: Self) -> bool { r@ == t@ }
    #[verifier::external_body]
    fn x_from(t: &'a String) -> (r: Self) { unimplemented!() }
}
impl<T> From<T> for T {
    open spec fn from_rel(t: T, r: Self) -> bool { r == t }
    fn x_from(t: T) -> (r: Self) { t }
}

pub mod mem {
    use vstd::prelude::*;
    use super::Default;
    #[verifier::external_body]
    pub fn take<T: Default>(x: &mut T) -> (r: T)
        ensures r == *old(x), T::is_default(*final(x)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn replace<T>(x: &mut T, y: T) -> (r: T)
        ensures r == *old(x), *final(x) == y,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn swap<T>(x: &mut T, y: &mut T)
        ensures *final(y) == *old(x), *final(x) == *old(y),
    { unimplemented!() }
}

// ---------------------------------------------------------------- formatting
#[derive(core::clone::Clone, Copy, Debug)]
pub struct Error;
pub trait Write: Sized {
    spec fn out(&self) -> Seq<char>;
    /// writing never fails
    spec fn sure() -> bool;
    fn x_write_str(&mut self, s: String) -> (r: Result<(), Error>)
        ensures Self::sure() ==> r is Ok, r is Ok ==> final(self).out() == old(self).out() + s@;
}
impl Write for String {
    open spec fn out(&self) -> Seq<char> { self@ }
    open spec fn sure() -> bool { true }
    #[verifier::external_body]
    fn x_write_str(&mut self, s: String) -> (r: Result<(), Error>)
    { unimplemented!() }
}
#[verifier::external_body]
pub struct Formatter<'a> { x: &'a u8 }
impl<'a> Write for Formatter<'a> {
    uninterp spec fn out(&self) -> Seq<char>;
    /// what a formatter writes to does not fail
    open spec fn sure() -> bool { true }
    #[verifier::external_body]
    fn x_write_str(&mut self, s: String) -> (r: Result<(), Error>)
    { unimplemented!() }
}
pub trait Display {
    /// s is what this prints
    spec fn shows(&self, s: Seq<char>) -> bool;
    fn fmt(&self, f: &mut Formatter) -> (r: FmtResult)
        ensures r is Ok, exists|s: Seq<char>| self.shows(s) && #[trigger] (old(f).out() + s) == final(f).out();
    #[verifier::external_body]
    fn x_to_string(&self) -> (r: String) ensures self.shows(r@) { unimplemented!() }
}
pub trait Deref {
    type Target: ?Sized;
    spec fn deref_rel(&self, r: &Self::Target) -> bool;
    fn deref(&self) -> (r: &Self::Target) ensures self.deref_rel(r);
}
impl<T> Deref for Vec<T> {
    type Target = [T];
    open spec fn deref_rel(&self, r: &[T]) -> bool { r@ == self@ }
    fn deref(&self) -> (r: &[T]) { self.as_slice() }
}
/// what `{}` prints
pub trait XDisp {
    spec fn disp(&self) -> Seq<char>;
    fn x_to_string(&self) -> (r: String) ensures r@ == self.disp();
}
pub fn x_disp<T: XDisp>(x: &T) -> (r: String) ensures r@ == x.disp() { x.x_to_string() }
impl XDisp for str {
    open spec fn disp(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn x_to_string(&self) -> (r: String) { unimplemented!() }
}
impl<'b> XDisp for &'b str {
    open spec fn disp(&self) -> Seq<char> { (*self)@ }
    #[verifier::external_body]
    fn x_to_string(&self) -> (r: String) { unimplemented!() }
}
impl XDisp for String {
    open spec fn disp(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn x_to_string(&self) -> (r: String) { unimplemented!() }
}
impl<'b> XDisp for &'b String {
    open spec fn disp(&self) -> Seq<char> { (*self)@ }
    #[verifier::external_body]
    fn x_to_string(&self) -> (r: String) { unimplemented!() }
}
impl XDisp for u32 {
    open spec fn disp(&self) -> Seq<char> { udec(*self as nat) }
    #[verifier::external_body]
    fn x_to_string(&self) -> (r: String) { unimplemented!() }
}
impl XDisp for u8 {
    open spec fn disp(&self) -> Seq<char> { udec(*self as nat) }
    #[verifier::external_body]
    fn x_to_string(&self) -> (r: String) { unimplemented!() }
}
impl<'a> XDisp for Cow<'a, str> {
    open spec fn disp(&self) -> Seq<char> { self.cv() }
    #[verifier::external_body]
    fn x_to_string(&self) -> (r: String) { unimplemented!() }
}
/// str::parse
pub trait XParse: Sized {
    type Err;
    spec fn parse_rel(s: Seq<char>, r: Result<Self, Self::Err>) -> bool;
    fn x_parse_from(s: &str) -> (r: Result<Self, Self::Err>) ensures Self::parse_rel(s@, r);
}
impl XParse for u32 {
    type Err = ();
    open spec fn parse_rel(s: Seq<char>, r: Result<Self, ()>) -> bool {
        match r { Ok(n) => u_of(s, u32::MAX as int) == Some(n as int), Err(_) => u_of(s, u32::MAX as int) is None } }
    #[verifier::external_body]
    fn x_parse_from(s: &str) -> (r: Result<Self, ()>) { unimplemented!() }
}
impl XParse for u8 {
    type Err = ();
    open spec fn parse_rel(s: Seq<char>, r: Result<Self, ()>) -> bool {
        match r { Ok(n) => u_of(s, u8::MAX as int) == Some(n as int), Err(_) => u_of(s, u8::MAX as int) is None } }
    #[verifier::external_body]
    fn x_parse_from(s: &str) -> (r: Result<Self, ()>) { unimplemented!() }
}
/// unary minus
/// [T]::contains for texts
pub trait XHas { spec fn texts(&self) -> Seq<Seq<char>>; fn x_contains(&self, p: &&str) -> (r: bool) ensures r == self.texts().contains((*p)@); }
impl<'b, const N: usize> XHas for [&'b str; N] { open spec fn texts(&self) -> Seq<Seq<char>> { strs(self@) }
    #[verifier::external_body] fn x_contains(&self, p: &&str) -> (r: bool) { unimplemented!() } }
pub trait XNeg: Sized { spec fn neg_rel(self, r: Self) -> bool; fn x_neg(self) -> (r: Self) ensures self.neg_rel(r); }
pub fn x_neg<T: XNeg>(x: T) -> (r: T) ensures x.neg_rel(r) { x.x_neg() }
pub fn x_min(a: u32, b: u32) -> (r: u32) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
#[verifier::external_body]
pub fn x_lit(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn x_cat(a: String, b: String) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body]
pub fn x_print() { }
#[verifier::external_body]
pub fn x_unreachable<T>() -> (r: T) requires false { unimplemented!() }

// ---------------------------------------------------------------- strings
#[verifier::external_body]
pub fn x_streq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
pub trait XEq<R: ?Sized> {
    spec fn eq_rel(&self, o: &R) -> bool;
    fn x_eq(&self, o: &R) -> (r: bool) ensures r == self.eq_rel(o);
}
pub fn x_eq<L: XEq<R>, R>(l: &L, r: &R) -> (b: bool) ensures b == l.eq_rel(r) { l.x_eq(r) }
impl<'a, 'b> XEq<&'b str> for &'a str {
    open spec fn eq_rel(&self, o: &&'b str) -> bool { (*self)@ == (*o)@ }
    #[verifier::external_body]
    fn x_eq(&self, o: &&'b str) -> (r: bool) { unimplemented!() }
}
impl<'b> XEq<&'b str> for String {
    open spec fn eq_rel(&self, o: &&'b str) -> bool { self@ == (*o)@ }
    #[verifier::external_body]
    fn x_eq(&self, o: &&'b str) -> (r: bool) { unimplemented!() }
}
impl XEq<String> for String {
    open spec fn eq_rel(&self, o: &String) -> bool { self@ == o@ }
    #[verifier::external_body]
    fn x_eq(&self, o: &String) -> (r: bool) { unimplemented!() }
}
impl<'b, 'c> XEq<&'c String> for &'b str {
    open spec fn eq_rel(&self, o: &&'c String) -> bool { (*self)@ == (*o)@ }
    #[verifier::external_body]
    fn x_eq(&self, o: &&'c String) -> (r: bool) { unimplemented!() }
}
impl<T: XEq<T>> XEq<Option<T>> for Option<T> {
    open spec fn eq_rel(&self, o: &Option<T>) -> bool { match (*self, *o) { (Some(a), Some(b)) => a.eq_rel(&b), (None, None) => true, _ => false } }
    fn x_eq(&self, o: &Option<T>) -> (r: bool) { match (self, o) { (Some(a), Some(b)) => a.x_eq(b), (None, None) => true, _ => false } }
}
impl XEq<usize> for usize {
    open spec fn eq_rel(&self, o: &usize) -> bool { *self == *o }
    fn x_eq(&self, o: &usize) -> (r: bool) { *self == *o }
}
impl XEq<char> for char {
    open spec fn eq_rel(&self, o: &char) -> bool { *self == *o }
    fn x_eq(&self, o: &char) -> (r: bool) { *self == *o }
}

/// patterns accepted by str::replace, str::contains, str::starts_with, str::strip_prefix
pub trait XPat {
    /// the pattern as a text (not for sets of characters)
    spec fn pat(&self) -> Option<Seq<char>>;
    /// it occurs in s
    spec fn occ(&self, s: Seq<char>) -> bool;
    /// it occurs at the start of s
    spec fn starts(&self, s: Seq<char>) -> bool;
}
impl XPat for char {
    open spec fn pat(&self) -> Option<Seq<char>> { Some(seq![*self]) }
    open spec fn occ(&self, s: Seq<char>) -> bool { s.contains(*self) }
    open spec fn starts(&self, s: Seq<char>) -> bool { s.len() > 0 && s[0] == *self }
}
impl<'b> XPat for &'b str {
    open spec fn pat(&self) -> Option<Seq<char>> { Some((*self)@) }
    open spec fn occ(&self, s: Seq<char>) -> bool { occurs(s, (*self)@) }
    open spec fn starts(&self, s: Seq<char>) -> bool { (*self)@.is_prefix_of(s) }
}
impl<const N: usize> XPat for [char; N] {
    open spec fn pat(&self) -> Option<Seq<char>> { None }
    open spec fn occ(&self, s: Seq<char>) -> bool { exists|i: int| 0 <= i < N && s.contains(#[trigger] self@[i]) }
    open spec fn starts(&self, s: Seq<char>) -> bool { s.len() > 0 && self@.contains(s[0]) }
}

pub trait XStr {
    spec fn sv(&self) -> Seq<char>;
    fn x_str(&self) -> (r: &str) ensures r@ == self.sv();
}
impl XStr for str {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn x_str(&self) -> (r: &str) { unimplemented!() }
}
impl XStr for String {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn x_str(&self) -> (r: &str) { unimplemented!() }
}
pub trait XStrOps: XStr {
    #[verifier::external_body]
    fn x_replace<P: XPat>(&self, from: P, to: &str) -> (r: String)
        ensures from.pat() is Some ==> r@ == repl(self.sv(), from.pat()->Some_0, to@)
    { unimplemented!() }
    #[verifier::external_body]
    fn x_chars(&self) -> (r: XIter<char>)
        ensures r.rem() == self.sv()
    { unimplemented!() }
    #[verifier::external_body]
    fn x_to_lowercase(&self) -> (r: String)
        ensures r@ == lowered(self.sv())
    { unimplemented!() }
    #[verifier::external_body]
    fn x_is_char_boundary(&self, p: usize) -> (r: bool)
        ensures r == is_bd(self.sv(), p as int)
    { unimplemented!() }
    #[verifier::external_body]
    fn x_contains<P: XPat>(&self, p: P) -> (r: bool)
        ensures r == p.occ(self.sv())
    { unimplemented!() }
    /// str::split by a non-empty pattern
    #[verifier::external_body]
    fn x_split<'a>(&'a self, p: &str) -> (r: XIter<&'a str>)
        ensures p@.len() > 0 ==> strs(r.rem()) == splits(self.sv(), p@)
    { unimplemented!() }
    #[verifier::external_body]
    fn x_as_str(&self) -> (r: &str)
        ensures r@ == self.sv()
    { unimplemented!() }
    #[verifier::external_body]
    fn x_parse<T: XParse>(&self) -> (r: Result<T, T::Err>)
        ensures T::parse_rel(self.sv(), r)
    { unimplemented!() }
    #[verifier::external_body]
    fn x_starts_with<P: XPat>(&self, p: P) -> (r: bool)
        ensures r == p.starts(self.sv())
    { unimplemented!() }
    #[verifier::external_body]
    fn x_strip_prefix<'a, P: XPat>(&'a self, p: P) -> (r: Option<&'a str>)
        requires p.pat() is Some
        ensures match r {
            Some(x) => p.starts(self.sv()) && x@ == self.sv().skip(p.pat()->Some_0.len() as int),
            None => !p.starts(self.sv()) }
    { unimplemented!() }
}
pub trait XOwnStr { fn x_to_owned(&self) -> String; }
impl XOwnStr for str {
    #[verifier::external_body]
    fn x_to_owned(&self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}
pub trait XOwn: Clone { fn x_to_owned(&self) -> (r: Self) ensures r == *self; }
impl<T: Clone> XOwn for T { fn x_to_owned(&self) -> (r: Self) { self.x_clone() } }
impl XStrOps for str {}
impl XStrOps for String {}

#[verifier::external_body]
pub fn x_slice<'a>(s: &'a str, a: usize, b: usize) -> (r: &'a str)
    requires a <= b, is_bd(s@, a as int), is_bd(s@, b as int),
    ensures r@ == s@.subrange(bd_ix(s@, a as int), bd_ix(s@, b as int)),
{ unimplemented!() }
#[verifier::external_body]
pub fn x_slice_from<'a>(s: &'a str, a: usize) -> (r: &'a str)
    requires is_bd(s@, a as int),
    ensures r@ == s@.skip(bd_ix(s@, a as int)),
{ unimplemented!() }
#[verifier::external_body]
pub fn x_string_with_capacity(n: usize) -> (r: String) ensures r@.len() == 0 { unimplemented!() }
#[verifier::external_body]
pub fn x_string_new() -> (r: String) ensures r@.len() == 0 { unimplemented!() }

pub trait XLen { spec fn lenv(&self) -> nat; fn x_len(&self) -> (r: usize) ensures r == self.lenv(); }
impl XLen for str { open spec fn lenv(&self) -> nat { blen(self@) }
    #[verifier::external_body] fn x_len(&self) -> (r: usize) ensures r <= isize::MAX { unimplemented!() } }
impl XLen for String { open spec fn lenv(&self) -> nat { blen(self@) }
    #[verifier::external_body] fn x_len(&self) -> (r: usize) ensures r <= isize::MAX { unimplemented!() } }
impl<T> XLen for Vec<T> { open spec fn lenv(&self) -> nat { self@.len() }
    fn x_len(&self) -> (r: usize) { self.len() } }
pub trait XIsEmpty { spec fn emptyv(&self) -> bool; fn x_is_empty(&self) -> (r: bool) ensures r == self.emptyv(); }
impl XIsEmpty for str { open spec fn emptyv(&self) -> bool { self@.len() == 0 }
    #[verifier::external_body] fn x_is_empty(&self) -> (r: bool) { unimplemented!() } }
impl XIsEmpty for String { open spec fn emptyv(&self) -> bool { self@.len() == 0 }
    #[verifier::external_body] fn x_is_empty(&self) -> (r: bool) { unimplemented!() } }
impl<T> XIsEmpty for Vec<T> { open spec fn emptyv(&self) -> bool { self@.len() == 0 }
    fn x_is_empty(&self) -> (r: bool) { self.len() == 0 } }

pub trait XPush<T> {
    spec fn pushed(&self, x: T, r: &Self) -> bool;
    fn x_push(&mut self, x: T) ensures old(self).pushed(x, &*final(self));
}
impl XPush<char> for String {
    open spec fn pushed(&self, x: char, r: &Self) -> bool { r@ == self@.push(x) }
    #[verifier::external_body] fn x_push(&mut self, x: char) { unimplemented!() }
}
impl<T> XPush<T> for Vec<T> {
    open spec fn pushed(&self, x: T, r: &Self) -> bool { r@ == self@.push(x) }
    fn x_push(&mut self, x: T) { self.push(x); assert(forall|a: Self, x: T, b: Self| #[trigger] <Self as XPush<T>>::pushed(&a, x, &b) == <Self as XPush<T>>::pushed(&a, x, &b)); }
}
pub trait XPushStr { fn x_push_str(&mut self, s: &str); }
impl XPushStr for String {
    #[verifier::external_body] fn x_push_str(&mut self, s: &str) ensures final(self)@ == old(self)@ + s@ { unimplemented!() }
}

// characters
pub trait XChar: Sized { spec fn alnum(self) -> bool; fn x_is_alphanumeric(self) -> (r: bool) ensures r == self.alnum(); }
impl XChar for char { open spec fn alnum(self) -> bool { is_alnum(self) }
    #[verifier::external_body] fn x_is_alphanumeric(self) -> (r: bool) { unimplemented!() } }
#[verifier::external_body]
pub fn x_is_lowercase(c: char) -> (r: bool) ensures r == is_lower(c) { c.is_lowercase() }
#[verifier::external_body]
pub fn x_is_whitespace(c: char) -> (r: bool) { c.is_whitespace() }

// ---------------------------------------------------------------- iterators
/// a consuming iterator; `rem` is what it has yet to yield
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct XIter<T> { v: Vec<T> }
/// the texts of a sequence of string slices
pub open spec fn strs(s: Seq<&str>) -> Seq<Seq<char>> { s.map_values(|x: &str| x@) }
pub open spec fn flatten<T>(s: Seq<Seq<T>>) -> Seq<T> decreases s.len() {
    if s.len() == 0 { seq![] } else { s[0] + flatten(s.skip(1)) }
}
pub trait FromIterator<A>: Sized {
    spec fn from_iter_rel(s: Seq<A>, r: Self) -> bool;
    fn x_from_iter<T: XIntoIter<Item = A>>(iter: T) -> (r: Self) ensures Self::from_iter_rel(iter.items(), r);
}
impl<'a> FromIterator<&'a str> for String {
    open spec fn from_iter_rel(s: Seq<&'a str>, r: Self) -> bool { r@ == concat(strs(s)) }
    #[verifier::external_body]
    fn x_from_iter<T: XIntoIter<Item = &'a str>>(iter: T) -> (r: Self) { unimplemented!() }
}
impl<A> FromIterator<A> for Vec<A> {
    open spec fn from_iter_rel(s: Seq<A>, r: Self) -> bool { r@ == s }
    #[verifier::external_body]
    fn x_from_iter<T: XIntoIter<Item = A>>(iter: T) -> (r: Self) { unimplemented!() }
}
impl<T> XIter<T> {
    pub fn collect<C: FromIterator<T>>(self) -> (r: C) ensures C::from_iter_rel(self.rem(), r) { assert(self.items() == self.rem()); C::x_from_iter(self) }
    /// the first one the condition holds of
    #[verifier::external_body]
    pub fn find<F: Fn(&T) -> bool>(&mut self, f: F) -> (r: Option<T>)
        requires forall|i: int| 0 <= i < old(self).rem().len() ==> f.requires((&#[trigger] old(self).rem()[i],)),
        ensures match r {
            Some(x) => exists|i: int| 0 <= i < old(self).rem().len() && x == #[trigger] old(self).rem()[i] && f.ensures((&old(self).rem()[i],), true)
                && forall|j: int| 0 <= j < i ==> f.ensures((&#[trigger] old(self).rem()[j],), false),
            None => forall|i: int| 0 <= i < old(self).rem().len() ==> f.ensures((&#[trigger] old(self).rem()[i],), false),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: XIter<U>)
        requires forall|i: int| 0 <= i < self.rem().len() ==> f.requires((#[trigger] self.rem()[i],)),
        ensures r.rem().len() == self.rem().len(),
            forall|i: int| 0 <= i < self.rem().len() ==> f.ensures((self.rem()[i],), #[trigger] r.rem()[i]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn flat_map<U, F: Fn(T) -> XIter<U>>(self, f: F) -> (r: XIter<U>)
        requires forall|i: int| 0 <= i < self.rem().len() ==> f.requires((#[trigger] self.rem()[i],)),
        ensures exists|ps: Seq<XIter<U>>| #[trigger] flat_of(ps) == r.rem() && ps.len() == self.rem().len()
            && forall|i: int| 0 <= i < ps.len() ==> f.ensures((self.rem()[i],), #[trigger] ps[i]),
    { unimplemented!() }
    /// those the condition holds of
    #[verifier::external_body]
    pub fn filter<F: Fn(&T) -> bool>(self, f: F) -> (r: XIter<T>)
        requires forall|i: int| 0 <= i < self.rem().len() ==> f.requires((&#[trigger] self.rem()[i],)),
        ensures exists|keep: Seq<bool>| r.rem() == #[trigger] sift(self.rem(), keep) && keep.len() == self.rem().len()
            && forall|i: int| 0 <= i < keep.len() ==> f.ensures((&self.rem()[i],), #[trigger] keep[i]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn any<F: Fn(T) -> bool>(&mut self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < old(self).rem().len() ==> f.requires((#[trigger] old(self).rem()[i],)),
        ensures r ==> exists|i: int| 0 <= i < old(self).rem().len() && f.ensures((#[trigger] old(self).rem()[i],), true),
            !r ==> forall|i: int| 0 <= i < old(self).rem().len() ==> f.ensures((#[trigger] old(self).rem()[i],), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn all<F: Fn(T) -> bool>(&mut self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < old(self).rem().len() ==> f.requires((#[trigger] old(self).rem()[i],)),
        ensures !r ==> exists|i: int| 0 <= i < old(self).rem().len() && f.ensures((#[trigger] old(self).rem()[i],), false),
            r ==> forall|i: int| 0 <= i < old(self).rem().len() ==> f.ensures((#[trigger] old(self).rem()[i],), true),
    { unimplemented!() }
    pub uninterp spec fn rem(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures match r {
            Some(x) => old(self).rem().len() > 0 && x == old(self).rem()[0] && final(self).rem() == old(self).rem().skip(1),
            None => old(self).rem().len() == 0 && final(self).rem() == old(self).rem(),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn x_has_next(&self) -> (r: bool) ensures r == (self.rem().len() > 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn x_take_next(&mut self) -> (r: T)
        requires old(self).rem().len() > 0
        ensures r == old(self).rem()[0], final(self).rem() == old(self).rem().skip(1)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn nth(&mut self, n: usize) -> (r: Option<T>)
        ensures match r {
            Some(x) => n < old(self).rem().len() && x == old(self).rem()[n as int] && final(self).rem() == old(self).rem().skip(n + 1),
            None => n >= old(self).rem().len(),
        }
    { unimplemented!() }
}
pub open spec fn sift<T>(s: Seq<T>, keep: Seq<bool>) -> Seq<T> decreases s.len() {
    if s.len() == 0 || keep.len() != s.len() { Seq::empty() }
    else if keep.last() { sift(s.drop_last(), keep.drop_last()).push(s.last()) }
    else { sift(s.drop_last(), keep.drop_last()) }
}
pub open spec fn flat_of<U>(ps: Seq<XIter<U>>) -> Seq<U> { flatten(ps.map_values(|x: XIter<U>| x.rem())) }
pub trait XIntoIter { type Item; spec fn items(self) -> Seq<Self::Item>; fn x_ii(self) -> (r: XIter<Self::Item>) ensures r.rem() == self.items(); }
pub fn x_into_iter<C: XIntoIter>(c: C) -> (r: XIter<C::Item>) ensures r.rem() == c.items() { c.x_ii() }
impl<T> XIntoIter for XIter<T> { type Item = T; open spec fn items(self) -> Seq<T> { self.rem() } fn x_ii(self) -> (r: XIter<T>) { self } }
impl<T> XIntoIter for Vec<T> { type Item = T; open spec fn items(self) -> Seq<T> { self@ }
    #[verifier::external_body] fn x_ii(self) -> (r: XIter<T>) { unimplemented!() } }
impl<'a, T> XIntoIter for &'a Vec<T> { type Item = &'a T; open spec fn items(self) -> Seq<&'a T> { refs(self@) }
    #[verifier::external_body] fn x_ii(self) -> (r: XIter<&'a T>) { unimplemented!() } }
impl<'a, T> XIntoIter for &'a [T] { type Item = &'a T; open spec fn items(self) -> Seq<&'a T> { refs(self@) }
    #[verifier::external_body] fn x_ii(self) -> (r: XIter<&'a T>) { unimplemented!() } }
impl<T, const N: usize> XIntoIter for [T; N] { type Item = T; open spec fn items(self) -> Seq<T> { self@ }
    #[verifier::external_body] fn x_ii(self) -> (r: XIter<T>) { unimplemented!() } }
pub trait XIterRef<T> { spec fn elems(&self) -> Seq<T>; fn x_iter<'a>(&'a self) -> (r: XIter<&'a T>) ensures r.rem() == refs(self.elems()); }
impl<T> XIterRef<T> for Vec<T> { open spec fn elems(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn x_iter<'a>(&'a self) -> (r: XIter<&'a T>) { unimplemented!() } }
impl<T> XIterRef<T> for [T] { open spec fn elems(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn x_iter<'a>(&'a self) -> (r: XIter<&'a T>) { unimplemented!() } }
impl<T, const N: usize> XIterRef<T> for [T; N] { open spec fn elems(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn x_iter<'a>(&'a self) -> (r: XIter<&'a T>) { unimplemented!() } }
pub trait XExtend<T> { spec fn elems0(&self) -> Seq<T>; fn x_extend(&mut self, it: XIter<T>) ensures final(self).elems0() == old(self).elems0() + it.rem(); }
impl<T> XExtend<T> for Vec<T> { open spec fn elems0(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn x_extend(&mut self, it: XIter<T>) { unimplemented!() } }
/// Iterator::flatten over lists
impl<'a, T> XIter<&'a Vec<T>> {
    #[verifier::external_body]
    pub fn flatten(self) -> (r: XIter<&'a T>) ensures r.rem() == lists(self.rem()) { unimplemented!() }
}
pub open spec fn lists<'a, T>(s: Seq<&'a Vec<T>>) -> Seq<&'a T> { flatten(s.map_values(|v: &'a Vec<T>| refs(v@))) }

pub assume_specification<T, F: FnOnce() -> Option<T>>[ Option::<T>::or_else ](o: Option<T>, f: F) -> (r: Option<T>)
    requires o is None ==> f.requires(()),
    ensures o is Some ==> r == o, o is None ==> f.ensures((), r);
pub assume_specification<T, F: FnOnce(&T) -> bool>[ Option::<T>::filter ](o: Option<T>, f: F) -> (r: Option<T>)
    requires o is Some ==> f.requires((&o->Some_0,)),
    ensures o is None ==> r is None, r is Some ==> r == o && f.ensures((&o->Some_0,), true), o is Some && r is None ==> f.ensures((&o->Some_0,), false);
pub assume_specification<T, F: FnOnce(T) -> bool>[ Option::<T>::is_some_and ](o: Option<T>, f: F) -> (r: bool)
    requires o is Some ==> f.requires((o->Some_0,)),
    ensures o is None ==> !r, o is Some ==> f.ensures((o->Some_0,), r);
pub assume_specification<T>[ Option::<T>::xor ](o: Option<T>, p: Option<T>) -> (r: Option<T>)
    ensures r == (if o is Some && p is None { o } else if o is None && p is Some { p } else { None });
pub assume_specification<T>[ Option::<T>::or ](o: Option<T>, p: Option<T>) -> (r: Option<T>)
    ensures r == (if o is Some { o } else { p });

} // mod shim

// Maps, borrowed strings.
pub mod shim_col {
#[allow(unused_imports)]
use vstd::prelude::*;
#[allow(unused_imports)]
use crate::spec::*;
#[allow(unused_imports)]
use crate::shim::{Default, Clone, XIter, XStr, XStrOps, XOwnStr, XLen, XIntoIter, AsRef};

// ---------------------------------------------------------------- maps keyed by String
/// the order in which a BTreeMap yields its keys: a function of the set of keys
pub uninterp spec fn key_order(ks: Set<Seq<char>>) -> Seq<Seq<char>>;
pub broadcast axiom fn axiom_key_order(ks: Set<Seq<char>>)
    requires ks.finite()
    ensures is_order(#[trigger] key_order(ks), ks);
/// every key exactly once
pub open spec fn is_order(o: Seq<Seq<char>>, ks: Set<Seq<char>>) -> bool {
    o.no_duplicates() && o.to_set() == ks
}

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct BTreeMap<K, V> { k: Vec<K>, v: Vec<V> }
impl<V> View for BTreeMap<String, V> { type V = Map<Seq<char>, V>; uninterp spec fn view(&self) -> Map<Seq<char>, V>; }
impl<V> BTreeMap<String, V> {
    pub open spec fn order(&self) -> Seq<Seq<char>> { key_order(self@.dom()) }
}
pub broadcast axiom fn axiom_btree_finite<V>(m: BTreeMap<String, V>)
    ensures (#[trigger] m@).dom().finite();
pub broadcast axiom fn axiom_btree_ext<V>(a: BTreeMap<String, V>, b: BTreeMap<String, V>)
    ensures #[trigger] a@ == #[trigger] b@ ==> a == b;

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { k: Vec<K>, v: Vec<V> }
impl<V> View for HashMap<String, V> { type V = Map<Seq<char>, V>; uninterp spec fn view(&self) -> Map<Seq<char>, V>; }
impl<V> HashMap<String, V> {
    /// the order in which this map yields its keys: any, and not the same for equal maps
    pub uninterp spec fn order(&self) -> Seq<Seq<char>>;
}
pub broadcast axiom fn axiom_hash_order<V>(m: HashMap<String, V>)
    ensures is_order(#[trigger] m.order(), m@.dom()), m@.dom().finite();

/// the references an iterator over s yields
pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { s.map_values(|x: T| &x) }
pub open spec fn vals<V>(o: Seq<Seq<char>>, m: Map<Seq<char>, V>) -> Seq<V> {
    o.map_values(|k: Seq<char>| m[k])
}

impl<V> Default for BTreeMap<String, V> {
    open spec fn is_default(r: Self) -> bool { r@ == Map::<Seq<char>, V>::empty() }
    #[verifier::external_body]
    fn x_default() -> (r: Self) { unimplemented!() }
}
impl<V> Default for HashMap<String, V> {
    open spec fn is_default(r: Self) -> bool { r@ == Map::<Seq<char>, V>::empty() }
    #[verifier::external_body]
    fn x_default() -> (r: Self) { unimplemented!() }
}
impl<K, V: Clone> Clone for BTreeMap<K, V> {
    #[verifier::external_body]
    fn x_clone(&self) -> (r: Self) { unimplemented!() }
}

macro_rules! map_api { ($t:ident) => { verus! {
impl<V> $t<String, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: XStr + ?Sized>(&self, k: &Q) -> (r: Option<&V>)
        ensures match r {
            Some(v) => self@.dom().contains(k.sv()) && *v == self@[k.sv()],
            None => !self@.dom().contains(k.sv()),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: XStr + ?Sized>(&self, k: &Q) -> (r: bool)
        ensures r == self@.dom().contains(k.sv())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k@, v)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut<Q: XStr + ?Sized>(&mut self, k: &Q) -> (r: Option<&mut V>)
        ensures match r {
            Some(v) => old(self)@.dom().contains(k.sv()) && *v == old(self)@[k.sv()] && final(self)@ == old(self)@.insert(k.sv(), *final(v)),
            None => !old(self)@.dom().contains(k.sv()) && final(self)@ == old(self)@,
        }
    { unimplemented!() }
    /// entry(k).or_insert(d)
    #[verifier::external_body]
    pub fn x_entry_or(&mut self, k: String, d: V) -> (r: &mut V)
        ensures *r == (if old(self)@.dom().contains(k@) { old(self)@[k@] } else { d }),
            final(self)@ == old(self)@.insert(k@, *final(r)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn values(&self) -> (r: XIter<&V>)
        ensures r.rem() == refs(vals(self.order(), self@))
    { unimplemented!() }
}
} } }
map_api!(BTreeMap);
map_api!(HashMap);

// ---------------------------------------------------------------- Cow
/// the last pair of a key counts
pub open spec fn map_of<V>(s: Seq<(String, V)>) -> Map<Seq<char>, V> decreases s.len() {
    if s.len() == 0 { Map::empty() } else { map_of(s.drop_last()).insert(s.last().0@, s.last().1) }
}
impl<V> crate::shim::FromIterator<(String, V)> for HashMap<String, V> {
    open spec fn from_iter_rel(s: Seq<(String, V)>, r: Self) -> bool { r@ == map_of(s) }
    #[verifier::external_body]
    fn x_from_iter<T: crate::shim::XIntoIter<Item = (String, V)>>(iter: T) -> (r: Self) { unimplemented!() }
}
impl<V> crate::shim::FromIterator<(String, V)> for BTreeMap<String, V> {
    open spec fn from_iter_rel(s: Seq<(String, V)>, r: Self) -> bool { r@ == map_of(s) }
    #[verifier::external_body]
    fn x_from_iter<T: crate::shim::XIntoIter<Item = (String, V)>>(iter: T) -> (r: Self) { unimplemented!() }
}
pub trait XToOwned { type Owned; spec fn bv(&self) -> Seq<char>; spec fn ov(o: Self::Owned) -> Seq<char>; }
impl XToOwned for str { type Owned = String; open spec fn bv(&self) -> Seq<char> { self@ } open spec fn ov(o: String) -> Seq<char> { o@ } }
pub enum Cow<'a, B: XToOwned + ?Sized> { Borrowed(&'a B), Owned(B::Owned) }
impl<'a> Cow<'a, str> {
    pub open spec fn cv(&self) -> Seq<char> { match self { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ } }
    pub fn into_owned(self) -> (r: String) ensures r@ == self.cv() { match self { Cow::Borrowed(s) => s.x_to_owned(), Cow::Owned(s) => s } }
}
impl<'a> XStr for Cow<'a, str> {
    open spec fn sv(&self) -> Seq<char> { self.cv() }
    #[verifier::external_body]
    fn x_str(&self) -> (r: &str) { unimplemented!() }
}
impl<'a> XStrOps for Cow<'a, str> {}
impl<'a> XLen for Cow<'a, str> { open spec fn lenv(&self) -> nat { blen(self.cv()) }
    #[verifier::external_body] fn x_len(&self) -> (r: usize) ensures r <= isize::MAX { unimplemented!() } }
impl<'a> AsRef<str> for Cow<'a, str> {
    open spec fn as_ref_rel(&self, r: &str) -> bool { r@ == self.cv() }
    #[verifier::external_body]
    fn x_as_ref(&self) -> (r: &str) { unimplemented!() }
}
impl<'a> Clone for Cow<'a, str> {
    #[verifier::external_body]
    fn x_clone(&self) -> (r: Self) { unimplemented!() }
}
} // mod shim_col

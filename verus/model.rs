// What the values of the crate's types mean.
pub mod model {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::spec::*;
#[allow(unused_imports)] use crate::shim::*;
#[allow(unused_imports)] pub use crate::lemma_text::*;
#[allow(unused_imports)] pub use crate::lemma_values::*;
#[allow(unused_imports)] pub use crate::lemma_comp::*;
#[allow(unused_imports)] pub use crate::lemma_out::*;
#[allow(unused_imports)] pub use crate::lemma_alarm::*;
#[allow(unused_imports)] pub use crate::lemma_cal::*;
#[allow(unused_imports)] pub use crate::spec_parse::*;
#[allow(unused_imports)] pub use crate::lemma_parse::*;
#[allow(unused_imports)] pub use crate::lemma_tree::*;
#[allow(unused_imports)] pub use crate::lemma_body::*;
#[allow(unused_imports)] pub use crate::lemma_round::*;
#[allow(unused_imports)] pub use crate::lemma_trip::*;
#[allow(unused_imports)] pub use crate::lemma_again::*;
#[allow(unused_imports)] pub use crate::lemma_lines::*;
#[allow(unused_imports)] pub use crate::lemma_hist::*;
#[allow(unused_imports)] pub use crate::lemma_zone::*;
use crate::parser::parsed_string::ParseString;
use crate::properties::*;
use crate::value_types::ValueType;

impl<'a> ParseString<'a> {
    pub open spec fn sv(&self) -> Seq<char> { self.0.cv() }
}

// ---------------------------------------------------------------- properties
pub ghost struct ParV { pub key: Seq<char>, pub val: Seq<char> }
pub ghost struct PropV { pub key: Seq<char>, pub val: Seq<char>, pub params: Map<Seq<char>, ParV> }
impl Parameter {
    pub open spec fn v(&self) -> ParV { ParV { key: self.key@, val: self.val@ } }
}
pub open spec fn pmap(m: Map<Seq<char>, Parameter>) -> Map<Seq<char>, ParV> { m.map_values(|p: Parameter| p.v()) }
impl Property {
    pub open spec fn v(&self) -> PropV { PropV { key: self.key@, val: self.val@, params: pmap(self.params@) } }
}
pub open spec fn prop0(k: Seq<char>, v: Seq<char>) -> PropV { PropV { key: k, val: v, params: Map::empty() } }
pub broadcast proof fn lemma_pmap_empty()
    ensures #[trigger] pmap(Map::empty()) == Map::<Seq<char>, ParV>::empty()
{ assert(pmap(Map::empty()) =~= Map::<Seq<char>, ParV>::empty()); }
pub broadcast proof fn lemma_v_empty(p: Property)
    ensures p.params@ == Map::<Seq<char>, Parameter>::empty() ==> (#[trigger] p.v()).params == Map::<Seq<char>, ParV>::empty()
{}
pub broadcast proof fn lemma_pmap_insert(m: Map<Seq<char>, Parameter>, k: Seq<char>, p: Parameter)
    ensures #[trigger] pmap(m.insert(k, p)) == pmap(m).insert(k, p.v())
{ assert(pmap(m.insert(k, p)) =~= pmap(m).insert(k, p.v())); }
/// value type of a property: what VALUE names, else the default of the name
pub open spec fn vt_of(p: PropV) -> Option<ValueType> {
    let vp = "VALUE"@;
    if p.params.dom().contains(vp) && vt_name_of(p.params[vp].val) is Some { vt_name_of(p.params[vp].val) }
    else { vt_default(p.key) }
}
/// the parameters of a content line
pub open spec fn ptext(ps: Seq<ParV>) -> Seq<char> decreases ps.len() {
    if ps.len() == 0 { seq![] } else { ptext(ps.drop_last()) + (seq![';'] + ps.last().key + seq!['='] + quoted(ps.last().val)) }
}
/// the value of a property as written
pub open spec fn vtext(p: PropV) -> Seq<char> { if vt_of(p) == Some(ValueType::Text) { esc(p.val) } else { p.val } }
/// l is the unfolded content line of p: every parameter once, in some order
pub open spec fn line_in(p: PropV, o: Seq<Seq<char>>) -> Seq<char> { p.key + ptext(vals(o, p.params)) + seq![':'] + vtext(p) }
pub open spec fn is_line(p: PropV, l: Seq<char>) -> bool { exists|o: Seq<Seq<char>>| is_order(o, p.params.dom()) && l == #[trigger] line_in(p, o) }
pub open spec fn crlf() -> Seq<char> { seq!['\r', '\n'] }
/// s is what p is written as
pub open spec fn written(p: PropV, s: Seq<char>) -> bool {
    exists|l: Seq<char>, f: Seq<char>| is_line(p, l) && #[trigger] folded(l, f) && s == f + crlf()
}
pub broadcast group group_model { axiom_fmt_excl, axiom_tz_name, axiom_tz_of, axiom_string_ext, axiom_str_ext, lemma_pmap_empty, lemma_v_empty, lemma_pmap_insert, lemma_holds_empty, lemma_holds_put, lemma_csv }
} // mod model

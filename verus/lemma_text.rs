// lemmas that connect library calls and specification functions
pub mod lemma_text {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::spec::*;
#[allow(unused_imports)] use crate::shim::*;

pub proof fn lemma_unf_all_add(a: Seq<Seq<char>>, b: Seq<Seq<char>>, k: int)
    ensures unf_all(a + b, k) == unf_all(a, k) + unf_all(b, k)
    decreases a.len()
{
    if a.len() == 0 {
        assert(a + b =~= b);
        assert(unf_all(a, k) =~= Seq::<char>::empty());
        assert(Seq::<char>::empty() + unf_all(b, k) =~= unf_all(b, k));
    } else {
        let t = a.skip(1);
        assert(a =~= seq![a[0]] + t);
        assert(a + b =~= seq![a[0]] + (t + b));
        lemma_unf_all_cons(a[0], t + b, k);
        lemma_unf_all_cons(a[0], t, k);
        lemma_unf_all_add(t, b, k);
        assert(unf_from(a[0], k) + (unf_all(t, k) + unf_all(b, k)) =~= (unf_from(a[0], k) + unf_all(t, k)) + unf_all(b, k));
    }
}
pub open spec fn layer_of(ss: Seq<&str>, out: Seq<&str>, ps: Seq<XIter<&str>>, k: int) -> bool {
    flat_of(ps) == out && ps.len() == ss.len() && forall|i: int| 0 <= i < ps.len() ==> strs((#[trigger] ps[i]).rem()) == splits(ss[i]@, fold_pat(k))
}
proof fn lemma_flat_layer_ps(ss: Seq<&str>, ps: Seq<XIter<&str>>, k: int)
    requires 0 <= k < 4, layer_of(ss, flat_of(ps), ps, k)
    ensures unf_all(strs(flat_of(ps)), k + 1) == unf_all(strs(ss), k)
    decreases ss.len()
{
    let f = |x: XIter<&str>| x.rem();
    let g = ps.map_values(f);
    if ss.len() == 0 {
        assert(flat_of(ps) =~= Seq::<&str>::empty());
        assert(strs(flat_of(ps)) =~= strs(ss));
        assert(strs(ss) =~= Seq::<Seq<char>>::empty());
        assert(unf_all(strs(ss), k) =~= Seq::<char>::empty());
        assert(unf_all(strs(ss), k + 1) =~= Seq::<char>::empty());
    } else {
        let (s1, p1) = (ss.skip(1), ps.skip(1));
        assert(p1.map_values(f) =~= g.skip(1));
        assert(flat_of(ps) == ps[0].rem() + flat_of(p1));
        assert(strs(flat_of(ps)) =~= strs(ps[0].rem()) + strs(flat_of(p1)));
        assert forall|i: int| 0 <= i < p1.len() implies strs((#[trigger] p1[i]).rem()) == splits(s1[i]@, fold_pat(k)) by { assert(p1[i] == ps[i + 1]); }
        lemma_flat_layer_ps(s1, p1, k);
        lemma_unf_all_add(strs(ps[0].rem()), strs(flat_of(p1)), k + 1);
        lemma_unf_layer(ss[0]@, k);
        assert(strs(ss) =~= seq![ss[0]@] + strs(s1));
        lemma_unf_all_cons(ss[0]@, strs(s1), k);
    }
}
pub proof fn lemma_flat_layer(ss: Seq<&str>, out: Seq<&str>, k: int)
    requires 0 <= k < 4, exists|ps: Seq<XIter<&str>>| #![trigger flat_of(ps)] layer_of(ss, out, ps, k)
    ensures unf_all(strs(out), k + 1) == unf_all(strs(ss), k)
{
    let ps = choose|ps: Seq<XIter<&str>>| #![trigger flat_of(ps)] layer_of(ss, out, ps, k);
    lemma_flat_layer_ps(ss, ps, k);
}
/// after the last layer nothing is removed
proof fn lemma_unf4(s: Seq<char>)
    ensures unf_from(s, 4) == s
    decreases s.len()
{
    if s.len() > 0 { lemma_unf4(s.skip(1)); assert(seq![s[0]] + s.skip(1) =~= s); }
}
pub proof fn lemma_unf_last(ss: Seq<Seq<char>>)
    ensures unf_all(ss, 4) == concat(ss)
{
    assert forall|i: int| 0 <= i < ss.len() implies #[trigger] unf_from(ss[i], 4) == ss[i] by { lemma_unf4(ss[i]); }
    assert(ss.map_values(|x: Seq<char>| unf_from(x, 4)) =~= ss);
}
} // mod lemma_text

// Specification functions: what the properties mean, independent of the code.
pub mod spec {
#[allow(unused_imports)]
use vstd::prelude::*;

// ------------------------------------------------------------ UTF-8 lengths
pub open spec fn ulen(c: char) -> nat {
    let u = c as u32;
    if u < 0x80 { 1 } else if u < 0x800 { 2 } else if u < 0x10000 { 3 } else { 4 }
}
pub open spec fn blen(s: Seq<char>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { blen(s.drop_last()) + ulen(s.last()) }
}
pub open spec fn is_bd(s: Seq<char>, p: int) -> bool {
    exists|k: int| 0 <= k <= s.len() && #[trigger] blen(s.take(k)) == p
}
pub open spec fn bd_ix(s: Seq<char>, p: int) -> int {
    choose|k: int| 0 <= k <= s.len() && #[trigger] blen(s.take(k)) == p
}
/// str::to_lowercase
pub uninterp spec fn lowered(s: Seq<char>) -> Seq<char>;
pub open spec fn low_ascii(c: char) -> char { if 'A' <= c <= 'Z' { ((c as u32 + 32) as u32) as char } else { c } }
pub axiom fn axiom_lowered_ascii(s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 0x80
    ensures lowered(s) == s.map_values(|c: char| low_ascii(c));
pub uninterp spec fn is_lower(c: char) -> bool;
pub axiom fn axiom_is_lower_ascii(c: char)
    requires (c as u32) < 0x80
    ensures is_lower(c) == ('a' <= c <= 'z');

pub proof fn lemma_blen_add(a: Seq<char>, b: Seq<char>)
    ensures blen(a + b) == blen(a) + blen(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_blen_add(a, b.drop_last());
    }
}
pub proof fn lemma_blen_mono(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= s.len()
    ensures blen(s.take(i)) + (j - i) <= blen(s.take(j)) <= blen(s.take(i)) + 4 * (j - i),
    decreases j - i
{
    if i < j {
        lemma_blen_mono(s, i, j - 1);
        assert(s.take(j).drop_last() =~= s.take(j - 1));
    }
}
pub proof fn lemma_bd_unique(s: Seq<char>, i: int)
    requires 0 <= i <= s.len()
    ensures is_bd(s, blen(s.take(i)) as int), bd_ix(s, blen(s.take(i)) as int) == i
{
    let p = blen(s.take(i)) as int;
    let k = bd_ix(s, p);
    assert(0 <= k <= s.len() && blen(s.take(k)) == p);
    if k < i { lemma_blen_mono(s, k, i); }
    if i < k { lemma_blen_mono(s, i, k); }
}

// ------------------------------------------------------------ folding (C01)
pub open spec fn fold_sep() -> Seq<char> { seq!['\r', '\n', ' '] }
pub open spec fn join(segs: Seq<Seq<char>>) -> Seq<char> decreases segs.len() {
    if segs.len() == 0 { seq![] }
    else if segs.len() == 1 { segs[0] }
    else { join(segs.drop_last()) + fold_sep() + segs.last() }
}
/// every segment followed by a fold
pub open spec fn join_sep(segs: Seq<Seq<char>>) -> Seq<char> decreases segs.len() {
    if segs.len() == 0 { seq![] } else { join_sep(segs.drop_last()) + segs.last() + fold_sep() }
}
pub proof fn lemma_join_sep(segs: Seq<Seq<char>>)
    requires segs.len() > 0
    ensures join(segs) == join_sep(segs.drop_last()) + segs.last()
    decreases segs.len()
{
    if segs.len() == 1 {
        assert(join_sep(segs.drop_last()) =~= Seq::<char>::empty());
        assert(join(segs) =~= join_sep(segs.drop_last()) + segs.last());
    } else {
        lemma_join_sep(segs.drop_last());
        assert(join(segs) =~= join_sep(segs.drop_last()) + segs.last());
    }
}
pub open spec fn flat(segs: Seq<Seq<char>>) -> Seq<char> decreases segs.len() {
    if segs.len() == 0 { seq![] } else { flat(segs.drop_last()) + segs.last() }
}
/// segs are the physical lines of a folded content line, without fold spaces
pub open spec fn fold_segs(line: Seq<char>, r: Seq<char>, segs: Seq<Seq<char>>) -> bool {
    &&& segs.len() > 0
    &&& flat(segs) == line
    &&& join(segs) == r
    &&& forall|i: int| 0 <= i < segs.len() ==> blen(#[trigger] segs[i]) <= (if i == 0 { 75int } else { 74 })
}
pub open spec fn folded(line: Seq<char>, r: Seq<char>) -> bool {
    &&& exists|segs: Seq<Seq<char>>| fold_segs(line, r, segs)
    &&& blen(line) <= 75 ==> r == line
}

// ------------------------------------------------------------ replacing
/// str::replace for a non-empty pattern
pub open spec fn repl(s: Seq<char>, p: Seq<char>, t: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 || p.len() == 0 { s }
    else if p.is_prefix_of(s) { t + repl(s.skip(p.len() as int), p, t) }
    else { seq![s[0]] + repl(s.skip(1), p, t) }
}
pub open spec fn occurs(s: Seq<char>, p: Seq<char>) -> bool {
    exists|i: int| 0 <= i <= s.len() - p.len() && #[trigger] s.subrange(i, i + p.len()) == p
}

// ------------------------------------------------------------ TEXT escaping (C02)
pub open spec fn esc1(c: char) -> Seq<char> {
    if c == '\\' { seq!['\\', '\\'] }
    else if c == ',' { seq!['\\', ','] }
    else if c == ';' { seq!['\\', ';'] }
    else if c == '\n' { seq!['\\', 'N'] }
    else { seq![c] }
}
pub open spec fn esc(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { s } else { esc1(s[0]) + esc(s.skip(1)) }
}
pub open spec fn esc_code(c: char) -> Option<char> {
    if c == 'n' || c == 'N' { Some('\n') }
    else if c == '\\' || c == ',' || c == ';' || c == ':' { Some(c) }
    else { None }
}
pub open spec fn unesc(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { s }
    else if s[0] == '\\' && s.len() >= 2 {
        match esc_code(s[1]) {
            Some(c) => seq![c] + unesc(s.skip(2)),
            None => seq![s[0], s[1]] + unesc(s.skip(2)),
        }
    }
    else { seq![s[0]] + unesc(s.skip(1)) }
}

pub proof fn lemma_repl_add(a: Seq<char>, b: Seq<char>, c: char, t: Seq<char>)
    ensures repl(a + b, seq![c], t) == repl(a, seq![c], t) + repl(b, seq![c], t)
    decreases a.len()
{
    let p = seq![c];
    if a.len() == 0 { assert(a + b =~= b); assert(repl(a, p, t) + repl(b, p, t) =~= repl(b, p, t)); }
    else {
        assert((a + b).skip(1) =~= a.skip(1) + b);
        lemma_repl_add(a.skip(1), b, c, t);
        assert(p.is_prefix_of(a + b) <==> p.is_prefix_of(a)) by { assert((a + b)[0] == a[0]); }
        assert(repl(a + b, p, t) =~= repl(a, p, t) + repl(b, p, t));
    }
}
pub proof fn lemma_prefix1(s: Seq<char>, a: char)
    ensures seq![a].is_prefix_of(s) <==> (s.len() >= 1 && s[0] == a)
{
    if s.len() >= 1 && s[0] == a { assert(seq![a] =~= s.subrange(0, 1)); }
    if seq![a].is_prefix_of(s) { assert(s.subrange(0, 1)[0] == a); }
}
pub proof fn lemma_repl_one(x: char, c: char, t: Seq<char>)
    ensures repl(seq![x], seq![c], t) == (if x == c { t } else { seq![x] })
{
    let s = seq![x];
    assert(s.skip(1) =~= Seq::<char>::empty());
    assert(repl(s.skip(1), seq![c], t) =~= Seq::<char>::empty());
    lemma_prefix1(s, c);
    if x == c { assert(repl(s, seq![c], t) =~= t); } else { assert(repl(s, seq![c], t) =~= s); }
}
pub open spec fn esc4(s: Seq<char>) -> Seq<char> {
    repl(repl(repl(repl(s, seq!['\\'], seq!['\\', '\\']), seq![','], seq!['\\', ',']), seq![';'], seq!['\\', ';']), seq!['\n'], seq!['\\', 'N'])
}
pub proof fn lemma_esc4(s: Seq<char>)
    ensures esc4(s) == esc(s)
    decreases s.len()
{
    let (b, k, m, n) = ('\\', ',', ';', '\n');
    let (tb, tk, tm, tn) = (seq!['\\', '\\'], seq!['\\', ','], seq!['\\', ';'], seq!['\\', 'N']);
    if s.len() > 0 {
        lemma_esc4(s.skip(1));
        let h = seq![s[0]];
        let r = s.skip(1);
        assert(s =~= h + r);
        lemma_repl_add(h, r, b, tb);
        let (h1, r1) = (repl(h, seq![b], tb), repl(r, seq![b], tb));
        lemma_repl_add(h1, r1, k, tk);
        let (h2, r2) = (repl(h1, seq![k], tk), repl(r1, seq![k], tk));
        lemma_repl_add(h2, r2, m, tm);
        let (h3, r3) = (repl(h2, seq![m], tm), repl(r2, seq![m], tm));
        lemma_repl_add(h3, r3, n, tn);
        lemma_repl_one(s[0], b, tb);
        lemma_repl_pair(b, b, k, tk); lemma_repl_pair(b, b, m, tm); lemma_repl_pair(b, b, n, tn);
        lemma_repl_pair(b, k, m, tm); lemma_repl_pair(b, k, n, tn); lemma_repl_pair(b, m, n, tn);
        lemma_repl_one(s[0], k, tk);
        lemma_repl_one(s[0], m, tm);
        lemma_repl_one(s[0], n, tn);
        assert(esc4(h) == esc1(s[0]));
        assert(esc4(s) == esc4(h) + esc4(r));
    }
}
pub proof fn lemma_repl_pair(x: char, y: char, c: char, t: Seq<char>)
    ensures x != c && y != c ==> repl(seq![x, y], seq![c], t) == seq![x, y]
{
    assert(seq![x, y] =~= seq![x] + seq![y]);
    lemma_repl_add(seq![x], seq![y], c, t);
    lemma_repl_one(x, c, t);
    lemma_repl_one(y, c, t);
}
/// unescaping undoes escaping
pub proof fn lemma_unesc_esc(s: Seq<char>)
    ensures unesc(esc(s)) == s
    decreases s.len()
{
    if s.len() > 0 {
        lemma_unesc_esc(s.skip(1));
        let e = esc1(s[0]) + esc(s.skip(1));
        assert(esc(s) == e);
        if e[0] == '\\' {
            assert(e.skip(2) =~= esc(s.skip(1)));
            assert(e[1] == (if s[0] == '\n' { 'N' } else { s[0] }));
            assert(unesc(e) =~= seq![s[0]] + s.skip(1));
        } else {
            assert(e.skip(1) =~= esc(s.skip(1)));
            assert(unesc(e) =~= seq![s[0]] + s.skip(1));
        }
        assert(seq![s[0]] + s.skip(1) =~= s);
    }
}
/// an escaped text contains no line feed
pub proof fn lemma_esc_no_lf(s: Seq<char>)
    ensures forall|i: int| 0 <= i < esc(s).len() ==> esc(s)[i] != '\n'
    decreases s.len()
{
    if s.len() > 0 {
        lemma_esc_no_lf(s.skip(1));
        let (a, b) = (esc1(s[0]), esc(s.skip(1)));
        assert forall|i: int| 0 <= i < esc(s).len() implies esc(s)[i] != '\n' by {
            if i < a.len() { assert(esc(s)[i] == a[i]); } else { assert(esc(s)[i] == b[i - a.len()]); }
        }
    }
}
pub proof fn lemma_unesc_plain(s: Seq<char>)
    requires !s.contains('\\')
    ensures unesc(s) == s
    decreases s.len()
{
    if s.len() > 0 {
        assert(s[0] != '\\') by { if s[0] == '\\' { assert(s.contains('\\')); } }
        assert(!s.skip(1).contains('\\')) by {
            if s.skip(1).contains('\\') { let i = choose|i: int| 0 <= i < s.skip(1).len() && s.skip(1)[i] == '\\'; assert(s[i + 1] == '\\'); }
        }
        lemma_unesc_plain(s.skip(1));
        assert(seq![s[0]] + s.skip(1) =~= s);
    }
}
/// parameter values are quoted iff they contain a colon or semicolon
pub open spec fn quoted(s: Seq<char>) -> Seq<char> {
    if s.contains(':') || s.contains(';') { seq!['"'] + s + seq!['"'] } else { s }
}
pub proof fn lemma_occurs_one(s: Seq<char>, c: char)
    ensures occurs(s, seq![c]) <==> s.contains(c)
{
    if s.contains(c) {
        let i = choose|i: int| 0 <= i < s.len() && s[i] == c;
        assert(s.subrange(i, i + 1) =~= seq![c]);
        assert(s.subrange(i, i + seq![c].len()) == seq![c]);
    }
    if occurs(s, seq![c]) {
        let i = choose|i: int| 0 <= i <= s.len() - seq![c].len() && #[trigger] s.subrange(i, i + seq![c].len()) == seq![c];
        assert(s.subrange(i, i + 1)[0] == c);
        assert(s[i] == c);
    }
}

// ------------------------------------------------------------ unfolding (C03)
/// length of the fold at the start of s, 0 if there is none
pub open spec fn fold_at(s: Seq<char>) -> int {
    if s.len() >= 3 && s[0] == '\r' && s[1] == '\n' && (s[2] == ' ' || s[2] == '\t') { 3 }
    else if s.len() >= 2 && s[0] == '\n' && (s[1] == ' ' || s[1] == '\t') { 2 }
    else { 0 }
}
pub open spec fn unf(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { s }
    else if fold_at(s) > 0 { unf(s.skip(fold_at(s))) }
    else { seq![s[0]] + unf(s.skip(1)) }
}

/// str::split for a non-empty pattern
pub open spec fn splits(s: Seq<char>, p: Seq<char>) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 || p.len() == 0 { seq![s] }
    else if p.is_prefix_of(s) { seq![Seq::<char>::empty()] + splits(s.skip(p.len() as int), p) }
    else { let r = splits(s.skip(1), p); seq![seq![s[0]] + r[0]] + r.skip(1) }
}
pub open spec fn concat(ss: Seq<Seq<char>>) -> Seq<char> decreases ss.len() {
    if ss.len() == 0 { seq![] } else { ss[0] + concat(ss.skip(1)) }
}
/// the folds as four patterns; layer k removes patterns k..3
pub open spec fn fold_pat(k: int) -> Seq<char> {
    if k == 0 { seq!['\r', '\n', ' '] } else if k == 1 { seq!['\n', ' '] }
    else if k == 2 { seq!['\r', '\n', '\t'] } else { seq!['\n', '\t'] }
}
/// pattern k is at the start of s
pub open spec fn fm(s: Seq<char>, k: int) -> bool {
    if k == 0 { s.len() >= 3 && s[0] == '\r' && s[1] == '\n' && s[2] == ' ' }
    else if k == 1 { s.len() >= 2 && s[0] == '\n' && s[1] == ' ' }
    else if k == 2 { s.len() >= 3 && s[0] == '\r' && s[1] == '\n' && s[2] == '\t' }
    else { s.len() >= 2 && s[0] == '\n' && s[1] == '\t' }
}
pub proof fn lemma_fm(s: Seq<char>, k: int)
    requires 0 <= k < 4
    ensures fold_pat(k).is_prefix_of(s) <==> fm(s, k), fold_pat(k).len() == (if k == 0 || k == 2 { 3int } else { 2 })
{
    if k == 0 { lemma_prefix3(s, '\r', '\n', ' '); } else if k == 1 { lemma_prefix2(s, '\n', ' '); }
    else if k == 2 { lemma_prefix3(s, '\r', '\n', '\t'); } else { lemma_prefix2(s, '\n', '\t'); }
}
/// length of the match of one of the patterns k..3 at the start of s
pub open spec fn fold_from(s: Seq<char>, k: int) -> int {
    if (k <= 0 && fm(s, 0)) || (k <= 2 && fm(s, 2)) { 3 }
    else if (k <= 1 && fm(s, 1)) || (k <= 3 && fm(s, 3)) { 2 }
    else { 0 }
}
pub open spec fn unf_from(s: Seq<char>, k: int) -> Seq<char> decreases s.len() {
    if s.len() == 0 { s }
    else if fold_from(s, k) > 0 { unf_from(s.skip(fold_from(s, k)), k) }
    else { seq![s[0]] + unf_from(s.skip(1), k) }
}
pub open spec fn unf_all(ss: Seq<Seq<char>>, k: int) -> Seq<char> {
    concat(ss.map_values(|x: Seq<char>| unf_from(x, k)))
}
pub proof fn lemma_unf_all_cons(x: Seq<char>, ss: Seq<Seq<char>>, k: int)
    ensures unf_all(seq![x] + ss, k) == unf_from(x, k) + unf_all(ss, k)
{
    let f = |x: Seq<char>| unf_from(x, k);
    let v = (seq![x] + ss).map_values(f);
    assert(v.skip(1) =~= ss.map_values(f));
    assert(v[0] == unf_from(x, k));
}
/// a first character that starts no match of pattern k moves through split
proof fn lemma_layer_step(s: Seq<char>, k: int, n: int)
    requires 0 <= k < 4, 0 <= n <= s.len(), forall|i: int| 0 <= i < n ==> !fm(#[trigger] s.skip(i), k)
    ensures splits(s.skip(n), fold_pat(k)).len() > 0,
        splits(s, fold_pat(k)) == seq![s.take(n) + splits(s.skip(n), fold_pat(k))[0]] + splits(s.skip(n), fold_pat(k)).skip(1)
    decreases n
{
    let p = fold_pat(k);
    lemma_splits_prefix(s.skip(n), p);
    let r = splits(s.skip(n), p);
    if n == 0 {
        assert(s.skip(0) =~= s);
        assert(seq![s.take(0) + r[0]] + r.skip(1) =~= r) by { assert(s.take(0) + r[0] =~= r[0]); }
    } else {
        let s1 = s.skip(1);
        assert forall|i: int| 0 <= i < n - 1 implies !fm(#[trigger] s1.skip(i), k) by { assert(s1.skip(i) =~= s.skip(i + 1)); }
        lemma_layer_step(s1, k, n - 1);
        assert(s1.skip(n - 1) =~= s.skip(n));
        assert(s.skip(0) =~= s);
        lemma_fm(s, k);
        let r1 = splits(s1, p);
        assert(splits(s, p) == seq![seq![s[0]] + r1[0]] + r1.skip(1));
        assert(r1[0] == s1.take(n - 1) + r[0]);
        assert(r1.skip(1) =~= r.skip(1));
        assert(seq![s[0]] + (s1.take(n - 1) + r[0]) =~= s.take(n) + r[0]);
    }
}
pub proof fn lemma_unf_layer(s: Seq<char>, k: int)
    requires 0 <= k < 4
    ensures splits(s, fold_pat(k)).len() > 0, unf_all(splits(s, fold_pat(k)), k + 1) == unf_from(s, k)
    decreases s.len()
{
    let p = fold_pat(k);
    lemma_fm(s, k);
    if s.len() == 0 {
        assert(splits(s, p) =~= seq![s] + Seq::<Seq<char>>::empty());
        lemma_unf_all_cons(s, Seq::empty(), k + 1);
        assert(unf_all(Seq::empty(), k + 1) =~= Seq::<char>::empty()) by {
            assert(Seq::<Seq<char>>::empty().map_values(|x: Seq<char>| unf_from(x, k + 1)) =~= Seq::empty());
        }
        assert(unf_from(s, k + 1) + Seq::<char>::empty() =~= s);
    } else if fm(s, k) {
        lemma_unf_layer(s.skip(p.len() as int), k);
        lemma_unf_all_cons(Seq::empty(), splits(s.skip(p.len() as int), p), k + 1);
        assert(Seq::<char>::empty() + unf_from(s, k) =~= unf_from(s, k));
    } else {
        let m = fold_from(s, k);
        let n = if m == 0 { 1 } else { m };
        assert forall|i: int| 0 <= i < n implies !fm(#[trigger] s.skip(i), k) by {
            assert(s.skip(0) =~= s);
            if i == 1 { assert(s.skip(1)[0] == s[1]); if s.len() > 2 { assert(s.skip(1)[1] == s[2]); } }
            if i == 2 { assert(s.skip(2)[0] == s[2]); }
        }
        lemma_layer_step(s, k, n);
        let r = splits(s.skip(n), p);
        lemma_splits_prefix(s.skip(n), p);
        lemma_unf_layer(s.skip(n), k);
        let (h, t) = (r[0], r.skip(1));
        assert(r =~= seq![h] + t);
        lemma_unf_all_cons(h, t, k + 1);
        let x = s.take(n) + h;
        lemma_unf_all_cons(x, t, k + 1);
        assert(x.skip(n) =~= h);
        assert(h =~= s.skip(n).take(h.len() as int));
        assert(x =~= s.take(x.len() as int));
        if m == 0 {
            assert(fold_from(x, k + 1) == 0);
            assert(x[0] == s[0]);
            assert((seq![s[0]] + unf_from(h, k + 1)) + unf_all(t, k + 1) =~= seq![s[0]] + (unf_from(h, k + 1) + unf_all(t, k + 1)));
        } else {
            assert(fold_from(x, k + 1) == m);
        }
    }
}
pub proof fn lemma_splits_prefix(s: Seq<char>, p: Seq<char>)
    ensures splits(s, p).len() > 0, splits(s, p)[0].is_prefix_of(s)
    decreases s.len()
{
    if s.len() == 0 || p.len() == 0 {}
    else if p.is_prefix_of(s) { lemma_splits_prefix(s.skip(p.len() as int), p); }
    else {
        lemma_splits_prefix(s.skip(1), p);
        let r = splits(s.skip(1), p);
        let x = seq![s[0]] + r[0];
        assert(splits(s, p)[0] == x);
        assert forall|i: int| 0 <= i < x.len() implies x[i] == s[i] by { if i > 0 { assert(r[0][i - 1] == s.skip(1)[i - 1]); } }
        assert(x =~= s.subrange(0, x.len() as int));
    }
}
pub proof fn lemma_unf(s: Seq<char>)
    ensures unf(s) == unf_from(s, 0)
    decreases s.len()
{
    if s.len() > 0 {
        let f = fold_at(s);
        assert(fold_from(s, 0) == f);
        if f > 0 { lemma_unf(s.skip(f)); } else { lemma_unf(s.skip(1)); }
    }
}
pub proof fn lemma_prefix2(s: Seq<char>, a: char, b: char)
    ensures seq![a, b].is_prefix_of(s) <==> (s.len() >= 2 && s[0] == a && s[1] == b)
{
    if s.len() >= 2 && s[0] == a && s[1] == b { assert(seq![a, b] =~= s.subrange(0, 2)); }
    if seq![a, b].is_prefix_of(s) { assert(s.subrange(0, 2)[0] == a); assert(s.subrange(0, 2)[1] == b); }
}
pub proof fn lemma_prefix3(s: Seq<char>, a: char, b: char, c: char)
    ensures seq![a, b, c].is_prefix_of(s) <==> (s.len() >= 3 && s[0] == a && s[1] == b && s[2] == c)
{
    if s.len() >= 3 && s[0] == a && s[1] == b && s[2] == c { assert(seq![a, b, c] =~= s.subrange(0, 3)); }
    if seq![a, b, c].is_prefix_of(s) { assert(s.subrange(0, 3)[0] == a); assert(s.subrange(0, 3)[1] == b); assert(s.subrange(0, 3)[2] == c); }
}

// ------------------------------------------------------------ decimal numbers
pub open spec fn dig(n: int) -> char {
    if n == 0 { '0' } else if n == 1 { '1' } else if n == 2 { '2' } else if n == 3 { '3' } else if n == 4 { '4' }
    else if n == 5 { '5' } else if n == 6 { '6' } else if n == 7 { '7' } else if n == 8 { '8' } else { '9' }
}
pub open spec fn dig_val(c: char) -> Option<int> {
    if c == '0' { Some(0int) } else if c == '1' { Some(1) } else if c == '2' { Some(2) } else if c == '3' { Some(3) } else if c == '4' { Some(4) }
    else if c == '5' { Some(5) } else if c == '6' { Some(6) } else if c == '7' { Some(7) } else if c == '8' { Some(8) } else if c == '9' { Some(9) } else { None }
}
/// n in decimal
pub open spec fn udec(n: nat) -> Seq<char> decreases n {
    if n < 10 { seq![dig(n as int)] } else { udec(n / 10).push(dig((n % 10) as int)) }
}
/// the number a non-empty run of digits stands for
pub open spec fn uval(s: Seq<char>) -> Option<int> decreases s.len() {
    if s.len() == 0 { None }
    else if s.len() == 1 { dig_val(s[0]) }
    else { match (uval(s.drop_last()), dig_val(s.last())) { (Some(a), Some(b)) => Some(10 * a + b), _ => None } }
}
/// unsigned integer from_str: an optional plus sign, digits, at most max
pub open spec fn u_of(s: Seq<char>, max: int) -> Option<int> {
    let t = if s.len() >= 2 && s[0] == '+' { s.skip(1) } else { s };
    match uval(t) { Some(n) => if n <= max { Some(n) } else { None }, None => None }
}
pub proof fn lemma_udec(n: nat)
    ensures uval(udec(n)) == Some(n as int), udec(n).len() > 0, dig_val(udec(n)[0]) is Some
    decreases n
{
    if n >= 10 { lemma_udec(n / 10); assert(udec(n).drop_last() =~= udec(n / 10)); assert(udec(n)[0] == udec(n / 10)[0]); }
}
pub proof fn lemma_u_of(n: nat, max: int)
    requires n <= max
    ensures u_of(udec(n), max) == Some(n as int)
{ lemma_udec(n); }
/// upper-case ASCII letters and hyphens only
pub open spec fn upname(s: Seq<char>) -> bool decreases s.len() {
    if s.len() == 0 { true } else { (('A' <= s.last() <= 'Z') || s.last() == '-') && upname(s.drop_last()) }
}
pub open spec fn no_lower(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> !is_lower(#[trigger] s[i]) }
pub proof fn lemma_upname(s: Seq<char>)
    ensures upname(s) ==> no_lower(s)
    decreases s.len()
{
    if upname(s) && s.len() > 0 {
        lemma_upname(s.drop_last());
        axiom_is_lower_ascii(s.last());
        assert forall|i: int| 0 <= i < s.len() implies !is_lower(#[trigger] s[i]) by {
            if i < s.len() - 1 { assert(s[i] == s.drop_last()[i]); } else { assert(s[i] == s.last()); }
        }
    }
}
pub open spec fn enc(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 1 } else { enc(s.drop_last()) * 0x110000 + (s.last() as int) } }
} // mod spec

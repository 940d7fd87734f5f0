//# unit pairs
//# use conj
// the first k columns of l, and the rows beyond column k
pub open spec fn mins(l: Seq<int>, k: int) -> Seq<int> { Seq::new(l.len(), |i: int| imin(l[i], k)) }
pub open spec fn excess(l: Seq<int>, k: int) -> Seq<int> { Seq::new(l.len(), |i: int| imax(l[i] - k, 0)) }
// heights of the columns 1..k
pub open spec fn cols(l: Seq<int>, k: int) -> Seq<int> { Seq::new(pylen(k), |i: int| cnt(l, i)) }
pub open spec fn ends0(l: Seq<int>) -> bool { l.len() > 0 && l.last() == 0 }
pub open spec fn tail0(b: bool) -> Seq<int> { if b { seq![0int] } else { Seq::empty() } }

pub open spec fn kstrict(l: Seq<int>, k: int) -> bool { forall|i: int, j: int| 0 <= i < j < l.len() && l[i] > k ==> l[i] > l[j] }
// a class of a space with parameter k: no zero parts, except one at the end in type D when k is a part
pub open spec fn is_class(l: Seq<int>, k: int) -> bool {
    is_part(l) && (ends0(l) ==> l.len() >= 2 && k > 0 && l[l.len() - 2] > 0 && l.drop_last().contains(k))
}

pub open spec fn pair_of(l: Seq<int>, k: int) -> Seq<Seq<int>> { seq![cols(l, k), clip(excess(l, k)) + tail0(ends0(l))] }

pub open spec fn glue(t: Seq<int>, b: Seq<int>) -> Seq<int> {
    let c = conj(t);
    if t.len() == 0 { b } else {
        Seq::new(b.len(), |i: int| c[i] + b[i]) + slice(c, b.len() as int, c.len() as int) + tail0(ends0(b))
    }
}

pub proof fn lemma_mins(l: Seq<int>, k: int)
    requires is_part(l), k >= 0
    ensures is_part(mins(l, k)), is_part(excess(l, k)), cols(l, k) =~= conj(mins(l, k)) + rep(0, k - conj(mins(l, k)).len()),
        conj(mins(l, k)).len() <= k, is_part(cols(l, k))
{
    let m = mins(l, k);
    assert forall|a: int, b: int| 0 <= a <= b < m.len() implies m[a] >= m[b] by { assert(l[a] >= l[b]); }
    assert forall|a: int| 0 <= a < m.len() implies m[a] >= 0 by { assert(l[a] >= 0); }
    let x = excess(l, k);
    assert forall|a: int, b: int| 0 <= a <= b < x.len() implies x[a] >= x[b] by { assert(l[a] >= l[b]); }
    let c = conj(m);
    let r = c + rep(0, k - c.len());
    assert forall|i: int| 0 <= i < k implies cols(l, k)[i] == #[trigger] r[i] by {
        lemma_cnt(l, i);
        lemma_cnt(m, i);
        let v = cnt(l, i);
        if v > 0 { assert(l[v - 1] > i); assert(m[v - 1] > i); }
        if v < l.len() { assert(!(l[v] > i)); assert(m[v] <= i); }
        lemma_cnt_unique(m, i, v);
        if i >= c.len() { if m.len() > 0 { assert(m[0] <= i); assert(!(m[0] > i)); } }
    }
    lemma_conj_part(m);
    assert forall|a: int, b: int| 0 <= a <= b < r.len() implies r[a] >= r[b] by { if b < c.len() { assert(c[a] >= c[b]); } else if a < c.len() { assert(c[a] > 0); } }
    assert forall|a: int| 0 <= a < r.len() implies r[a] >= 0 by { if a < c.len() { assert(c[a] > 0); } }
    assert(cols(l, k) =~= r);
}

// column heights determine the first k columns
pub proof fn lemma_conj_cols(l: Seq<int>, k: int)
    requires is_part(l), k >= 0
    ensures conj(cols(l, k)) =~= clip(mins(l, k))
{
    lemma_mins(l, k);
    let m = mins(l, k);
    let t = cols(l, k);
    lemma_conj_part(m);
    lemma_conj_conj(m);
    assert(is_clip(t, conj(m))) by {
        if conj(m).len() > 0 { assert(conj(m)[conj(m).len() - 1] > 0); }
    }
    lemma_clip_unique(t, conj(m));
    lemma_conj_clip(t);
}

pub proof fn lemma_excess_len(l: Seq<int>, k: int)
    requires is_part(l), k >= 0
    ensures clip_len(excess(l, k)) == cnt(l, k)
{
    lemma_mins(l, k);
    lemma_clip_part(excess(l, k));
    lemma_cnt(l, k);
    let v = cnt(l, k);
    let x = excess(l, k);
    if v > 0 { assert(l[v - 1] > k); }
    if v < l.len() { assert(!(l[v] > k)); assert(x[v] <= 0); }
    lemma_cnt_unique(x, 0, v);
}

// putting the pair of a class together gives the class back
pub proof fn lemma_glue_pair(l: Seq<int>, k: int)
    requires is_class(l, k), k >= 0
    ensures glue(pair_of(l, k)[0], pair_of(l, k)[1]) =~= l,
        k > 0 ==> pair_of(l, k)[1].len() <= width(pair_of(l, k)[0])
{
    let t = cols(l, k);
    let x = excess(l, k);
    let b = clip(x) + tail0(ends0(l));
    let m = mins(l, k);
    lemma_is_clip(x);
    lemma_is_clip(m);
    lemma_mins(l, k);
    lemma_excess_len(l, k);
    lemma_cnt(l, k);
    if k == 0 {
        assert(x =~= l);
        assert(!ends0(l));
        assert(is_clip(l, l));
        lemma_clip_unique(l, l);
    } else {
        lemma_conj_cols(l, k);
        lemma_clip_part(m);
        let c = conj(t);
        // number of positive rows
        let pl = if ends0(l) { l.len() - 1 } else { l.len() as int };
        assert(pl > 0 ==> l[pl - 1] > 0) by {
            if !ends0(l) && pl > 0 { assert(l[pl - 1] >= 0); }
        }
        lemma_cnt(m, 0);
        if pl > 0 { assert(m[pl - 1] > 0); }
        if pl < l.len() { assert(m[pl] == 0); }
        lemma_cnt_unique(m, 0, pl);
        assert(c.len() == pl);
        lemma_cnt(l, 0);
        assert(width(t) == cnt(l, 0));
        lemma_cnt_unique(l, 0, pl);
        if ends0(l) {
            let d = l.drop_last();
            let a = choose|a: int| 0 <= a < d.len() && d[a] == k;
            assert(l[a] == k);
            assert(!(l[a] > k));
            assert(cnt(l, k) <= a);
        }
        let g = glue(t, b);
        assert(b.len() <= c.len());
        if ends0(l) { assert(b.last() == 0); } else if b.len() > 0 { assert(b.last() != 0); }
        assert(g.len() == l.len());
        assert forall|i: int| 0 <= i < l.len() implies g[i] == l[i] by {
            if i < cnt(l, k) { assert(l[i] > k); assert(b[i] == x[i]); assert(c[i] == m[i]); }
            else { assert(!(l[i] > k)); assert(l[i] >= 0); if i < c.len() { assert(c[i] == m[i]); } }
        }
    }
}

// the strict part of the second component
pub open spec fn strict(b: Seq<int>) -> Seq<int> { if ends0(b) { b.drop_last() } else { b } }
// a pair: k column heights (weakly decreasing, at most the number of rows) and a strict partition that fits beside
// column k, i.e. with at most as many rows as column k; a trailing zero marks the second type of a class
pub open spec fn is_pair(t: Seq<int>, b: Seq<int>, k: int) -> bool {
    &&& k > 0 && t.len() == k && is_part(t)
    &&& is_part(strict(b)) && (forall|i: int| 0 <= i < strict(b).len() ==> #[trigger] strict(b)[i] > 0)
    &&& strict(b).len() <= t[k - 1]
    &&& (ends0(b) ==> strict(b).len() < t[k - 1])
}

pub open spec fn at0(s: Seq<int>, i: int) -> int { if 0 <= i < s.len() { s[i] } else { 0 } }

// the rows of what is put together
pub proof fn lemma_glue_rows(t: Seq<int>, b: Seq<int>, k: int)
    requires is_pair(t, b, k)
    ensures glue(t, b).len() == t[0] + (if ends0(b) { 1int } else { 0int }), t[0] >= t[k - 1] >= 0, conj(t).len() == t[0],
        forall|i: int| 0 <= i < t[0] ==> 0 < #[trigger] conj(t)[i] <= k && (conj(t)[i] == k <==> i < t[k - 1]),
        forall|i: int| 0 <= i < t[0] ==> #[trigger] glue(t, b)[i] == conj(t)[i] + at0(strict(b), i),
        forall|i: int| t[0] <= i < glue(t, b).len() ==> #[trigger] glue(t, b)[i] == 0,
        forall|i: int| 0 <= i < t[0] ==> #[trigger] glue(t, b)[i] > 0,
{
    let s = strict(b);
    let c = conj(t);
    let l = glue(t, b);
    lemma_conj_part(t);
    assert(t[0] >= t[k - 1]);
    assert forall|i: int| 0 <= i < c.len() implies 0 < #[trigger] c[i] <= k && (c[i] == k <==> i < t[k - 1]) by {
        lemma_cnt(t, i);
        assert(t[k - 1] > i <==> k - 1 < cnt(t, i));
    }
    assert forall|i: int| 0 <= i < l.len() implies #[trigger] l[i] == (if i < t[0] { c[i] + at0(s, i) } else { 0 }) by {
        if i < b.len() { if i < s.len() { assert(b[i] == s[i]); } else { assert(b[i] == 0); } }
    }
    assert forall|i: int| 0 <= i < t[0] implies #[trigger] l[i] > 0 by { assert(c[i] > 0); if i < s.len() { assert(s[i] > 0); } }
}

pub proof fn lemma_glue_class(t: Seq<int>, b: Seq<int>, k: int)
    requires is_pair(t, b, k)
    ensures is_class(glue(t, b), k), ends0(glue(t, b)) == ends0(b)
{
    lemma_glue_rows(t, b, k);
    let s = strict(b);
    let c = conj(t);
    let l = glue(t, b);
    lemma_conj_part(t);
    assert forall|i: int, j: int| 0 <= i <= j < l.len() implies l[i] >= l[j] by {
        if j < t[0] { assert(c[i] >= c[j]); assert(l[i] == c[i] + at0(s, i)); assert(l[j] == c[j] + at0(s, j));
            if j < s.len() { assert(s[i] >= s[j]); } else if i < s.len() { assert(s[i] > 0); } }
        else if i < t[0] { assert(l[i] > 0); assert(l[j] == 0); } else { assert(l[i] == 0); assert(l[j] == 0); }
    }
    assert forall|i: int| 0 <= i < l.len() implies l[i] >= 0 by { if i < t[0] { assert(l[i] > 0); } else { assert(l[i] == 0); } }
    if !ends0(b) && l.len() > 0 { assert(l[l.len() - 1] > 0); }
    if ends0(b) {
        let pl = t[0];
        assert(l[pl] == 0);
        let a = s.len() as int;
        assert(c[a] == k);
        assert(l[a] == c[a] + at0(s, a));
        let d = l.drop_last();
        assert(d[a] == k);
        assert(d.contains(k));
        assert(l[pl - 1] > 0);
    }
}

pub proof fn lemma_glue_cols(t: Seq<int>, b: Seq<int>, k: int)
    requires is_pair(t, b, k)
    ensures cols(glue(t, b), k) =~= t
{
    lemma_glue_class(t, b, k);
    lemma_glue_rows(t, b, k);
    let s = strict(b);
    let c = conj(t);
    let l = glue(t, b);
    let u = cols(l, k);
    lemma_conj_part(t);
    assert forall|i: int| 0 <= i < k implies u[i] == t[i] by {
        let v = t[i];
        assert(t[i] >= t[k - 1]);
        assert(t[0] >= t[i]);
        lemma_cnt_conj(t, i);
        lemma_cnt(c, i);
        assert(cnt(c, i) == v);
        if v > 0 { assert(c[v - 1] > i); assert(l[v - 1] == c[v - 1] + at0(s, v - 1)); if v - 1 < s.len() { assert(s[v - 1] > 0); } }
        if v < l.len() {
            if v < t[0] { assert(!(c[v] > i)); assert(l[v] == c[v] + at0(s, v)); } else { assert(l[v] == 0); }
        }
        lemma_cnt_unique(l, i, v);
    }
}

// splitting what was put together gives the pair back
pub proof fn lemma_pair_glue(t: Seq<int>, b: Seq<int>, k: int)
    requires is_pair(t, b, k)
    ensures is_class(glue(t, b), k), pair_of(glue(t, b), k)[0] =~= t, pair_of(glue(t, b), k)[1] =~= b
{
    lemma_glue_class(t, b, k);
    lemma_glue_rows(t, b, k);
    lemma_glue_cols(t, b, k);
    let s = strict(b);
    let c = conj(t);
    let l = glue(t, b);
    let x = excess(l, k);
    assert(is_clip(x, s)) by {
        assert forall|i: int| 0 <= i < x.len() implies x[i] == at0(s, i) by {
            if i < t[0] { assert(l[i] == c[i] + at0(s, i)); if i < s.len() { assert(c[i] == k); assert(s[i] > 0); } else { assert(c[i] <= k); } }
            else { assert(l[i] == 0); }
        }
        if s.len() > 0 { assert(s[s.len() - 1] > 0); }
        assert(x.subrange(0, s.len() as int) =~= s);
    }
    lemma_clip_unique(x, s);
    if ends0(b) { assert(b =~= s + seq![0int]); }
}

//# fn schubertpy/qcalc.py::part2pair_inner(lam: L, k: I) -> LL
//# spec pair_of
//# vars top bot
requires is_part(lam), k >= 0
ensures result =~~= pair_of(lam, k)
//# hint entry
lemma_mins(lam, k);
//# hint call part_conj
assert($a0 =~= mins(lam, k));
//# hint call part_clip
assert($a0 =~= excess(lam, k));
//# end

pub open spec fn glue_of(p: Seq<Seq<int>>) -> Seq<int> { glue(p[0], p[1]) }
//# fn schubertpy/qcalc.py::pair2part_inner(pair: LL) -> L
//# spec glue_of
//# vars p1 p2 lam np2 a
requires pair.len() == 2, is_part(pair[0]), pair[0].len() > 0 ==> pair[1].len() <= width(pair[0])
ensures result =~= glue(pair[0], pair[1])
//# hint entry
lemma_conj_part(pair[0]);
//# end

// C08 over the two contracts: what part2pair_inner returns, pair2part_inner puts back together, and vice versa
pub proof fn theorem_pairs(l: Seq<int>, t: Seq<int>, b: Seq<int>, k: int)
    requires k >= 0
    ensures is_class(l, k) ==> glue(pair_of(l, k)[0], pair_of(l, k)[1]) =~= l,
        is_pair(t, b, k) ==> is_class(glue(t, b), k) && pair_of(glue(t, b), k) =~~= seq![t, b],
        is_part(l) ==> conj(conj(l)) =~= clip(l) && sum_seq(conj(l)) == sum_seq(l) && is_part(conj(l))
{
    if is_class(l, k) { lemma_glue_pair(l, k); }
    if is_pair(t, b, k) { lemma_pair_glue(t, b, k); }
    if is_part(l) { lemma_conj_conj(l); lemma_conj_size(l); lemma_conj_part(l); }
}
//# fn schubertpy/isotropic_grassmannian.py::IsotropicGrassmannian.part2pair^list(self_: SPACE, lc: L) -> LL
requires is_part(lc), self_._k >= 0
ensures result =~~= pair_of(lc, self_._k)
//# end
//# fn schubertpy/isotropic_grassmannian.py::IsotropicGrassmannian.part2pair(self_: SPACE, lc: FS) -> FS
requires self_._k >= 0, forall|i: int| 0 <= i < lc.len() ==> is_part((#[trigger] lc[i]).lam)
ensures result == fs_apply(|lam: Seq<int>| fs_one(label(pair_of(lam, self_._k))), lc)
//# end
//# fn schubertpy/isotropic_grassmannian.py::IsotropicGrassmannian.pair2part^list(self_: SPACE, lc: LL) -> L
requires lc.len() == 2, is_part(lc[0]), lc[0].len() > 0 ==> lc[1].len() <= width(lc[0])
ensures result =~= glue(lc[0], lc[1])
//# end
//# fn schubertpy/isotropic_grassmannian.py::IsotropicGrassmannian.pair2part(self_: SPACE, lc: FS) -> FS
requires forall|i: int| 0 <= i < lc.len() ==> gluable(unlabel((#[trigger] lc[i]).lam))
ensures result == fs_apply(|x: Seq<int>| fs_one(glue_of(unlabel(x))), lc)
//# end
//# fn schubertpy/orthogonal_grassmannian.py::OrthogonalGrassmannian.part2pair^list(self_: SPACE, lc: L) -> LL
requires is_part(lc), self_._k >= 0
ensures result =~~= pair_of(lc, self_._k)
//# end
//# fn schubertpy/orthogonal_grassmannian.py::OrthogonalGrassmannian.part2pair(self_: SPACE, lc: FS) -> FS
requires self_._k >= 0, forall|i: int| 0 <= i < lc.len() ==> is_part((#[trigger] lc[i]).lam)
ensures result == fs_apply(|lam: Seq<int>| fs_one(label(pair_of(lam, self_._k))), lc)
//# end
//# fn schubertpy/orthogonal_grassmannian.py::OrthogonalGrassmannian.pair2part^list(self_: SPACE, lc: LL) -> L
requires lc.len() == 2, is_part(lc[0]), lc[0].len() > 0 ==> lc[1].len() <= width(lc[0])
ensures result =~= glue(lc[0], lc[1])
//# end
//# fn schubertpy/orthogonal_grassmannian.py::OrthogonalGrassmannian.pair2part(self_: SPACE, lc: FS) -> FS
requires forall|i: int| 0 <= i < lc.len() ==> gluable(unlabel((#[trigger] lc[i]).lam))
ensures result == fs_apply(|x: Seq<int>| fs_one(glue_of(unlabel(x))), lc)
//# end
pub open spec fn gluable(p: Seq<Seq<int>>) -> bool { p.len() == 2 && is_part(p[0]) && (p[0].len() > 0 ==> p[1].len() <= width(p[0])) }
pub open spec fn to_pairs(a: Seq<Term>, k: int) -> Seq<Term> { fs_apply(|lam: Seq<int>| fs_one(label(pair_of(lam, k))), a) }
pub open spec fn to_parts(a: Seq<Term>) -> Seq<Term> { fs_apply(|x: Seq<int>| fs_one(glue_of(unlabel(x))), a) }
// on linear combinations: there and back
pub proof fn theorem_pairs_linear(a: Seq<Term>, b: Seq<Term>, k: int)
    requires k >= 0
    ensures (forall|i: int| 0 <= i < a.len() ==> is_class((#[trigger] a[i]).lam, k)) ==> to_parts(to_pairs(a, k)) =~= a,
        (forall|i: int| 0 <= i < b.len() ==> labels_pair((#[trigger] b[i]).lam, k)) ==> to_pairs(to_parts(b), k) =~= b
{
    broadcast use axiom_label;
    let f = |lam: Seq<int>| fs_one(label(pair_of(lam, k)));
    let g = |x: Seq<int>| fs_one(glue_of(unlabel(x)));
    let p = |lam: Seq<int>| label(pair_of(lam, k));
    let u = |x: Seq<int>| glue_of(unlabel(x));
    lemma_fs_apply_map(f, p, a);
    lemma_fs_apply_map(g, u, fs_map(p, a));
    lemma_fs_apply_map(g, u, b);
    lemma_fs_apply_map(f, p, fs_map(u, b));
    if forall|i: int| 0 <= i < a.len() ==> is_class((#[trigger] a[i]).lam, k) {
        assert forall|i: int| 0 <= i < a.len() implies u(p((#[trigger] a[i]).lam)) =~= a[i].lam by { lemma_glue_pair(a[i].lam, k); }
        lemma_fs_map_inverse(p, u, a);
    }
    if forall|i: int| 0 <= i < b.len() ==> labels_pair((#[trigger] b[i]).lam, k) {
        assert forall|i: int| 0 <= i < b.len() implies p(u((#[trigger] b[i]).lam)) =~= b[i].lam by {
            let q = unlabel(b[i].lam);
            lemma_pair_glue(q[0], q[1], k);
            assert(q =~~= seq![q[0], q[1]]);
            assert(pair_of(glue_of(q), k) =~~= q);
        }
        lemma_fs_map_inverse(u, p, b);
    }
}
pub open spec fn labels_pair(l: Seq<int>, k: int) -> bool { unlabel(l).len() == 2 && label(unlabel(l)) == l && is_pair(unlabel(l)[0], unlabel(l)[1], k) }

//# unit pierid
//# use pieric
// ---- type D: classes with types
pub open spec fn typ(lam: Seq<int>, k: int) -> int { if k <= 0 || !lam.contains(k) { 0 } else if ends0(lam) { 2 } else { 1 } }
pub open spec fn bare(nu: Seq<int>) -> Seq<int> { if ends0(nu) { slice(nu, 0, nu.len() - 1) } else { nu } }
// nu = mu or, if mu has a part k, mu with a zero at the end
pub open spec fn typed(nu: Seq<int>, k: int) -> bool { !ends0(bare(nu)) && (ends0(nu) ==> k > 0 && bare(nu).contains(k)) }
pub open spec fn kept_f(lam: Seq<int>, mu: Seq<int>) -> spec_fn(int) -> bool { |j: int| cnt(mu, j) <= cnt(lam, j) }
pub open spec fn kept(lam: Seq<int>, mu: Seq<int>, k: int) -> int { many(kept_f(lam, mu), k) }
pub open spec fn coef_d0(lam: Seq<int>, nu: Seq<int>, p: int, k: int) -> real {
    let mu = bare(nu);
    let c = ncomp(lam, mu, k, 1, false);
    let t = typ(lam, k);
    let s = typ(nu, k);
    if t + s == 3 { 0real }
    else if iabs(p) < k { pow2r(c) }
    else if iabs(p) > k || c > 0 { pow2r(c - 1) }
    else { if ((kept(lam, mu, k) + imax(t, s)) % 2 == 1) == (p > 0) { 1real } else { 0real } }
}
pub open spec fn class_in(x: Seq<int>, k: int, m: int, w: int) -> bool { typed(x, k) && in_box(bare(x), k, m, w) }
pub open spec fn coef_d(lam: Seq<int>, nu: Seq<int>, p: int, k: int, n: int) -> real {
    if typed(nu, k) && term(lam, bare(nu), iabs(p), k, n + 1 - k, n + k, 1) { coef_d0(lam, nu, p, k) } else { 0real }
}
// the columns that grow, by rows
pub open spec fn grow_f(lam: Seq<int>, mu: Seq<int>, r: int) -> spec_fn(int) -> bool { |j: int| cnt(mu, j) > cnt(lam, j) && cnt(mu, j) > r }
pub proof fn lemma_grow(lam: Seq<int>, mu: Seq<int>, k: int, r: int)
    requires is_part(lam), is_part(mu), !ends0(mu), strips(lam, mu, k), k >= 0, 0 <= r
    ensures r >= mu.len() ==> many(grow_f(lam, mu, r), k) == 0,
        many(grow_f(lam, mu, r), k) == many(grow_f(lam, mu, r + 1), k) + (if row(lam, r) < imin(row(mu, r), k) { imin(row(mu, r), k) - imax(row(mu, r + 1), row(lam, r)) } else { 0int })
{
    let f = grow_f(lam, mu, r + 1);
    let g = grow_f(lam, mu, r);
    assert forall|j: int| 0 <= j implies 0 <= #[trigger] cnt(mu, j) <= mu.len() by { lemma_row_cnt(mu, r, j); }
    if r >= mu.len() { lemma_many_none(g, k); }
    let lo = imax(row(mu, r + 1), row(lam, r));
    let hi = imin(row(mu, r), k);
    assert forall|j: int| 0 <= j < k implies (#[trigger] g(j) <==> f(j) || lo <= j < hi) by {
        lemma_row_cnt(mu, r, j);
        lemma_row_cnt(mu, r + 1, j);
        lemma_row_cnt(lam, r, j);
    }
    assert forall|j: int| 0 <= j < k && lo <= j < hi implies !#[trigger] f(j) by { lemma_row_cnt(mu, r + 1, j); }
    lemma_many_add(f, g, lo, hi, k);
    assert(row(mu, r + 1) <= imin(row(lam, r), row(mu, r)));
    assert(row(lam, r) >= 0);
}
pub proof fn lemma_kept(lam: Seq<int>, mu: Seq<int>, k: int)
    requires is_part(mu), k >= 0
    ensures kept(lam, mu, k) + many(grow_f(lam, mu, 0), k) == k
{
    if is_part(lam) {}
    let f = kept_f(lam, mu);
    let g = grow_f(lam, mu, 0);
    assert forall|j: int| 0 <= j < k implies (#[trigger] f(j) <==> !g(j)) by { lemma_cnt_pos(lam, j); }
    lemma_many_not(f, g, k);
}
pub proof fn lemma_cnt_pos(l: Seq<int>, j: int)
    ensures cnt(l, j) >= 0
    decreases l.len()
{ if l.len() > 0 { lemma_cnt_pos(l.drop_last(), j); } }
pub proof fn lemma_typed(nu: Seq<int>, mu: Seq<int>, k: int)
    requires is_part(mu), !ends0(mu), k >= 0
    ensures typed(nu, k) && bare(nu) =~= mu <==> nu =~= mu || (k > 0 && mu.contains(k) && nu =~= mu + seq![0int]),
        typ(mu, k) == (if k > 0 && mu.contains(k) { 1int } else { 0int }), k > 0 && mu.contains(k) ==> typ(mu + seq![0int], k) == 2, bare(mu) =~= mu, bare(mu + seq![0int]) =~= mu,
        k == 0 ==> !mu.contains(k)
{
    let z = mu + seq![0int];
    assert(ends0(z));
    assert(slice(z, 0, z.len() - 1) =~= mu);
    if ends0(nu) { assert(nu =~= slice(nu, 0, nu.len() - 1) + seq![0int]); }
    if mu.contains(k) { let i = choose|i: int| 0 <= i < mu.len() && mu[i] == k; assert(z[i] == k); assert(mu[i] >= mu[mu.len() - 1]); }
}
//# fn schubertpy/orthogonal_grassmannian.py::OrthogonalGrassmannian._dcoef(self_: SPACE, p: I, lam: L, mu: L, tlam: I, k: I, n: I) -> FS
//# vars cc _expr h pmu i lami
//# types _expr: FS
requires pairing(lam, mu, k, 1), !ends0(mu), sum_seq(mu) == sum_seq(lam) + iabs(p), tlam == typ(lam, k), k > 0 || p != 0
ensures forall|nu: Seq<int>, e: Exp| #[trigger] fs_coef(result, nu, e) == (if e == e0() && typed(nu, k) && bare(nu) == mu { coef_d0(lam, nu, p, k) } else { 0real }),
    forall|x: Seq<int>| #[trigger] fs_has(result, x) ==> typed(x, k) && bare(x) == mu
//# hint entry
broadcast use group_has;
hide(pairing);
hide(ncomp);
hide(is_part);
hide(strips);
hide(typed);
hide(typ);
hide(kept);
let ghost mu0 = mu;
lemma_d_scope(lam, mu, k);
lemma_exponent(lam, mu, k, 1, iabs(p));
lemma_typed(mu, mu, k);
lemma_typed(mu + seq![0int], mu, k);
lemma_typ_range(lam, k);
assert forall|nu: Seq<int>| (#[trigger] typed(nu, k) && bare(nu) == mu) <==> nu =~= mu || (k > 0 && mu.contains(k) && nu =~= mu + seq![0int]) by { lemma_typed(nu, mu, k); }
assert(!(mu =~= mu + seq![0int]));
lemma_kept(lam, mu, k);
//# hint before loop 0
lemma_grow(lam, mu, k, mu.len() as int);
//# loop 0
invariant h == k + tlam + (if p < 0 { 1int } else { 0int }) - many(grow_f(lam, mu, it0 + 1), k), pmu == row(mu, it0 + 1)
//# hint loop 0 head
lemma_grow(lam, mu, k, it0 + 1);
//# end
pub proof fn lemma_typ_range(lam: Seq<int>, k: int)
    ensures 0 <= typ(lam, k) <= 2
{}
pub proof fn lemma_d_scope(lam: Seq<int>, mu: Seq<int>, k: int)
    requires pairing(lam, mu, k, 1)
    ensures is_part(lam), is_part(mu), strips(lam, mu, k), k >= 0, forall|i: int| 0 <= i < lam.len() ==> #[trigger] lam[i] == row(lam, i), forall|i: int| i >= lam.len() ==> #[trigger] row(lam, i) == 0
{}
//# fn schubertpy/orthogonal_grassmannian.py::OrthogonalGrassmannian.pieriD_inner(self_: SPACE, p: I, lam: L, k: I, n: I) -> FS
//# vars tlam res mu
//# types res: FS
//# fun pieri_d
requires in_scope(lam, k, n + 1 - k, n + k, 1), k == 0 ==> p != 0 && !lam.contains(0)
ensures forall|nu: Seq<int>, e: Exp| #[trigger] fs_coef(result, nu, e) == (if e == e0() { coef_d(lam, nu, p, k, n) } else { 0real }),
    forall|x: Seq<int>| #[trigger] fs_has(result, x) ==> class_in(x, k, n + 1 - k, n + k)
//# hint entry
broadcast use group_has;
hide(in_box);
hide(term);
hide(in_scope);
hide(ncomp);
hide(pairing);
hide(arrow);
hide(typed);
hide(coef_d0);
assert(k >= 0) by { reveal(in_scope); }
//# hint before loop 0
assert(tlam == typ(lam, k));
assert forall|x: Seq<int>| !among(sq0, 0, x) by { lemma_among(sq0, 0, x); }
//# loop 0
invariant forall|nu: Seq<int>, e: Exp| #[trigger] fs_coef(res, nu, e) == (if e == e0() && typed(nu, k) && among(sq0, it0, bare(nu)) { coef_d0(lam, nu, p, k) } else { 0real }),
    forall|x: Seq<int>| #[trigger] fs_has(res, x) ==> class_in(x, k, n + 1 - k, n + k)
//# hint loop 0 head
let ghost res0 = res;
lemma_among(sq0, it0 - 1, mu);
lemma_term_pairing(lam, mu, iabs(p), k, n + 1 - k, n + k, 1);
lemma_term_size(lam, mu, iabs(p), k, n + 1 - k, n + k, 1);
//# hint loop 0 end
assert forall|nu: Seq<int>, e: Exp| #[trigger] fs_coef(res, nu, e) == (if e == e0() && typed(nu, k) && among(sq0, it0, bare(nu)) { coef_d0(lam, nu, p, k) } else { 0real }) by {
    lemma_among(sq0, it0 - 1, bare(nu));
    assert(fs_coef(res0, nu, e) == (if e == e0() && typed(nu, k) && among(sq0, it0 - 1, bare(nu)) { coef_d0(lam, nu, p, k) } else { 0real }));
}
//# hint after loop 0
assert forall|nu: Seq<int>| #[trigger] among(sq0, it0, nu) <==> term(lam, nu, iabs(p), k, n + 1 - k, n + k, 1) by { lemma_among(sq0, 0, nu); assert(sq0.contains(nu) <==> term(lam, nu, iabs(p), k, n + 1 - k, n + k, 1)); }
//# end
pub proof fn lemma_term_size(lam: Seq<int>, mu: Seq<int>, p: int, k: int, m: int, w: int, d: int)
    requires term(lam, mu, p, k, m, w, d)
    ensures !ends0(mu), sum_seq(mu) == sum_seq(lam) + p
{}
// ---- the method pieri
pub open spec fn pieri_c_of(s: Space, i: int) -> spec_fn(Seq<int>) -> Seq<Term> { |x: Seq<int>| pieri_c(s, i, x, s._k, s._n) }
pub open spec fn pieri_b_of(s: Space, i: int) -> spec_fn(Seq<int>) -> Seq<Term> { |x: Seq<int>| pieri_b(s, i, x, s._k, s._n) }
pub open spec fn pieri_d_of(s: Space, i: int) -> spec_fn(Seq<int>) -> Seq<Term> { |x: Seq<int>| pieri_d(s, i, x, s._k, s._n) }
pub open spec fn all_scope(a: Seq<Term>, k: int, m: int, w: int, d: int) -> bool { forall|x: Seq<int>| #[trigger] fs_has(a, x) ==> in_scope(x, k, m, w, d) && (d == 1 && k == 0 ==> !x.contains(0)) }

//# fn schubertpy/abstract_grassmannian.py::AbstractGrassmannian.pieri@IsotropicGrassmannian^lin(self_: SPACE, i: I, lc: FS) -> FS
//# types _pieri: pieriC_inner
requires is_C(self_), all_scope(lc, self_._k, self_._n - self_._k, self_._n + self_._k, 0)
ensures result == fs_apply(pieri_c_of(self_, i), lc)
//# hint return
lemma_fs_apply_ext(pieri_c_of(self_, i), |p: Seq<int>| pieri_c(self_, i, p, self_._k, self_._n), lc);
//# fn schubertpy/abstract_grassmannian.py::AbstractGrassmannian.pieri@IsotropicGrassmannian^list(self_: SPACE, i: I, lc: L) -> FS
//# types _pieri: pieriC_inner
requires is_C(self_), in_scope(lc, self_._k, self_._n - self_._k, self_._n + self_._k, 0)
ensures result == pieri_c_of(self_, i)(lc)
//# end
//# fn schubertpy/abstract_grassmannian.py::AbstractGrassmannian.pieri@OrthogonalGrassmannian^blin(self_: SPACE, i: I, lc: FS) -> FS
//# types _pieri: pieriB_inner
requires is_B(self_), all_scope(lc, self_._k, self_._n - self_._k, self_._n + self_._k, 0)
ensures result == fs_apply(pieri_b_of(self_, i), lc)
//# hint return
lemma_fs_apply_ext(pieri_b_of(self_, i), |p: Seq<int>| pieri_b(self_, i, p, self_._k, self_._n), lc);
//# fn schubertpy/abstract_grassmannian.py::AbstractGrassmannian.pieri@OrthogonalGrassmannian^blist(self_: SPACE, i: I, lc: L) -> FS
//# types _pieri: pieriB_inner
requires is_B(self_), in_scope(lc, self_._k, self_._n - self_._k, self_._n + self_._k, 0)
ensures result == pieri_b_of(self_, i)(lc)
//# end
//# fn schubertpy/abstract_grassmannian.py::AbstractGrassmannian.pieri@OrthogonalGrassmannian^dlin(self_: SPACE, i: I, lc: FS) -> FS
//# types _pieri: pieriD_inner
requires is_D(self_), self_._k == 0 ==> i != 0, all_scope(lc, self_._k, self_._n + 1 - self_._k, self_._n + self_._k, 1)
ensures result == fs_apply(pieri_d_of(self_, i), lc)
//# hint return
lemma_fs_apply_ext(pieri_d_of(self_, i), |p: Seq<int>| pieri_d(self_, i, p, self_._k, self_._n), lc);
//# fn schubertpy/abstract_grassmannian.py::AbstractGrassmannian.pieri@OrthogonalGrassmannian^dlist(self_: SPACE, i: I, lc: L) -> FS
//# types _pieri: pieriD_inner
requires is_D(self_), self_._k == 0 ==> i != 0 && !lc.contains(0), in_scope(lc, self_._k, self_._n + 1 - self_._k, self_._n + self_._k, 1)
ensures result == pieri_d_of(self_, i)(lc)
//# end
// C03: the product with a class
pub proof fn theorem_pieri_iso(s: Space, i: int, lam: Seq<int>)
    requires s._k >= 0
    ensures
        is_C(s) && in_scope(lam, s._k, s._n - s._k, s._n + s._k, 0) ==> forall|nu: Seq<int>, e: Exp| #[trigger] fs_coef(fs_apply(pieri_c_of(s, i), fs_one(lam)), nu, e) == (if e == e0() { coef_c(lam, nu, i, s._k, s._n) } else { 0real }),
        is_B(s) && in_scope(lam, s._k, s._n - s._k, s._n + s._k, 0) ==> forall|nu: Seq<int>, e: Exp| #[trigger] fs_coef(fs_apply(pieri_b_of(s, i), fs_one(lam)), nu, e) == (if e == e0() { coef_b(lam, nu, i, s._k, s._n) } else { 0real }),
        is_D(s) && in_scope(lam, s._k, s._n + 1 - s._k, s._n + s._k, 1) && (s._k == 0 ==> i != 0 && !lam.contains(0)) ==>
            forall|nu: Seq<int>, e: Exp| #[trigger] fs_coef(fs_apply(pieri_d_of(s, i), fs_one(lam)), nu, e) == (if e == e0() { coef_d(lam, nu, i, s._k, s._n) } else { 0real }),
{
    if is_C(s) && in_scope(lam, s._k, s._n - s._k, s._n + s._k, 0) {
        let f = pieri_c_of(s, i);
        axiom_pieri_c(s, i, lam, s._k, s._n);
        lemma_fs_apply_one(f, lam);
        assert forall|nu: Seq<int>, e: Exp| #[trigger] fs_coef(fs_apply(f, fs_one(lam)), nu, e) == (if e == e0() { coef_c(lam, nu, i, s._k, s._n) } else { 0real }) by { assert(fs_coef(fs_apply(f, fs_one(lam)), nu, e) == fs_coef(f(lam), nu, e)); }
    }
    if is_B(s) && in_scope(lam, s._k, s._n - s._k, s._n + s._k, 0) {
        let f = pieri_b_of(s, i);
        axiom_pieri_b(s, i, lam, s._k, s._n);
        lemma_fs_apply_one(f, lam);
        assert forall|nu: Seq<int>, e: Exp| #[trigger] fs_coef(fs_apply(f, fs_one(lam)), nu, e) == (if e == e0() { coef_b(lam, nu, i, s._k, s._n) } else { 0real }) by { assert(fs_coef(fs_apply(f, fs_one(lam)), nu, e) == fs_coef(f(lam), nu, e)); }
    }
    if is_D(s) && in_scope(lam, s._k, s._n + 1 - s._k, s._n + s._k, 1) && (s._k == 0 ==> i != 0 && !lam.contains(0)) {
        let f = pieri_d_of(s, i);
        axiom_pieri_d(s, i, lam, s._k, s._n);
        lemma_fs_apply_one(f, lam);
        assert forall|nu: Seq<int>, e: Exp| #[trigger] fs_coef(fs_apply(f, fs_one(lam)), nu, e) == (if e == e0() { coef_d(lam, nu, i, s._k, s._n) } else { 0real }) by { assert(fs_coef(fs_apply(f, fs_one(lam)), nu, e) == fs_coef(f(lam), nu, e)); }
    }
}

//# unit pieric
//# use exps pieria spaces
// ---- sums over lists without duplicates
pub open spec fn among(s: Seq<Seq<int>>, n: int, x: Seq<int>) -> bool { exists|j: int| 0 <= j < n && #[trigger] s[j] == x }
pub proof fn lemma_among(s: Seq<Seq<int>>, n: int, x: Seq<int>)
    ensures !among(s, 0, x), 0 <= n < s.len() ==> (among(s, n + 1, x) <==> among(s, n, x) || s[n] == x),
        0 <= n < s.len() && s.no_duplicates() && s[n] == x ==> !among(s, n, x), among(s, s.len() as int, x) <==> s.contains(x), 0 <= n < s.len() ==> s.contains(s[n])
{
    if 0 <= n < s.len() && among(s, n, x) { let j = choose|j: int| 0 <= j < n && #[trigger] s[j] == x; assert(0 <= j < n + 1); }
    if 0 <= n < s.len() { assert(s[n] == s[n]); }
}
// ---- C03: the classical Pieri products
pub open spec fn coef_c(lam: Seq<int>, nu: Seq<int>, p: int, k: int, n: int) -> real { if term(lam, nu, p, k, n - k, n + k, 0) { pow2r(ncomp(lam, nu, k, 0, true)) } else { 0real } }
pub open spec fn coef_b(lam: Seq<int>, nu: Seq<int>, p: int, k: int, n: int) -> real {
    if term(lam, nu, p, k, n - k, n + k, 0) { pow2r(ncomp(lam, nu, k, 0, false) - (if p <= k { 0int } else { 1int })) } else { 0real }
}
pub proof fn lemma_term_pairing(lam: Seq<int>, mu: Seq<int>, p: int, k: int, m: int, w: int, d: int)
    requires in_scope(lam, k, m, w, d), d <= 1, term(lam, mu, p, k, m, w, d)
    ensures in_box(mu, k, m, w), pairing(lam, mu, k, d), ncomp(lam, mu, k, d, false) >= 0, ncomp(lam, mu, k, d, true) >= 0, p > k ==> ncomp(lam, mu, k, d, false) >= 1
{
    lemma_strips_in(lam, mu, k);
    lemma_exponent(lam, mu, k, d, p);
}

//# fn schubertpy/isotropic_grassmannian.py::IsotropicGrassmannian.pieriC_inner(self_: SPACE, i: I, lam: L, k: I, n: I) -> FS
//# vars result x
//# types result: FS
//# fun pieri_c
requires in_scope(lam, k, n - k, n + k, 0)
ensures forall|nu: Seq<int>, e: Exp| #[trigger] fs_coef(result, nu, e) == (if e == e0() { coef_c(lam, nu, i, k, n) } else { 0real }),
    forall|x: Seq<int>| #[trigger] fs_has(result, x) ==> in_box(x, k, n - k, n + k)
//# hint entry
broadcast use group_has;
hide(in_box);
hide(term);
hide(in_scope);
hide(ncomp);
hide(pairing);
hide(arrow);
//# hint before loop 0
assert forall|x: Seq<int>| !among(sq0, 0, x) by { lemma_among(sq0, 0, x); }
//# loop 0
invariant forall|nu: Seq<int>, e: Exp| #[trigger] fs_coef(result, nu, e) == (if e == e0() && among(sq0, it0, nu) { coef_c(lam, nu, i, k, n) } else { 0real }),
    forall|x: Seq<int>| #[trigger] fs_has(result, x) ==> in_box(x, k, n - k, n + k)
//# hint loop 0 head
let ghost res0 = result;
lemma_among(sq0, it0 - 1, x);
lemma_term_pairing(lam, x, i, k, n - k, n + k, 0);
//# hint loop 0 end
assert forall|nu: Seq<int>, e: Exp| #[trigger] fs_coef(result, nu, e) == (if e == e0() && among(sq0, it0, nu) { coef_c(lam, nu, i, k, n) } else { 0real }) by {
    lemma_among(sq0, it0 - 1, nu);
    assert(fs_coef(res0, nu, e) == (if e == e0() && among(sq0, it0 - 1, nu) { coef_c(lam, nu, i, k, n) } else { 0real }));
}
//# hint after loop 0
assert forall|nu: Seq<int>| #[trigger] among(sq0, it0, nu) <==> term(lam, nu, i, k, n - k, n + k, 0) by { lemma_among(sq0, 0, nu); assert(sq0.contains(nu) <==> term(lam, nu, i, k, n - k, n + k, 0)); }
//# end
//# fn schubertpy/orthogonal_grassmannian.py::OrthogonalGrassmannian.pieriB_inner(self_: SPACE, p: I, lam: L, k: I, n: I) -> FS
//# vars result b pset mu
//# types result: FS
//# fun pieri_b
requires in_scope(lam, k, n - k, n + k, 0)
ensures forall|nu: Seq<int>, e: Exp| #[trigger] fs_coef(result, nu, e) == (if e == e0() { coef_b(lam, nu, p, k, n) } else { 0real }),
    forall|x: Seq<int>| #[trigger] fs_has(result, x) ==> in_box(x, k, n - k, n + k)
//# hint entry
broadcast use group_has;
hide(in_box);
hide(term);
hide(in_scope);
hide(ncomp);
hide(pairing);
hide(arrow);
//# hint before loop 0
assert forall|x: Seq<int>| !among(sq0, 0, x) by { lemma_among(sq0, 0, x); }
//# loop 0
invariant forall|nu: Seq<int>, e: Exp| #[trigger] fs_coef(result, nu, e) == (if e == e0() && among(sq0, it0, nu) { coef_b(lam, nu, p, k, n) } else { 0real }),
    forall|x: Seq<int>| #[trigger] fs_has(result, x) ==> in_box(x, k, n - k, n + k)
//# hint loop 0 head
let ghost res0 = result;
lemma_among(sq0, it0 - 1, mu);
lemma_term_pairing(lam, mu, p, k, n - k, n + k, 0);
//# hint loop 0 end
assert forall|nu: Seq<int>, e: Exp| #[trigger] fs_coef(result, nu, e) == (if e == e0() && among(sq0, it0, nu) { coef_b(lam, nu, p, k, n) } else { 0real }) by {
    lemma_among(sq0, it0 - 1, nu);
    assert(fs_coef(res0, nu, e) == (if e == e0() && among(sq0, it0 - 1, nu) { coef_b(lam, nu, p, k, n) } else { 0real }));
}
//# hint after loop 0
assert forall|nu: Seq<int>| #[trigger] among(sq0, it0, nu) <==> term(lam, nu, p, k, n - k, n + k, 0) by { lemma_among(sq0, 0, nu); assert(sq0.contains(nu) <==> term(lam, nu, p, k, n - k, n + k, 0)); }
//# end

//# unit rimprod
//# use prods rims
// ---- the rim hook product: the product of a larger Grassmannian, with rim hooks of n boxes taken away
pub open spec fn big(s: Space) -> Space { space_A(s._n - s._k, 2 * s._n - 1) }
pub open spec fn sign_of(d: int) -> real { if d % 2 == 0 { 1real } else { -1real } }
// the sum is c q^d times the class of p
pub open spec fn single(f: Seq<Term>, c: real, d: int, p: Seq<int>) -> bool { forall|y: Seq<int>, e: Exp| #[trigger] fs_coef(f, y, e) == (if y =~= p && e == (d, 0int, 0int) { c } else { 0real }) }
// the class of x becomes +- q^d times the class of the partition in the grid that is left when d rim hooks of n boxes are
// taken away (the sign counts the rows of the rim hooks against the rows of the grid), or 0 when there is none
pub open spec fn reduced(s: Space, x: Seq<int>, f: Seq<Term>) -> bool {
    let m = s._n - s._k;
    if in_range(x, m, s._k) { single(f, 1real, 0, x) }
    else {
        ||| rim_stuck(x, s._n, m, s._k) && single(f, 0real, 0, x)
        ||| exists|p: Seq<int>, d: int, h: int| #[trigger] rim_chain(x, p, s._n, d, h) && d > 0 && is_part(p) && in_range(p, m, s._k) && single(f, sign_of(h - m * d), d, p)
    }
}
pub broadcast proof fn lemma_qpow(n: int)
    requires n >= 0
    ensures #[trigger] sc_pow(sc_q(), n) == seq![Scal { c: 1real, e: (n, 0, 0) }]
    decreases n
{
    if n > 0 {
        lemma_qpow(n - 1);
        let t = seq![Scal { c: 1real, e: (n - 1, 0, 0) }];
        assert(sc_q().drop_last() =~= Seq::<Scal>::empty());
        assert(sc_mul(sc_q().drop_last(), t) =~= Seq::<Scal>::empty());
        assert(sc_mul(sc_q(), t) =~= seq![Scal { c: 1real, e: (n, 0, 0) }]);
    }
    assert(sc_pow(sc_q(), n) =~= seq![Scal { c: 1real, e: (n, 0, 0) }]);
}
pub broadcast proof fn lemma_coef_mul1(s: Seq<Scal>, a: Seq<Term>, l: Seq<int>, e: Exp)
    requires s.len() == 1
    ensures #[trigger] fs_coef(fs_mul(s, a), l, e) == s[0].c * fs_coef(a, l, esub(e, s[0].e))
{ assert(s =~= seq![s[0]]); lemma_fs_mul1(s[0], a, l, e); }
pub broadcast proof fn lemma_sign(n: int)
    requires n >= 0
    ensures #[trigger] powi(-1, n) == (if n % 2 == 0 { 1int } else { -1int })
    decreases n
{ if n > 0 { lemma_sign(n - 1); } }
pub broadcast group group_rimprod { lemma_qpow, lemma_coef_mul1, lemma_sign }
// the rim hook theorem of Bertram, Ciocan-Fontanine and Fulton (Quantum multiplication of Schur polynomials, 1999);
// not proved here
#[verifier::external_body]
pub proof fn axiom_rim_hooks(s: Space, a: Seq<Term>, b: Seq<Term>, c: Seq<Term>, f: spec_fn(Seq<int>) -> Seq<Term>)
    requires is_A(s), s._n - s._k >= 1, all_in(a, s), all_in(b, s), all_in(c, big(s)), fs_same(c, mult_s(big(s), a, b)),
        forall|x: Seq<int>| #[trigger] fs_has(c, x) ==> reduced(s, x, f(x))
    ensures fs_same(fs_apply(f, c), qmult_s(s, a, b))
{ }
//# fn schubertpy/grassmannian.py::Grassmannian.qmult_rh.__rm_rim_hook(arr: L, self_: SPACE) -> FS
//# fun rm_rim_hook
requires is_A(self_), self_._n - self_._k >= 1, is_part(arr)
ensures reduced(self_, arr, result)
//# hint entry
broadcast use group_rimprod;
//# hint call Partition.remove_rim_hooks
let v_ = $r->Val_0;
let m_ = self_._n - self_._k;
if v_.1 > 0 { assert(rim_chain(arr, v_.0.unwrap(), self_._n, v_.1, v_.2)); assert(m_ * v_.1 == v_.1 * m_) by (nonlinear_arith); }
//# end
//# fn schubertpy/grassmannian.py::Grassmannian.qmult_rh(self_: SPACE, lc1: FS, lc2: FS) -> FS
requires is_A(self_), self_._n - self_._k >= 1, all_in(lc1, self_), all_in(lc2, self_)
ensures fs_same(result, qmult_s(self_, lc1, lc2))
//# hint entry
assert forall|x: Seq<int>| box_s(x, self_) implies box_s(x, big(self_)) by {}
//# hint call AbstractGrassmannian.mult
assert forall|x: Seq<int>| #[trigger] fs_has($r, x) implies is_part(x) && reduced(self_, x, rm_rim_hook(x, self_)) by { axiom_rm_rim_hook(x, self_); }
axiom_rim_hooks(self_, lc1, lc2, $r, |x: Seq<int>| rm_rim_hook(x, self_));
//# end

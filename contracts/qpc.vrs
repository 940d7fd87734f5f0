//# unit qpc
//# use pierid fsalg
// ---- C04: quantum Pieri products; a full first row is removed
pub open spec fn put(c: int, nu: Seq<int>) -> Seq<int> { seq![c] + nu }
pub proof fn lemma_star_pre(c: int, nu: Seq<int>, h: Seq<Term>, e: Exp, f: spec_fn(Seq<int>) -> Seq<Term>)
    requires forall|x: Seq<int>| #[trigger] f(x) == star_fs(x, c)
    ensures fs_coef(fs_apply(f, h), nu, e) == fs_coef(h, put(c, nu), e)
{
    let pre = put(c, nu);
    let g = |x: Seq<int>| star(x, c);
    assert forall|t: int| 0 <= t < h.len() implies (((#[trigger] g(h[t].lam)).is_some() && g(h[t].lam).unwrap() =~= nu) <==> h[t].lam =~= pre) by {
        let x = h[t].lam;
        if g(x).is_some() && g(x).unwrap() =~= nu { assert(x =~= seq![x[0]] + slice(x, 1, x.len() as int)); }
        if x =~= pre { assert(slice(x, 1, x.len() as int) =~= nu); }
    }
    lemma_fs_apply_inj(f, g, h, nu, pre, e);
}
pub proof fn lemma_box_tail(y: Seq<int>, k: int, m: int, w: int)
    requires in_box(y, k, m, w), y.len() > 0
    ensures in_box(slice(y, 1, y.len() as int), k, m - 1, w), y[0] == w && w > k ==> in_box(slice(y, 1, y.len() as int), k, m - 1, w - 1)
{
    let x = slice(y, 1, y.len() as int);
    assert forall|i: int| 0 <= i < x.len() implies #[trigger] x[i] == y[i + 1] by {}
    assert(is_part(x));
    assert(kstrict(x, k));
    if x.len() > 0 { assert(y[0] >= y[1]); assert(x.last() == y.last()); }
}
pub proof fn lemma_star_box(h: Seq<Term>, f: spec_fn(Seq<int>) -> Seq<Term>, k: int, m: int, w: int)
    requires forall|x: Seq<int>| #[trigger] f(x) == star_fs(x, w), forall|x: Seq<int>| #[trigger] fs_has(h, x) ==> in_box(x, k, m, w), w > k
    ensures forall|x: Seq<int>| #[trigger] fs_has(fs_apply(f, h), x) ==> in_box(x, k, m - 1, w - 1)
{
    broadcast use group_has;
    assert forall|x: Seq<int>| #[trigger] fs_has(fs_apply(f, h), x) implies in_box(x, k, m - 1, w - 1) by {
        let y = has_apply(f, h, x);
        assert(f(y) == star_fs(y, w));
        assert(star(y, w).is_some() && x == star(y, w).unwrap());
        lemma_box_tail(y, k, m, w);
    }
}
pub open spec fn qcoef_c(lam: Seq<int>, nu: Seq<int>, e: Exp, p: int, k: int, n: int) -> real {
    if e == e0() { coef_c(lam, nu, p, k, n) }
    else if e == (1int, 0int, 0int) { (1real / 2real) * coef_c(lam, put(n + k + 1, nu), p, k, n + 1) }
    else { 0real }
}
//# fn schubertpy/isotropic_grassmannian.py::IsotropicGrassmannian.qpieriC_inner(self_: SPACE, i: I, lam: L, k: I, n: I) -> FS
//# vars q inner_result second_term
//# fun qpieri_c
requires in_scope(lam, k, n - k, n + k, 0)
ensures forall|nu: Seq<int>, e: Exp| #[trigger] fs_coef(result, nu, e) == qcoef_c(lam, nu, e, i, k, n),
    forall|x: Seq<int>| #[trigger] fs_has(result, x) ==> in_box(x, k, n - k, n + k)
//# hint entry
hide(in_box);
broadcast use group_has;
lemma_scope_up(lam, k, n - k, n + k, 0);
//# hint return
let h = pieri_c(self_, i, lam, k, n + 1);
axiom_pieri_c(self_, i, lam, k, n);
axiom_pieri_c(self_, i, lam, k, n + 1);
lemma_star_box(h, |x: Seq<int>| star_fs(x, n + k + 1), k, n - k + 1, n + k + 1);
let f = |x: Seq<int>| star_fs(x, n + k + 1);
assert forall|nu: Seq<int>, e: Exp| #[trigger] fs_coef(result, nu, e) == qcoef_c(lam, nu, e, i, k, n) by {
    lemma_star_pre(n + k + 1, nu, h, (e.0 - 1, e.1, e.2), f);
    fs_coef_halfq(fs_apply(f, h), nu, e);
}
//# end
pub proof fn lemma_scope_up(lam: Seq<int>, k: int, m: int, w: int, d: int)
    requires in_scope(lam, k, m, w, d)
    ensures in_scope(lam, k, m + 1, w + 1, d)
{}
// the coefficients of the q-term are integers: a full first row of the larger space leaves a component that does not
// meet column k + 1
pub proof fn lemma_free_down(lam: Seq<int>, mu: Seq<int>, k: int, j: int, e: int)
    requires pairing(lam, mu, k, 0), e == ex(mu, k, 0), 1 <= j <= e, col_free(lam, mu, k, 0, e), leaders(lam, mu, k, 0, 1, e) < 1
    ensures col_free(lam, mu, k, 0, j), leaders(lam, mu, k, 0, 1, j) < 1
    decreases e - j
{
    if j < e {
        lemma_free_down(lam, mu, k, j + 1, e);
        lemma_strips_in(lam, mu, k);
        lemma_leader(lam, mu, k, 0, j + 1);
        lemma_leaders_nonneg(lam, mu, k, 0, 1, j);
    }
}
pub proof fn lemma_col_marked(lam: Seq<int>, mu: Seq<int>, k: int, n: int, i: int)
    requires pairing(lam, mu, k, 0), in_scope(lam, k, n - k, n + k, 0), row(mu, 0) == n + k + 1, 0 <= i < k, cnt(mu, i) <= cnt(lam, i)
    ensures exists|c: int| 0 <= c < n + 1 && #[trigger] marks(lam, mu, k, 0, k, c)
{
    lemma_comps_scope(lam, mu, k, 0);
    let t = diag(lam, k, 0, i);
    lemma_beta(lam, k, t);
    lemma_cnt(lam, i);
    lemma_cnt(lam, k);
    lemma_cnt(mu, k);
    assert(cnt(mu, k) >= 1) by { assert(mu[0] > k); }
    assert(cnt(lam, k) <= cnt(lam, i)) by { if cnt(lam, k) > cnt(lam, i) { assert(lam[cnt(lam, k) - 1] > k); } }
    assert(cnt(lam, i) <= n - k) by { if cnt(lam, i) > n - k { lemma_is_clip(lam); assert(lam[cnt(lam, i) - 1] > i); } }
    let c = t - 1 - ptr(lam, mu, k, 0, i);
    assert(mark(lam, mu, k, 0, i, c));
    assert(marks(lam, mu, k, 0, k, c));
}
pub proof fn lemma_qterm_even(lam: Seq<int>, mu: Seq<int>, p: int, k: int, n: int)
    requires in_scope(lam, k, n - k, n + k, 0), term(lam, mu, p, k, n + 1 - k, n + 1 + k, 0), row(mu, 0) == n + k + 1, p <= n + k
    ensures ncomp(lam, mu, k, 0, true) >= 1
{
    lemma_scope_up(lam, k, n - k, n + k, 0);
    lemma_term_pairing(lam, mu, p, k, n + 1 - k, n + 1 + k, 0);
    lemma_term_size(lam, mu, p, k, n + 1 - k, n + 1 + k, 0);
    lemma_comps_scope(lam, mu, k, 0);
    lemma_strips_in(lam, mu, k);
    let e = ex(mu, k, 0);
    let m = cnt(mu, k);
    assert(e == n + 1);
    lemma_cnt(mu, k);
    assert(m >= 1) by { assert(mu[0] > k); }
    lemma_qterm_col(lam, mu, k, n);
    if ncomp(lam, mu, k, 0, true) < 1 {
        assert forall|c: int| 0 <= c < e implies boxed(lam, mu, k, m, c) && !#[trigger] marks(lam, mu, k, 0, k, c) by {
            lemma_free_down(lam, mu, k, c + 1, e);
            lemma_col_free(lam, mu, k, 0, c);
        }
        lemma_boxed_many(lam, mu, k, 0, m);
        let f = |c: int| false;
        let g = boxed_f(lam, mu, k, m);
        assert forall|c: int| 0 <= c < e implies (#[trigger] g(c) <==> f(c) || 0 <= c < e) by { assert(!marks(lam, mu, k, 0, k, c)); }
        lemma_many_none(f, e);
        lemma_many_add(f, g, 0, e, e);
        let a = cols(lam, k);
        let b = cols(mu, k);
        assert forall|i: int| 0 <= i < k implies #[trigger] b[i] == a[i] + 1 by {
            assert(cnt(mu, i) <= cnt(lam, i) + 1);
            if cnt(mu, i) <= cnt(lam, i) { lemma_col_marked(lam, mu, k, n, i); }
        }
        lemma_pair_sum(lam, k, m);
        lemma_pair_sum(mu, k, m);
        lemma_sum_dec(b);
        assert(b.map_values(|v: int| v - 1) =~= a);
    }
}
pub proof fn lemma_qterm_col(lam: Seq<int>, mu: Seq<int>, k: int, n: int)
    requires pairing(lam, mu, k, 0), in_scope(lam, k, n - k, n + k, 0), row(mu, 0) == n + k + 1
    ensures col_free(lam, mu, k, 0, n + 1)
{
    lemma_comps_scope(lam, mu, k, 0);
    lemma_cnt(mu, k);
    assert(cnt(mu, k) >= 1) by { assert(mu[0] > k); }
    assert(in_col(lam, mu, k, 0, n));
    assert(boxed(lam, mu, k, cnt(mu, k), n));
    if marks(lam, mu, k, 0, k, n) {
        let i = choose|i: int| 0 <= i < k && #[trigger] mark(lam, mu, k, 0, i, n);
        lemma_beta(lam, k, diag(lam, k, 0, i));
        lemma_cnt(lam, i);
        assert(cnt(lam, i) <= n - k) by { if cnt(lam, i) > n - k { lemma_is_clip(lam); assert(lam[cnt(lam, i) - 1] > i); } }
    }
    lemma_col_free(lam, mu, k, 0, n);
}
pub open spec fn qpieri_c_of(s: Space, i: int) -> spec_fn(Seq<int>) -> Seq<Term> { |x: Seq<int>| qpieri_c(s, i, x, s._k, s._n) }

//# fn schubertpy/abstract_grassmannian.py::AbstractGrassmannian.qpieri@IsotropicGrassmannian(self_: SPACE, i: I, lc: FS) -> FS
//# types _qpieri: qpieriC_inner
requires is_C(self_), all_scope(lc, self_._k, self_._n - self_._k, self_._n + self_._k, 0)
ensures fs_same(result, fs_apply(qpieri_c_of(self_, i), lc))
//# hint return
let f = qpieri_c_of(self_, i);
if is_schur(lc) {
    lemma_on_class(f, lc, result);
} else {
    lemma_fs_apply_ext(f, |p: Seq<int>| qpieri_c(self_, i, p, self_._k, self_._n), lc);
}
//# end
pub proof fn lemma_on_class(f: spec_fn(Seq<int>) -> Seq<Term>, a: Seq<Term>, r: Seq<Term>)
    requires is_schur(a), fs_same(r, f(schur_of(a)))
    ensures fs_same(r, fs_apply(f, a))
{
    let lam = schur_of(a);
    axiom_schur(a);
    lemma_fs_apply_same(f, a, fs_one(lam));
    lemma_fs_apply_one(f, lam);
    assert forall|l: Seq<int>, e: Exp| #[trigger] fs_coef(r, l, e) == fs_coef(fs_apply(f, a), l, e) by {
        assert(fs_coef(r, l, e) == fs_coef(f(lam), l, e));
        assert(fs_coef(fs_apply(f, a), l, e) == fs_coef(fs_apply(f, fs_one(lam)), l, e));
        assert(fs_coef(fs_apply(f, fs_one(lam)), l, e) == fs_coef(f(lam), l, e));
    }
}
// C04 in type C
pub proof fn theorem_qpieri_c(s: Space, i: int, lam: Seq<int>)
    requires is_C(s), 1 <= s._n - s._k, in_scope(lam, s._k, s._n - s._k, s._n + s._k, 0), i <= s._n + s._k
    ensures forall|nu: Seq<int>, e: Exp| #[trigger] fs_coef(fs_apply(qpieri_c_of(s, i), fs_one(lam)), nu, e) == qcoef_c(lam, nu, e, i, s._k, s._n),
        forall|nu: Seq<int>| term(lam, #[trigger] put(s._n + s._k + 1, nu), i, s._k, s._n + 1 - s._k, s._n + 1 + s._k, 0) ==>
            qcoef_c(lam, nu, (1int, 0int, 0int), i, s._k, s._n) == pow2r(ncomp(lam, put(s._n + s._k + 1, nu), s._k, 0, true) - 1) && ncomp(lam, put(s._n + s._k + 1, nu), s._k, 0, true) >= 1,
{
    let f = qpieri_c_of(s, i);
    axiom_qpieri_c(s, i, lam, s._k, s._n);
    lemma_fs_apply_one(f, lam);
    assert forall|nu: Seq<int>, e: Exp| #[trigger] fs_coef(fs_apply(f, fs_one(lam)), nu, e) == qcoef_c(lam, nu, e, i, s._k, s._n) by { assert(fs_coef(fs_apply(f, fs_one(lam)), nu, e) == fs_coef(f(lam), nu, e)); }
    assert forall|nu: Seq<int>| term(lam, #[trigger] put(s._n + s._k + 1, nu), i, s._k, s._n + 1 - s._k, s._n + 1 + s._k, 0) implies
            qcoef_c(lam, nu, (1int, 0int, 0int), i, s._k, s._n) == pow2r(ncomp(lam, put(s._n + s._k + 1, nu), s._k, 0, true) - 1) && ncomp(lam, put(s._n + s._k + 1, nu), s._k, 0, true) >= 1 by {
        lemma_qterm_even(lam, put(s._n + s._k + 1, nu), i, s._k, s._n);
    }
}
// ---- terms outside a set that carries all coefficients do not matter
pub proof fn lemma_fs_apply_on(f: spec_fn(Seq<int>) -> Seq<Term>, g: spec_fn(Seq<int>) -> Option<Seq<int>>, h: Seq<Term>, p: spec_fn(Seq<int>) -> bool, nu: Seq<int>, pre: Seq<int>, e: Exp)
    requires
        forall|x: Seq<int>| #[trigger] f(x) == fs_opt(g(x)),
        forall|x: Seq<int>, e1: Exp| !p(x) ==> #[trigger] fs_coef(h, x, e1) == 0real,
        forall|x: Seq<int>| #[trigger] p(x) ==> ((g(x).is_some() && g(x).unwrap() =~= nu) <==> x =~= pre),
    ensures fs_coef(fs_apply(f, h), nu, e) == fs_coef(h, pre, e)
{
    let c = fs_keep(h, p);
    lemma_fs_keep(h, p);
    assert(fs_same(h, c)) by { assert forall|x: Seq<int>, e1: Exp| #[trigger] fs_coef(h, x, e1) == fs_coef(c, x, e1) by {} }
    lemma_fs_apply_same(f, h, c);
    assert forall|i: int| 0 <= i < c.len() implies (((#[trigger] g(c[i].lam)).is_some() && g(c[i].lam).unwrap() =~= nu) <==> c[i].lam =~= pre) by { assert(p(c[i].lam)); }
    lemma_fs_apply_inj(f, g, c, nu, pre, e);
    assert(fs_coef(fs_apply(f, h), nu, e) == fs_coef(fs_apply(f, c), nu, e));
    assert(fs_coef(h, pre, e) == fs_coef(c, pre, e));
}

//# unit pieria
//# use idxmath spaces lex
// ---- sequences between inner and outer with a given sum
pub open spec fn fits(inner: Seq<int>, outer: Seq<int>) -> bool {
    &&& inner.len() == outer.len()
    &&& forall|j: int| 0 <= j < inner.len() ==> #[trigger] inner[j] <= outer[j]
    &&& forall|j: int| 1 <= j < inner.len() ==> #[trigger] outer[j] <= inner[j - 1]
}
pub open spec fn within(mu: Seq<int>, inner: Seq<int>, outer: Seq<int>) -> bool {
    mu.len() == inner.len() && forall|j: int| 0 <= j < inner.len() ==> inner[j] <= #[trigger] mu[j] <= outer[j]
}
// from r on as much as possible as early as possible
pub open spec fn greedy(x: Seq<int>, inner: Seq<int>, outer: Seq<int>, r: int, t: int) -> bool {
    forall|i: int, j: int| r <= i < j < t && #[trigger] x[i] < outer[i] ==> #[trigger] x[j] == inner[j]
}
pub open spec fn room(a: Seq<int>, inner: Seq<int>, r: int, t: int) -> int { psum(a, t) - psum(a, r) - psum(inner, t) + psum(inner, r) }
pub open spec fn none_from(lam: Seq<int>, inner: Seq<int>, outer: Seq<int>, t: int) -> bool {
    forall|mu: Seq<int>, j: int| within(mu, inner, outer) && psum(mu, mu.len() as int) == psum(lam, mu.len() as int) && j > t ==> !#[trigger] lexat(lam, mu, j)
}

pub proof fn lemma_greedy_max(x: Seq<int>, mu: Seq<int>, inner: Seq<int>, outer: Seq<int>, r: int)
    requires fits(inner, outer), within(mu, inner, outer), x.len() == mu.len(), 0 <= r <= x.len(), greedy(x, inner, outer, r, x.len() as int),
        psum(x, x.len() as int) == psum(mu, x.len() as int), forall|i: int| 0 <= i < r ==> #[trigger] x[i] == mu[i]
    ensures mu =~= x || lexgt(x, mu)
{
    let n = x.len() as int;
    if !(mu =~= x) {
        let i = lemma_diff(x, mu, r);
        if x[i] > mu[i] { assert(lexat(x, mu, i)); } else {
            assert(mu[i] <= outer[i]);
            lemma_psum_ext(x, mu, i);
            assert forall|l: int| i + 1 <= l < n implies #[trigger] x[l] <= mu[l] by { assert(x[l] == inner[l]); assert(inner[l] <= mu[l]); }
            lemma_psum_tail(x, mu, i + 1, n);
            assert(psum(x, i + 1) == psum(x, i) + x[i]);
            assert(psum(mu, i + 1) == psum(mu, i) + mu[i]);
            assert(false);
        }
    }
}
pub proof fn lemma_none_last(lam: Seq<int>, inner: Seq<int>, outer: Seq<int>)
    requires within(lam, inner, outer), lam.len() > 0
    ensures none_from(lam, inner, outer, lam.len() - 2)
{
    let n = lam.len() as int;
    assert forall|mu: Seq<int>, j: int| within(mu, inner, outer) && psum(mu, mu.len() as int) == psum(lam, mu.len() as int) && j > n - 2 implies !#[trigger] lexat(lam, mu, j) by {
        if lexat(lam, mu, j) { lemma_psum_ext(lam, mu, n - 1); }
    }
}
pub proof fn lemma_none_step(lam: Seq<int>, inner: Seq<int>, outer: Seq<int>, r: int)
    requires fits(inner, outer), within(lam, inner, outer), 0 <= r < lam.len(), none_from(lam, inner, outer, r),
        lam[r] == inner[r] || room(outer, inner, r + 1, lam.len() as int) < room(lam, inner, r + 1, lam.len() as int) + 1
    ensures none_from(lam, inner, outer, r - 1)
{
    let n = lam.len() as int;
    assert forall|mu: Seq<int>, j: int| within(mu, inner, outer) && psum(mu, mu.len() as int) == psum(lam, mu.len() as int) && j > r - 1 implies !#[trigger] lexat(lam, mu, j) by {
        if lexat(lam, mu, j) {
            if j == r {
                assert(inner[r] <= mu[r]);
                lemma_psum_ext(lam, mu, r);
                lemma_psum_tail(mu, outer, r + 1, n);
                assert(psum(lam, r + 1) == psum(lam, r) + lam[r]);
                assert(psum(mu, r + 1) == psum(mu, r) + mu[r]);
                assert(false);
            } else { assert(!lexat(lam, mu, j)); }
        }
    }
}
pub open spec fn next_below(x: Seq<int>, lam: Seq<int>, inner: Seq<int>, outer: Seq<int>) -> bool {
    &&& within(x, inner, outer)
    &&& psum(x, x.len() as int) == psum(lam, x.len() as int)
    &&& lexgt(lam, x)
    &&& forall|mu: Seq<int>| within(mu, inner, outer) && psum(mu, mu.len() as int) == psum(lam, mu.len() as int) && #[trigger] lexgt(lam, mu) ==> mu =~= x || lexgt(x, mu)
}
pub proof fn lemma_itr_some(lam: Seq<int>, x: Seq<int>, inner: Seq<int>, outer: Seq<int>, r: int)
    requires fits(inner, outer), within(lam, inner, outer), within(x, inner, outer), 0 <= r < lam.len(), none_from(lam, inner, outer, r), lam[r] > inner[r],
        x[r] == lam[r] - 1, forall|i: int| 0 <= i < r ==> #[trigger] x[i] == lam[i],
        room(x, inner, r + 1, lam.len() as int) == room(lam, inner, r + 1, lam.len() as int) + 1, greedy(x, inner, outer, r + 1, x.len() as int)
    ensures next_below(x, lam, inner, outer)
{
    let n = lam.len() as int;
    lemma_psum_ext(x, lam, r);
    assert(psum(lam, r + 1) == psum(lam, r) + lam[r]);
    assert(psum(x, r + 1) == psum(x, r) + x[r]);
    assert(lexat(lam, x, r));
    assert forall|mu: Seq<int>| within(mu, inner, outer) && psum(mu, mu.len() as int) == psum(lam, mu.len() as int) && #[trigger] lexgt(lam, mu) implies mu =~= x || lexgt(x, mu) by {
        let j = choose|j: int| lexat(lam, mu, j);
        if j > r { assert(!lexat(lam, mu, j)); }
        assert forall|i: int| 0 <= i < j implies #[trigger] x[i] == mu[i] by { assert(x[i] == lam[i]); assert(lam[i] == mu[i]); }
        if j < r { assert(x[j] == lam[j]); assert(lexat(x, mu, j)); }
        else if mu[r] < x[r] { assert(lexat(x, mu, r)); }
        else { lemma_greedy_max(x, mu, inner, outer, r + 1); }
    }
}

//# fn schubertpy/utils/mix.py::padding_right(lam: L, value: I, count: I) -> L
//# spec padded
ensures true
//# end
pub open spec fn padded(lam: Seq<int>, value: int, count: int) -> Seq<int> { lam + rep(value, count) }

pub open spec fn filled(x: Seq<int>, lam: Seq<int>, inner: Seq<int>, outer: Seq<int>, r: int, t: int) -> bool {
    &&& x.len() == lam.len()
    &&& forall|j: int| 0 <= j < lam.len() && (j < r || j >= t) ==> #[trigger] x[j] == lam[j]
    &&& forall|j: int| r <= j < t ==> inner[j] <= #[trigger] x[j] <= outer[j]
    &&& greedy(x, inner, outer, r, t)
}
// one more row
pub proof fn lemma_fill_step(x: Seq<int>, y: Seq<int>, lam: Seq<int>, inner: Seq<int>, outer: Seq<int>, r: int, t: int, p: int, v: int)
    requires filled(x, lam, inner, outer, r, t), fits(inner, outer), inner.len() == lam.len(), 0 <= r <= t < lam.len(), p - room(x, inner, r, t) >= 0,
        forall|j: int| r <= j < t && #[trigger] x[j] < outer[j] ==> p - room(x, inner, r, t) == 0, v == imin(outer[t], inner[t] + p - room(x, inner, r, t)), y == x.update(t, v)
    ensures filled(y, lam, inner, outer, r, t + 1), room(y, inner, r, t + 1) == room(x, inner, r, t) + v - inner[t], p - room(y, inner, r, t + 1) >= 0,
        forall|j: int| r <= j < t + 1 && #[trigger] y[j] < outer[j] ==> p - room(y, inner, r, t + 1) == 0
{
    lemma_psum_ext(x, y, t);
    lemma_psum_ext(x, y, r);
    assert(psum(y, t + 1) == psum(y, t) + y[t]);
    assert(psum(inner, t + 1) == psum(inner, t) + inner[t]);
    assert(inner[t] <= outer[t]);
}

//# fn schubertpy/qcalc.py::_pieri_fillA(lam: L, inner: L, outer: L, row_index: I, p: I) -> OL
//# vars res pp rr x
requires fits(inner, outer), lam.len() == inner.len(), 0 <= row_index <= lam.len(), p >= 0, row_index > 0 ==> lam[row_index - 1] >= inner[row_index - 1]
ensures lam.len() == 0 ==> result == Some(lam),
    lam.len() > 0 && result.is_none() ==> room(outer, inner, row_index, lam.len() as int) < p,
    lam.len() > 0 && result.is_some() ==> filled(result.unwrap(), lam, inner, outer, row_index, lam.len() as int) && room(result.unwrap(), inner, row_index, lam.len() as int) == p
//# loop 0
invariant imax(1, row_index) <= rr <= lam.len(),
    filled(res, lam, inner, outer, row_index, rr), pp >= 0, pp == p - room(res, inner, row_index, rr),
    forall|j: int| row_index <= j < rr && #[trigger] res[j] < outer[j] ==> pp == 0,
    res[rr - 1] >= inner[rr - 1]
decreases lam.len() - rr
//# hint before loop 0
if row_index == 0 { lemma_fill_step(lam, res, lam, inner, outer, 0, 0, p, res[0]); }
//# hint loop 0 head
let ghost res0 = res;
let ghost r0 = rr;
//# hint loop 0 end
lemma_fill_step(res0, res, lam, inner, outer, row_index, r0, p, x);
//# hint after loop 0
let n = lam.len() as int;
if pp > 0 {
    assert forall|i: int| row_index <= i < n implies #[trigger] outer[i] <= res[i] by { if res[i] < outer[i] { assert(pp == 0); } }
    lemma_psum_tail(outer, res, row_index, n);
}
assert(slice(res, 0, n) =~= res);
//# end

//# fn schubertpy/qcalc.py::_pieri_itrA(lam: L, inner: L, outer: L) -> OL
//# vars p r lam1
//# types lam1: OL
requires fits(inner, outer), within(lam, inner, outer)
ensures result.is_none() ==> lam.len() == 0 || none_from(lam, inner, outer, -1),
    result.is_some() ==> lam.len() > 0 && next_below(result.unwrap(), lam, inner, outer)
//# loop 0
invariant lam.len() > 0, fits(inner, outer), within(lam, inner, outer), it0 >= -1, it0 <= lam.len() - 2,
    p == room(lam, inner, it0 + 1, lam.len() as int), none_from(lam, inner, outer, it0)
//# hint before loop 0
lemma_none_last(lam, inner, outer);
assert(psum(lam, lam.len() as int) == psum(lam, lam.len() - 1) + lam[lam.len() - 1]);
assert(psum(inner, lam.len() as int) == psum(inner, lam.len() - 1) + inner[lam.len() - 1]);
//# hint loop 0 head
lemma_psum_tail(inner, lam, r + 1, lam.len() as int);
//# hint call _pieri_fillA
let n = lam.len() as int;
lemma_psum_ext($a0, lam, r);
assert(forall|j: int| r < j < n ==> $a0[j] == lam[j]);
if $r.is_some() {
    let x = $r.unwrap();
    assert(forall|j: int| 0 <= j < r ==> x[j] == $a0[j]);
    lemma_itr_some(lam, x, inner, outer, r);
} else {
    lemma_none_step(lam, inner, outer, r);
}
//# hint loop 0 end
if lam[r] == inner[r] { lemma_none_step(lam, inner, outer, r); }
assert(psum(lam, r + 1) == psum(lam, r) + lam[r]);
assert(psum(inner, r + 1) == psum(inner, r) + inner[r]);
//# end

// ---- horizontal strips in the rectangle with m rows and k columns
pub open spec fn pd(l: Seq<int>, m: int) -> Seq<int> { Seq::new(pylen(m), |j: int| row(l, j)) }
pub open spec fn strip(nu: Seq<int>, lam: Seq<int>, p: int, k: int, m: int) -> bool {
    &&& is_part(nu) && !ends0(nu) && nu.len() <= m
    &&& row(nu, 0) <= k
    &&& forall|j: int| 0 <= j < m ==> row(nu, j) >= #[trigger] row(lam, j)
    &&& forall|j: int| 0 <= j < m - 1 ==> #[trigger] row(lam, j) >= row(nu, j + 1)
    &&& sum_seq(nu) == sum_seq(lam) + p
}
pub open spec fn rect(lam: Seq<int>, k: int, m: int) -> bool { is_part(lam) && lam.len() <= m && row(lam, 0) <= k }
pub open spec fn cls_a(x: Seq<int>, k: int, m: int) -> bool { rect(x, k, m) && !ends0(x) }
pub open spec fn above(lam: Seq<int>, k: int, m: int) -> Seq<int> { Seq::new(pylen(m), |j: int| if j == 0 { k } else { row(lam, j - 1) }) }

pub proof fn lemma_pd_sum(l: Seq<int>, m: int)
    requires l.len() <= m
    ensures psum(pd(l, m), m) == sum_seq(l)
{
    let a = pd(l, m);
    lemma_psum_sum(a, m);
    assert(a.subrange(0, m) =~= a);
    assert(a =~= l + rep(0, m - l.len()));
    lemma_sum_add(l, rep(0, m - l.len()));
    lemma_sum_zero(rep(0, m - l.len()));
}
pub proof fn lemma_box_fits(lam: Seq<int>, k: int, m: int)
    requires rect(lam, k, m), m >= 1, k >= 0
    ensures fits(pd(lam, m), above(lam, k, m)), within(pd(lam, m), pd(lam, m), above(lam, k, m))
{
    assert forall|j: int| 0 <= j < m implies #[trigger] pd(lam, m)[j] <= above(lam, k, m)[j] by {
        if 0 < j < lam.len() { assert(lam[j - 1] >= lam[j]); } else if 0 < j == lam.len() { assert(lam[j - 1] >= 0); }
    }
}
pub proof fn lemma_strip_in(nu: Seq<int>, lam: Seq<int>, p: int, k: int, m: int)
    requires strip(nu, lam, p, k, m), rect(lam, k, m), m >= 1, k >= 0
    ensures within(pd(nu, m), pd(lam, m), above(lam, k, m)), psum(pd(nu, m), m) == psum(pd(lam, m), m) + p, clip(pd(nu, m)) =~= nu
{
    let a = pd(nu, m);
    lemma_pd_sum(nu, m);
    lemma_pd_sum(lam, m);
    assert forall|j: int| 0 <= j < m implies pd(lam, m)[j] <= #[trigger] a[j] <= above(lam, k, m)[j] by {
        assert(row(nu, j) >= row(lam, j));
        if j > 0 { assert(row(lam, j - 1) >= row(nu, (j - 1) + 1)); }
    }
    assert(is_clip(a, nu)) by {
        assert(a.subrange(0, nu.len() as int) =~= nu);
    }
    lemma_clip_unique(a, nu);
}
pub proof fn lemma_strip_out(a: Seq<int>, lam: Seq<int>, p: int, k: int, m: int)
    requires within(a, pd(lam, m), above(lam, k, m)), psum(a, m) == psum(pd(lam, m), m) + p, rect(lam, k, m), m >= 1, k >= 0
    ensures strip(clip(a), lam, p, k, m), pd(clip(a), m) =~= a
{
    let nu = clip(a);
    lemma_is_clip(a);
    assert(pd(nu, m) =~= a);
    lemma_pd_sum(nu, m);
    lemma_pd_sum(lam, m);
    assert forall|j: int| 0 <= j < m implies row(nu, j) >= #[trigger] row(lam, j) by { assert(a[j] >= pd(lam, m)[j]); assert(pd(nu, m)[j] == a[j]); }
    assert forall|j: int| 0 <= j < m - 1 implies #[trigger] row(lam, j) >= row(nu, j + 1) by { assert(a[j + 1] <= above(lam, k, m)[j + 1]); assert(pd(nu, m)[j + 1] == a[j + 1]); }
    assert(noninc_adj(nu)) by {
        assert forall|i: int| 0 <= i < nu.len() - 1 implies nu[i] >= #[trigger] nu[i + 1] by { assert(row(nu, i) >= row(lam, i)); assert(row(lam, i) >= row(nu, i + 1)); }
    }
    lemma_noninc_adj(nu);
    assert forall|i: int| 0 <= i < nu.len() implies nu[i] >= 0 by { assert(row(nu, i) >= row(lam, i)); if i < lam.len() { assert(lam[i] >= 0); } }
    assert(row(nu, 0) <= k) by { assert(a[0] <= above(lam, k, m)[0]); assert(pd(nu, m)[0] == a[0]); }
}
// the strips already summed when the enumeration stands at mu
pub open spec fn before(nu: Seq<int>, mu: Option<Seq<int>>, m: int) -> bool { mu.is_none() || lexgt(pd(nu, m), mu.unwrap()) }
pub open spec fn seen(nu: Seq<int>, e: Exp, lam: Seq<int>, p: int, k: int, m: int, mu: Option<Seq<int>>) -> real {
    if e == e0() && strip(nu, lam, p, k, m) && before(nu, mu, m) { 1real } else { 0real }
}
pub open spec fn at_strip(mu: Option<Seq<int>>, lam: Seq<int>, p: int, k: int, m: int) -> bool {
    mu.is_some() ==> within(mu.unwrap(), pd(lam, m), above(lam, k, m)) && psum(mu.unwrap(), m) == psum(pd(lam, m), m) + p
}
pub proof fn lemma_first(mu: Option<Seq<int>>, lam: Seq<int>, p: int, k: int, m: int)
    requires rect(lam, k, m), m >= 1, k >= 0, p >= 0, at_strip(mu, lam, p, k, m),
        mu.is_none() ==> room(above(lam, k, m), pd(lam, m), 0, m) < p,
        mu.is_some() ==> greedy(mu.unwrap(), pd(lam, m), above(lam, k, m), 0, m),
    ensures forall|nu: Seq<int>| #[trigger] strip(nu, lam, p, k, m) ==> !before(nu, mu, m)
{
    lemma_box_fits(lam, k, m);
    assert forall|nu: Seq<int>| #[trigger] strip(nu, lam, p, k, m) implies !before(nu, mu, m) by {
        lemma_strip_in(nu, lam, p, k, m);
        if mu.is_none() { lemma_psum_tail(pd(nu, m), above(lam, k, m), 0, m); assert(false); }
        else {
            lemma_greedy_max(mu.unwrap(), pd(nu, m), pd(lam, m), above(lam, k, m), 0);
            if lexgt(pd(nu, m), mu.unwrap()) && lexgt(mu.unwrap(), pd(nu, m)) { lemma_lex_trans(pd(nu, m), mu.unwrap(), pd(nu, m)); lemma_lex_irr(pd(nu, m)); }
            lemma_lex_irr(pd(nu, m));
        }
    }
}
// the strips before the successor of mu are mu and the strips before mu
pub proof fn lemma_next(mu: Seq<int>, mu1: Option<Seq<int>>, lam: Seq<int>, p: int, k: int, m: int)
    requires rect(lam, k, m), m >= 1, k >= 0, at_strip(Some(mu), lam, p, k, m),
        mu1.is_none() ==> none_from(mu, pd(lam, m), above(lam, k, m), -1),
        mu1.is_some() ==> next_below(mu1.unwrap(), mu, pd(lam, m), above(lam, k, m)),
    ensures strip(clip(mu), lam, p, k, m), !before(clip(mu), Some(mu), m), at_strip(mu1, lam, p, k, m),
        forall|nu: Seq<int>| #[trigger] strip(nu, lam, p, k, m) ==> (before(nu, mu1, m) <==> nu =~= clip(mu) || before(nu, Some(mu), m)),
        mu1.is_some() ==> lexval(mu1.unwrap(), k + 1, m) < lexval(mu, k + 1, m),
{
    lemma_strip_out(mu, lam, p, k, m);
    assert(pd(clip(mu), m) == mu);
    lemma_lex_irr(mu);
    assert forall|nu: Seq<int>| #[trigger] strip(nu, lam, p, k, m) implies (before(nu, mu1, m) <==> nu =~= clip(mu) || before(nu, Some(mu), m)) by {
        lemma_strip_in(nu, lam, p, k, m);
        let a = pd(nu, m);
        lemma_lex_total(a, mu);
        if a =~= mu { assert(nu =~= clip(mu)); }
        if mu1.is_some() {
            let b = mu1.unwrap();
            if lexgt(a, mu) { lemma_lex_trans(a, mu, b); }
            if lexgt(mu, a) {
                if lexgt(b, a) && lexgt(a, b) { lemma_lex_trans(a, b, a); }
                lemma_lex_irr(a);
                if lexgt(a, mu) { lemma_lex_trans(a, mu, a); }
            }
        } else if lexgt(mu, a) {
            let j = choose|j: int| lexat(mu, a, j);
            assert(!lexat(mu, a, j));
        }
    }
    if mu1.is_some() {
        let b = mu1.unwrap();
        let j = choose|j: int| lexat(mu, b, j);
        lemma_small(mu, lam, k, m);
        lemma_small(b, lam, k, m);
        lemma_lexval(mu, b, j, k + 1, m);
    }
}
pub proof fn lemma_small(a: Seq<int>, lam: Seq<int>, k: int, m: int)
    requires within(a, pd(lam, m), above(lam, k, m)), rect(lam, k, m), m >= 1, k >= 0
    ensures a.len() == m, forall|i: int| 0 <= i < a.len() ==> 0 <= #[trigger] a[i] < k + 1
{
    assert forall|i: int| 0 <= i < a.len() implies 0 <= #[trigger] a[i] < k + 1 by {
        assert(pd(lam, m)[i] <= a[i] <= above(lam, k, m)[i]);
        if i < lam.len() { assert(lam[i] >= 0); }
        if 0 < i && i - 1 < lam.len() { assert(lam[0] >= lam[i - 1]); }
    }
}

//# fn schubertpy/grassmannian.py::Grassmannian.pieriA_inner(self_: SPACE, i: I, lam: L, k: I, n: I) -> FS
//# vars inner outer mu res
//# types mu: OL, res: FS
//# fun pieri_a
requires n - k >= 1, k >= 0, rect(lam, k, n - k), i >= 0
ensures forall|nu: Seq<int>, e: Exp| #[trigger] fs_coef(result, nu, e) == (if e == e0() && strip(nu, lam, i, k, n - k) { 1real } else { 0real }),
    forall|x: Seq<int>| #[trigger] fs_has(result, x) ==> cls_a(x, k, n - k)
//# hint entry
broadcast use group_has;
//# hint call _pieri_fillA
assert(inner =~= pd(lam, n - k));
assert(outer =~= above(lam, k, n - k));
assert(at_strip($r, lam, i, k, n - k)) by { if $r.is_some() { assert(within($r.unwrap(), inner, outer)); } }
lemma_first($r, lam, i, k, n - k);
//# hint loop 0 head
let ghost mu0 = mu;
let ghost res0 = res;
//# hint loop 0 end
lemma_next(mu0.unwrap(), mu, lam, i, k, n - k);
lemma_strip_out(mu0.unwrap(), lam, i, k, n - k);
lemma_small(mu0.unwrap(), lam, k, n - k);
lemma_lexval_nonneg(mu0.unwrap(), k + 1, n - k);
if mu.is_some() { lemma_small(mu.unwrap(), lam, k, n - k); lemma_lexval_nonneg(mu.unwrap(), k + 1, n - k); }
assert forall|nu: Seq<int>, e: Exp| #[trigger] fs_coef(res, nu, e) == seen(nu, e, lam, i, k, n - k, mu) by {
    fs_coef_term(1real, clip(mu0.unwrap()), nu, e);
    assert(fs_coef(res0, nu, e) == seen(nu, e, lam, i, k, n - k, mu0));
    assert(strip(nu, lam, i, k, n - k) || !strip(nu, lam, i, k, n - k));
}
//# loop 0
invariant inner =~= pd(lam, n - k), outer =~= above(lam, k, n - k), fits(inner, outer), at_strip(mu, lam, i, k, n - k),
    forall|nu: Seq<int>, e: Exp| #[trigger] fs_coef(res, nu, e) == seen(nu, e, lam, i, k, n - k, mu),
    forall|x: Seq<int>| #[trigger] fs_has(res, x) ==> cls_a(x, k, n - k)
decreases if mu.is_some() { 1 + lexval(mu.unwrap(), k + 1, n - k) } else { 0 }
//# hint before loop 0
lemma_box_fits(lam, k, n - k);
//# end

// ---- the method pieri of Gr(m, N): on a class and, linearly, on sums of classes
pub open spec fn is_a(s: Space) -> bool { s._k >= 0 && s._n - s._k >= 1 && s._pieri == str!"pieriA_inner" && s._qpieri == str!"qpieriA_inner" && s._type == str!"A" }
pub open spec fn all_rect(a: Seq<Term>, k: int, m: int) -> bool { forall|x: Seq<int>| #[trigger] fs_has(a, x) ==> rect(x, k, m) }
pub open spec fn pieri_a_of(s: Space, i: int) -> spec_fn(Seq<int>) -> Seq<Term> { |p: Seq<int>| pieri_a(s, i, p, s._k, s._n) }
pub open spec fn b2r(b: bool) -> real { if b { 1real } else { 0real } }

//# fn schubertpy/abstract_grassmannian.py::AbstractGrassmannian.pieri@Grassmannian^lin(self_: SPACE, i: I, lc: FS) -> FS
//# types _pieri: pieriA_inner
requires is_a(self_), i >= 0, all_rect(lc, self_._k, self_._n - self_._k)
ensures result == fs_apply(pieri_a_of(self_, i), lc)
//# hint return
lemma_fs_apply_ext(pieri_a_of(self_, i), |p: Seq<int>| pieri_a(self_, i, p, self_._k, self_._n), lc);
//# fn schubertpy/abstract_grassmannian.py::AbstractGrassmannian.pieri@Grassmannian^list(self_: SPACE, i: I, lc: L) -> FS
//# types _pieri: pieriA_inner
requires is_a(self_), i >= 0, rect(lc, self_._k, self_._n - self_._k)
ensures result == pieri_a_of(self_, i)(lc),
    forall|nu: Seq<int>, e: Exp| #[trigger] fs_coef(result, nu, e) == b2r(e == e0() && strip(nu, lc, i, self_._k, self_._n - self_._k))
//# end

// C01: the product with a class is the sum of the horizontal strips inside the rectangle, each once, and zeros at
// the end of the class make no difference
pub proof fn theorem_pieri_a(s: Space, i: int, lam: Seq<int>)
    requires is_a(s), i >= 0, rect(lam, s._k, s._n - s._k)
    ensures forall|nu: Seq<int>, e: Exp| #[trigger] fs_coef(fs_apply(pieri_a_of(s, i), fs_one(lam)), nu, e) == b2r(e == e0() && strip(nu, lam, i, s._k, s._n - s._k)),
        fs_same(pieri_a_of(s, i)(lam), pieri_a_of(s, i)(clip(lam)))
{
    let f = pieri_a_of(s, i);
    let m = s._n - s._k;
    axiom_pieri_a(s, i, lam, s._k, s._n);
    lemma_fs_apply_one(f, lam);
    assert forall|nu: Seq<int>, e: Exp| #[trigger] fs_coef(fs_apply(f, fs_one(lam)), nu, e) == b2r(e == e0() && strip(nu, lam, i, s._k, m)) by { assert(fs_coef(fs_apply(f, fs_one(lam)), nu, e) == fs_coef(f(lam), nu, e)); }
    let c = clip(lam);
    lemma_clip_part(lam);
    lemma_is_clip(lam);
    assert(rect(c, s._k, m));
    axiom_pieri_a(s, i, c, s._k, s._n);
    assert forall|j: int| row(c, j) == row(lam, j) by {}
    assert(sum_seq(c) == sum_seq(lam)) by {
        let z = lam.subrange(c.len() as int, lam.len() as int);
        assert(lam =~= c + z);
        lemma_sum_add(c, z);
        lemma_sum_zero(z);
    }
    assert forall|nu: Seq<int>, e: Exp| #[trigger] fs_coef(f(lam), nu, e) == fs_coef(f(c), nu, e) by { lemma_strip_clip(nu, lam, c, i, s._k, m); }
}
pub proof fn lemma_strip_clip(nu: Seq<int>, lam: Seq<int>, c: Seq<int>, p: int, k: int, m: int)
    requires forall|j: int| #[trigger] row(c, j) == row(lam, j), sum_seq(c) == sum_seq(lam)
    ensures strip(nu, lam, p, k, m) == strip(nu, c, p, k, m)
{
    if strip(nu, lam, p, k, m) {
        assert forall|j: int| 0 <= j < m implies row(nu, j) >= #[trigger] row(c, j) by { assert(row(nu, j) >= row(lam, j)); }
        assert forall|j: int| 0 <= j < m - 1 implies #[trigger] row(c, j) >= row(nu, j + 1) by { assert(row(lam, j) >= row(nu, j + 1)); }
    }
    if strip(nu, c, p, k, m) {
        assert forall|j: int| 0 <= j < m implies row(nu, j) >= #[trigger] row(lam, j) by { assert(row(nu, j) >= row(c, j)); }
        assert forall|j: int| 0 <= j < m - 1 implies #[trigger] row(lam, j) >= row(nu, j + 1) by { assert(row(c, j) >= row(nu, j + 1)); }
    }
}

// ---- quantum products
pub open spec fn star(lam: Seq<int>, cols: int) -> Option<Seq<int>> { if lam.len() == 0 || lam[0] != cols { None } else { Some(slice(lam, 1, lam.len() as int)) } }
pub open spec fn star_fs(lam: Seq<int>, cols: int) -> Seq<Term> { fs_opt(star(lam, cols)) }

//# fn schubertpy/qcalc.py::_part_star(lam: L, cols: I) -> FS
//# spec star_fs
ensures true
//# end

pub open spec fn qstrip(mu: Seq<int>, lam: Seq<int>, p: int, k: int, m: int) -> bool {
    &&& row(lam, m - 1) > 0
    &&& is_part(mu) && !ends0(mu) && mu.len() <= m
    &&& sum_seq(mu) == sum_seq(lam) + p - (m + k)
    &&& forall|j: int| 0 <= j < m ==> row(lam, j) - 1 >= #[trigger] row(mu, j) >= imax(row(lam, j + 1) - 1, 0)
}
pub open spec fn qpieri_coef(nu: Seq<int>, e: Exp, lam: Seq<int>, p: int, k: int, m: int) -> real {
    if e == e0() { b2r(strip(nu, lam, p, k, m)) } else if e == (1int, 0int, 0int) { b2r(qstrip(nu, lam, p, k, m)) } else { 0real }
}
pub proof fn lemma_star_cls(h: Seq<Term>, f: spec_fn(Seq<int>) -> Seq<Term>, c: int, m: int)
    requires forall|x: Seq<int>| #[trigger] f(x) == star_fs(x, c), forall|x: Seq<int>| #[trigger] fs_has(h, x) ==> cls_a(x, c, m + 1)
    ensures forall|x: Seq<int>| #[trigger] fs_has(fs_apply(f, h), x) ==> cls_a(x, c, m)
{
    broadcast use group_has;
    assert forall|x: Seq<int>| #[trigger] fs_has(fs_apply(f, h), x) implies cls_a(x, c, m) by {
        let y = has_apply(f, h, x);
        assert(f(y) == star_fs(y, c));
        assert(cls_a(y, c, m + 1));
        assert(y.len() > 0 && x == slice(y, 1, y.len() as int));
        assert(is_part(x));
        if x.len() > 0 { assert(x.last() == y.last()); assert(x[0] == y[1]); assert(y[0] >= y[1]); }
    }
}
// lab is lam without its first column
pub open spec fn cut(lab: Seq<int>, lam: Seq<int>) -> bool { is_part(lab) && lab.len() <= lam.len() && forall|j: int| #[trigger] row(lab, j) == imax(row(lam, j) - 1, 0) }

pub proof fn lemma_cut_sum(lab: Seq<int>, lam: Seq<int>)
    requires cut(lab, lam), is_part(lam), lam.len() > 0 ==> lam[lam.len() - 1] > 0
    ensures sum_seq(lab) == sum_seq(lam) - lam.len()
{
    let m = lam.len() as int;
    let x = lam.map_values(|v: int| v - 1);
    lemma_sum_dec(lam);
    assert(x =~= lab + rep(0, m - lab.len())) by {
        assert forall|j: int| 0 <= j < m implies x[j] == (lab + rep(0, m - lab.len()))[j] by {
            assert(lam[j] >= lam[m - 1]);
            assert(row(lab, j) == imax(row(lam, j) - 1, 0));
        }
    }
    lemma_sum_add(lab, rep(0, m - lab.len()));
    lemma_sum_zero(rep(0, m - lab.len()));
}
pub proof fn lemma_sum_dec(s: Seq<int>)
    ensures sum_seq(s.map_values(|v: int| v - 1)) == sum_seq(s) - s.len()
    decreases s.len()
{
    let x = s.map_values(|v: int| v - 1);
    if s.len() > 0 { lemma_sum_dec(s.drop_last()); assert(x.drop_last() =~= s.drop_last().map_values(|v: int| v - 1)); }
}
pub proof fn lemma_qstrip_pre(mu: Seq<int>, lam: Seq<int>, lab: Seq<int>, p: int, k: int, m: int)
    requires rect(lam, k, m), lam.len() == m, m >= 1, lam[m - 1] > 0, k >= 2, cut(lab, lam), p >= 1
    ensures strip(seq![k - 1] + mu, lab, p - 1, k - 1, m + 1) <==> qstrip(mu, lam, p, k, m)
{
    let nu = seq![k - 1] + mu;
    lemma_cut_sum(lab, lam);
    lemma_sum_add(seq![k - 1], mu);
    lemma_sum_push(Seq::<int>::empty(), k - 1);
    assert(Seq::<int>::empty().push(k - 1) =~= seq![k - 1]);
    assert(forall|j: int| j >= 0 ==> #[trigger] row(nu, j + 1) == row(mu, j));
    assert(forall|j: int| 0 <= j < m ==> #[trigger] lam[j] >= lam[m - 1]);
    if qstrip(mu, lam, p, k, m) {
        if mu.len() > 0 { assert(row(lam, 0) - 1 >= row(mu, 0)); }
        assert(is_part(nu)) by {
            assert forall|i: int, j: int| 0 <= i <= j < nu.len() implies nu[i] >= nu[j] by {
                if j > 0 { assert(mu[0] >= mu[j - 1]); if i > 0 { assert(mu[i - 1] >= mu[j - 1]); } }
            }
            assert forall|i: int| 0 <= i < nu.len() implies nu[i] >= 0 by { if i > 0 { assert(mu[i - 1] >= 0); } }
        }
        assert(!ends0(nu)) by { if mu.len() > 0 { assert(nu[nu.len() - 1] == mu[mu.len() - 1]); } }
        assert forall|j: int| 0 <= j < m + 1 implies row(nu, j) >= #[trigger] row(lab, j) by {
            assert(row(lab, j) == imax(row(lam, j) - 1, 0));
            if j > 0 { assert(row(lam, j - 1) - 1 >= row(mu, j - 1) >= imax(row(lam, j - 1 + 1) - 1, 0)); assert(row(nu, j - 1 + 1) == row(mu, j - 1)); }
            else { assert(row(lam, 0) <= k); }
        }
        assert forall|j: int| 0 <= j < m + 1 - 1 implies #[trigger] row(lab, j) >= row(nu, j + 1) by {
            assert(row(lab, j) == imax(row(lam, j) - 1, 0));
            assert(row(lam, j) - 1 >= row(mu, j));
        }
    }
    if strip(nu, lab, p - 1, k - 1, m + 1) {
        assert(is_part(mu)) by {
            assert forall|i: int, j: int| 0 <= i <= j < mu.len() implies mu[i] >= mu[j] by { assert(nu[i + 1] >= nu[j + 1]); }
            assert forall|i: int| 0 <= i < mu.len() implies mu[i] >= 0 by { assert(nu[i + 1] >= 0); }
        }
        assert(!ends0(mu)) by { if mu.len() > 0 { assert(nu[nu.len() - 1] == mu[mu.len() - 1]); } }
        assert forall|j: int| 0 <= j < m implies row(lam, j) - 1 >= #[trigger] row(mu, j) >= imax(row(lam, j + 1) - 1, 0) by {
            assert(row(lab, j) == imax(row(lam, j) - 1, 0));
            assert(row(lab, j) >= row(nu, j + 1));
            assert(row(lab, j + 1) == imax(row(lam, j + 1) - 1, 0));
            assert(row(nu, j + 1) >= row(lab, j + 1));
            assert(lam[j] >= 1);
        }
    }
}
// one column
pub proof fn lemma_qstrip_one(mu: Seq<int>, lam: Seq<int>, m: int)
    requires rect(lam, 1, m), lam.len() == m, m >= 1, lam[m - 1] > 0
    ensures qstrip(mu, lam, 1, 1, m) <==> mu =~= Seq::<int>::empty(), !strip(mu, lam, 1, 1, m)
{
    assert forall|j: int| 0 <= j < m implies lam[j] == 1 by { assert(lam[0] >= lam[j] >= lam[m - 1]); }
    lemma_sum_dec(lam);
    let x = lam.map_values(|v: int| v - 1);
    lemma_sum_zero(x);
    if qstrip(mu, lam, 1, 1, m) {
        if mu.len() > 0 { assert(mu[mu.len() - 1] != 0); assert(row(lam, mu.len() - 1) - 1 >= row(mu, mu.len() - 1)); assert(mu[mu.len() - 1] >= 0); }
    }
    if mu =~= Seq::<int>::empty() {
        assert(forall|j: int| 0 <= j < m ==> row(lam, j) - 1 >= #[trigger] row(mu, j) >= imax(row(lam, j + 1) - 1, 0));
    }
    if strip(mu, lam, 1, 1, m) {
        let y = pd(mu, m);
        lemma_pd_sum(mu, m);
        lemma_pd_sum(lam, m);
        let z = pd(lam, m);
        assert forall|j: int| 0 <= j < m implies #[trigger] y[j] <= z[j] by { if 0 < j < mu.len() { assert(mu[0] >= mu[j]); } }
        lemma_psum_tail(y, z, 0, m);
    }
}

//# fn schubertpy/grassmannian.py::Grassmannian.qpieriA_inner(self_: SPACE, i: I, lam: L, k: I, n: I) -> FS
//# vars q res lab j z
//# types res: FS, lab: L
//# fun qpieri_a
requires n - k >= 1, k >= 1, rect(lam, k, n - k), 1 <= i <= k
ensures forall|nu: Seq<int>, e: Exp| #[trigger] fs_coef(result, nu, e) == qpieri_coef(nu, e, lam, i, k, n - k),
    forall|x: Seq<int>| #[trigger] fs_has(result, x) ==> cls_a(x, k, n - k)
//# hint entry
broadcast use group_has;
//# loop 0
invariant lab.len() <= it0, forall|h: int| 0 <= h < it0 ==> #[trigger] row(lab, h) == imax(lam[h] - 1, 0), is_part(lab), lab.len() < it0 ==> lam[lab.len() as int] <= 1
//# hint loop 0 head
let ghost lab0 = lab;
if lab0.len() < j { assert(lam[lab0.len() as int] >= lam[j]); }
//# hint loop 0 end
assert forall|h: int| 0 <= h < it0 implies #[trigger] row(lab, h) == imax(lam[h] - 1, 0) by {
    if h < j { assert(row(lab0, h) == imax(lam[h] - 1, 0)); }
}
assert(is_part(lab)) by {
    assert forall|a: int, b: int| 0 <= a <= b < lab.len() implies lab[a] >= lab[b] by { assert(row(lab, a) == imax(lam[a] - 1, 0)); assert(row(lab, b) == imax(lam[b] - 1, 0)); assert(lam[a] >= lam[b]); }
    assert forall|a: int| 0 <= a < lab.len() implies lab[a] >= 0 by { assert(row(lab, a) == imax(lam[a] - 1, 0)); }
}
//# hint after loop 0
assert forall|h: int| #[trigger] row(lab, h) == imax(row(lam, h) - 1, 0) by {
    if h < 0 || h >= lam.len() {} else { assert(row(lab, h) == imax(lam[h] - 1, 0)); }
}
lemma_cut_sum(lab, lam);
assert(row(lab, 0) <= k - 1);
//# hint return
let m = n - k;
if lam.len() == m && lam[m - 1] > 0 && k == 1 {
    assert forall|nu: Seq<int>, e: Exp| #[trigger] fs_coef(result, nu, e) == qpieri_coef(nu, e, lam, i, k, m) by {
        lemma_qstrip_one(nu, lam, m);
        fs_coef_q(fs_one(Seq::<int>::empty()), nu, e);
        fs_coef_term(1real, Seq::<int>::empty(), nu, (e.0 - 1, e.1, e.2));
    }
} else if lam.len() == m && lam[m - 1] > 0 {
    let h = pieri_a(self_, i - 1, lab, k - 1, n);
    axiom_pieri_a(self_, i - 1, lab, k - 1, n);
    axiom_pieri_a(self_, i, lam, k, n);
    lemma_star_cls(h, |x: Seq<int>| star_fs(x, k - 1), k - 1, n - k);
    assert forall|nu: Seq<int>, e: Exp| #[trigger] fs_coef(result, nu, e) == qpieri_coef(nu, e, lam, i, k, m) by {
        let e1 = (e.0 - 1, e.1, e.2);
        let pre = seq![k - 1] + nu;
        let g = |x: Seq<int>| star(x, k - 1);
        let f = |x: Seq<int>| star_fs(x, k - 1);
        lemma_qstrip_pre(nu, lam, lab, i, k, m);
        assert forall|t: int| 0 <= t < h.len() implies (((#[trigger] g(h[t].lam)).is_some() && g(h[t].lam).unwrap() =~= nu) <==> h[t].lam =~= pre) by {
            let x = h[t].lam;
            if g(x).is_some() && g(x).unwrap() =~= nu { assert(x =~= seq![x[0]] + slice(x, 1, x.len() as int)); }
            if x =~= pre { assert(slice(x, 1, x.len() as int) =~= nu); }
        }
        lemma_fs_apply_inj(f, g, h, nu, pre, e1);
        lemma_fs_apply_ext(f, |x: Seq<int>| star_fs(x, k - 1), h);
        fs_coef_q(fs_apply(f, h), nu, e);
    }
} else {
    assert(row(lam, m - 1) <= 0);
}
//# end

pub open spec fn qpieri_a_of(s: Space, i: int) -> spec_fn(Seq<int>) -> Seq<Term> { |p: Seq<int>| qpieri_a(s, i, p, s._k, s._n) }

//# fn schubertpy/abstract_grassmannian.py::AbstractGrassmannian.qpieri@Grassmannian(self_: SPACE, i: I, lc: FS) -> FS
//# types _qpieri: qpieriA_inner
requires is_a(self_), 1 <= i <= self_._k, all_rect(lc, self_._k, self_._n - self_._k)
ensures fs_same(result, fs_apply(qpieri_a_of(self_, i), lc))
//# hint return
let f = qpieri_a_of(self_, i);
if is_schur(lc) {
    let lam = schur_of(lc);
    axiom_schur(lc);
    lemma_fs_apply_same(f, lc, fs_one(lam));
    lemma_fs_apply_one(f, lam);
    assert forall|l: Seq<int>, e: Exp| #[trigger] fs_coef(result, l, e) == fs_coef(fs_apply(f, lc), l, e) by {
        assert(fs_coef(fs_apply(f, lc), l, e) == fs_coef(fs_apply(f, fs_one(lam)), l, e));
        assert(fs_coef(fs_apply(f, fs_one(lam)), l, e) == fs_coef(f(lam), l, e));
    }
} else {
    lemma_fs_apply_ext(f, |p: Seq<int>| qpieri_a(self_, i, p, self_._k, self_._n), lc);
}
//# end

// C02: the quantum product with a class
pub proof fn theorem_qpieri_a(s: Space, i: int, lam: Seq<int>, r: Seq<Term>)
    requires is_a(s), 1 <= i <= s._k, rect(lam, s._k, s._n - s._k), fs_same(r, fs_apply(qpieri_a_of(s, i), fs_one(lam)))
    ensures forall|nu: Seq<int>, e: Exp| #[trigger] fs_coef(r, nu, e) == qpieri_coef(nu, e, lam, i, s._k, s._n - s._k),
        lam.len() < s._n - s._k ==> forall|mu: Seq<int>| !#[trigger] qstrip(mu, lam, i, s._k, s._n - s._k),
        forall|mu: Seq<int>| #[trigger] qstrip(mu, lam, i, s._k, s._n - s._k) ==> rect(mu, s._k, s._n - s._k),
{
    let f = qpieri_a_of(s, i);
    axiom_qpieri_a(s, i, lam, s._k, s._n);
    lemma_fs_apply_one(f, lam);
    assert forall|nu: Seq<int>, e: Exp| #[trigger] fs_coef(r, nu, e) == qpieri_coef(nu, e, lam, i, s._k, s._n - s._k) by {
        assert(fs_coef(r, nu, e) == fs_coef(fs_apply(f, fs_one(lam)), nu, e));
        assert(fs_coef(fs_apply(f, fs_one(lam)), nu, e) == fs_coef(f(lam), nu, e));
    }
    assert forall|mu: Seq<int>| #[trigger] qstrip(mu, lam, i, s._k, s._n - s._k) implies rect(mu, s._k, s._n - s._k) by { assert(row(lam, 0) - 1 >= row(mu, 0)); }
}

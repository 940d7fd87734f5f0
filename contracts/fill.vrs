//# unit fill
//# use lex pieria
// ---- strictly decreasing sequences between inner and outer with a given sum, in decreasing lexicographic order
pub open spec fn sdec(x: Seq<int>) -> bool { forall|j: int| 1 <= j < x.len() ==> #[trigger] x[j] < x[j - 1] }
pub open spec fn sfits(inner: Seq<int>, outer: Seq<int>) -> bool {
    inner.len() == outer.len() && sdec(inner) && forall|j: int| 0 <= j < inner.len() ==> #[trigger] inner[j] <= outer[j]
}
pub open spec fn sin(x: Seq<int>, inner: Seq<int>, outer: Seq<int>) -> bool { within(x, inner, outer) && sdec(x) }
// the largest entry possible in place j
pub open spec fn cap(x: Seq<int>, outer: Seq<int>, j: int) -> int { if j <= 0 { outer[0] } else { imin(outer[j], x[j - 1] - 1) } }
pub open spec fn sgreedy(x: Seq<int>, inner: Seq<int>, outer: Seq<int>, r: int, t: int) -> bool {
    forall|i: int, j: int| r <= i < j < t && #[trigger] x[i] < cap(x, outer, i) ==> #[trigger] x[j] == inner[j]
}
pub open spec fn snone_from(lam: Seq<int>, inner: Seq<int>, outer: Seq<int>, t: int) -> bool {
    forall|mu: Seq<int>, j: int| sin(mu, inner, outer) && psum(mu, mu.len() as int) == psum(lam, mu.len() as int) && j > t ==> !#[trigger] lexat(lam, mu, j)
}
// no sequence that is at most lam before place r has room p from r on
pub open spec fn too_small(lam: Seq<int>, inner: Seq<int>, outer: Seq<int>, r: int, p: int) -> bool {
    forall|mu: Seq<int>| #[trigger] sin(mu, inner, outer) && (r > 0 ==> mu[r - 1] <= lam[r - 1]) ==> room(mu, inner, r, mu.len() as int) < p
}
pub open spec fn sfilled(x: Seq<int>, lam: Seq<int>, inner: Seq<int>, outer: Seq<int>, r: int, t: int) -> bool {
    &&& x.len() == lam.len()
    &&& forall|j: int| 0 <= j < lam.len() && (j < r || j >= t) ==> #[trigger] x[j] == lam[j]
    &&& forall|j: int| r <= j < t ==> inner[j] <= #[trigger] x[j] <= cap(x, outer, j)
    &&& sgreedy(x, inner, outer, r, t)
}
pub open spec fn snext_below(x: Seq<int>, lam: Seq<int>, inner: Seq<int>, outer: Seq<int>) -> bool {
    &&& sin(x, inner, outer)
    &&& psum(x, x.len() as int) == psum(lam, x.len() as int)
    &&& lexgt(lam, x)
    &&& forall|mu: Seq<int>| sin(mu, inner, outer) && psum(mu, mu.len() as int) == psum(lam, mu.len() as int) && #[trigger] lexgt(lam, mu) ==> mu =~= x || lexgt(x, mu)
}
pub proof fn lemma_sgreedy_max(x: Seq<int>, mu: Seq<int>, inner: Seq<int>, outer: Seq<int>, r: int)
    requires sfits(inner, outer), sin(mu, inner, outer), x.len() == mu.len(), 0 <= r <= x.len(), sgreedy(x, inner, outer, r, x.len() as int),
        psum(x, x.len() as int) == psum(mu, x.len() as int), forall|i: int| 0 <= i < r ==> #[trigger] x[i] == mu[i]
    ensures mu =~= x || lexgt(x, mu)
{
    let n = x.len() as int;
    if !(mu =~= x) {
        let i = lemma_diff(x, mu, r);
        if x[i] > mu[i] { assert(lexat(x, mu, i)); } else {
            assert(mu[i] <= outer[i]);
            if i > 0 { assert(mu[i] < mu[i - 1]); assert(x[i - 1] == mu[i - 1]); }
            assert(x[i] < cap(x, outer, i));
            lemma_psum_ext(x, mu, i);
            assert forall|l: int| i + 1 <= l < n implies #[trigger] x[l] <= mu[l] by { assert(x[l] == inner[l]); assert(inner[l] <= mu[l]); }
            lemma_psum_tail(x, mu, i + 1, n);
            assert(psum(x, i + 1) == psum(x, i) + x[i]);
            assert(psum(mu, i + 1) == psum(mu, i) + mu[i]);
            assert(false);
        }
    }
}
pub proof fn lemma_snone_last(lam: Seq<int>, inner: Seq<int>, outer: Seq<int>)
    requires sin(lam, inner, outer), lam.len() > 0
    ensures snone_from(lam, inner, outer, lam.len() - 2)
{
    let n = lam.len() as int;
    assert forall|mu: Seq<int>, j: int| sin(mu, inner, outer) && psum(mu, mu.len() as int) == psum(lam, mu.len() as int) && j > n - 2 implies !#[trigger] lexat(lam, mu, j) by {
        if lexat(lam, mu, j) { lemma_psum_ext(lam, mu, n - 1); }
    }
}
pub proof fn lemma_snone_step(lam: Seq<int>, inner: Seq<int>, outer: Seq<int>, r: int, l1: Seq<int>)
    requires sfits(inner, outer), sin(lam, inner, outer), 0 <= r < lam.len(), snone_from(lam, inner, outer, r),
        lam[r] == inner[r] || (l1.len() == lam.len() && l1[r] == lam[r] - 1 && too_small(l1, inner, outer, r + 1, room(lam, inner, r + 1, lam.len() as int) + 1))
    ensures snone_from(lam, inner, outer, r - 1)
{
    let n = lam.len() as int;
    assert forall|mu: Seq<int>, j: int| sin(mu, inner, outer) && psum(mu, mu.len() as int) == psum(lam, mu.len() as int) && j > r - 1 implies !#[trigger] lexat(lam, mu, j) by {
        if lexat(lam, mu, j) {
            if j == r {
                assert(inner[r] <= mu[r]);
                lemma_psum_ext(lam, mu, r);
                assert(psum(lam, r + 1) == psum(lam, r) + lam[r]);
                assert(psum(mu, r + 1) == psum(mu, r) + mu[r]);
                assert(false);
            } else { assert(!lexat(lam, mu, j)); }
        }
    }
}
pub proof fn lemma_sitr_some(lam: Seq<int>, x: Seq<int>, inner: Seq<int>, outer: Seq<int>, r: int)
    requires sfits(inner, outer), sin(lam, inner, outer), sin(x, inner, outer), 0 <= r < lam.len(), snone_from(lam, inner, outer, r), lam[r] > inner[r],
        x[r] == lam[r] - 1, forall|i: int| 0 <= i < r ==> #[trigger] x[i] == lam[i],
        room(x, inner, r + 1, lam.len() as int) == room(lam, inner, r + 1, lam.len() as int) + 1, sgreedy(x, inner, outer, r + 1, x.len() as int)
    ensures snext_below(x, lam, inner, outer)
{
    let n = lam.len() as int;
    lemma_psum_ext(x, lam, r);
    assert(psum(lam, r + 1) == psum(lam, r) + lam[r]);
    assert(psum(x, r + 1) == psum(x, r) + x[r]);
    assert(lexat(lam, x, r));
    assert forall|mu: Seq<int>| sin(mu, inner, outer) && psum(mu, mu.len() as int) == psum(lam, mu.len() as int) && #[trigger] lexgt(lam, mu) implies mu =~= x || lexgt(x, mu) by {
        let j = choose|j: int| lexat(lam, mu, j);
        if j > r { assert(!lexat(lam, mu, j)); }
        assert forall|i: int| 0 <= i < j implies #[trigger] x[i] == mu[i] by { assert(x[i] == lam[i]); assert(lam[i] == mu[i]); }
        if j < r { assert(x[j] == lam[j]); assert(lexat(x, mu, j)); }
        else if mu[r] < x[r] { assert(lexat(x, mu, r)); }
        else { lemma_sgreedy_max(x, mu, inner, outer, r + 1); }
    }
}
pub proof fn lemma_sfill_step(x: Seq<int>, y: Seq<int>, lam: Seq<int>, inner: Seq<int>, outer: Seq<int>, r: int, t: int, p: int, v: int)
    requires sfilled(x, lam, inner, outer, r, t), sfits(inner, outer), inner.len() == lam.len(), 0 <= r <= t < lam.len(), p - room(x, inner, r, t) >= 0, t > 0 ==> x[t - 1] >= inner[t - 1],
        forall|j: int| r <= j < t && #[trigger] x[j] < cap(x, outer, j) ==> p - room(x, inner, r, t) == 0, v == imin(cap(x, outer, t), inner[t] + p - room(x, inner, r, t)), y == x.update(t, v)
    ensures sfilled(y, lam, inner, outer, r, t + 1), room(y, inner, r, t + 1) == room(x, inner, r, t) + v - inner[t], p - room(y, inner, r, t + 1) >= 0,
        forall|j: int| r <= j < t + 1 && #[trigger] y[j] < cap(y, outer, j) ==> p - room(y, inner, r, t + 1) == 0, v >= inner[t]
{
    lemma_psum_ext(x, y, t);
    lemma_psum_ext(x, y, r);
    assert(psum(y, t + 1) == psum(y, t) + y[t]);
    assert(psum(inner, t + 1) == psum(inner, t) + inner[t]);
    assert(inner[t] <= outer[t]);
    if t > 0 { assert(inner[t] < inner[t - 1]); }
    assert forall|j: int| r <= j < t + 1 implies inner[j] <= #[trigger] y[j] <= cap(y, outer, j) by { if j < t { assert(y[j] == x[j]); assert(cap(y, outer, j) == cap(x, outer, j)); } else { assert(cap(y, outer, t) == cap(x, outer, t)); } }
    assert forall|j: int| r <= j < t + 1 && #[trigger] y[j] < cap(y, outer, j) implies p - room(y, inner, r, t + 1) == 0 by {
        assert(cap(y, outer, j) == cap(x, outer, j));
        if j < t { assert(x[j] < cap(x, outer, j)); }
    }
    assert forall|i: int, j: int| r <= i < j < t + 1 && #[trigger] y[i] < cap(y, outer, i) implies #[trigger] y[j] == inner[j] by {
        assert(cap(y, outer, i) == cap(x, outer, i)); assert(x[i] < cap(x, outer, i));
        if j < t { assert(x[j] == inner[j]); }
    }
}
// nothing of p is left over only if all places are at their caps
pub proof fn lemma_sfull(x: Seq<int>, lam: Seq<int>, inner: Seq<int>, outer: Seq<int>, r: int, p: int)
    requires sfilled(x, lam, inner, outer, r, lam.len() as int), sfits(inner, outer), inner.len() == lam.len(), 0 <= r <= lam.len(), room(x, inner, r, lam.len() as int) < p,
        forall|j: int| r <= j < lam.len() ==> #[trigger] x[j] >= cap(x, outer, j)
    ensures too_small(lam, inner, outer, r, p)
{
    let n = lam.len() as int;
    assert forall|mu: Seq<int>| #[trigger] sin(mu, inner, outer) && (r > 0 ==> mu[r - 1] <= lam[r - 1]) implies room(mu, inner, r, mu.len() as int) < p by {
        lemma_below_caps(x, mu, inner, outer, r, n);
        assert forall|i: int| r <= i < n implies #[trigger] mu[i] <= x[i] by { assert(x[i] >= mu[i]); }
        lemma_psum_tail(mu, x, r, n);
    }
}
pub proof fn lemma_below_caps(x: Seq<int>, mu: Seq<int>, inner: Seq<int>, outer: Seq<int>, r: int, t: int)
    requires sin(mu, inner, outer), x.len() == mu.len(), outer.len() == mu.len(), 0 <= r <= t <= x.len(), r > 0 ==> mu[r - 1] <= x[r - 1],
        forall|j: int| r <= j < t ==> #[trigger] x[j] >= cap(x, outer, j)
    ensures forall|j: int| r <= j < t ==> #[trigger] x[j] >= mu[j]
    decreases t
{
    if t > r {
        lemma_below_caps(x, mu, inner, outer, r, t - 1);
        assert(mu[t - 1] <= outer[t - 1]);
        if t - 1 > 0 { assert(mu[t - 1] < mu[t - 2]); if t - 2 >= r { assert(x[t - 2] >= mu[t - 2]); } }
        assert(x[t - 1] >= cap(x, outer, t - 1));
    }
}
pub proof fn lemma_sfilled_in(x: Seq<int>, lam: Seq<int>, inner: Seq<int>, outer: Seq<int>, r: int)
    requires sfilled(x, lam, inner, outer, r, lam.len() as int), sfits(inner, outer), inner.len() == lam.len(), 0 <= r <= lam.len(),
        forall|j: int| 0 <= j < r ==> inner[j] <= #[trigger] lam[j] <= outer[j], forall|j: int| 1 <= j < r ==> #[trigger] lam[j] < lam[j - 1]
    ensures sin(x, inner, outer)
{
    assert forall|j: int| 0 <= j < x.len() implies inner[j] <= #[trigger] x[j] <= outer[j] by { if j < r { assert(x[j] == lam[j]); } else { assert(x[j] <= cap(x, outer, j)); } }
    assert forall|j: int| 1 <= j < x.len() implies #[trigger] x[j] < x[j - 1] by { if j < r { assert(x[j] == lam[j]); assert(x[j - 1] == lam[j - 1]); } else { assert(x[j] <= cap(x, outer, j)); } }
}

//# fn schubertpy/qcalc.py::_pieri_fill(lam: L, inner: L, outer: L, r: I, p: I) -> OL
//# vars res pp rr x
requires sfits(inner, outer), lam.len() == inner.len(), 1 <= r <= lam.len() + 1, p >= 0, r > 1 ==> lam[r - 2] >= inner[r - 2]
ensures lam.len() == 0 ==> result == Some(lam),
    lam.len() > 0 && result.is_none() ==> too_small(lam, inner, outer, r - 1, p),
    lam.len() > 0 && result.is_some() ==> sfilled(result.unwrap(), lam, inner, outer, r - 1, lam.len() as int) && room(result.unwrap(), inner, r - 1, lam.len() as int) == p
//# loop 0
invariant imax(2, r) <= rr <= lam.len() + 1,
    sfilled(res, lam, inner, outer, r - 1, rr - 1), pp >= 0, pp == p - room(res, inner, r - 1, rr - 1),
    forall|j: int| r - 1 <= j < rr - 1 && #[trigger] res[j] < cap(res, outer, j) ==> pp == 0,
    res[rr - 2] >= inner[rr - 2]
decreases lam.len() + 1 - rr
//# hint before loop 0
if r == 1 { lemma_sfill_step(lam, res, lam, inner, outer, 0, 0, p, res[0]); }
//# hint loop 0 head
let ghost res0 = res;
let ghost r0 = rr;
//# hint loop 0 end
lemma_sfill_step(res0, res, lam, inner, outer, r - 1, r0 - 1, p, x);
//# hint after loop 0
let n = lam.len() as int;
if pp > 0 {
    assert forall|i: int| r - 1 <= i < n implies #[trigger] res[i] >= cap(res, outer, i) by { if res[i] < cap(res, outer, i) { assert(pp == 0); } }
    lemma_sfull(res, lam, inner, outer, r - 1, p);
}
//# end

//# fn schubertpy/qcalc.py::_pieri_itr(lam: L, inner: L, outer: L) -> OL
//# vars p r lam1
//# types lam1: OL
requires sfits(inner, outer), sin(lam, inner, outer)
ensures result.is_none() ==> lam.len() == 0 || snone_from(lam, inner, outer, -1),
    result.is_some() ==> lam.len() > 0 && snext_below(result.unwrap(), lam, inner, outer)
//# loop 0
invariant lam.len() > 0, sfits(inner, outer), sin(lam, inner, outer), it0 >= 0, it0 <= lam.len() - 1,
    p == room(lam, inner, it0, lam.len() as int), snone_from(lam, inner, outer, it0 - 1)
//# hint before loop 0
lemma_snone_last(lam, inner, outer);
assert(psum(lam, lam.len() as int) == psum(lam, lam.len() - 1) + lam[lam.len() - 1]);
assert(psum(inner, lam.len() as int) == psum(inner, lam.len() - 1) + inner[lam.len() - 1]);
//# hint loop 0 head
lemma_psum_tail(inner, lam, r, lam.len() as int);
//# hint call _pieri_fill
let n = lam.len() as int;
lemma_psum_ext($a0, lam, r - 1);
assert(forall|j: int| r - 1 < j < n ==> $a0[j] == lam[j]);
if $r.is_some() {
    let x = $r.unwrap();
    assert(forall|j: int| 0 <= j < r - 1 ==> x[j] == $a0[j]);
    lemma_sfilled_in(x, $a0, inner, outer, r);
    lemma_sitr_some(lam, x, inner, outer, r - 1);
} else {
    lemma_snone_step(lam, inner, outer, r - 1, $a0);
}
//# hint loop 0 end
if lam[r - 1] == inner[r - 1] { lemma_snone_step(lam, inner, outer, r - 1, lam); }
assert(psum(lam, r) == psum(lam, r - 1) + lam[r - 1]);
assert(psum(inner, r) == psum(inner, r - 1) + inner[r - 1]);
//# end

// ---- weakly decreasing sequences between two weakly decreasing sequences
pub open spec fn win(x: Seq<int>, inner: Seq<int>, outer: Seq<int>) -> bool { within(x, inner, outer) && noninc(x) }
pub open spec fn wnext(x: Seq<int>, mu: Seq<int>, inner: Seq<int>, outer: Seq<int>) -> bool {
    &&& win(x, inner, outer)
    &&& lexgt(mu, x)
    &&& forall|nu: Seq<int>| win(nu, inner, outer) && #[trigger] lexgt(mu, nu) ==> nu =~= x || lexgt(x, nu)
}
pub open spec fn wlast(mu: Seq<int>, inner: Seq<int>, outer: Seq<int>) -> bool { forall|nu: Seq<int>| win(nu, inner, outer) ==> !#[trigger] lexgt(mu, nu) }
pub proof fn lemma_wnext(x: Seq<int>, mu: Seq<int>, inner: Seq<int>, outer: Seq<int>, i: int)
    requires win(mu, inner, outer), inner.len() == outer.len(), noninc(inner), noninc(outer), 0 <= i < mu.len(), mu[i] != inner[i], forall|j: int| i < j < mu.len() ==> #[trigger] mu[j] == inner[j],
        x.len() == mu.len(), forall|j: int| 0 <= j < i ==> #[trigger] x[j] == mu[j], forall|j: int| i <= j < mu.len() ==> #[trigger] x[j] == imin(mu[i] - 1, outer[j])
    ensures wnext(x, mu, inner, outer)
{
    assert(inner[i] <= mu[i] <= outer[i]);
    assert forall|j: int| 0 <= j < x.len() implies inner[j] <= #[trigger] x[j] <= outer[j] by { if j < i { assert(inner[j] <= mu[j]); } else { assert(inner[i] >= inner[j]); assert(inner[j] <= mu[j] <= outer[j]); } }
    assert forall|a: int, b: int| 0 <= a <= b < x.len() implies x[a] >= x[b] by {
        assert(mu[a] >= mu[b]); assert(outer[a] >= outer[b]);
        if a < i { if b >= i { assert(mu[a] >= mu[i]); assert(x[b] <= mu[i] - 1); } }
    }
    assert(lexat(mu, x, i));
    assert forall|nu: Seq<int>| win(nu, inner, outer) && #[trigger] lexgt(mu, nu) implies nu =~= x || lexgt(x, nu) by {
        let j = choose|j: int| lexat(mu, nu, j);
        assert(nu[j] >= inner[j]);
        if j < i { assert(lexat(x, nu, j)); } else {
            assert(j == i);
            if !(nu =~= x) {
                let h = lemma_diff(x, nu, 0);
                if h >= i { assert(nu[i] >= nu[h]); assert(nu[h] <= outer[h]); }
                assert(lexat(x, nu, h));
            }
        }
    }
}
pub proof fn lemma_wlast(mu: Seq<int>, inner: Seq<int>, outer: Seq<int>)
    requires mu =~= inner
    ensures wlast(mu, inner, outer)
{
    assert forall|nu: Seq<int>| win(nu, inner, outer) implies !#[trigger] lexgt(mu, nu) by {
        if lexgt(mu, nu) { let j = choose|j: int| lexat(mu, nu, j); assert(inner[j] <= nu[j]); }
    }
}
//# fn schubertpy/qcalc.py::part_itr_between(mu: L, tau: L, lam: L) -> OL
//# vars i
requires win(mu, tau, lam), tau.len() == lam.len(), noninc(tau), noninc(lam)
ensures result.is_none() ==> wlast(mu, tau, lam), result.is_some() ==> wnext(result.unwrap(), mu, tau, lam)
//# loop 0
invariant -1 <= i < mu.len(), forall|j: int| i < j < mu.len() ==> #[trigger] mu[j] == tau[j]
decreases i + 1
//# hint after loop 0
if i < 0 { lemma_wlast(mu, tau, lam); }
//# hint return
if i >= 0 { lemma_wnext(result.unwrap(), mu, tau, lam, i); }
//# end

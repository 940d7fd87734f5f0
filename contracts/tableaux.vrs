//# unit tableaux
//# use partition
// ---- polynomials with integer coefficients: the coefficient of every exponent vector
pub type Px = spec_fn(Seq<int>) -> int;
pub ghost struct Tbl { pub rows: int, pub cols: int, pub cell: spec_fn(int, int) -> Option<Px> }
pub open spec fn tbl_none(r: int, c: int) -> Tbl { Tbl { rows: r, cols: c, cell: |i: int, j: int| None } }
pub open spec fn tbl_set(t: Tbl, a: int, b: int, v: Option<Px>) -> Tbl { Tbl { rows: t.rows, cols: t.cols, cell: |i: int, j: int| if i == a && j == b { v } else { (t.cell)(i, j) } } }
pub open spec fn zero(c: Seq<int>) -> bool { forall|i: int| 0 <= i < c.len() ==> #[trigger] c[i] == 0 }
pub open spec fn px_const(k: int) -> Px { |c: Seq<int>| if zero(c) { k } else { 0 } }
pub open spec fn px_add(a: Px, b: Px) -> Px { |c: Seq<int>| a(c) + b(c) }
pub open spec fn less(c: Seq<int>, v: int, t: int) -> Seq<int> { c.update(v, c[v] - t) }
// x_v * p, x_v ** e
pub open spec fn px_shift(v: int, p: Px) -> Px { |c: Seq<int>| if c[v - 1] > 0 { p(less(c, v - 1, 1)) } else { 0 } }
pub open spec fn px_pow(v: int, e: int) -> Px { |c: Seq<int>| if c[v - 1] == e && zero(less(c, v - 1, e)) { 1int } else { 0int } }
pub open spec fn vars_to(n: int) -> Seq<int> { Seq::new(pylen(n), |i: int| i + 1) }
// exponent vectors of n variables
pub open spec fn expo(c: Seq<int>, n: int) -> bool { c.len() == n && nonneg(c) }

// ---- semistandard tableaux: a chain of partitions, from the shape down to the empty one; step m takes away the boxes with
// the letter m, which form a horizontal strip: from row i at most the boxes that row i + 1 does not reach
pub open spec fn nxt(nu: Seq<int>, k: int) -> int { if k + 1 < nu.len() { nu[k + 1] } else { 0 } }
pub open spec fn mini(a: int, b: int) -> int { if a < b { a } else { b } }
// the number of tableaux of shape nu with letters 1..m and c[j - 1] letters j, letters m only in the rows from k on
pub open spec fn tabs(nu: Seq<int>, m: int, k: int, c: Seq<int>) -> int
    decreases m, 2 * (nu.len() - k) + 1, 0int
{
    if m <= 0 { if zero(nu) && zero(c) { 1 } else { 0 } }
    else if k >= nu.len() { tabs(nu, m - 1, 0, c) }
    else { row(nu, m, k, c, mini(nu[k] - nxt(nu, k), c[m - 1])) }
}
// ... with at most t letters m in row k
pub open spec fn row(nu: Seq<int>, m: int, k: int, c: Seq<int>, t: int) -> int
    decreases m, 2 * (nu.len() - k), t + 1
{ if t < 0 || m <= 0 || k >= nu.len() { 0 } else { row(nu, m, k, c, t - 1) + tabs(less(nu, k, t), m, k + 1, less(c, m - 1, t)) } }

// one box at a time
pub open spec fn shape(nu: Seq<int>) -> bool { noninc(nu) && nonneg(nu) }
pub proof fn lemma_less(nu: Seq<int>, k: int, t: int)
    requires shape(nu), 0 <= k < nu.len(), 0 <= t <= nu[k] - nxt(nu, k)
    ensures shape(less(nu, k, t)), sum_seq(less(nu, k, t)) == sum_seq(nu) - t
{
    let r = less(nu, k, t);
    assert forall|i: int, j: int| 0 <= i <= j < r.len() implies r[i] >= r[j] by { assert(nu[i] >= nu[j]); if i == k && j > k { assert(nu[k + 1] >= nu[j]); } }
    assert forall|i: int| 0 <= i < r.len() implies r[i] >= 0 by { if i == k && k + 1 < nu.len() { assert(nu[k + 1] >= 0); } }
    lemma_sum_upd1(nu, k, nu[k] - t);
}
pub proof fn lemma_sum_upd1(s: Seq<int>, k: int, v: int)
    requires 0 <= k < s.len()
    ensures sum_seq(s.update(k, v)) == sum_seq(s) - s[k] + v
    decreases s.len()
{
    let u = s.update(k, v);
    if k == s.len() - 1 { assert(u.drop_last() =~= s.drop_last()); }
    else { assert(u.drop_last() =~= s.drop_last().update(k, v)); lemma_sum_upd1(s.drop_last(), k, v); }
}
proof fn lemma_row(nu: Seq<int>, m: int, k: int, c: Seq<int>, t: int)
    requires m > 0, 0 <= k < nu.len(), m <= c.len(), t >= 0
    ensures row(nu, m, k, c, t) == tabs(nu, m, k + 1, c) + row(less(nu, k, 1), m, k, less(c, m - 1, 1), t - 1)
    decreases t
{
    assert(less(nu, k, 0) =~= nu);
    assert(less(c, m - 1, 0) =~= c);
    if t == 0 {
        assert(row(nu, m, k, c, -1) == 0);
    } else {
        lemma_row(nu, m, k, c, t - 1);
        assert(less(less(nu, k, 1), k, t - 1) =~= less(nu, k, t));
        assert(less(less(c, m - 1, 1), m - 1, t - 1) =~= less(c, m - 1, t));
    }
}
pub proof fn lemma_box(nu: Seq<int>, m: int, k: int, c: Seq<int>)
    requires m > 0, 0 <= k < nu.len(), m <= c.len(), shape(nu), nonneg(c)
    ensures tabs(nu, m, k, c) == tabs(nu, m, k + 1, c) + (if nu[k] > nxt(nu, k) && c[m - 1] > 0 { tabs(less(nu, k, 1), m, k, less(c, m - 1, 1)) } else { 0 })
{
    let t = mini(nu[k] - nxt(nu, k), c[m - 1]);
    if k + 1 < nu.len() { assert(nu[k] >= nu[k + 1]); }
    lemma_row(nu, m, k, c, t);
    if t > 0 {
        let d = less(nu, k, 1);
        let e = less(c, m - 1, 1);
        assert(nxt(d, k) == nxt(nu, k));
        assert(mini(d[k] - nxt(d, k), e[m - 1]) == t - 1);
    } else {
        assert(row(less(nu, k, 1), m, k, less(c, m - 1, 1), t - 1) == 0);
    }
}
// rows without boxes
pub proof fn lemma_empty_rows(nu: Seq<int>, m: int, k: int, c: Seq<int>)
    requires m > 0, 0 <= k <= nu.len(), m <= c.len(), shape(nu), nonneg(c), k < nu.len() ==> nu[k] == 0
    ensures tabs(nu, m, k, c) == tabs(nu, m - 1, 0, c)
    decreases nu.len() - k
{
    if k < nu.len() {
        lemma_box(nu, m, k, c);
        if k + 1 < nu.len() { assert(nu[k] >= nu[k + 1]); assert(nu[k + 1] >= 0); }
        lemma_empty_rows(nu, m, k + 1, c);
    }
}
// the empty shape
pub proof fn lemma_empty(nu: Seq<int>, m: int, k: int, c: Seq<int>)
    requires 0 <= m <= c.len(), 0 <= k <= nu.len(), nonneg(c), zero(nu)
    ensures tabs(nu, m, k, c) == (if zero(c) { 1int } else { 0int })
    decreases m
{
    if m > 0 {
        lemma_empty_rows(nu, m, k, c);
        lemma_empty(nu, m - 1, 0, c);
    }
}
// more rows than letters
pub proof fn lemma_tall(nu: Seq<int>, m: int, k: int, c: Seq<int>)
    requires 0 <= m <= c.len(), m - 1 < nu.len(), 0 <= k <= nu.len(), nonneg(c), shape(nu), m > 0 && k >= m ==> nu[m - 1] > 0, m == 0 || k < m ==> m < nu.len() && nu[m] > 0
    ensures tabs(nu, m, k, c) == 0
    decreases m, nu.len() - k, sum_seq(nu)
{
    if m > 0 {
        if k >= nu.len() {
            lemma_tall(nu, m - 1, 0, c);
        } else {
            lemma_box(nu, m, k, c);
            if k < m { assert(nu[m - 1] >= nu[m]); }
            lemma_tall(nu, m, k + 1, c);
            if nu[k] > nxt(nu, k) && c[m - 1] > 0 {
                lemma_less(nu, k, 1);
                lemma_sum_nonneg(less(nu, k, 1));
                lemma_tall(less(nu, k, 1), m, k, less(c, m - 1, 1));
            }
        }
    }
}
pub proof fn lemma_sum_nonneg(s: Seq<int>)
    requires nonneg(s)
    ensures sum_seq(s) >= 0
    decreases s.len()
{ if s.len() > 0 { assert(nonneg(s.drop_last())) by { assert forall|i: int| 0 <= i < s.len() - 1 implies s.drop_last()[i] >= 0 by { assert(s[i] >= 0); } } lemma_sum_nonneg(s.drop_last()); assert(s.last() >= 0); } }
// one letter, one row
pub proof fn lemma_one(nu: Seq<int>, c: Seq<int>)
    requires nu.len() > 0, nu.len() > 1 ==> nu[1] == 0, shape(nu), nonneg(c), c.len() > 0
    ensures tabs(nu, 1, 0, c) == px_pow(1, nu[0])(c)
    decreases nu[0]
{
    assert(nu[0] >= 0);
    lemma_box(nu, 1, 0, c);
    if nu.len() > 1 { lemma_empty_rows(nu, 1, 1, c); }
    if nu.len() == 1 { assert(tabs(nu, 1, 1, c) == tabs(nu, 0, 0, c)); }
    assert(tabs(nu, 0, 0, c) == (if zero(nu) && zero(c) { 1int } else { 0int }));
    assert(tabs(nu, 1, 1, c) == (if zero(nu) && zero(c) { 1int } else { 0int }));
    if nu[0] > 0 {
        assert(!zero(nu)) by { if zero(nu) { assert(nu[0] == 0); } }
        if c[0] > 0 {
            let d = less(nu, 0, 1);
            let e = less(c, 0, 1);
            lemma_less(nu, 0, 1);
            lemma_one(d, e);
            assert(less(e, 0, nu[0] - 1) =~= less(c, 0, nu[0]));
        }
    } else {
        assert(zero(nu)) by { assert forall|i: int| 0 <= i < nu.len() implies #[trigger] nu[i] == 0 by { assert(nu[0] >= nu[i]); assert(nu[i] >= 0); } }
        assert(less(c, 0, 0) =~= c);
        if zero(c) { assert(c[0] == 0); }
    }
}
pub proof fn lemma_zero_shape(nu: Seq<int>)
    requires shape(nu), nu.len() == 0 || nu[0] == 0
    ensures zero(nu)
{ assert forall|i: int| 0 <= i < nu.len() implies #[trigger] nu[i] == 0 by { assert(nu[0] >= nu[i]); assert(nu[i] >= 0); } }

// ---- the numbering of the memo table
pub open spec fn prod_seq(s: Seq<int>) -> int
    decreases s.len()
{ if s.len() == 0 { 1 } else { prod_seq(s.drop_last()) * s.last() } }
pub open spec fn wt(kappa: Seq<int>, i: int) -> int { prod_seq(Seq::new(kappa.len(), |k: int| kappa[k] + 1).subrange(i + 1, kappa.len() as int)) }
pub open spec fn nn(kappa: Seq<int>, mu: Seq<int>) -> int { sum_seq(Seq::new(kappa.len(), |k: int| mu[k] * wt(kappa, k))) }
pub proof fn lemma_prod_pos(s: Seq<int>)
    requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] >= 1
    ensures prod_seq(s) >= 1
    decreases s.len()
{
    if s.len() > 0 {
        assert(s.last() >= 1);
        lemma_prod_pos(s.drop_last());
        let a = prod_seq(s.drop_last());
        let b = s.last();
        assert(a * b >= 1) by (nonlinear_arith) requires a >= 1, b >= 1;
    }
}
pub proof fn lemma_wt(kappa: Seq<int>, i: int)
    requires forall|i: int| 0 <= i < kappa.len() ==> kappa[i] >= 0, 0 <= i < kappa.len()
    ensures wt(kappa, i) >= 1
{ lemma_prod_pos(Seq::new(kappa.len(), |k: int| kappa[k] + 1).subrange(i + 1, kappa.len() as int)); }
pub proof fn lemma_sum_le(a: Seq<int>, b: Seq<int>)
    requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> 0 <= #[trigger] a[i] <= b[i]
    ensures 0 <= sum_seq(a) <= sum_seq(b), forall|i: int| 0 <= i < a.len() ==> sum_seq(a) >= #[trigger] a[i]
    decreases a.len()
{
    if a.len() > 0 {
        assert forall|i: int| 0 <= i < a.len() - 1 implies 0 <= #[trigger] a.drop_last()[i] <= b.drop_last()[i] by { assert(0 <= a[i] <= b[i]); }
        lemma_sum_le(a.drop_last(), b.drop_last());
        assert(0 <= a[a.len() - 1] <= b[a.len() - 1]);
        assert forall|i: int| 0 <= i < a.len() implies sum_seq(a) >= #[trigger] a[i] by { if i < a.len() - 1 { assert(a.drop_last()[i] == a[i]); } }
    }
}
pub proof fn lemma_nn_nonneg(kappa: Seq<int>)
    requires nonneg(kappa)
    ensures nn(kappa, kappa) >= 0
{
    let a = Seq::new(kappa.len(), |k: int| kappa[k] * wt(kappa, k));
    assert forall|i: int| 0 <= i < a.len() implies a[i] >= 0 by {
        lemma_wt(kappa, i);
        let (y, w) = (kappa[i], wt(kappa, i));
        assert(y * w >= 0) by (nonlinear_arith) requires 0 <= y, w >= 1;
    }
    lemma_sum_nonneg(a);
}
pub open spec fn below(nu: Seq<int>, kappa: Seq<int>) -> bool { nu.len() == kappa.len() && forall|i: int| 0 <= i < nu.len() ==> 0 <= #[trigger] nu[i] <= kappa[i] }
pub proof fn lemma_nn(kappa: Seq<int>, nu: Seq<int>)
    requires below(nu, kappa), nu.len() > 0, nu[0] > 0
    ensures 1 <= nn(kappa, nu) <= nn(kappa, kappa)
{
    assert(nonneg(kappa)) by { assert forall|i: int| 0 <= i < kappa.len() implies kappa[i] >= 0 by { assert(0 <= nu[i] <= kappa[i]); } }
    let a = Seq::new(kappa.len(), |k: int| nu[k] * wt(kappa, k));
    let b = Seq::new(kappa.len(), |k: int| kappa[k] * wt(kappa, k));
    assert forall|i: int| 0 <= i < a.len() implies 0 <= #[trigger] a[i] <= b[i] by {
        assert(0 <= nu[i] <= kappa[i]);
        lemma_wt(kappa, i);
        let (x, y, w) = (nu[i], kappa[i], wt(kappa, i));
        assert(0 <= x * w <= y * w) by (nonlinear_arith) requires 0 <= x <= y, w >= 1;
    }
    lemma_sum_le(a, b);
    lemma_wt(kappa, 0);
    let (x, w) = (nu[0], wt(kappa, 0));
    assert(x * w >= 1) by (nonlinear_arith) requires x >= 1, w >= 1;
    assert(a[0] == x * w);
}
// ---- the code
//# fn schubertpy/utils/mix.py::__N__(kappa: NA, mu: NA) -> I
//# vars n nu M
requires kappa.len() == mu.len()
ensures result == nn(kappa, mu)
//# hint return
if kappa.len() > 0 {
    let one = Seq::new(kappa.len(), |k: int| kappa[k] + 1);
    assert(nu =~= one);
    assert forall|i: int| 0 <= i < kappa.len() implies #[trigger] M[i] == wt(kappa, i) by { assert(slice(nu, i + 1, nu.len() as int) =~= one.subrange(i + 1, kappa.len() as int)); }
    assert(Seq::new(kappa.len(), |k: int| mu[k] * wt(kappa, k)) =~= Seq::new(mu.len(), |k: int| mu[k] * M[k]));
} else {
    assert(Seq::new(kappa.len(), |k: int| mu[k] * wt(kappa, k)) =~= Seq::<int>::empty());
}
//# end
//# fn schubertpy/utils/mix.py::__is_decreasing__(x: L) -> B
//# vars l i out
ensures result == noninc(x)
//# loop 0
invariant 0 <= i, l == x.len(), out ==> forall|j: int| 0 <= j < i ==> x[j] >= #[trigger] x[j + 1], !out ==> !noninc(x), i <= l
decreases l - i
//# hint return
if result { lemma_noninc_adj(x); }
//# end
//# fn schubertpy/utils/mix.py::__drop_trailing_zeros__(x: L) -> L
//# owns x
//# vars n
ensures result =~= clip(x)
//# hint entry
let ghost x0 = x;
//# loop 0
invariant -1 <= n, n + 1 == x.len(), x.len() <= x0.len(), x =~= x0.subrange(0, x.len() as int), forall|j: int| x.len() <= j < x0.len() ==> x0[j] == 0
decreases n + 1
//# hint return
lemma_clip_unique(x0, result);
//# end
//# fn schubertpy/utils/mix.py::__make_partition__(x: L) -> NA
//# raises
ensures
    is_part(clip(x)) ==> result == Out::<Seq<int>>::Val(clip(x)),
    !is_part(clip(x)) ==> result == Out::<Seq<int>>::Exc(Ex::ValueError),
//# hint entry
lemma_with_zero(clip(x));
lemma_is_clip(x);
//# end
pub proof fn lemma_with_zero(l: Seq<int>)
    ensures noninc(l + seq![0int]) == is_part(l), noninc(l.push(0)) == is_part(l)
{
    let z = l + seq![0int];
    assert(z =~= l.push(0));
    if is_part(l) {
        assert forall|i: int, j: int| 0 <= i <= j < z.len() implies z[i] >= z[j] by { if j < l.len() { assert(l[i] >= l[j]); } else if i < l.len() { assert(l[i] >= 0); } }
    }
    if noninc(z) {
        assert forall|i: int, j: int| 0 <= i <= j < l.len() implies l[i] >= l[j] by { assert(z[i] >= z[j]); }
        assert forall|i: int| 0 <= i < l.len() implies l[i] >= 0 by { assert(z[i] >= z[l.len() as int]); }
    }
}
//# fn schubertpy/utils/mix.py::SchurPol.sch(S: TBL, m: I, k: I, nu: NA, variables: LSYN, x: LVX, kappa_: NA) -> PX
//# owns S
//# vars N s i _nu
//# types s: OPX
requires
    forall|i: int, j: int| 0 <= i < S.rows && 0 <= j < S.cols ==> (#[trigger] (S.cell)(i, j)).is_none(),
    variables =~= vars_to(variables.len() as int), x =~= variables, 1 <= m <= variables.len(),
    S.rows == nn(kappa_, kappa_), S.cols == variables.len(),
    shape(nu), below(nu, kappa_), 1 <= k, k <= nu.len() || k == 1, m == 1 ==> k == 1,
ensures forall|c: Seq<int>| expo(c, variables.len() as int) ==> #[trigger] result(c) == tabs(nu, m, k - 1, c)
decreases m, sum_seq(nu)
//# hint entry
lemma_sum_nonneg(nu);
if nu.len() > 0 && nu[0] > 0 { lemma_nn(kappa_, nu); }
if nu.len() == 0 || nu[0] == 0 {
    lemma_zero_shape(nu);
    assert forall|c: Seq<int>| expo(c, variables.len() as int) implies #[trigger] tabs(nu, m, k - 1, c) == px_const(1)(c) by { lemma_empty(nu, m, k - 1, c); }
} else if nu.len() > m && nu[m] > 0 {
    assert(nu[m - 1] >= nu[m]);
    assert forall|c: Seq<int>| expo(c, variables.len() as int) implies #[trigger] tabs(nu, m, k - 1, c) == 0 by { lemma_tall(nu, m, k - 1, c); }
} else if m == 1 {
    if nu.len() > 1 { assert(nu[1] >= 0); }
    assert forall|c: Seq<int>| expo(c, variables.len() as int) implies #[trigger] tabs(nu, m, k - 1, c) == px_pow(1, nu[0])(c) by { lemma_one(nu, c); }
}
//# loop 0
invariant
    k <= i <= nu.len() + 1, s.is_some(),
    forall|c: Seq<int>| #![trigger (s.unwrap())(c)] #![trigger tabs(nu, m, i - 1, c)] expo(c, variables.len() as int) ==> (s.unwrap())(c) + tabs(nu, m, i - 1, c) == tabs(nu, m, k - 1, c) + tabs(nu, m - 1, 0, c)
decreases nu.len() + 1 - i
//# hint loop 0 head
let ghost s_in = s;
let ghost i_in = i;
lemma_less_ok(nu, kappa_, i - 1);
//# hint loop 0 end
assert forall|c: Seq<int>| expo(c, variables.len() as int) implies (s.unwrap())(c) + tabs(nu, m, i_in, c) == (s_in.unwrap())(c) + tabs(nu, m, i_in - 1, c) by {
    lemma_box(nu, m, i_in - 1, c);
    if nu[i_in - 1] > nxt(nu, i_in - 1) && c[m - 1] > 0 {
        let d = less(nu, i_in - 1, 1);
        let e = less(c, m - 1, 1);
        assert(expo(e, variables.len() as int)) by { assert forall|j: int| 0 <= j < e.len() implies e[j] >= 0 by { assert(c[j] >= 0); } }
        if nu[i_in - 1] == 1 { lemma_empty_rows(d, m, i_in - 1, e); }
        assert(_nu =~= d);
    }
}
//# hint after loop 0
assert forall|c: Seq<int>| expo(c, variables.len() as int) implies #[trigger] (s.unwrap())(c) == tabs(nu, m, k - 1, c) by {
    if i <= nu.len() { assert(nu[i - 1] >= 0); }
    lemma_empty_rows(nu, m, i - 1, c);
}
//# end
pub proof fn lemma_less_ok(nu: Seq<int>, kappa: Seq<int>, k: int)
    requires shape(nu), below(nu, kappa)
    ensures 0 <= k < nu.len() && nu[k] > nxt(nu, k) ==> shape(less(nu, k, 1)) && below(less(nu, k, 1), kappa) && 0 <= sum_seq(less(nu, k, 1)) < sum_seq(nu)
{
    if 0 <= k < nu.len() && nu[k] > nxt(nu, k) {
        lemma_less(nu, k, 1);
        lemma_sum_nonneg(less(nu, k, 1));
        let d = less(nu, k, 1);
        assert forall|i: int| 0 <= i < d.len() implies 0 <= #[trigger] d[i] <= kappa[i] by { assert(0 <= nu[i] <= kappa[i]); assert(d[i] >= 0); }
    }
}
//# fn schubertpy/utils/mix.py::SchurPol(n: I, kappa: L) -> PX
//# raises
//# vars kappa_ variables x S
ensures
    (result is Exc) <==> (n < 1 || !is_part(clip(kappa))),
    result is Exc ==> result->Exc_0 is ValueError,
    result is Val ==> forall|c: Seq<int>| expo(c, n) ==> #[trigger] (result->Val_0)(c) == tabs(clip(kappa), n, 0, c)
//# hint entry
if is_part(clip(kappa)) {
    lemma_nn_nonneg(clip(kappa));
    assert forall|i: int| 0 <= i < clip(kappa).len() implies 0 <= #[trigger] clip(kappa)[i] by {}
}
//# end
// more rows than variables: the zero polynomial; the empty partition: the constant 1
pub proof fn theorem_tall(p: Seq<int>, n: int, c: Seq<int>)
    requires is_part(p), forall|i: int| 0 <= i < p.len() ==> p[i] > 0, n >= 1, p.len() > n, expo(c, n)
    ensures tabs(p, n, 0, c) == 0
{ lemma_tall(p, n, 0, c); }
pub proof fn theorem_empty(n: int, c: Seq<int>)
    requires n >= 1, expo(c, n)
    ensures tabs(Seq::empty(), n, 0, c) == px_const(1)(c)
{ lemma_empty(Seq::empty(), n, 0, c); }
// the last letter fills a horizontal strip, and every strip that leaves a shape is counted once: a box of row k is filled with
// the letter m, or none of the rows above k + 1 is
pub proof fn theorem_branching(nu: Seq<int>, m: int, c: Seq<int>)
    requires m > 0, nu.len() > 0, m <= c.len(), shape(nu), nonneg(c)
    ensures forall|k: int| 0 <= k < nu.len() ==> #[trigger] tabs(nu, m, k, c) == tabs(nu, m, k + 1, c) + (if nu[k] > nxt(nu, k) && c[m - 1] > 0 { tabs(less(nu, k, 1), m, k, less(c, m - 1, 1)) } else { 0 }),
        tabs(nu, m, nu.len() as int, c) == tabs(nu, m - 1, 0, c)
{
    assert forall|k: int| 0 <= k < nu.len() implies #[trigger] tabs(nu, m, k, c) == tabs(nu, m, k + 1, c) + (if nu[k] > nxt(nu, k) && c[m - 1] > 0 { tabs(less(nu, k, 1), m, k, less(c, m - 1, 1)) } else { 0 }) by { lemma_box(nu, m, k, c); }
}

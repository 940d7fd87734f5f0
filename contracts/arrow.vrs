//# unit arrow
//# use pairs index fill
// ---- the relation lam -> mu of Buch, Kresch and Tamvakis, for types B, C (d = 0) and D (d = 1)
pub open spec fn kbox(l: Seq<int>, k: int, m: int, w: int) -> bool { is_part(l) && kstrict(l, k) && clip_len(l) <= m && row(l, 0) <= w }
// the box of row b (from 0) on diagonal t right of column k belongs to mu/lam
pub open spec fn has(lam: Seq<int>, mu: Seq<int>, k: int, b: int, t: int) -> bool { b >= 0 && t - b >= 1 && row(lam, b) < k + t - b <= row(mu, b) }
// the diagonal of the boxes related to the bottom box of column i (from 0)
pub open spec fn diag(l: Seq<int>, k: int, d: int, i: int) -> int { cnt(l, i) + k - i - d }
pub open spec fn one_row(lam: Seq<int>, mu: Seq<int>, k: int, d: int, i: int, b: int) -> bool {
    forall|t: int| diag(mu, k, d, i) <= t <= diag(lam, k, d, i) ==> has(lam, mu, k, b, t) && forall|a: int| #[trigger] has(lam, mu, k, a, t) ==> a == b
}
// column i: the same height: its bottom box is related to at most one box of mu/lam; lower: the removed boxes and the
// new bottom box are related to exactly one box each, all in one row
pub open spec fn column_ok(lam: Seq<int>, mu: Seq<int>, k: int, d: int, i: int) -> bool {
    &&& cnt(mu, i) == cnt(lam, i) ==> forall|a: int, b: int| #[trigger] has(lam, mu, k, a, diag(lam, k, d, i)) && #[trigger] has(lam, mu, k, b, diag(lam, k, d, i)) ==> a == b
    &&& cnt(mu, i) < cnt(lam, i) ==> exists|b: int| one_row(lam, mu, k, d, i, b)
}
// mu arises from lam by removing a vertical strip from the first k columns and adding a horizontal strip
pub open spec fn strips(lam: Seq<int>, mu: Seq<int>, k: int) -> bool {
    &&& forall|r: int| 0 <= r ==> #[trigger] row(mu, r) >= row(lam, r) - 1 && (row(lam, r) > k ==> row(mu, r) >= row(lam, r))
    &&& forall|r: int| 1 <= r ==> #[trigger] row(mu, r) <= imin(row(lam, r - 1), row(mu, r - 1))
}
pub open spec fn arrow(lam: Seq<int>, mu: Seq<int>, k: int, d: int) -> bool {
    strips(lam, mu, k) && forall|i: int| 0 <= i < k ==> #[trigger] column_ok(lam, mu, k, d, i)
}
// the terms of the Pieri product with the special class of degree p; m rows, w columns
pub open spec fn term(lam: Seq<int>, mu: Seq<int>, p: int, k: int, m: int, w: int, d: int) -> bool {
    in_box(mu, k, m, w) && arrow(lam, mu, k, d) && sum_seq(mu) == sum_seq(lam) + p
}

// ---- rows beyond column k
pub open spec fn ex(l: Seq<int>, k: int, b: int) -> int { imax(row(l, b) - k, 0) }
pub proof fn lemma_ex(l: Seq<int>, k: int)
    requires is_part(l), kstrict(l, k), k >= 0
    ensures cnt(l, k) >= 0, forall|b: int| 0 <= b < cnt(l, k) ==> #[trigger] ex(l, k, b) >= 1 && row(l, b) == k + ex(l, k, b),
        forall|b: int| b >= cnt(l, k) ==> #[trigger] ex(l, k, b) == 0 && row(l, b) <= k,
        forall|a: int, b: int| 0 <= a <= b <= cnt(l, k) ==> #[trigger] ex(l, k, b) + b <= #[trigger] ex(l, k, a) + a,
        forall|r: int| #[trigger] row(l, r) >= 0
{
    lemma_cnt(l, k);
    let m = cnt(l, k);
    assert forall|r: int| #[trigger] row(l, r) >= 0 by { if 0 <= r < l.len() { assert(l[r] >= 0); } }
    assert forall|b: int| 0 <= b < m implies #[trigger] ex(l, k, b) >= 1 && row(l, b) == k + ex(l, k, b) by { assert(l[b] > k); }
    assert forall|b: int| b >= m implies #[trigger] ex(l, k, b) == 0 && row(l, b) <= k by { if b < l.len() { assert(!(l[b] > k)); } }
    assert forall|a: int, b: int| 0 <= a <= b <= m implies #[trigger] ex(l, k, b) + b <= #[trigger] ex(l, k, a) + a by { lemma_ex2(l, k, a, b); }
}
pub proof fn lemma_ex2(l: Seq<int>, k: int, a: int, b: int)
    requires is_part(l), kstrict(l, k), k >= 0, 0 <= a <= b <= cnt(l, k)
    ensures ex(l, k, b) + b <= ex(l, k, a) + a
    decreases b - a
{
    lemma_cnt(l, k);
    if a < b {
        lemma_ex2(l, k, a, b - 1);
        assert(l[b - 1] > k);
        if b < cnt(l, k) { assert(l[b] > k); assert(l[b - 1] > l[b]); } else if b < l.len() { assert(!(l[b] > k)); }
    }
}
pub proof fn lemma_row_cnt(l: Seq<int>, r: int, i: int)
    requires is_part(l), r >= 0, i >= 0
    ensures row(l, r) > i <==> r < cnt(l, i), 0 <= cnt(l, i) <= l.len()
{ lemma_cnt(l, i); if r < l.len() { assert(l[r] > i <==> r < cnt(l, i)); } }
pub proof fn lemma_cnt_mono(l: Seq<int>, i: int, j: int)
    requires is_part(l), 0 <= i <= j
    ensures cnt(l, i) >= cnt(l, j)
{ lemma_cnt(l, i); lemma_cnt(l, j); let v = cnt(l, j); if v > 0 { assert(l[v - 1] > j); } }

// the first row that does not reach diagonal t
pub open spec fn bt(l: Seq<int>, k: int, m: int, t: int) -> int
    decreases m
{ if m <= 0 { 0 } else if ex(l, k, m - 1) + m - 1 >= t { m } else { bt(l, k, m - 1, t) } }
pub open spec fn beta(l: Seq<int>, k: int, t: int) -> int { bt(l, k, cnt(l, k), t) }
pub open spec fn is_beta(l: Seq<int>, k: int, t: int, b: int) -> bool {
    &&& 0 <= b <= cnt(l, k)
    &&& forall|a: int| 0 <= a < b ==> #[trigger] ex(l, k, a) + a >= t
    &&& b < cnt(l, k) ==> forall|a: int| b <= a <= cnt(l, k) ==> #[trigger] ex(l, k, a) + a < t
}
pub proof fn lemma_bt(l: Seq<int>, k: int, m: int, t: int)
    requires is_part(l), kstrict(l, k), k >= 0, 0 <= m <= cnt(l, k), forall|a: int| m <= a < cnt(l, k) ==> #[trigger] ex(l, k, a) + a < t
    ensures is_beta(l, k, t, bt(l, k, m, t))
    decreases m
{
    lemma_ex(l, k);
    if m > 0 && ex(l, k, m - 1) + m - 1 < t { lemma_bt(l, k, m - 1, t); }
    else {
        let b = bt(l, k, m, t);
        assert(b == m);
        if b < cnt(l, k) { assert(ex(l, k, b) + b < t); }
    }
}
pub proof fn lemma_beta(l: Seq<int>, k: int, t: int)
    requires is_part(l), kstrict(l, k), k >= 0
    ensures is_beta(l, k, t, beta(l, k, t))
{ lemma_ex(l, k); lemma_bt(l, k, cnt(l, k), t); }
pub proof fn lemma_beta_unique(l: Seq<int>, k: int, t: int, b: int)
    requires is_part(l), kstrict(l, k), k >= 0, 0 <= b <= cnt(l, k), forall|a: int| 0 <= a < b ==> #[trigger] ex(l, k, a) + a >= t, b < cnt(l, k) ==> ex(l, k, b) + b < t
    ensures b == beta(l, k, t)
{
    lemma_beta(l, k, t);
    let c = beta(l, k, t);
    if b < c { assert(ex(l, k, b) + b >= t); }
    if c < b { assert(ex(l, k, c) + c >= t); }
}

// ---- the conditions on columns in terms of the first row that does not reach the diagonal
pub open spec fn col_rows(lam: Seq<int>, mu: Seq<int>, k: int, d: int, i: int) -> bool {
    let t = diag(lam, k, d, i);
    let t1 = diag(mu, k, d, i);
    let b = beta(lam, k, t);
    &&& t1 < t ==> t1 >= ex(lam, k, b) + b + 1 && ex(mu, k, b) + b >= t
    &&& forall|a: int| b < a <= cnt(lam, k) ==> #[trigger] ex(mu, k, a) <= t1 - 1 - a
}
// rows beyond column k of mu
pub open spec fn ex_strip(lam: Seq<int>, mu: Seq<int>, k: int) -> bool {
    forall|b: int| 0 <= b ==> #[trigger] ex(mu, k, b) >= ex(lam, k, b) && (b >= 1 ==> ex(mu, k, b) <= ex(lam, k, b - 1) && (ex(mu, k, b) > 0 ==> ex(mu, k, b) < ex(mu, k, b - 1)))
}
pub proof fn lemma_has(lam: Seq<int>, mu: Seq<int>, k: int, b: int, t: int)
    requires k >= 0
    ensures has(lam, mu, k, b, t) <==> b >= 0 && ex(lam, k, b) < t - b <= ex(mu, k, b)
{}
// if row b > beta reaches diagonal t, so does the row before
pub proof fn lemma_row_before(lam: Seq<int>, mu: Seq<int>, k: int, t: int, b: int)
    requires is_part(lam), kstrict(lam, k), k >= 0, ex_strip(lam, mu, k), beta(lam, k, t) < b, ex(mu, k, b) + b >= t, ex(mu, k, b) >= 1
    ensures has(lam, mu, k, b - 1, t)
{
    lemma_ex(lam, k);
    lemma_beta(lam, k, t);
    assert(ex(mu, k, b) <= ex(lam, k, b - 1));
    assert(ex(mu, k, b) < ex(mu, k, b - 1));
    assert(b - 1 < cnt(lam, k)) by { if b - 1 >= cnt(lam, k) { assert(ex(lam, k, b - 1) == 0); } }
    assert(ex(lam, k, b - 1) + (b - 1) < t);
    lemma_has(lam, mu, k, b - 1, t);
}
pub proof fn lemma_column(lam: Seq<int>, mu: Seq<int>, k: int, d: int, i: int)
    requires is_part(lam), kstrict(lam, k), k >= 0, ex_strip(lam, mu, k), 0 <= i < k, cnt(mu, i) <= cnt(lam, i) + 1
    ensures column_ok(lam, mu, k, d, i) <==> col_rows(lam, mu, k, d, i)
{
    let t = diag(lam, k, d, i);
    let t1 = diag(mu, k, d, i);
    let b = beta(lam, k, t);
    let m = cnt(lam, k);
    lemma_ex(lam, k);
    lemma_beta(lam, k, t);
    if column_ok(lam, mu, k, d, i) {
        if t1 < t {
            let s = choose|s: int| one_row(lam, mu, k, d, i, s);
            assert(has(lam, mu, k, s, t) && has(lam, mu, k, s, t1));
            lemma_has(lam, mu, k, s, t); lemma_has(lam, mu, k, s, t1);
            if s < b { assert(ex(lam, k, s) + s >= t); }
            if s > b { lemma_row_before(lam, mu, k, t, s); assert(false); }
        }
        assert forall|a: int| b < a <= m implies #[trigger] ex(mu, k, a) <= t1 - 1 - a by {
            assert(ex(lam, k, a) + a < t);
            if t1 < t {
                let s = choose|s: int| one_row(lam, mu, k, d, i, s);
                assert(has(lam, mu, k, s, t1));
                assert(ex(lam, k, a) + a <= ex(lam, k, b) + b);
                lemma_has(lam, mu, k, a, t1);
                if ex(mu, k, a) > t1 - 1 - a { assert(has(lam, mu, k, a, t1)); assert(false); }
            } else if t1 == t {
                if ex(mu, k, a) > t - 1 - a {
                    assert(ex(mu, k, a) >= 1) by { if ex(mu, k, a) == 0 { assert(ex(lam, k, a) + a <= a); assert(ex(mu, k, a) >= ex(lam, k, a)); } }
                    lemma_row_before(lam, mu, k, t, a);
                    lemma_has(lam, mu, k, a, t);
                    assert(false);
                }
            } else {
                assert(ex(mu, k, a) <= ex(lam, k, a - 1));
                assert(ex(lam, k, a - 1) + (a - 1) < t);
            }
        }
    }
    if col_rows(lam, mu, k, d, i) {
        assert forall|a: int, s: int| t1 <= s <= t && #[trigger] has(lam, mu, k, a, s) implies a == b by {
            lemma_has(lam, mu, k, a, s);
            if a < b { assert(ex(lam, k, a) + a >= t); }
            if a > b && a <= m { assert(ex(mu, k, a) <= t1 - 1 - a); }
            if a > m { assert(ex(lam, k, a - 1) == 0); assert(ex(mu, k, a) <= ex(lam, k, a - 1)); }
        }
        if t1 < t {
            assert(one_row(lam, mu, k, d, i, b)) by {
                assert forall|s: int| t1 <= s <= t implies has(lam, mu, k, b, s) && forall|a: int| #[trigger] has(lam, mu, k, a, s) ==> a == b by { lemma_has(lam, mu, k, b, s); }
            }
        }
    }
}

// ---- column and row form of strips
pub open spec fn cols_near(lam: Seq<int>, mu: Seq<int>, k: int) -> bool {
    forall|i: int| 0 <= i < k ==> cnt(lam, i + 1) <= #[trigger] cnt(mu, i) <= cnt(lam, i) + 1
}
pub proof fn lemma_strips_in(lam: Seq<int>, mu: Seq<int>, k: int)
    requires is_part(lam), is_part(mu), kstrict(mu, k), k >= 0, strips(lam, mu, k)
    ensures cols_near(lam, mu, k), ex_strip(lam, mu, k), cnt(mu, k) <= cnt(lam, k) + 1
{
    assert forall|i: int| 0 <= i <= k implies #[trigger] cnt(mu, i) <= cnt(lam, i) + 1 by {
        let v = cnt(mu, i);
        lemma_cnt(mu, i);
        lemma_cnt(lam, i);
        if v >= 2 { assert(mu[v - 1] > i); assert(row(mu, v - 1) <= row(lam, v - 2)); lemma_row_cnt(lam, v - 2, i); }
    }
    assert forall|i: int| 0 <= i < k implies cnt(lam, i + 1) <= #[trigger] cnt(mu, i) by {
        let v = cnt(lam, i + 1);
        lemma_cnt(lam, i + 1);
        lemma_cnt(mu, i);
        if v >= 1 { assert(lam[v - 1] > i + 1); assert(row(mu, v - 1) >= row(lam, v - 1) - 1); lemma_row_cnt(mu, v - 1, i); }
    }
    assert forall|b: int| 0 <= b implies #[trigger] ex(mu, k, b) >= ex(lam, k, b) && (b >= 1 ==> ex(mu, k, b) <= ex(lam, k, b - 1) && (ex(mu, k, b) > 0 ==> ex(mu, k, b) < ex(mu, k, b - 1))) by {
        assert(row(mu, b) >= row(lam, b) - 1);
        if b >= 1 {
            assert(row(mu, b) <= row(lam, b - 1));
            if row(mu, b) > k { assert(mu[b - 1] >= mu[b]); assert(mu[b - 1] > mu[b]); }
        }
    }
}
pub proof fn lemma_strips_out(lam: Seq<int>, mu: Seq<int>, k: int)
    requires is_part(lam), is_part(mu), k >= 0, cols_near(lam, mu, k), ex_strip(lam, mu, k)
    ensures strips(lam, mu, k), kstrict(mu, k)
{
    assert forall|r: int| 0 <= r implies #[trigger] row(mu, r) >= row(lam, r) - 1 && (row(lam, r) > k ==> row(mu, r) >= row(lam, r)) by {
        assert(ex(mu, k, r) >= ex(lam, k, r));
        let v = row(lam, r);
        if r < mu.len() { assert(mu[r] >= 0); }
        if v <= k && v >= 2 { lemma_row_cnt(lam, r, v - 1); assert(cnt(lam, v - 2 + 1) <= cnt(mu, v - 2)); lemma_row_cnt(mu, r, v - 2); }
    }
    assert forall|r: int| 1 <= r implies #[trigger] row(mu, r) <= imin(row(lam, r - 1), row(mu, r - 1)) by {
        let v = row(mu, r);
        if r < mu.len() { assert(mu[r - 1] >= mu[r]); } else if r - 1 < mu.len() { assert(mu[r - 1] >= 0); }
        if r - 1 < lam.len() { assert(lam[r - 1] >= 0); }
        assert(ex(mu, k, r) <= ex(lam, k, r - 1));
        if 1 <= v <= k { lemma_row_cnt(mu, r, v - 1); assert(cnt(mu, v - 1) <= cnt(lam, v - 1) + 1); lemma_row_cnt(lam, r - 1, v - 1); }
    }
    assert forall|i: int, j: int| 0 <= i < j < mu.len() && mu[i] > k implies mu[i] > mu[j] by {
        assert(mu[i] >= mu[i + 1]);
        assert(mu[i + 1] >= mu[j]);
        assert(row(mu, i + 1) == mu[i + 1]);
        if mu[i + 1] > k { assert(ex(mu, k, i + 1) > 0); assert(ex(mu, k, i + 1) < ex(mu, k, i + 1 - 1)); }
    }
}
// ---- the bounds for the column heights and for the rows beyond column k
pub open spec fn inn(lam: Seq<int>, k: int, d: int, i: int) -> int {
    let t = diag(lam, k, d, i);
    let b = beta(lam, k, t);
    imax(cnt(lam, i + 1), if t - b <= 0 { cnt(lam, i) } else { ex(lam, k, b) + b + 1 + i - k + d })
}
pub open spec fn tin(lam: Seq<int>, k: int, d: int) -> Seq<int> { Seq::new(pylen(k), |i: int| inn(lam, k, d, i)) }
pub open spec fn tout(lam: Seq<int>, k: int, m: int) -> Seq<int> { Seq::new(pylen(k), |i: int| imin(m, cnt(lam, i) + 1)) }
// the number of rows that may reach beyond column k
pub open spec fn room_rows(a: Seq<int>, k: int, m: int) -> int { if k <= 0 { m } else { a[k - 1] } }
pub open spec fn blen(lam: Seq<int>, a: Seq<int>, k: int, m: int) -> int { cnt(lam, k) + (if cnt(lam, k) < room_rows(a, k, m) { 1int } else { 0int }) }
// the diagonals after the columns have height a
pub open spec fn dia(a: Seq<int>, k: int, d: int, i: int) -> int { a[i] + k - i - d }
pub open spec fn lowb(lam: Seq<int>, a: Seq<int>, k: int, d: int, b: int, j: int) -> int
    decreases j
{
    if j <= 0 { ex(lam, k, b) } else {
        let t = diag(lam, k, d, j - 1);
        if a[j - 1] < cnt(lam, j - 1) && beta(lam, k, t) == b { imax(lowb(lam, a, k, d, b, j - 1), t - b) } else { lowb(lam, a, k, d, b, j - 1) }
    }
}
pub open spec fn base(lam: Seq<int>, k: int, w: int, b: int) -> int { if b <= 0 { w - k } else { ex(lam, k, b - 1) } }
pub open spec fn upb(lam: Seq<int>, a: Seq<int>, k: int, d: int, w: int, b: int, j: int) -> int
    decreases j
{
    if j <= 0 { base(lam, k, w, b) } else {
        let t = diag(lam, k, d, j - 1);
        if b > beta(lam, k, t) { imin(upb(lam, a, k, d, w, b, j - 1), dia(a, k, d, j - 1) - 1 - b) } else { upb(lam, a, k, d, w, b, j - 1) }
    }
}
// column i is lower and a row is left for the boxes related to the removed boxes
pub open spec fn fits_row(lam: Seq<int>, a: Seq<int>, k: int, d: int, m: int, i: int) -> bool { a[i] < cnt(lam, i) ==> beta(lam, k, diag(lam, k, d, i)) < blen(lam, a, k, m) }
pub open spec fn rows_fit(lam: Seq<int>, a: Seq<int>, k: int, d: int, m: int, j: int) -> bool { forall|i: int| 0 <= i < j ==> #[trigger] fits_row(lam, a, k, d, m, i) }
pub open spec fn bin(lam: Seq<int>, a: Seq<int>, k: int, d: int, m: int) -> Seq<int> { Seq::new(pylen(blen(lam, a, k, m)), |b: int| lowb(lam, a, k, d, b, k)) }
pub open spec fn bout(lam: Seq<int>, a: Seq<int>, k: int, d: int, m: int, w: int) -> Seq<int> { Seq::new(pylen(blen(lam, a, k, m)), |b: int| upb(lam, a, k, d, w, b, k)) }
// the condition on column i for column heights a and rows x
pub open spec fn pair_rows(lam: Seq<int>, a: Seq<int>, x: Seq<int>, k: int, d: int, m: int, i: int) -> bool {
    let t = diag(lam, k, d, i);
    let t1 = dia(a, k, d, i);
    let b = beta(lam, k, t);
    &&& a[i] < cnt(lam, i) ==> b < x.len() && x[b] >= t - b
    &&& forall|c: int| b < c < x.len() ==> #[trigger] x[c] <= t1 - 1 - c
}
pub proof fn lemma_lowb(lam: Seq<int>, a: Seq<int>, x: Seq<int>, k: int, d: int, m: int, j: int, b: int)
    requires 0 <= b < x.len(), x.len() == blen(lam, a, k, m), rows_fit(lam, a, k, d, m, k), 0 <= j <= k
    ensures x[b] >= lowb(lam, a, k, d, b, j) <==> x[b] >= ex(lam, k, b) && forall|i: int| 0 <= i < j && a[i] < cnt(lam, i) && beta(lam, k, #[trigger] diag(lam, k, d, i)) == b ==> x[b] >= diag(lam, k, d, i) - b
    decreases j
{
    if j > 0 {
        lemma_lowb(lam, a, x, k, d, m, j - 1, b);
        let t = diag(lam, k, d, j - 1);
        if x[b] >= ex(lam, k, b) && (forall|i: int| 0 <= i < j - 1 && a[i] < cnt(lam, i) && beta(lam, k, #[trigger] diag(lam, k, d, i)) == b ==> x[b] >= diag(lam, k, d, i) - b) {
            if x[b] >= lowb(lam, a, k, d, b, j) {
                assert forall|i: int| 0 <= i < j && a[i] < cnt(lam, i) && beta(lam, k, #[trigger] diag(lam, k, d, i)) == b implies x[b] >= diag(lam, k, d, i) - b by {}
            }
        }
    }
}
pub proof fn lemma_upb(lam: Seq<int>, a: Seq<int>, x: Seq<int>, k: int, d: int, w: int, j: int, b: int)
    requires 0 <= b < x.len(), 0 <= j <= k
    ensures x[b] <= upb(lam, a, k, d, w, b, j) <==> x[b] <= base(lam, k, w, b) && forall|i: int| 0 <= i < j && b > beta(lam, k, #[trigger] diag(lam, k, d, i)) ==> x[b] <= dia(a, k, d, i) - 1 - b
    decreases j
{
    if j > 0 {
        lemma_upb(lam, a, x, k, d, w, j - 1, b);
        let t = diag(lam, k, d, j - 1);
    }
}
pub proof fn lemma_inn(lam: Seq<int>, k: int, d: int, m: int, w: int)
    requires kbox(lam, k, m, w), 0 <= k, 0 <= d
    ensures forall|i: int| 0 <= i < k ==> cnt(lam, i + 1) <= #[trigger] tin(lam, k, d)[i] <= cnt(lam, i) <= m,
        forall|i: int| 0 <= i < k ==> tin(lam, k, d)[i] <= #[trigger] tout(lam, k, m)[i],
        noninc(tin(lam, k, d)), noninc(tout(lam, k, m)), cnt(lam, k) <= m
{
    lemma_ex(lam, k);
    lemma_clip_part(lam);
    lemma_cnt_mono(lam, 0, k);
    let ti = tin(lam, k, d);
    let to = tout(lam, k, m);
    assert forall|i: int| 0 <= i < k implies cnt(lam, i + 1) <= #[trigger] ti[i] <= cnt(lam, i) <= m by {
        let t = diag(lam, k, d, i);
        lemma_beta(lam, k, t);
        lemma_cnt_mono(lam, i, i + 1);
        lemma_cnt_mono(lam, 0, i);
        let b = beta(lam, k, t);
        assert(ex(lam, k, b) + b < t || b == cnt(lam, k));
    }
    assert forall|i: int, j: int| 0 <= i <= j < k implies ti[i] >= ti[j] by { if i < j { lemma_cnt_mono(lam, i + 1, j); } }
    assert forall|i: int, j: int| 0 <= i <= j < k implies to[i] >= to[j] by { lemma_cnt_mono(lam, i, j); }
}
// the conditions for every column: rows between the bounds
pub open spec fn all_pair_rows(lam: Seq<int>, a: Seq<int>, x: Seq<int>, k: int, d: int, m: int) -> bool { forall|i: int| 0 <= i < k ==> #[trigger] pair_rows(lam, a, x, k, d, m, i) }
pub open spec fn base_rows(lam: Seq<int>, x: Seq<int>, k: int, w: int) -> bool { sdec(x) && forall|b: int| 0 <= b < x.len() ==> ex(lam, k, b) <= #[trigger] x[b] <= base(lam, k, w, b) }
pub proof fn lemma_pair_rows(lam: Seq<int>, a: Seq<int>, x: Seq<int>, k: int, d: int, m: int, w: int)
    requires kbox(lam, k, m, w), 0 <= k, 0 <= d, a.len() == k, x.len() == blen(lam, a, k, m)
    ensures (rows_fit(lam, a, k, d, m, k) && sin(x, bin(lam, a, k, d, m), bout(lam, a, k, d, m, w))) <==> (base_rows(lam, x, k, w) && all_pair_rows(lam, a, x, k, d, m))
{
    let lo = bin(lam, a, k, d, m);
    let hi = bout(lam, a, k, d, m, w);
    if base_rows(lam, x, k, w) && all_pair_rows(lam, a, x, k, d, m) {
        assert forall|i: int| 0 <= i < k implies #[trigger] fits_row(lam, a, k, d, m, i) by { assert(pair_rows(lam, a, x, k, d, m, i)); }
        assert forall|b: int| 0 <= b < x.len() implies lo[b] <= #[trigger] x[b] <= hi[b] by {
            lemma_lowb(lam, a, x, k, d, m, k, b);
            lemma_upb(lam, a, x, k, d, w, k, b);
            assert forall|i: int| 0 <= i < k && a[i] < cnt(lam, i) && beta(lam, k, #[trigger] diag(lam, k, d, i)) == b implies x[b] >= diag(lam, k, d, i) - b by { assert(pair_rows(lam, a, x, k, d, m, i)); }
            assert forall|i: int| 0 <= i < k && b > beta(lam, k, #[trigger] diag(lam, k, d, i)) implies x[b] <= dia(a, k, d, i) - 1 - b by { assert(pair_rows(lam, a, x, k, d, m, i)); }
        }
    }
    if rows_fit(lam, a, k, d, m, k) && sin(x, lo, hi) {
        assert forall|b: int| 0 <= b < x.len() implies ex(lam, k, b) <= #[trigger] x[b] <= base(lam, k, w, b) by {
            lemma_lowb(lam, a, x, k, d, m, k, b);
            lemma_upb(lam, a, x, k, d, w, k, b);
            assert(lo[b] <= x[b] <= hi[b]);
        }
        assert forall|i: int| 0 <= i < k implies #[trigger] pair_rows(lam, a, x, k, d, m, i) by {
            let t = diag(lam, k, d, i);
            let b = beta(lam, k, t);
            assert(fits_row(lam, a, k, d, m, i));
            lemma_ex(lam, k);
            lemma_beta(lam, k, t);
            if a[i] < cnt(lam, i) { lemma_lowb(lam, a, x, k, d, m, k, b); assert(lo[b] <= x[b]); }
            assert forall|c: int| b < c < x.len() implies #[trigger] x[c] <= dia(a, k, d, i) - 1 - c by { lemma_upb(lam, a, x, k, d, w, k, c); assert(x[c] <= hi[c]); }
        }
    }
}
// the bounds leave room
pub proof fn lemma_lowb_val(lam: Seq<int>, a: Seq<int>, k: int, d: int, b: int, j: int) -> (i: int)
    requires 0 <= j
    ensures lowb(lam, a, k, d, b, j) >= ex(lam, k, b), lowb(lam, a, k, d, b, j) == ex(lam, k, b) || (0 <= i < j && a[i] < cnt(lam, i) && beta(lam, k, diag(lam, k, d, i)) == b && lowb(lam, a, k, d, b, j) == diag(lam, k, d, i) - b)
    decreases j
{ if j <= 0 { 0 } else { let i = lemma_lowb_val(lam, a, k, d, b, j - 1); if lowb(lam, a, k, d, b, j) == lowb(lam, a, k, d, b, j - 1) { i } else { j - 1 } } }
pub proof fn lemma_upb_val(lam: Seq<int>, a: Seq<int>, k: int, d: int, w: int, b: int, j: int) -> (i: int)
    requires 0 <= j
    ensures upb(lam, a, k, d, w, b, j) == base(lam, k, w, b) || (0 <= i < j && beta(lam, k, diag(lam, k, d, i)) < b && upb(lam, a, k, d, w, b, j) == dia(a, k, d, i) - 1 - b)
    decreases j
{ if j <= 0 { 0 } else { let i = lemma_upb_val(lam, a, k, d, w, b, j - 1); if upb(lam, a, k, d, w, b, j) == upb(lam, a, k, d, w, b, j - 1) { i } else { j - 1 } } }
pub proof fn lemma_bounds_fit(lam: Seq<int>, a: Seq<int>, k: int, d: int, m: int, w: int)
    requires kbox(lam, k, m, w), 0 <= k, 0 <= d, w == m - d + 2 * k, w >= k, win(a, tin(lam, k, d), tout(lam, k, m)), rows_fit(lam, a, k, d, m, k)
    ensures sfits(bin(lam, a, k, d, m), bout(lam, a, k, d, m, w)), 0 <= blen(lam, a, k, m), k > 0 ==> cnt(lam, k) <= a[k - 1]
{
    let lo = bin(lam, a, k, d, m);
    let hi = bout(lam, a, k, d, m, w);
    lemma_ex(lam, k);
    lemma_inn(lam, k, d, m, w);
    let lb = cnt(lam, k);
    if k > 0 { assert(tin(lam, k, d)[k - 1] <= a[k - 1]); }
    assert forall|b: int| 1 <= b < lo.len() implies #[trigger] lo[b] < lo[b - 1] by {
        let i = lemma_lowb_val(lam, a, k, d, b, k);
        let i2 = lemma_lowb_val(lam, a, k, d, b - 1, k);
        assert(ex(lam, k, b - 1) >= 1);
        assert(ex(lam, k, b) + b <= ex(lam, k, b - 1) + (b - 1));
        if lo[b] != ex(lam, k, b) { lemma_beta(lam, k, diag(lam, k, d, i)); assert(ex(lam, k, b - 1) + (b - 1) >= diag(lam, k, d, i)); }
    }
    assert forall|b: int| 0 <= b < lo.len() implies #[trigger] lo[b] <= hi[b] by {
        let i = lemma_lowb_val(lam, a, k, d, b, k);
        let j = lemma_upb_val(lam, a, k, d, w, b, k);
        let t = diag(lam, k, d, i);
        let tj = diag(lam, k, d, j);
        if b > 0 { assert(ex(lam, k, b) + b <= ex(lam, k, b - 1) + (b - 1)); } else { assert(row(lam, 0) <= w); assert(ex(lam, k, 0) <= w - k); }
        if lo[b] != ex(lam, k, b) {
            lemma_beta(lam, k, t);
            if b > 0 { assert(ex(lam, k, b - 1) + (b - 1) >= t); } else { assert(tin(lam, k, d)[i] <= cnt(lam, i) <= m); }
        }
        if hi[b] != base(lam, k, w, b) {
            lemma_beta(lam, k, tj);
            let bj = beta(lam, k, tj);
            assert(tin(lam, k, d)[j] <= a[j]);
            assert(ex(lam, k, bj) + bj < tj);
            assert(ex(lam, k, b) + b <= ex(lam, k, bj) + bj);
            if lo[b] != ex(lam, k, b) {
                // t < tj, so column j is before column i
                assert(ex(lam, k, bj) + bj >= t);
                if i <= j { lemma_cnt_mono(lam, i, j); assert(false); }
                lemma_cnt_mono(lam, j + 1, i);
                assert(cnt(lam, j + 1) <= a[j]);
            }
        }
    }
}

// ---- the terms are the pairs of column heights and rows between the bounds
pub open spec fn bots(l: Seq<int>, k: int, len: int) -> Seq<int> { Seq::new(pylen(len), |b: int| ex(l, k, b)) }
pub open spec fn join(a: Seq<int>, x: Seq<int>) -> Seq<int> { glue(a, clip(x)) }
pub proof fn lemma_pair_sum(l: Seq<int>, k: int, len: int)
    requires is_part(l), k >= 0, cnt(l, k) <= len
    ensures sum_seq(l) == sum_seq(cols(l, k)) + psum(bots(l, k, len), len), clip(bots(l, k, len)) =~= clip(excess(l, k))
{
    let x = bots(l, k, len);
    let e = excess(l, k);
    let m = mins(l, k);
    lemma_mins(l, k);
    lemma_excess_len(l, k);
    lemma_is_clip(e);
    lemma_cnt(l, k);
    lemma_conj_size(m);
    lemma_sum_add(conj(m), rep(0, k - conj(m).len()));
    lemma_sum_zero(rep(0, k - conj(m).len()));
    assert(cols(l, k) =~= conj(m) + rep(0, k - conj(m).len()));
    lemma_sum_split(l, k);
    let c = clip(e);
    assert(is_clip(x, c)) by {
        assert forall|j: int| c.len() <= j < x.len() implies x[j] == 0 by { if j < l.len() { assert(!(l[j] > k)); } }
        assert forall|j: int| 0 <= j < c.len() implies x[j] == c[j] by { assert(c[j] == e[j]); }
        assert(x.subrange(0, c.len() as int) =~= c);
    }
    lemma_clip_unique(x, c);
    lemma_clip_sum(x);
    lemma_clip_sum(e);
    lemma_psum_sum(x, len);
    assert(x.subrange(0, len) =~= x);
}
pub proof fn lemma_sum_split(l: Seq<int>, k: int)
    requires is_part(l)
    ensures sum_seq(l) == sum_seq(mins(l, k)) + sum_seq(excess(l, k))
    decreases l.len()
{
    if l.len() > 0 {
        let t = l.drop_last();
        assert(is_part(t)) by { assert forall|a: int, b: int| 0 <= a <= b < t.len() implies t[a] >= t[b] by { assert(l[a] >= l[b]); } assert forall|a: int| 0 <= a < t.len() implies t[a] >= 0 by { assert(l[a] >= 0); } }
        lemma_sum_split(t, k);
        assert(mins(l, k).drop_last() =~= mins(t, k));
        assert(excess(l, k).drop_last() =~= excess(t, k));
    }
}
pub proof fn lemma_clip_sum(l: Seq<int>)
    ensures sum_seq(clip(l)) == sum_seq(l)
{
    lemma_is_clip(l);
    let c = clip(l);
    let z = l.subrange(c.len() as int, l.len() as int);
    assert(l =~= c + z);
    lemma_sum_add(c, z);
    lemma_sum_zero(z);
}
pub open spec fn good_pair(lam: Seq<int>, a: Seq<int>, x: Seq<int>, p: int, k: int, m: int, w: int, d: int) -> bool {
    &&& win(a, tin(lam, k, d), tout(lam, k, m))
    &&& rows_fit(lam, a, k, d, m, k)
    &&& sin(x, bin(lam, a, k, d, m), bout(lam, a, k, d, m, w))
    &&& sum_seq(a) + psum(x, x.len() as int) == sum_seq(lam) + p
}
pub open spec fn par(k: int, m: int, w: int, d: int) -> bool { 0 <= k && 0 <= d && 0 <= m && w == m - d + 2 * k && w >= k }
pub open spec fn mu_rows(lam: Seq<int>, mu: Seq<int>, k: int, m: int) -> Seq<int> { bots(mu, k, blen(lam, cols(mu, k), k, m)) }
// the columns and the rows of a term are between the bounds
pub proof fn lemma_term_cols(lam: Seq<int>, mu: Seq<int>, k: int, m: int, w: int, d: int)
    requires kbox(lam, k, m, w), par(k, m, w, d), in_box(mu, k, m, w), arrow(lam, mu, k, d)
    ensures win(cols(mu, k), tin(lam, k, d), tout(lam, k, m)), cols_near(lam, mu, k), ex_strip(lam, mu, k), cnt(mu, k) <= cnt(lam, k) + 1,
        cnt(mu, k) <= room_rows(cols(mu, k), k, m), cnt(lam, k) <= room_rows(cols(mu, k), k, m), cnt(mu, k) <= blen(lam, cols(mu, k), k, m)
{
    let a = cols(mu, k);
    lemma_strips_in(lam, mu, k);
    lemma_ex(lam, k);
    lemma_clip_part(mu);
    lemma_clip_part(lam);
    lemma_cnt_mono(mu, 0, k);
    lemma_cnt_mono(lam, 0, k);
    lemma_mins(mu, k);
    if k > 0 { lemma_cnt_mono(mu, k - 1, k); assert(a[k - 1] == cnt(mu, k - 1)); assert(cnt(lam, k - 1 + 1) <= cnt(mu, k - 1)); }
    assert forall|i: int| 0 <= i < k implies tin(lam, k, d)[i] <= #[trigger] a[i] <= tout(lam, k, m)[i] by {
        assert(a[i] == cnt(mu, i));
        lemma_cnt_mono(mu, 0, i);
        lemma_cnt_mono(lam, i, i + 1);
        assert(cnt(lam, i + 1) <= cnt(mu, i));
        lemma_inn_low(lam, mu, k, m, d, i);
    }
    assert(noninc(a)) by { assert forall|i: int, j: int| 0 <= i <= j < k implies a[i] >= a[j] by { lemma_cnt_mono(mu, i, j); } }
}
pub proof fn lemma_inn_low(lam: Seq<int>, mu: Seq<int>, k: int, m: int, d: int, i: int)
    requires is_part(lam), kstrict(lam, k), k >= 0, d >= 0, ex_strip(lam, mu, k), 0 <= i < k, cnt(lam, i + 1) <= cnt(mu, i) <= cnt(lam, i) + 1, column_ok(lam, mu, k, d, i)
    ensures inn(lam, k, d, i) <= cnt(mu, i)
{
    lemma_column(lam, mu, k, d, i);
    lemma_ex(lam, k);
    let t = diag(lam, k, d, i);
    lemma_beta(lam, k, t);
    lemma_cnt_mono(lam, i, i + 1);
    let b = beta(lam, k, t);
    if cnt(mu, i) < cnt(lam, i) { assert(diag(mu, k, d, i) >= ex(lam, k, b) + b + 1); assert(ex(lam, k, b) >= 0); }
    else if b < cnt(lam, k) { assert(ex(lam, k, b) + b < t); }
    else { assert(ex(lam, k, b) == 0); }
}
pub proof fn lemma_term_base(lam: Seq<int>, mu: Seq<int>, k: int, m: int, w: int)
    requires kbox(lam, k, m, w), 0 <= k <= w, in_box(mu, k, m, w), ex_strip(lam, mu, k)
    ensures base_rows(lam, mu_rows(lam, mu, k, m), k, w)
{
    let x = mu_rows(lam, mu, k, m);
    lemma_ex(lam, k);
    assert forall|b: int| 0 <= b < x.len() implies ex(lam, k, b) <= #[trigger] x[b] <= base(lam, k, w, b) by { assert(ex(mu, k, b) >= ex(lam, k, b)); if b == 0 { assert(row(mu, 0) <= w); } }
    assert forall|b: int| 1 <= b < x.len() implies #[trigger] x[b] < x[b - 1] by { assert(ex(mu, k, b) >= ex(lam, k, b)); assert(ex(mu, k, b - 1) >= ex(lam, k, b - 1)); assert(ex(lam, k, b - 1) >= 1); }
}
pub proof fn lemma_term_row(lam: Seq<int>, mu: Seq<int>, k: int, m: int, d: int, i: int)
    requires is_part(lam), kstrict(lam, k), is_part(mu), kstrict(mu, k), k >= 0, d >= 0, ex_strip(lam, mu, k), 0 <= i < k, cnt(mu, i) <= cnt(lam, i) + 1, column_ok(lam, mu, k, d, i),
        cnt(mu, k) <= blen(lam, cols(mu, k), k, m)
    ensures pair_rows(lam, cols(mu, k), mu_rows(lam, mu, k, m), k, d, m, i)
{
    let a = cols(mu, k);
    let x = mu_rows(lam, mu, k, m);
    lemma_column(lam, mu, k, d, i);
    lemma_mins(mu, k);
    assert(a[i] == cnt(mu, i));
    lemma_ex(lam, k);
    lemma_ex(mu, k);
    let t = diag(lam, k, d, i);
    let b = beta(lam, k, t);
    lemma_beta(lam, k, t);
    if a[i] < cnt(lam, i) {
        assert(ex(mu, k, b) >= 1) by { assert(ex(lam, k, b) >= 0); assert(diag(mu, k, d, i) >= ex(lam, k, b) + b + 1); }
        if b >= cnt(mu, k) { assert(ex(mu, k, b) == 0); }
    }
    assert forall|c: int| b < c < x.len() implies #[trigger] x[c] <= dia(a, k, d, i) - 1 - c by { assert(ex(mu, k, c) <= diag(mu, k, d, i) - 1 - c); }
}
pub proof fn lemma_term_in(lam: Seq<int>, mu: Seq<int>, p: int, k: int, m: int, w: int, d: int)
    requires kbox(lam, k, m, w), par(k, m, w, d), term(lam, mu, p, k, m, w, d)
    ensures good_pair(lam, cols(mu, k), mu_rows(lam, mu, k, m), p, k, m, w, d), join(cols(mu, k), mu_rows(lam, mu, k, m)) =~= mu
{
    let a = cols(mu, k);
    let x = mu_rows(lam, mu, k, m);
    lemma_term_cols(lam, mu, k, m, w, d);
    lemma_term_base(lam, mu, k, m, w);
    assert forall|i: int| 0 <= i < k implies #[trigger] pair_rows(lam, a, x, k, d, m, i) by {
        assert(column_ok(lam, mu, k, d, i));
        assert(cnt(mu, i) <= cnt(lam, i) + 1);
        lemma_term_row(lam, mu, k, m, d, i);
    }
    assert(x.len() == blen(lam, a, k, m)) by { lemma_cnt(lam, k); }
    lemma_pair_rows(lam, a, x, k, d, m, w);
    lemma_pair_sum(mu, k, blen(lam, a, k, m));
    lemma_glue_pair(mu, k);
    assert(pair_of(mu, k)[1] =~= clip(x));
}
// the rows of what is put together
pub proof fn lemma_clip_pos(x: Seq<int>)
    requires sdec(x), nonneg(x)
    ensures is_part(clip(x)), !ends0(clip(x)), strict(clip(x)) == clip(x), forall|i: int| 0 <= i < clip(x).len() ==> #[trigger] clip(x)[i] > 0, clip(x).len() <= x.len(),
        forall|b: int| 0 <= b < x.len() ==> #[trigger] x[b] == row(clip(x), b), clip(x).len() == clip_len(x)
{
    let c = clip(x);
    lemma_is_clip(x);
    lemma_sdec(x);
    assert forall|i: int, j: int| 0 <= i <= j < c.len() implies c[i] >= c[j] by { assert(x[i] >= x[j]); }
    assert forall|i: int| 0 <= i < c.len() implies #[trigger] c[i] > 0 by { assert(c[i] >= c[c.len() - 1]); assert(c[c.len() - 1] == x[c.len() - 1]); assert(x[c.len() - 1] >= 0); }
}
pub proof fn lemma_join_k(a: Seq<int>, c: Seq<int>, k: int, m: int)
    requires k >= 0, a.len() == k, is_part(a), is_part(c), strict(c) == c, !ends0(c), forall|i: int| 0 <= i < c.len() ==> #[trigger] c[i] > 0, c.len() <= room_rows(a, k, m), k > 0 ==> a[0] <= m
    ensures is_part(glue(a, c)), !ends0(glue(a, c)), glue(a, c).len() <= m, cols(glue(a, c), k) =~= a, clip(excess(glue(a, c), k)) =~= c
{
    let mu = glue(a, c);
    assert(is_clip(c, c));
    lemma_clip_unique(c, c);
    if k > 0 {
        lemma_pair_glue(a, c, k);
        lemma_glue_class(a, c, k);
        lemma_glue_rows(a, c, k);
        assert(pair_of(mu, k)[1] =~= c);
        assert(noninc(a));
        assert(a[0] >= a[k - 1]);
    } else {
        assert(mu =~= c);
        assert(excess(mu, k) =~= c);
    }
}
pub proof fn lemma_join(a: Seq<int>, x: Seq<int>, k: int, m: int)
    requires k >= 0, a.len() == k, is_part(a), sdec(x), nonneg(x), x.len() <= room_rows(a, k, m), k > 0 ==> a[0] <= m
    ensures is_part(join(a, x)), !ends0(join(a, x)), join(a, x).len() <= m, cols(join(a, x), k) =~= a, clip(excess(join(a, x), k)) =~= clip(x),
        forall|b: int| 0 <= b ==> #[trigger] ex(join(a, x), k, b) == row(x, b), cnt(join(a, x), k) <= x.len()
{
    lemma_clip_pos(x);
    lemma_join_k(a, clip(x), k, m);
    lemma_join_ex(join(a, x), x, k);
}
pub proof fn lemma_join_ex(mu: Seq<int>, x: Seq<int>, k: int)
    requires k >= 0, is_part(mu), sdec(x), nonneg(x), clip(excess(mu, k)) =~= clip(x)
    ensures forall|b: int| 0 <= b ==> #[trigger] ex(mu, k, b) == row(x, b), cnt(mu, k) <= x.len()
{
    lemma_clip_pos(x);
    let c = clip(x);
    let e = excess(mu, k);
    lemma_excess_len(mu, k);
    lemma_is_clip(e);
    assert forall|b: int| 0 <= b implies #[trigger] ex(mu, k, b) == row(x, b) by {
        if b < x.len() { assert(x[b] == row(c, b)); }
        if b < mu.len() { assert(ex(mu, k, b) == e[b]); if b < c.len() { assert(e[b] == c[b]); } else { assert(e[b] == 0); } }
    }
}
pub proof fn lemma_sdec(x: Seq<int>)
    requires sdec(x)
    ensures noninc(x)
{
    assert(noninc_adj(x)) by { assert forall|i: int| 0 <= i < x.len() - 1 implies x[i] >= #[trigger] x[i + 1] by { assert(x[i + 1] < x[i + 1 - 1]); } }
    lemma_noninc_adj(x);
}
pub proof fn lemma_out_a(lam: Seq<int>, a: Seq<int>, x: Seq<int>, k: int, m: int, w: int, d: int)
    requires kbox(lam, k, m, w), par(k, m, w, d), win(a, tin(lam, k, d), tout(lam, k, m)), base_rows(lam, x, k, w), x.len() == blen(lam, a, k, m)
    ensures a.len() == k, is_part(a), nonneg(x), sdec(x), x.len() <= room_rows(a, k, m), k > 0 ==> a[0] <= m,
        forall|i: int| 0 <= i < k ==> cnt(lam, i + 1) <= #[trigger] a[i] <= cnt(lam, i) + 1 && tin(lam, k, d)[i] <= a[i]
{
    lemma_ex(lam, k);
    lemma_inn(lam, k, d, m, w);
    assert forall|i: int| 0 <= i < k implies cnt(lam, i + 1) <= #[trigger] a[i] <= cnt(lam, i) + 1 && tin(lam, k, d)[i] <= a[i] by { assert(tin(lam, k, d)[i] <= a[i] <= tout(lam, k, m)[i]); }
    assert forall|i: int| 0 <= i < a.len() implies a[i] >= 0 by { lemma_cnt(lam, i + 1); }
    assert forall|i: int| 0 <= i < x.len() implies x[i] >= 0 by { assert(ex(lam, k, i) <= x[i]); }
    if k > 0 { assert(a[0] <= tout(lam, k, m)[0]); assert(cnt(lam, k - 1 + 1) <= a[k - 1]); }
}
pub proof fn lemma_out_strip(lam: Seq<int>, mu: Seq<int>, x: Seq<int>, k: int, w: int)
    requires is_part(lam), kstrict(lam, k), k >= 0, base_rows(lam, x, k, w), x.len() >= cnt(lam, k), forall|b: int| 0 <= b ==> #[trigger] ex(mu, k, b) == row(x, b)
    ensures ex_strip(lam, mu, k)
{
    lemma_ex(lam, k);
    assert forall|b: int| 0 <= b implies #[trigger] ex(mu, k, b) >= ex(lam, k, b) && (b >= 1 ==> ex(mu, k, b) <= ex(lam, k, b - 1) && (ex(mu, k, b) > 0 ==> ex(mu, k, b) < ex(mu, k, b - 1))) by {
        assert(ex(mu, k, b) == row(x, b));
        if b < x.len() { assert(ex(lam, k, b) <= x[b] <= base(lam, k, w, b)); if b >= 1 { assert(x[b] < x[b - 1]); assert(ex(mu, k, b - 1) == row(x, b - 1)); } }
        else { assert(ex(lam, k, b) == 0); assert(ex(lam, k, b - 1) >= 0); }
    }
}
pub proof fn lemma_out_column(lam: Seq<int>, mu: Seq<int>, a: Seq<int>, x: Seq<int>, k: int, m: int, d: int, i: int)
    requires is_part(lam), kstrict(lam, k), k >= 0, d >= 0, ex_strip(lam, mu, k), 0 <= i < k, a.len() == k, cols(mu, k) == a, a[i] <= cnt(lam, i) + 1, pair_rows(lam, a, x, k, d, m, i),
        forall|b: int| 0 <= b ==> #[trigger] ex(mu, k, b) == row(x, b), inn(lam, k, d, i) <= a[i]
    ensures column_ok(lam, mu, k, d, i)
{
    lemma_ex(lam, k);
    assert(a[i] == cols(mu, k)[i]);
    assert(a[i] == cnt(mu, i));
    let t = diag(lam, k, d, i);
    let b = beta(lam, k, t);
    lemma_beta(lam, k, t);
    assert(ex(mu, k, b) == row(x, b));
    assert forall|c: int| b < c <= cnt(lam, k) implies #[trigger] ex(mu, k, c) <= diag(mu, k, d, i) - 1 - c by {
        assert(ex(mu, k, c) == row(x, c));
        if c < x.len() { assert(x[c] <= dia(a, k, d, i) - 1 - c); } else { assert(ex(lam, k, c) == 0); assert(ex(lam, k, c) + c <= ex(lam, k, b) + b); assert(ex(lam, k, b) + b < t); }
    }
    lemma_column(lam, mu, k, d, i);
}
pub proof fn lemma_term_out(lam: Seq<int>, a: Seq<int>, x: Seq<int>, p: int, k: int, m: int, w: int, d: int)
    requires kbox(lam, k, m, w), par(k, m, w, d), good_pair(lam, a, x, p, k, m, w, d)
    ensures term(lam, join(a, x), p, k, m, w, d), cols(join(a, x), k) =~= a, mu_rows(lam, join(a, x), k, m) =~= x, nonneg(x), is_part(a), x.len() <= room_rows(a, k, m), k > 0 ==> a[0] <= m
{
    let mu = join(a, x);
    lemma_cnt(lam, k);
    assert(x.len() == blen(lam, a, k, m));
    lemma_inn(lam, k, d, m, w);
    lemma_pair_rows(lam, a, x, k, d, m, w);
    lemma_out_a(lam, a, x, k, m, w, d);
    lemma_join(a, x, k, m);
    assert(mu_rows(lam, mu, k, m) =~= x);
    lemma_out_strip(lam, mu, x, k, w);
    assert(cols_near(lam, mu, k)) by {
        assert forall|i: int| 0 <= i < k implies cnt(lam, i + 1) <= #[trigger] cnt(mu, i) <= cnt(lam, i) + 1 by { assert(cols(mu, k)[i] == a[i]); lemma_mins(mu, k); }
    }
    lemma_strips_out(lam, mu, k);
    assert forall|i: int| 0 <= i < k implies #[trigger] column_ok(lam, mu, k, d, i) by {
        assert(pair_rows(lam, a, x, k, d, m, i));
        assert(a[i] <= cnt(lam, i) + 1 && tin(lam, k, d)[i] <= a[i]);
        lemma_out_column(lam, mu, a, x, k, m, d, i);
    }
    lemma_out_size(lam, a, x, p, k, m, w);
}
pub proof fn lemma_out_size(lam: Seq<int>, a: Seq<int>, x: Seq<int>, p: int, k: int, m: int, w: int)
    requires is_part(join(a, x)), !ends0(join(a, x)), join(a, x).len() <= m, k >= 0, w >= k, cols(join(a, x), k) == a, clip(excess(join(a, x), k)) == clip(x), forall|b: int| 0 <= b ==> #[trigger] ex(join(a, x), k, b) == row(x, b),
        cnt(join(a, x), k) <= x.len(), base_rows(lam, x, k, w), sum_seq(a) + psum(x, x.len() as int) == sum_seq(lam) + p, kstrict(join(a, x), k)
    ensures sum_seq(join(a, x)) == sum_seq(lam) + p, in_box(join(a, x), k, m, w)
{
    let mu = join(a, x);
    lemma_pair_sum(mu, k, x.len() as int);
    assert(bots(mu, k, x.len() as int) =~= x);
    assert(mu.len() > 0 ==> mu[0] <= w) by {
        assert(ex(mu, k, 0) == row(x, 0));
        if x.len() > 0 { assert(x[0] <= base(lam, k, w, 0)); }
    }
}

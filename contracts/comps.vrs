//# unit comps
//# use pieriset
// ---- the components counted by the Pieri coefficients (Buch, Kresch, Tamvakis)
// the diagonal t is used by a condition on some column i <= k: the box at the bottom of the column, or a removed box
pub open spec fn uses(lam: Seq<int>, mu: Seq<int>, k: int, d: int, i: int, t: int) -> bool { cnt(mu, i) <= cnt(lam, i) && diag(mu, k, d, i) <= t <= diag(lam, k, d, i) }
pub open spec fn mentioned(lam: Seq<int>, mu: Seq<int>, k: int, d: int, t: int) -> bool { exists|i: int| 0 <= i < k && #[trigger] uses(lam, mu, k, d, i, t) }
// a box of mu/lam in row r (from 0) and column k + j (j from 1) not mentioned in the conditions
pub open spec fn free_box(lam: Seq<int>, mu: Seq<int>, k: int, d: int, r: int, j: int) -> bool { has(lam, mu, k, r, r + j) && !mentioned(lam, mu, k, d, r + j) }
// every component is a path that meets each column at most once; its leftmost box has no box of it to the left
pub open spec fn leads(lam: Seq<int>, mu: Seq<int>, k: int, d: int, r: int, j: int) -> bool {
    free_box(lam, mu, k, d, r, j) && forall|s: int| #[trigger] free_box(lam, mu, k, d, s, j - 1) ==> !(r - 1 <= s <= r + 1)
}
pub open spec fn leader(lam: Seq<int>, mu: Seq<int>, k: int, d: int, j: int) -> bool { exists|r: int| leads(lam, mu, k, d, r, j) }
pub open spec fn leaders(lam: Seq<int>, mu: Seq<int>, k: int, d: int, lo: int, hi: int) -> int
    decreases hi - lo
{ if hi <= lo { 0 } else { leaders(lam, mu, k, d, lo, hi - 1) + (if leader(lam, mu, k, d, hi) { 1int } else { 0int }) } }
// the number of components, without the one that meets column k + 1 if skip
pub open spec fn ncomp(lam: Seq<int>, mu: Seq<int>, k: int, d: int, skip: bool) -> int { leaders(lam, mu, k, d, if skip { 1int } else { 0int }, ex(mu, k, 0)) }

pub open spec fn pairing(lam: Seq<int>, mu: Seq<int>, k: int, d: int) -> bool {
    is_part(lam) && kstrict(lam, k) && is_part(mu) && kstrict(mu, k) && k >= 0 && 0 <= d <= 1 && arrow(lam, mu, k, d)
}
pub open spec fn in_col(lam: Seq<int>, mu: Seq<int>, k: int, r: int, c: int) -> bool { ex(lam, k, r) <= c < ex(mu, k, r) }
pub open spec fn boxed(lam: Seq<int>, mu: Seq<int>, k: int, n: int, c: int) -> bool { exists|r: int| 0 <= r < n && #[trigger] in_col(lam, mu, k, r, c) }
pub open spec fn ptr(lam: Seq<int>, mu: Seq<int>, k: int, d: int, i: int) -> int { imin(beta(lam, k, diag(lam, k, d, i)), cnt(mu, k) - 1) }
pub open spec fn mark(lam: Seq<int>, mu: Seq<int>, k: int, d: int, i: int, c: int) -> bool { cnt(mu, i) <= cnt(lam, i) && diag(mu, k, d, i) <= c + 1 + ptr(lam, mu, k, d, i) <= diag(lam, k, d, i) }
pub open spec fn marks(lam: Seq<int>, mu: Seq<int>, k: int, d: int, n: int, c: int) -> bool { exists|i: int| 0 <= i < n && #[trigger] mark(lam, mu, k, d, i, c) }
pub open spec fn col_free(lam: Seq<int>, mu: Seq<int>, k: int, d: int, j: int) -> bool { exists|r: int| #[trigger] free_box(lam, mu, k, d, r, j) }

// at most one box of mu/lam in a column
pub proof fn lemma_one_box(lam: Seq<int>, mu: Seq<int>, k: int, a: int, b: int, c: int)
    requires is_part(lam), kstrict(lam, k), k >= 0, ex_strip(lam, mu, k), 0 <= a, 0 <= b, c >= 0, in_col(lam, mu, k, a, c), in_col(lam, mu, k, b, c)
    ensures a == b
{
    lemma_ex_mono(lam, k, a, b - 1);
    lemma_ex_mono(lam, k, b, a - 1);
    if a < b { assert(ex(mu, k, b) <= ex(lam, k, b - 1)); }
    if b < a { assert(ex(mu, k, a) <= ex(lam, k, a - 1)); }
}
pub proof fn lemma_ex_mono(l: Seq<int>, k: int, a: int, b: int)
    requires is_part(l), k >= 0
    ensures 0 <= a <= b ==> ex(l, k, a) >= ex(l, k, b)
{ if 0 <= a <= b && b < l.len() { assert(l[a] >= l[b]); } else if 0 <= a < l.len() { assert(l[a] >= 0); } }
// boxes in consecutive columns touch
pub proof fn lemma_touch(lam: Seq<int>, mu: Seq<int>, k: int, a: int, b: int, c: int)
    requires is_part(lam), kstrict(lam, k), k >= 0, ex_strip(lam, mu, k), 0 <= a, 0 <= b, c >= 1, in_col(lam, mu, k, a, c - 1), in_col(lam, mu, k, b, c)
    ensures b <= a <= b + 1
{
    lemma_ex_mono(lam, k, a, b - 1);
    lemma_ex(lam, k);
    if a < b { assert(ex(mu, k, b) <= ex(lam, k, b - 1)); }
    if a > b + 1 {
        // row b + 1 ends left of column c - 1 in lam
        assert(ex(mu, k, a) <= ex(lam, k, a - 1));
        lemma_ex_mono(lam, k, b + 1, a - 1);
        assert(ex(lam, k, b + 1) >= c);
        assert(b + 1 < cnt(lam, k)) by { if b + 1 >= cnt(lam, k) { assert(ex(lam, k, b + 1) == 0); } }
        assert(ex(lam, k, b + 1) + (b + 1) <= ex(lam, k, b) + b);
    }
}
pub proof fn lemma_leader(lam: Seq<int>, mu: Seq<int>, k: int, d: int, j: int)
    requires is_part(lam), kstrict(lam, k), k >= 0, ex_strip(lam, mu, k), j >= 1
    ensures leader(lam, mu, k, d, j) <==> col_free(lam, mu, k, d, j) && !col_free(lam, mu, k, d, j - 1)
{
    lemma_ex_all(lam, k);
    if col_free(lam, mu, k, d, j) {
        let r = choose|r: int| #[trigger] free_box(lam, mu, k, d, r, j);
        lemma_has(lam, mu, k, r, r + j);
        if !col_free(lam, mu, k, d, j - 1) {
            assert(leads(lam, mu, k, d, r, j));
        } else {
            let s = choose|s: int| #[trigger] free_box(lam, mu, k, d, s, j - 1);
            lemma_has(lam, mu, k, s, s + j - 1);
            assert(in_col(lam, mu, k, s, j - 2));
            assert(in_col(lam, mu, k, r, j - 1));
            assert(j >= 2);
            assert forall|q: int| !leads(lam, mu, k, d, q, j) by {
                if leads(lam, mu, k, d, q, j) {
                    lemma_has(lam, mu, k, q, q + j);
                    assert(in_col(lam, mu, k, q, j - 1));
                    lemma_touch(lam, mu, k, s, q, j - 1);
                    assert(!free_box(lam, mu, k, d, s, j - 1));
                }
            }
        }
    } else if leader(lam, mu, k, d, j) {
        let r = choose|r: int| leads(lam, mu, k, d, r, j);
        assert(free_box(lam, mu, k, d, r, j));
    }
}
pub proof fn lemma_ex_all(l: Seq<int>, k: int)
    requires is_part(l)
    ensures forall|b: int| #[trigger] ex(l, k, b) >= 0
{}
// on the diagonals used by a column all boxes are in one row
pub proof fn lemma_used_row(lam: Seq<int>, mu: Seq<int>, k: int, d: int, i: int, a: int, t: int)
    requires pairing(lam, mu, k, d), 0 <= i < k, uses(lam, mu, k, d, i, t), has(lam, mu, k, a, t)
    ensures a == beta(lam, k, diag(lam, k, d, i)), a < cnt(mu, k)
{
    lemma_strips_in(lam, mu, k);
    assert(column_ok(lam, mu, k, d, i));
    assert(cnt(lam, i + 1) <= cnt(mu, i) <= cnt(lam, i) + 1);
    lemma_column(lam, mu, k, d, i);
    lemma_has(lam, mu, k, a, t);
    let b = beta(lam, k, diag(lam, k, d, i));
    lemma_beta(lam, k, diag(lam, k, d, i));
    lemma_ex(lam, k);
    lemma_ex(mu, k);
    let m = cnt(lam, k);
    if a < b { assert(ex(lam, k, a) + a >= diag(lam, k, d, i)); }
    if a > b && a <= m { assert(ex(mu, k, a) <= diag(mu, k, d, i) - 1 - a); }
    if a > m { assert(ex(lam, k, a - 1) == 0); assert(ex(mu, k, a) <= ex(lam, k, a - 1)); }
}
// the box in a marked column is mentioned
pub proof fn lemma_marked(lam: Seq<int>, mu: Seq<int>, k: int, d: int, i: int, r: int, c: int)
    requires pairing(lam, mu, k, d), 0 <= i < k, c >= 0, r >= 0, mark(lam, mu, k, d, i, c), in_col(lam, mu, k, r, c), cnt(mu, k) >= 1
    ensures uses(lam, mu, k, d, i, r + c + 1)
{
    lemma_strips_in(lam, mu, k);
    assert(column_ok(lam, mu, k, d, i));
    assert(cnt(lam, i + 1) <= cnt(mu, i) <= cnt(lam, i) + 1);
    lemma_column(lam, mu, k, d, i);
    let t = diag(lam, k, d, i);
    let b = beta(lam, k, t);
    lemma_beta(lam, k, t);
    lemma_ex(lam, k);
    lemma_ex(mu, k);
    lemma_cnt_le(lam, mu, k);
    if b <= cnt(mu, k) - 1 {
        let s = c + 1 + b;
        if cnt(mu, i) < cnt(lam, i) {
            assert(ex(lam, k, b) < s - b <= ex(mu, k, b));
            assert(in_col(lam, mu, k, b, c));
            lemma_one_box(lam, mu, k, r, b, c);
        } else {
            assert(s == t);
            if r < b { assert(ex(lam, k, r) + r >= t); assert(ex(lam, k, b - 1) + (b - 1) >= t); lemma_ex_mono(lam, k, r, b - 1); }
            if r > b { assert(ex(mu, k, r) <= ex(lam, k, r - 1)); lemma_ex_mono(lam, k, b, r - 1); if b < cnt(lam, k) { assert(ex(lam, k, b) + b < t); } else { assert(ex(lam, k, b) == 0); } }
        }
    } else {
        // b == cnt(lam, k) == cnt(mu, k): no box on the diagonal, and none in the column
        if cnt(mu, i) < cnt(lam, i) { assert(ex(mu, k, b) == 0); assert(ex(lam, k, b) == 0); assert(ex(mu, k, b) + b >= t); }
        if r >= b { assert(ex(mu, k, r) == 0); }
        assert(ex(lam, k, b - 1) + (b - 1) >= t);
        lemma_ex_mono(lam, k, r, b - 1);
        assert(false);
    }
}
pub proof fn lemma_cnt_le(lam: Seq<int>, mu: Seq<int>, k: int)
    requires is_part(lam), kstrict(lam, k), is_part(mu), kstrict(mu, k), k >= 0, ex_strip(lam, mu, k)
    ensures cnt(lam, k) <= cnt(mu, k)
{
    lemma_ex(lam, k);
    lemma_ex(mu, k);
    let v = cnt(lam, k);
    if v > cnt(mu, k) { assert(ex(lam, k, v - 1) >= 1); assert(ex(mu, k, v - 1) >= ex(lam, k, v - 1)); assert(ex(mu, k, v - 1) == 0); }
}
pub proof fn lemma_col_free_in(lam: Seq<int>, mu: Seq<int>, k: int, d: int, c: int, r: int)
    requires pairing(lam, mu, k, d), c >= 0, cnt(mu, k) >= 1, free_box(lam, mu, k, d, r, c + 1)
    ensures boxed(lam, mu, k, cnt(mu, k), c) && !marks(lam, mu, k, d, k, c)
{
    hide(cnt);
    hide(ptr);
    hide(mentioned);
    hide(arrow);
    hide(kstrict);
    hide(is_part);
    lemma_ex_of(mu, k);
    lemma_ex_all(lam, k);
    lemma_has(lam, mu, k, r, r + (c + 1));
    assert(r < cnt(mu, k)) by { if r >= cnt(mu, k) { assert(ex(mu, k, r) == 0); } }
    assert(in_col(lam, mu, k, r, c));
    if marks(lam, mu, k, d, k, c) {
        let i = choose|i: int| 0 <= i < k && mark(lam, mu, k, d, i, c);
        lemma_marked(lam, mu, k, d, i, r, c);
        lemma_mentioned(lam, mu, k, d, i, r + c + 1);
        assert(r + (c + 1) == r + c + 1);
        assert(false);
    }
}
pub proof fn lemma_mentioned(lam: Seq<int>, mu: Seq<int>, k: int, d: int, i: int, t: int)
    requires 0 <= i < k, uses(lam, mu, k, d, i, t)
    ensures mentioned(lam, mu, k, d, t)
{}
pub proof fn lemma_ex_of(l: Seq<int>, k: int)
    requires is_part(l), kstrict(l, k), k >= 0
    ensures forall|b: int| cnt(l, k) <= b ==> #[trigger] ex(l, k, b) == 0
{ lemma_ex(l, k); }
pub proof fn lemma_col_free_out(lam: Seq<int>, mu: Seq<int>, k: int, d: int, c: int)
    requires pairing(lam, mu, k, d), c >= 0, cnt(mu, k) >= 1, boxed(lam, mu, k, cnt(mu, k), c) && !marks(lam, mu, k, d, k, c)
    ensures col_free(lam, mu, k, d, c + 1)
{
    hide(cnt);
    hide(ptr);
    hide(arrow);
    hide(kstrict);
    hide(is_part);
    lemma_ex_all(lam, k);
    let r = choose|r: int| 0 <= r < cnt(mu, k) && in_col(lam, mu, k, r, c);
    let t = r + (c + 1);
    lemma_has(lam, mu, k, r, t);
    if mentioned(lam, mu, k, d, t) {
        let i = choose|i: int| 0 <= i < k && #[trigger] uses(lam, mu, k, d, i, t);
        lemma_used_row(lam, mu, k, d, i, r, t);
        lemma_ptr_of(lam, mu, k, d, i, r);
        assert(mark(lam, mu, k, d, i, c));
        assert(false);
    }
    assert(free_box(lam, mu, k, d, r, c + 1));
}
pub proof fn lemma_ptr_of(lam: Seq<int>, mu: Seq<int>, k: int, d: int, i: int, r: int)
    ensures r == beta(lam, k, diag(lam, k, d, i)) && r < cnt(mu, k) ==> ptr(lam, mu, k, d, i) == r
{}
pub proof fn lemma_col_free(lam: Seq<int>, mu: Seq<int>, k: int, d: int, c: int)
    requires pairing(lam, mu, k, d), c >= 0, cnt(mu, k) >= 1
    ensures col_free(lam, mu, k, d, c + 1) <==> boxed(lam, mu, k, cnt(mu, k), c) && !marks(lam, mu, k, d, k, c)
{
    if boxed(lam, mu, k, cnt(mu, k), c) && !marks(lam, mu, k, d, k, c) { lemma_col_free_out(lam, mu, k, d, c); }
    if col_free(lam, mu, k, d, c + 1) {
        let r = choose|r: int| #[trigger] free_box(lam, mu, k, d, r, c + 1);
        lemma_col_free_in(lam, mu, k, d, c, r);
    }
}

// ---- the pointer and the array in count_comps
pub proof fn lemma_ptr(lam: Seq<int>, mu: Seq<int>, k: int, d: int, i: int, b: int)
    requires is_part(lam), kstrict(lam, k), k >= 0, 0 <= b <= cnt(lam, k), b <= cnt(mu, k) - 1, bd(lam, k, b, diag(lam, k, d, i)), b < cnt(mu, k) - 1 ==> ex(lam, k, b) + b < diag(lam, k, d, i), cnt(mu, k) <= cnt(lam, k) + 1
    ensures b == ptr(lam, mu, k, d, i)
{
    let t = diag(lam, k, d, i);
    let v = beta(lam, k, t);
    lemma_beta(lam, k, t);
    if v < b { assert(ex(lam, k, v) + v >= t); }
    if v > b { assert(ex(lam, k, b) + b >= t); }
}
pub open spec fn arr1(v: Seq<int>, lam: Seq<int>, mu: Seq<int>, k: int, n: int) -> bool {
    v.len() == ex(mu, k, 0) && forall|c: int| 0 <= c < v.len() ==> (#[trigger] v[c] == 1 <==> boxed(lam, mu, k, n, c))
}
pub open spec fn arr1_row(v: Seq<int>, lam: Seq<int>, mu: Seq<int>, k: int, n: int, hi: int) -> bool {
    v.len() == ex(mu, k, 0) && forall|c: int| 0 <= c < v.len() ==> (#[trigger] v[c] == 1 <==> boxed(lam, mu, k, n, c) || ex(lam, k, n) <= c < hi)
}
pub proof fn lemma_arr1(v: Seq<int>, lam: Seq<int>, mu: Seq<int>, k: int, n: int)
    requires n >= 0
    ensures arr1(v, lam, mu, k, n) ==> arr1_row(v, lam, mu, k, n, ex(lam, k, n)), arr1_row(v, lam, mu, k, n, ex(mu, k, n)) ==> arr1(v, lam, mu, k, n + 1),
        arr1(v, lam, mu, k, n) && ex(mu, k, n) <= ex(lam, k, n) ==> arr1(v, lam, mu, k, n + 1)
{
    assert forall|c: int| #[trigger] boxed(lam, mu, k, n + 1, c) <==> boxed(lam, mu, k, n, c) || in_col(lam, mu, k, n, c) by {
        if boxed(lam, mu, k, n, c) { let r = choose|r: int| 0 <= r < n && in_col(lam, mu, k, r, c); assert(in_col(lam, mu, k, r, c)); }
    }
}
pub proof fn lemma_arr1_set(v: Seq<int>, u: Seq<int>, lam: Seq<int>, mu: Seq<int>, k: int, n: int, j: int)
    ensures 0 <= j < v.len() && j >= ex(lam, k, n) && u =~= v.update(j, 1) && arr1_row(v, lam, mu, k, n, j) ==> arr1_row(u, lam, mu, k, n, j + 1)
{}
pub proof fn lemma_arr1_start(v: Seq<int>, lam: Seq<int>, mu: Seq<int>, k: int)
    requires v.len() == ex(mu, k, 0), forall|c: int| 0 <= c < v.len() ==> #[trigger] v[c] == 0
    ensures arr1(v, lam, mu, k, 0)
{}
pub proof fn lemma_arr2_set(v: Seq<int>, u: Seq<int>, lam: Seq<int>, mu: Seq<int>, k: int, d: int, n: int, lo: int, j: int)
    ensures 0 <= j < v.len() && j >= lo && u =~= v.update(j, -1) && arr2_col(v, lam, mu, k, d, n, lo, j) ==> arr2_col(u, lam, mu, k, d, n, lo, j + 1)
{}
pub open spec fn arr2(v: Seq<int>, lam: Seq<int>, mu: Seq<int>, k: int, d: int, n: int) -> bool {
    v.len() == ex(mu, k, 0) && forall|c: int| 0 <= c < v.len() ==> (#[trigger] v[c] == 1 <==> boxed(lam, mu, k, cnt(mu, k), c) && !marks(lam, mu, k, d, n, c))
}
pub open spec fn arr2_col(v: Seq<int>, lam: Seq<int>, mu: Seq<int>, k: int, d: int, n: int, lo: int, hi: int) -> bool {
    v.len() == ex(mu, k, 0) && forall|c: int| 0 <= c < v.len() ==> (#[trigger] v[c] == 1 <==> boxed(lam, mu, k, cnt(mu, k), c) && !marks(lam, mu, k, d, n, c) && !(lo <= c < hi))
}
pub proof fn lemma_arr2(v: Seq<int>, lam: Seq<int>, mu: Seq<int>, k: int, d: int, n: int)
    requires n >= 0
    ensures arr1(v, lam, mu, k, cnt(mu, k)) ==> arr2(v, lam, mu, k, d, 0),
        arr2(v, lam, mu, k, d, n) && cnt(mu, n) > cnt(lam, n) ==> arr2(v, lam, mu, k, d, n + 1),
        forall|lo: int| arr2(v, lam, mu, k, d, n) ==> #[trigger] arr2_col(v, lam, mu, k, d, n, lo, lo),
        cnt(mu, n) <= cnt(lam, n) ==> forall|hi: int| hi >= imin(diag(lam, k, d, n) - ptr(lam, mu, k, d, n), ex(mu, k, 0)) && hi <= imax(diag(mu, k, d, n) - ptr(lam, mu, k, d, n) - 1, imin(diag(lam, k, d, n) - ptr(lam, mu, k, d, n), ex(mu, k, 0))) && #[trigger] arr2_col(v, lam, mu, k, d, n, diag(mu, k, d, n) - ptr(lam, mu, k, d, n) - 1, hi) ==> arr2(v, lam, mu, k, d, n + 1)
{
    assert forall|c: int| #[trigger] marks(lam, mu, k, d, n + 1, c) <==> marks(lam, mu, k, d, n, c) || mark(lam, mu, k, d, n, c) by {
        if marks(lam, mu, k, d, n, c) { let i = choose|i: int| 0 <= i < n && mark(lam, mu, k, d, i, c); assert(mark(lam, mu, k, d, i, c)); }
    }
}
pub proof fn lemma_arr2_end(v: Seq<int>, lam: Seq<int>, mu: Seq<int>, k: int, d: int, c: int)
    requires pairing(lam, mu, k, d), cnt(mu, k) >= 1, arr2(v, lam, mu, k, d, k), 0 <= c < v.len()
    ensures v[c] == 1 <==> col_free(lam, mu, k, d, c + 1), c >= 1 ==> (v[c - 1] == 1 <==> col_free(lam, mu, k, d, c)), !col_free(lam, mu, k, d, 0),
        leader(lam, mu, k, d, c + 1) <==> col_free(lam, mu, k, d, c + 1) && !col_free(lam, mu, k, d, c)
{
    lemma_strips_in(lam, mu, k);
    lemma_col_free(lam, mu, k, d, c);
    if c >= 1 { lemma_col_free(lam, mu, k, d, c - 1); }
    lemma_leader(lam, mu, k, d, c + 1);
    lemma_no_col0(lam, mu, k, d);
}
pub proof fn lemma_no_col0(lam: Seq<int>, mu: Seq<int>, k: int, d: int)
    ensures !col_free(lam, mu, k, d, 0)
{}
pub proof fn lemma_comps_scope(lam: Seq<int>, mu: Seq<int>, k: int, d: int)
    requires pairing(lam, mu, k, d)
    ensures is_part(lam), kstrict(lam, k), is_part(mu), kstrict(mu, k), k >= 0, 0 <= d <= 1, is_part(mins(lam, k)), is_part(mins(mu, k)), cnt(lam, k) <= cnt(mu, k) <= cnt(lam, k) + 1, 0 <= cnt(lam, k), forall|b: int| #[trigger] ex(lam, k, b) >= 0, forall|b: int| #[trigger] ex(mu, k, b) >= 0,
        forall|b: int| 0 <= b ==> #[trigger] ex(mu, k, b) <= ex(mu, k, 0), cnt(mu, k) == 0 ==> ex(mu, k, 0) == 0,
        kbox(lam, k, lam.len() as int, row(lam, 0)), kbox(mu, k, mu.len() as int, row(mu, 0)),
        forall|i: int| 0 <= i < k ==> #[trigger] diag(mu, k, d, i) >= cnt(mu, k) + 1 - d
{
    lemma_strips_in(lam, mu, k);
    lemma_mins(lam, k);
    lemma_mins(mu, k);
    lemma_cnt_le(lam, mu, k);
    lemma_ex(lam, k);
    lemma_ex(mu, k);
    lemma_ex_all(lam, k);
    lemma_ex_all(mu, k);
    lemma_is_clip(lam);
    lemma_is_clip(mu);
    assert forall|b: int| 0 <= b implies #[trigger] ex(mu, k, b) <= ex(mu, k, 0) by { lemma_ex_mono(mu, k, 0, b); }
    assert forall|i: int| 0 <= i < k implies #[trigger] diag(mu, k, d, i) >= cnt(mu, k) + 1 - d by { lemma_cnt_mono(mu, i, k); }
}
pub proof fn lemma_pieces(l: Seq<int>, k: int, e: Seq<int>, c: Seq<int>, r: Seq<int>)
    requires is_part(l), kstrict(l, k), k >= 0, kbox(l, k, l.len() as int, row(l, 0)), e =~= excess(l, k), c =~= conj(mins(l, k)), r =~= clip(e)
    ensures r.len() == cnt(l, k), (c + rep(0, k - c.len())).len() == k, forall|i: int| 0 <= i < k ==> #[trigger] (c + rep(0, k - c.len()))[i] == cnt(l, i),
        forall|b: int| 0 <= b < r.len() ==> #[trigger] r[b] == ex(l, k, b), ex(l, k, r.len() as int) == 0
{
    lemma_split(l, k, e, c, r + seq![0int], l.len() as int, row(l, 0));
    let t = c + rep(0, k - c.len());
    assert(t =~= cols(l, k));
    assert forall|i: int| 0 <= i < k implies #[trigger] t[i] == cnt(l, i) by { assert(cols(l, k)[i] == cnt(l, i)); }
    let q = r + seq![0int];
    assert(q =~= bots(l, k, r.len() as int + 1));
    assert forall|b: int| 0 <= b < r.len() implies #[trigger] r[b] == ex(l, k, b) by { assert(q[b] == r[b]); assert(bots(l, k, r.len() as int + 1)[b] == ex(l, k, b)); }
    assert(q[r.len() as int] == bots(l, k, r.len() as int + 1)[r.len() as int]);
}
pub proof fn lemma_leaders0(lam: Seq<int>, mu: Seq<int>, k: int, d: int, skip: bool)
    ensures leaders(lam, mu, k, d, if skip { 1int } else { 0int }, 0) == 0, leaders(lam, mu, k, d, if skip { 1int } else { 0int }, 1) == (if skip { 0int } else { leaders(lam, mu, k, d, 0, 0) + (if leader(lam, mu, k, d, 1) { 1int } else { 0int }) })
{}

//# fn schubertpy/qcalc.py::count_comps(lam1: L, lam2: L, skipfirst: B, k: I, d: I) -> I
requires pairing(lam1, lam2, k, d)
ensures result == ncomp(lam1, lam2, k, d, skipfirst)
//# hint entry
hide(pairing);
hide(arr1);
hide(arr1_row);
hide(arr2);
hide(arr2_col);
hide(split_of);
hide(kbox);
hide(bd);
hide(ex);
hide(cnt);
hide(conj);
hide(clip);
hide(is_part);
hide(kstrict);
hide(noninc);
hide(leader);
hide(col_free);
hide(ptr);
lemma_comps_scope(lam1, lam2, k, d);
assert(lam1.map_values(|item: int| imin(item, k)) =~= mins(lam1, k));
assert(lam2.map_values(|item: int| imin(item, k)) =~= mins(lam2, k));
//# hint call part_conj#1
assert($a0 =~= mins(lam1, k));
//# hint call part_clip#1
lemma_pieces(lam1, k, $a0, conj(mins(lam1, k)), $r);
//# hint call part_conj#2
assert($a0 =~= mins(lam2, k));
//# hint call part_clip#2
lemma_pieces(lam2, k, $a0, conj(mins(lam2, k)), $r);
lemma_leaders0(lam1, lam2, k, d, skipfirst);
//# hint before loop 0
lemma_arr1_start(comps_h1, lam1, lam2, k);
//# loop 0
invariant comps_h1.len() == ex(lam2, k, 0), arr1(comps_h1, lam1, lam2, k, it0)
//# hint before loop 1
lemma_arr1(comps_h1, lam1, lam2, k, i);
//# loop 1
invariant comps_h1.len() == ex(lam2, k, 0), bot1[i] <= bot2[i] ==> arr1_row(comps_h1, lam1, lam2, k, i, it1), bot1[i] > bot2[i] ==> arr1(comps_h1, lam1, lam2, k, i)
//# hint loop 1 head
let ghost c0 = comps_h1;
//# hint loop 1 end
lemma_arr1_set(c0, comps_h1, lam1, lam2, k, i, j);
//# hint after loop 1
lemma_arr1(comps_h1, lam1, lam2, k, i);
//# hint before loop 2
lemma_arr2(comps_h1, lam1, lam2, k, d, 0);
//# loop 2
invariant comps_h1.len() == ex(lam2, k, 0), arr2(comps_h1, lam1, lam2, k, d, it2), 0 <= b <= cnt(lam1, k), b <= lb2 - 1, it2 == 0 ==> b == 0, it2 > 0 ==> bd(lam1, k, b, diag(lam1, k, d, it2 - 1))
//# hint before loop 3
if i > 0 { lemma_bd(lam1, k, d, b, i); } else { lemma_bd_step(lam1, k, diag(lam1, k, d, i), 0); }
//# loop 3
invariant 0 <= b <= cnt(lam1, k), b <= lb2 - 1, bd(lam1, k, b, diag(lam1, k, d, i))
decreases lb2 - b
//# hint loop 3 head
lemma_bd_step(lam1, k, diag(lam1, k, d, i), b);
//# hint after loop 3
lemma_ptr(lam1, lam2, k, d, i, b);
lemma_arr2(comps_h1, lam1, lam2, k, d, i);
//# hint before loop 4
assert(diag(lam2, k, d, i) >= cnt(lam2, k) + 1 - d);
assert(arr2_col(comps_h1, lam1, lam2, k, d, i, minj, minj));
//# loop 4
invariant comps_h1.len() == ex(lam2, k, 0), arr2_col(comps_h1, lam1, lam2, k, d, i, minj, it4), minj >= 0
//# hint loop 4 head
let ghost c0 = comps_h1;
//# hint loop 4 end
lemma_arr2_set(c0, comps_h1, lam1, lam2, k, d, i, minj, j);
//# hint after loop 4
lemma_arr2(comps_h1, lam1, lam2, k, d, i);
assert(minj == diag(lam2, k, d, i) - ptr(lam1, lam2, k, d, i) - 1);
assert(arr2_col(comps_h1, lam1, lam2, k, d, i, diag(lam2, k, d, i) - ptr(lam1, lam2, k, d, i) - 1, it4));
//# hint loop 2 end
if cnt(lam2, i) > cnt(lam1, i) {
    if i > 0 { lemma_bd(lam1, k, d, b, i); } else { lemma_bd_step(lam1, k, diag(lam1, k, d, i), 0); }
    lemma_arr2(comps_h1, lam1, lam2, k, d, i);
}
//# loop 5
invariant res == leaders(lam1, lam2, k, d, if skipfirst { 1int } else { 0int }, it5), it5 == 0 ==> incomp == skipfirst, it5 > 0 ==> (incomp <==> col_free(lam1, lam2, k, d, it5))
//# hint loop 5 head
lemma_arr2_end(comps, lam1, lam2, k, d, j_h2);
//# end

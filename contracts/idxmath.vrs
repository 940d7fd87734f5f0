//# unit idxmath
//# use pairs
// ---- index sets of Schubert classes: the arithmetic
pub open spec fn row(l: Seq<int>, j: int) -> int { if 0 <= j < l.len() { l[j] } else { 0 } }
pub open spec fn pad(l: Seq<int>, r: int) -> Seq<int> { l + rep(0, r) }
pub open spec fn rel_le(la: Seq<int>, c: int, i: int, j: int) -> bool { la[i] + la[j] <= c + j - i }
pub open spec fn rel_gt(x: Seq<int>, s: int, i: int, j: int) -> bool { x[i] + x[j] > s }
// the number of i < t with la[i] + la[j] <= c + j - i
pub open spec fn cnt_le(la: Seq<int>, c: int, j: int, t: int) -> int
    decreases t
{ if t <= 0 { 0 } else { cnt_le(la, c, j, t - 1) + (if rel_le(la, c, t - 1, j) { 1int } else { 0int }) } }
// the number of i < t with x[i] + x[j] > s
pub open spec fn cnt_gt(x: Seq<int>, s: int, j: int, t: int) -> int
    decreases t
{ if t <= 0 { 0 } else { cnt_gt(x, s, j, t - 1) + (if rel_gt(x, s, t - 1, j) { 1int } else { 0int }) } }

// the first m rows of la form a k-strict partition with parts at most w
pub open spec fn kpart(la: Seq<int>, k: int, m: int, w: int) -> bool {
    &&& la.len() >= m
    &&& forall|i: int, j: int| 0 <= i <= j < m ==> #[trigger] la[i] >= #[trigger] la[j] && la[j] >= 0
    &&& forall|i: int, j: int| 0 <= i < j < m && #[trigger] la[i] > k ==> la[i] > #[trigger] la[j]
    &&& (m > 0 ==> la[0] <= w)
}
// an index set: m numbers in 1..nn, strictly increasing, no two (or twice one) with sum nn + 1
pub open spec fn incr(x: Seq<int>, m: int, nn: int) -> bool {
    &&& x.len() == m
    &&& forall|i: int, j: int| 0 <= i < j < m ==> x[i] < x[j]
    &&& forall|i: int| 0 <= i < m ==> 1 <= #[trigger] x[i] <= nn
}
pub open spec fn vidx(x: Seq<int>, m: int, nn: int) -> bool {
    incr(x, m, nn) && forall|i: int, j: int| 0 <= i <= j < m ==> #[trigger] x[i] + #[trigger] x[j] != nn + 1
}

pub proof fn lemma_cnt_le_ext(a: Seq<int>, b: Seq<int>, c: int, d: int, j: int, t: int)
    requires 0 <= t, forall|i: int| 0 <= i < t ==> #[trigger] rel_le(a, c, i, j) == rel_le(b, d, i, j)
    ensures cnt_le(a, c, j, t) == cnt_le(b, d, j, t)
    decreases t
{ if t > 0 { lemma_cnt_le_ext(a, b, c, d, j, t - 1); assert(rel_le(a, c, t - 1, j) == rel_le(b, d, t - 1, j)); } }

pub proof fn lemma_cnt_gt_ext(a: Seq<int>, b: Seq<int>, c: int, d: int, j: int, t: int)
    requires 0 <= t, forall|i: int| 0 <= i < t ==> #[trigger] rel_gt(a, c, i, j) == rel_gt(b, d, i, j)
    ensures cnt_gt(a, c, j, t) == cnt_gt(b, d, j, t)
    decreases t
{ if t > 0 { lemma_cnt_gt_ext(a, b, c, d, j, t - 1); assert(rel_gt(a, c, t - 1, j) == rel_gt(b, d, t - 1, j)); } }

pub proof fn lemma_cnt_same(la: Seq<int>, c: int, x: Seq<int>, s: int, j: int, t: int)
    requires 0 <= t, forall|i: int| 0 <= i < t ==> #[trigger] rel_le(la, c, i, j) == rel_gt(x, s, i, j)
    ensures cnt_le(la, c, j, t) == cnt_gt(x, s, j, t)
    decreases t
{ if t > 0 { lemma_cnt_same(la, c, x, s, j, t - 1); assert(rel_le(la, c, t - 1, j) == rel_gt(x, s, t - 1, j)); } }

pub proof fn lemma_cnt_le_up(la: Seq<int>, c: int, j: int, t: int)
    requires 0 <= t, forall|i: int, h: int| 0 <= i < h < t && rel_le(la, c, i, j) ==> rel_le(la, c, h, j)
    ensures 0 <= cnt_le(la, c, j, t) <= t, forall|i: int| 0 <= i < t ==> (#[trigger] rel_le(la, c, i, j) <==> i >= t - cnt_le(la, c, j, t))
    decreases t
{
    if t > 0 {
        lemma_cnt_le_up(la, c, j, t - 1);
        if !rel_le(la, c, t - 1, j) && cnt_le(la, c, j, t - 1) > 0 { assert(rel_le(la, c, t - 2, j)); }
    }
}

pub proof fn lemma_cnt_gt_up(x: Seq<int>, s: int, j: int, t: int)
    requires 0 <= t, forall|i: int, h: int| 0 <= i < h < t && rel_gt(x, s, i, j) ==> rel_gt(x, s, h, j)
    ensures 0 <= cnt_gt(x, s, j, t) <= t, forall|i: int| 0 <= i < t ==> (#[trigger] rel_gt(x, s, i, j) <==> i >= t - cnt_gt(x, s, j, t))
    decreases t
{
    if t > 0 {
        lemma_cnt_gt_up(x, s, j, t - 1);
        if !rel_gt(x, s, t - 1, j) && cnt_gt(x, s, j, t - 1) > 0 { assert(rel_gt(x, s, t - 2, j)); }
    }
}

// rows above a row longer than k
pub proof fn lemma_gap(la: Seq<int>, k: int, m: int, w: int, i: int, j: int)
    requires kpart(la, k, m, w), 0 <= i <= j < m, la[j] >= k, i < j ==> la[j - 1] > k
    ensures la[i] >= la[j] + (j - i)
    decreases j - i
{
    if i < j {
        assert(la[j - 1] > la[j]);
        if i < j - 1 { assert(la[j - 2] >= la[j - 1]); }
        lemma_gap(la, k, m, w, i, j - 1);
    }
}

// x strictly increasing: differences
pub proof fn lemma_incr(x: Seq<int>, m: int, nn: int, i: int, j: int)
    requires incr(x, m, nn), 0 <= i <= j < m
    ensures x[j] - x[i] >= j - i
    decreases j - i
{ if i < j { lemma_incr(x, m, nn, i, j - 1); assert(x[j - 1] < x[j]); } }

// at most a - n of the numbers lie in [2n+1-a, a]
pub proof fn lemma_window(x: Seq<int>, m: int, n: int, i: int, j: int, a: int)
    requires vidx(x, m, 2 * n), 0 <= i <= j + 1 <= m, a >= n, i <= j ==> 2 * n + 1 - a <= x[i] && x[j] <= a
    ensures j - i + 1 <= a - n
    decreases a - n
{
    if i <= j {
        if a == n { assert(false) by { assert(x[i] <= x[j]); } }
        if x[j] == a {
            if i < j {
                assert(x[i] + x[j] != 2 * n + 1);
                assert(x[j - 1] < x[j]);
            }
            if i <= j - 1 { lemma_window(x, m, n, i, j - 1, a - 1); }
        } else if x[i] == 2 * n + 1 - a {
            if i < j { assert(x[i] < x[i + 1]); lemma_window(x, m, n, i + 1, j, a - 1); }
        } else {
            lemma_window(x, m, n, i, j, a - 1);
        }
    }
}

// ---- symplectic index sets
pub open spec fn f_c(la: Seq<int>, k: int, n: int, m: int) -> Seq<int> { Seq::new(pylen(m), |j: int| n + k + 1 - la[j] + cnt_le(la, 2 * k, j, j)) }
pub open spec fn g_c(x: Seq<int>, k: int, n: int, m: int) -> Seq<int> { Seq::new(pylen(m), |j: int| n + k + 1 - x[j] + cnt_gt(x, 2 * n + 1, j, j)) }

pub proof fn lemma_le_up(la: Seq<int>, k: int, m: int, w: int, j: int)
    requires kpart(la, k, m, w), k >= 0, 0 <= j < m
    ensures 0 <= cnt_le(la, 2 * k, j, j) <= j, forall|i: int| 0 <= i < j ==> (#[trigger] rel_le(la, 2 * k, i, j) <==> i >= j - cnt_le(la, 2 * k, j, j)),
        la[j] > k ==> cnt_le(la, 2 * k, j, j) == 0
{
    assert forall|i: int, h: int| 0 <= i < h < j && #[trigger] rel_le(la, 2 * k, i, j) implies #[trigger] rel_le(la, 2 * k, h, j) by {
        assert(la[h] >= la[j]);
        if la[h] > k { assert(la[h - 1] >= la[h]); lemma_gap(la, k, m, w, i, h); }
    }
    lemma_cnt_le_up(la, 2 * k, j, j);
    if la[j] > k && cnt_le(la, 2 * k, j, j) > 0 {
        assert(rel_le(la, 2 * k, j - 1, j));
        assert(la[j - 1] >= la[j]);
    }
}

pub proof fn lemma_c_sum(la: Seq<int>, k: int, n: int, m: int, i: int, j: int)
    requires kpart(la, k, m, n + k), k >= 0, m == n - k, 0 <= i < j < m
    ensures ({ let f = f_c(la, k, n, m); f[i] + f[j] != 2 * n + 1 && (f[i] + f[j] > 2 * n + 1 <==> rel_le(la, 2 * k, i, j)) })
{
    let f = f_c(la, k, n, m);
    lemma_le_up(la, k, m, n + k, i);
    lemma_le_up(la, k, m, n + k, j);
    assert(la[i] >= la[j]);
    if !rel_le(la, 2 * k, i, j) { assert(la[i] > k); }
}

pub proof fn lemma_c_fwd(la: Seq<int>, k: int, n: int, m: int)
    requires kpart(la, k, m, n + k), k >= 0, m == n - k, m >= 0
    ensures vidx(f_c(la, k, n, m), m, 2 * n), forall|j: int| 0 <= j < m ==> #[trigger] g_c(f_c(la, k, n, m), k, n, m)[j] == la[j],
        forall|j: int| 0 <= j < m ==> (#[trigger] la[j] > k <==> f_c(la, k, n, m)[j] <= n),
        forall|j: int| 0 <= j < m && la[j] > k ==> f_c(la, k, n, m)[j] == #[trigger] (n + k + 1 - la[j])
{
    let f = f_c(la, k, n, m);
    let g = g_c(f, k, n, m);
    assert forall|j: int| 0 <= j < m - 1 implies f[j] < #[trigger] f[j + 1] by {
        lemma_le_up(la, k, m, n + k, j);
        lemma_le_up(la, k, m, n + k, j + 1);
        let t = cnt_le(la, 2 * k, j, j);
        assert(la[j] >= la[j + 1]);
        if t > 0 { assert(rel_le(la, 2 * k, j - t, j)); assert(rel_le(la, 2 * k, j - t, j + 1)); }
        if la[j] == la[j + 1] { assert(rel_le(la, 2 * k, j, j + 1)); }
    }
    assert forall|j: int| 0 <= j < m implies 1 <= #[trigger] f[j] <= 2 * n && g[j] == la[j] && (la[j] > k <==> f[j] <= n) && (la[j] > k ==> f[j] == n + k + 1 - la[j]) by {
        lemma_le_up(la, k, m, n + k, j);
        assert(la[0] >= la[j] >= 0);
        assert forall|i: int| 0 <= i < j implies #[trigger] rel_le(la, 2 * k, i, j) == #[trigger] rel_gt(f, 2 * n + 1, i, j) by { lemma_c_sum(la, k, n, m, i, j); }
        lemma_cnt_same(la, 2 * k, f, 2 * n + 1, j, j);
    }
    lemma_adj_incr(f, m);
    assert forall|i: int, j: int| 0 <= i <= j < m implies #[trigger] f[i] + #[trigger] f[j] != 2 * n + 1 by { if i < j { lemma_c_sum(la, k, n, m, i, j); } }
}

pub proof fn lemma_adj_incr(f: Seq<int>, m: int)
    requires f.len() >= m, forall|j: int| 0 <= j < m - 1 ==> f[j] < #[trigger] f[j + 1]
    ensures forall|i: int, j: int| 0 <= i < j < m ==> f[i] < f[j]
    decreases m
{
    if m > 1 {
        lemma_adj_incr(f, m - 1);
        assert forall|i: int, j: int| 0 <= i < j < m implies f[i] < f[j] by { if j == m - 1 { assert(f[j - 1] < f[j - 1 + 1]); } }
    }
}

pub proof fn lemma_gt_up(x: Seq<int>, m: int, nn: int, s: int, j: int)
    requires incr(x, m, nn), 0 <= j < m
    ensures 0 <= cnt_gt(x, s, j, j) <= j, forall|i: int| 0 <= i < j ==> (#[trigger] rel_gt(x, s, i, j) <==> i >= j - cnt_gt(x, s, j, j))
{
    assert forall|i: int, h: int| 0 <= i < h < j && rel_gt(x, s, i, j) implies rel_gt(x, s, h, j) by { assert(x[i] < x[h]); }
    lemma_cnt_gt_up(x, s, j, j);
}

pub proof fn lemma_g_low(x: Seq<int>, k: int, n: int, m: int, j: int)
    requires vidx(x, m, 2 * n), 0 <= j < m
    ensures x[j] <= n ==> cnt_gt(x, 2 * n + 1, j, j) == 0, x[j] > n ==> x[j] - cnt_gt(x, 2 * n + 1, j, j) >= n + 1
{
    let c = cnt_gt(x, 2 * n + 1, j, j);
    lemma_gt_up(x, m, 2 * n, 2 * n + 1, j);
    if c > 0 {
        assert(rel_gt(x, 2 * n + 1, j - c, j));
        assert(x[j - c] < x[j]);
        if x[j] > n { lemma_window(x, m, n, j - c, j, x[j]); }
    }
}

pub proof fn lemma_g_step(x: Seq<int>, k: int, n: int, m: int, j: int)
    requires vidx(x, m, 2 * n), k >= 0, m == n - k, 0 <= j < m - 1
    ensures ({ let g = g_c(x, k, n, m); g[j] >= g[j + 1] && (g[j] > k ==> g[j] > g[j + 1]) })
{
    let g = g_c(x, k, n, m);
    let a = cnt_gt(x, 2 * n + 1, j, j);
    let b = cnt_gt(x, 2 * n + 1, j + 1, j + 1);
    lemma_gt_up(x, m, 2 * n, 2 * n + 1, j);
    lemma_gt_up(x, m, 2 * n, 2 * n + 1, j + 1);
    lemma_g_low(x, k, n, m, j);
    lemma_g_low(x, k, n, m, j + 1);
    assert(x[j] < x[j + 1]);
    let ta = j - a;
    let tb = j + 1 - b;
    if tb <= j {
        assert(rel_gt(x, 2 * n + 1, tb, j + 1));
        // counted with j+1, not with j
        if tb < ta {
            assert(!rel_gt(x, 2 * n + 1, ta - 1, j));
            assert(x[ta - 1] + x[j] != 2 * n + 1);
            lemma_incr(x, m, 2 * n, tb, ta - 1);
        }
        if x[j] <= n { lemma_incr(x, m, 2 * n, tb, j); }
    } else {
        if a > 0 { assert(rel_gt(x, 2 * n + 1, j - 1, j)); assert(rel_gt(x, 2 * n + 1, j - 1, j + 1)); }
    }
}

pub proof fn lemma_c_kpart(x: Seq<int>, k: int, n: int, m: int)
    requires vidx(x, m, 2 * n), k >= 0, m == n - k, m >= 0
    ensures kpart(g_c(x, k, n, m), k, m, n + k), forall|j: int| 0 <= j < m ==> (#[trigger] g_c(x, k, n, m)[j] > k <==> x[j] <= n)
{
    let g = g_c(x, k, n, m);
    assert forall|j: int| 0 <= j < m - 1 implies g[j] >= #[trigger] g[j + 1] && (g[j] > k ==> g[j] > g[j + 1]) by { lemma_g_step(x, k, n, m, j); }
    lemma_adj_noninc(g, m, k);
    if m > 0 {
        let j = m - 1;
        lemma_gt_up(x, m, 2 * n, 2 * n + 1, j);
        let t = j - cnt_gt(x, 2 * n + 1, j, j);
        if t > 0 { assert(!rel_gt(x, 2 * n + 1, t - 1, j)); lemma_incr(x, m, 2 * n, 0, t - 1); assert(x[0] >= 1); assert(x[t - 1] + x[j] != 2 * n + 1); }
        assert(g[m - 1] >= 0);
    }
    assert forall|j: int| 0 <= j < m implies #[trigger] g[j] >= 0 && (g[j] > k <==> x[j] <= n) by {
        lemma_g_low(x, k, n, m, j);
        assert(g[j] >= g[m - 1]);
    }
    if m > 0 { assert(x[0] >= 1); }
}

pub proof fn lemma_adj_noninc(g: Seq<int>, m: int, k: int)
    requires g.len() >= m, forall|j: int| 0 <= j < m - 1 ==> g[j] >= #[trigger] g[j + 1] && (g[j] > k ==> g[j] > g[j + 1])
    ensures forall|i: int, j: int| 0 <= i <= j < m ==> g[i] >= g[j], forall|i: int, j: int| 0 <= i < j < m && g[i] > k ==> g[i] > g[j]
    decreases m
{
    if m > 1 {
        lemma_adj_noninc(g, m - 1, k);
        assert(g[m - 2] >= g[m - 2 + 1] && (g[m - 2] > k ==> g[m - 2] > g[m - 2 + 1]));
        assert forall|i: int, j: int| 0 <= i < j < m && g[i] > k implies g[i] > g[j] by { if j == m - 1 { if i < m - 2 { assert(g[i] > g[m - 2]); } } }
        assert forall|i: int, j: int| 0 <= i <= j < m implies g[i] >= g[j] by { if j == m - 1 && i < j { assert(g[i] >= g[m - 2]); } }
    }
}

pub proof fn lemma_c_rel(x: Seq<int>, k: int, n: int, m: int, i: int, j: int)
    requires vidx(x, m, 2 * n), k >= 0, m == n - k, 0 <= i < j < m
    ensures rel_le(g_c(x, k, n, m), 2 * k, i, j) == rel_gt(x, 2 * n + 1, i, j)
{
    let g = g_c(x, k, n, m);
    let ci = cnt_gt(x, 2 * n + 1, i, i);
    let cj = cnt_gt(x, 2 * n + 1, j, j);
    lemma_gt_up(x, m, 2 * n, 2 * n + 1, i);
    lemma_gt_up(x, m, 2 * n, 2 * n + 1, j);
    lemma_g_low(x, k, n, m, i);
    assert(x[i] < x[j]);
    assert(x[i] + x[j] != 2 * n + 1);
    let ti = i - ci;
    let tj = j - cj;
    if rel_gt(x, 2 * n + 1, i, j) {
        assert(tj <= i);
        assert(rel_gt(x, 2 * n + 1, tj, j));
        if x[i] <= n {
            lemma_incr(x, m, 2 * n, tj, i);
        } else {
            if tj < ti {
                assert(!rel_gt(x, 2 * n + 1, ti - 1, i));
                assert(x[ti - 1] + x[i] != 2 * n + 1);
                lemma_incr(x, m, 2 * n, tj, ti - 1);
            } else if ti < tj {
                assert(rel_gt(x, 2 * n + 1, ti, i));
                assert(rel_gt(x, 2 * n + 1, ti, j));
            }
            if ti < i { assert(rel_gt(x, 2 * n + 1, ti, i)); lemma_window(x, m, n, ti, i, x[i]); }
        }
    } else {
        assert(tj > i);
        assert(!rel_gt(x, 2 * n + 1, tj - 1, j) || tj == j);
        if tj - 1 > i && tj <= j { if tj - 1 < j { assert(!rel_gt(x, 2 * n + 1, tj - 1, j)); assert(x[tj - 1] + x[j] != 2 * n + 1); lemma_incr(x, m, 2 * n, i, tj - 1); } }
    }
}

pub proof fn lemma_c_bwd(x: Seq<int>, k: int, n: int, m: int)
    requires vidx(x, m, 2 * n), k >= 0, m == n - k, m >= 0
    ensures kpart(g_c(x, k, n, m), k, m, n + k), f_c(g_c(x, k, n, m), k, n, m) =~= x, forall|j: int| 0 <= j < m ==> (#[trigger] g_c(x, k, n, m)[j] > k <==> x[j] <= n)
{
    let g = g_c(x, k, n, m);
    let f = f_c(g, k, n, m);
    lemma_c_kpart(x, k, n, m);
    assert forall|j: int| 0 <= j < m implies f[j] == x[j] by {
        assert forall|i: int| 0 <= i < j implies #[trigger] rel_le(g, 2 * k, i, j) == #[trigger] rel_gt(x, 2 * n + 1, i, j) by { lemma_c_rel(x, k, n, m, i, j); }
        lemma_cnt_same(g, 2 * k, x, 2 * n + 1, j, j);
    }
}

// ---- type A
pub open spec fn f_a(la: Seq<int>, k: int, m: int) -> Seq<int> { Seq::new(pylen(m), |j: int| k + j - la[j] + 1) }

// ---- odd orthogonal: the symplectic numbers with n + 1 skipped
pub open spec fn f_b(la: Seq<int>, k: int, n: int, m: int) -> Seq<int> { Seq::new(pylen(m), |j: int| if la[j] > k { n + k + 1 - la[j] } else { n + k + 2 - la[j] + cnt_le(la, 2 * k, j, j) }) }
pub open spec fn g_b(x: Seq<int>, k: int, n: int, m: int) -> Seq<int> { Seq::new(pylen(m), |j: int| if x[j] <= n { n + k + 1 - x[j] } else { n + k + 2 - x[j] + cnt_gt(x, 2 * n + 2, j, j) }) }
pub open spec fn up(x: Seq<int>, n: int) -> Seq<int> { Seq::new(x.len(), |j: int| if x[j] <= n { x[j] } else { x[j] + 1 }) }
pub open spec fn down(x: Seq<int>, n: int) -> Seq<int> { Seq::new(x.len(), |j: int| if x[j] <= n { x[j] } else { x[j] - 1 }) }

pub proof fn lemma_up(x: Seq<int>, m: int, n: int, i: int, j: int)
    requires vidx(x, m, 2 * n), 0 <= i < j < m, x[j] > n
    ensures rel_gt(up(x, n), 2 * n + 2, i, j) == rel_gt(x, 2 * n + 1, i, j)
{ assert(x[i] < x[j]); }

pub proof fn lemma_g_up(x: Seq<int>, k: int, n: int, m: int)
    requires vidx(x, m, 2 * n), m >= 0
    ensures vidx(up(x, n), m, 2 * n + 1), g_b(up(x, n), k, n, m) =~= g_c(x, k, n, m), down(up(x, n), n) =~= x
{
    let y = up(x, n);
    assert forall|i: int, j: int| 0 <= i <= j < m implies #[trigger] y[i] + #[trigger] y[j] != 2 * n + 1 + 1 by { assert(x[i] + x[j] != 2 * n + 1); if i < j { assert(x[i] < x[j]); } }
    assert forall|j: int| 0 <= j < m implies g_b(y, k, n, m)[j] == g_c(x, k, n, m)[j] by {
        if x[j] <= n { lemma_g_low(x, k, n, m, j); } else {
            assert forall|i: int| 0 <= i < j implies #[trigger] rel_gt(y, 2 * n + 2, i, j) == #[trigger] rel_gt(x, 2 * n + 1, i, j) by { lemma_up(x, m, n, i, j); }
            lemma_cnt_gt_ext(y, x, 2 * n + 2, 2 * n + 1, j, j);
        }
    }
}

pub proof fn lemma_b_fwd(la: Seq<int>, k: int, n: int, m: int)
    requires kpart(la, k, m, n + k), k >= 0, m == n - k, m >= 0
    ensures f_b(la, k, n, m) =~= up(f_c(la, k, n, m), n), vidx(f_b(la, k, n, m), m, 2 * n + 1), forall|j: int| 0 <= j < m ==> #[trigger] g_b(f_b(la, k, n, m), k, n, m)[j] == la[j]
{
    lemma_c_fwd(la, k, n, m);
    let f = f_c(la, k, n, m);
    lemma_g_up(f, k, n, m);
    assert forall|j: int| 0 <= j < m implies f_b(la, k, n, m)[j] == up(f, n)[j] by { assert(la[j] > k <==> f[j] <= n); if la[j] > k { assert(f[j] == n + k + 1 - la[j]); } }
    assert(f_b(la, k, n, m) =~= up(f, n));
}

pub proof fn lemma_b_bwd(x: Seq<int>, k: int, n: int, m: int)
    requires vidx(x, m, 2 * n + 1), k >= 0, m == n - k, m >= 0
    ensures kpart(g_b(x, k, n, m), k, m, n + k), f_b(g_b(x, k, n, m), k, n, m) =~= x
{
    let y = down(x, n);
    assert forall|j: int| 0 <= j < m implies #[trigger] x[j] != n + 1 by { assert(x[j] + x[j] != 2 * n + 1 + 1); }
    assert(up(y, n) =~= x);
    assert forall|i: int, j: int| 0 <= i <= j < m implies #[trigger] y[i] + #[trigger] y[j] != 2 * n + 1 by { assert(x[i] + x[j] != 2 * n + 1 + 1); if i < j { assert(x[i] < x[j]); } }
    assert(incr(y, m, 2 * n)) by {
        assert forall|i: int, j: int| 0 <= i < j < m implies y[i] < y[j] by { assert(x[i] < x[j]); }
        assert forall|i: int| 0 <= i < m implies 1 <= #[trigger] y[i] <= 2 * n by { assert(1 <= x[i] <= 2 * n + 1); }
    }
    lemma_g_up(y, k, n, m);
    lemma_c_bwd(y, k, n, m);
    lemma_b_fwd(g_c(y, k, n, m), k, n, m);
}

// ---- even orthogonal
pub open spec fn e_d(la: Seq<int>, k: int, nt: int, j: int) -> bool { la[j] > k || (la[j] == k && (j == 0 || k < la[j - 1]) && (nt + j) % 2 == 1) }
pub open spec fn f_d(la: Seq<int>, k: int, n: int, r: int, nt: int) -> Seq<int> { Seq::new(pylen(r), |j: int| n + k - la[j] + cnt_le(la, 2 * k - 1, j, j) + (if e_d(la, k, nt, j) { 1int } else { 2int })) }
pub open spec fn g_d(x: Seq<int>, k: int, n: int, r: int) -> Seq<int> { Seq::new(pylen(r), |j: int| if x[j] <= n + 1 { n + k + 1 - x[j] } else { n + k + 2 - x[j] + cnt_gt(x, 2 * n + 3, j, j) }) }
pub open spec fn lift(la: Seq<int>, k: int, nt: int, r: int) -> Seq<int> { Seq::new(pylen(r), |j: int| la[j] + (if e_d(la, k, nt, j) { 1int } else { 0int })) }

pub proof fn lemma_lift(la: Seq<int>, k: int, n: int, r: int, nt: int)
    requires kpart(la, k, r, n + k), k >= 0, r == n + 1 - k, r >= 0
    ensures kpart(lift(la, k, nt, r), k, r, n + 1 + k), f_d(la, k, n, r, nt) =~= f_c(lift(la, k, nt, r), k, n + 1, r),
        forall|j: int| 0 <= j < r ==> (#[trigger] lift(la, k, nt, r)[j] > k <==> e_d(la, k, nt, j))
{
    let b = lift(la, k, nt, r);
    assert forall|i: int, j: int| 0 <= i < j < r implies b[i] >= b[j] && (b[i] > k ==> b[i] > b[j]) by { assert(la[i] >= la[j]); if i < j - 1 { assert(la[i] >= la[j - 1]); } if la[i] > k { assert(la[i] > la[j]); } }
    assert(kpart(b, k, r, n + 1 + k)) by {
        assert forall|i: int, j: int| 0 <= i <= j < r implies #[trigger] b[i] >= #[trigger] b[j] && b[j] >= 0 by { assert(la[i] >= la[j]); if i < j { assert(b[i] >= b[j]); } }
        assert forall|i: int, j: int| 0 <= i < j < r && #[trigger] b[i] > k implies b[i] > #[trigger] b[j] by { assert(b[i] >= b[j]); }
    }
    assert forall|j: int| 0 <= j < r implies f_d(la, k, n, r, nt)[j] == f_c(b, k, n + 1, r)[j] by {
        assert forall|i: int| 0 <= i < j implies #[trigger] rel_le(la, 2 * k - 1, i, j) == #[trigger] rel_le(b, 2 * k, i, j) by {
            assert(la[i] >= la[j]);
            if e_d(la, k, nt, i) && e_d(la, k, nt, j) {
                if j > 0 && i < j - 1 { assert(la[i] >= la[j - 1]); }
                if la[j] > k { assert(la[j - 1] >= la[j]); }
                lemma_gap(la, k, r, n + k, i, j);
            }
        }
        lemma_cnt_le_ext(la, b, 2 * k - 1, 2 * k, j, j);
    }
}

// how many numbers are at most a
pub open spec fn low(x: Seq<int>, a: int) -> int { count_where(x, |v: int| v <= a) }
pub proof fn lemma_low(x: Seq<int>, m: int, nn: int, a: int)
    requires incr(x, m, nn), 0 <= a
    ensures 0 <= low(x, a) <= m, forall|j: int| 0 <= j < m ==> (#[trigger] x[j] <= a <==> j < low(x, a)),
        set_int_range(1, a + 1).difference(x.to_set()).finite(), set_int_range(1, a + 1).difference(x.to_set()).len() == a - low(x, a)
    decreases m
{
    let s = set_int_range(1, a + 1);
    lemma_range_set(a);
    let d = s.difference(x.to_set());
    if m == 0 { assert(d =~= s); } else {
        let y = x.drop_last();
        assert(incr(y, m - 1, nn)) by { assert forall|i: int| 0 <= i < m - 1 implies 1 <= #[trigger] y[i] <= nn by { assert(x[i] >= 1); } }
        lemma_low(y, m - 1, nn, a);
        let v = x.last();
        let e = s.difference(y.to_set());
        assert(x[m - 1] == v);
        assert forall|w: int| x.to_set().contains(w) <==> y.to_set().contains(w) || w == v by {
            if y.to_set().contains(w) { let i = choose|i: int| 0 <= i < y.len() && y[i] == w; assert(x[i] == w); }
            if x.to_set().contains(w) && w != v { let i = choose|i: int| 0 <= i < x.len() && x[i] == w; assert(y[i] == w); }
        }
        assert(d =~= e.remove(v));
        if v <= a {
            assert(!y.to_set().contains(v)) by { if y.to_set().contains(v) { let i = choose|i: int| 0 <= i < y.len() && y[i] == v; assert(x[i] < x[m - 1]); } }
            assert(s.contains(v));
            assert forall|j: int| 0 <= j < m implies (#[trigger] x[j] <= a <==> j < low(x, a)) by { if j < m - 1 { assert(y[j] == x[j]); assert(x[j] < x[m - 1]); assert(y[j] <= a <==> j < low(y, a)); }
               if m > 1 { assert(x[m - 2] < x[m - 1]); assert(y[m - 2] <= a <==> m - 2 < low(y, a)); } }
        } else {
            assert(!s.contains(v));
            assert(d =~= e);
            assert forall|j: int| 0 <= j < m implies (#[trigger] x[j] <= a <==> j < low(x, a)) by { if j < m - 1 { assert(y[j] == x[j]); } }
        }
    }
}

pub proof fn lemma_range_set(a: int)
    requires a >= 0
    ensures set_int_range(1, a + 1).finite(), set_int_range(1, a + 1).len() == a, forall|v: int| #[trigger] set_int_range(1, a + 1).contains(v) <==> 1 <= v <= a
{
    let q = rangeseq(1, a + 1);
    assert forall|v: int| 1 <= v <= a implies #[trigger] set_int_range(1, a + 1).contains(v) by { assert(q[v - 1] == v); }
    assert(q.no_duplicates());
    q.unique_seq_to_set();
}

// the type of the class can be read off the numbers
pub proof fn lemma_d_fwd_at(la: Seq<int>, k: int, n: int, r: int, nt: int, j: int)
    requires 0 <= j < r, r == n + 1 - k, vidx(f_d(la, k, n, r, nt), r, 2 * n + 2), g_c(f_d(la, k, n, r, nt), k, n + 1, r)[j] == lift(la, k, nt, r)[j],
        lift(la, k, nt, r)[j] > k <==> f_d(la, k, n, r, nt)[j] <= n + 1, lift(la, k, nt, r)[j] > k <==> e_d(la, k, nt, j)
    ensures g_d(f_d(la, k, n, r, nt), k, n, r)[j] == la[j]
{
    hide(vidx);
    lemma_g_low(f_d(la, k, n, r, nt), k, n + 1, r, j);
}
pub proof fn lemma_d_fwd(la: Seq<int>, k: int, n: int, r: int, nt: int)
    requires kpart(la, k, r, n + k), k >= 0, r == n + 1 - k, r >= 0
    ensures vidx(f_d(la, k, n, r, nt), r, 2 * n + 2), forall|j: int| 0 <= j < r ==> #[trigger] g_d(f_d(la, k, n, r, nt), k, n, r)[j] == la[j],
        (exists|j: int| 0 <= j < r && #[trigger] la[j] == k) ==> (nt + low(f_d(la, k, n, r, nt), n + 1)) % 2 == 0,
        k == 0 && !(exists|j: int| 0 <= j < r && #[trigger] la[j] == k) ==> low(f_d(la, k, n, r, nt), n + 1) == n + 1
{
    hide(kpart);
    hide(incr);
    let b = lift(la, k, nt, r);
    let f = f_d(la, k, n, r, nt);
    lemma_lift(la, k, n, r, nt);
    lemma_c_fwd(b, k, n + 1, r);
    assert(incr(f, r, 2 * n + 2));
    lemma_low(f, r, 2 * n + 2, n + 1);
    let c = low(f, n + 1);
    assert forall|j: int| 0 <= j < r implies #[trigger] g_d(f, k, n, r)[j] == la[j] by {
        assert(g_c(f, k, n + 1, r)[j] == b[j]);
        assert(b[j] > k <==> f[j] <= n + 1);
        lemma_d_fwd_at(la, k, n, r, nt, j);
    }
    assert forall|j: int| 0 <= j < r implies (#[trigger] e_d(la, k, nt, j) <==> j < c) by { assert(b[j] > k <==> f[j] <= n + 1); assert(f[j] <= n + 1 <==> j < c); }
    lemma_e_count(la, k, r, n + k, nt, c);
}

pub proof fn lemma_e_count(la: Seq<int>, k: int, r: int, w: int, nt: int, c: int)
    requires kpart(la, k, r, w), k >= 0, 0 <= c <= r, forall|j: int| 0 <= j < r ==> (#[trigger] e_d(la, k, nt, j) <==> j < c)
    ensures (exists|j: int| 0 <= j < r && #[trigger] la[j] == k) ==> (nt + c) % 2 == 0,
        k == 0 && !(exists|j: int| 0 <= j < r && #[trigger] la[j] == k) ==> c == r
{
    if exists|j: int| 0 <= j < r && #[trigger] la[j] == k {
        let j1 = choose|j: int| 0 <= j < r && #[trigger] la[j] == k;
        let j0 = lemma_first_k(la, k, r, w, j1);
        assert(e_d(la, k, nt, j0) <==> (nt + j0) % 2 == 1);
        if j0 > 0 { assert(e_d(la, k, nt, j0 - 1)); }
        if j0 + 1 < r { assert(la[j0] >= la[j0 + 1]); assert(!e_d(la, k, nt, j0 + 1)); }
        assert(c == j0 || c == j0 + 1);
    } else if k == 0 {
        if r > 0 { assert(la[r - 1] >= 0); assert(la[r - 1] != k); assert(e_d(la, k, nt, r - 1)); }
    }
}

pub proof fn lemma_first_k(la: Seq<int>, k: int, m: int, w: int, j: int) -> (r: int)
    requires kpart(la, k, m, w), 0 <= j < m, la[j] == k
    ensures 0 <= r <= j, la[r] == k, r == 0 || la[r - 1] > k
    decreases j
{
    if j == 0 || la[j - 1] > k { j } else { assert(la[j - 1] >= la[j]); lemma_first_k(la, k, m, w, j - 1) }
}

pub proof fn lemma_d_bwd_at(x: Seq<int>, k: int, n: int, r: int, j: int)
    requires 0 <= j < r, r == n + 1 - k, vidx(x, r, 2 * n + 2)
    ensures g_d(x, k, n, r)[j] == g_c(x, k, n + 1, r)[j] - (if x[j] <= n + 1 { 1int } else { 0int }), g_c(x, k, n + 1, r)[j] > k <==> x[j] <= n + 1
{
    hide(vidx);
    lemma_g_low(x, k, n + 1, r, j);
}
pub proof fn lemma_d_bwd(x: Seq<int>, k: int, n: int, r: int, nt: int)
    requires vidx(x, r, 2 * n + 2), k >= 0, r == n + 1 - k, r >= 0,
        (exists|j: int| 0 <= j < r && #[trigger] g_d(x, k, n, r)[j] == k) ==> (nt + low(x, n + 1)) % 2 == 0
    ensures kpart(g_d(x, k, n, r), k, r, n + k), f_d(g_d(x, k, n, r), k, n, r, nt) =~= x
{
    hide(kpart);
    hide(incr);
    let b = g_c(x, k, n + 1, r);
    let la = g_d(x, k, n, r);
    lemma_c_bwd(x, k, n + 1, r);
    assert(incr(x, r, 2 * n + 2));
    lemma_low(x, r, 2 * n + 2, n + 1);
    let c = low(x, n + 1);
    assert forall|j: int| 0 <= j < r implies #[trigger] la[j] == b[j] - (if j < c { 1int } else { 0int }) && (b[j] > k <==> j < c) by {
        lemma_d_bwd_at(x, k, n, r, j);
        assert(b[j] > k <==> x[j] <= n + 1);
        assert(x[j] <= n + 1 <==> j < c);
    }
    assert(unlift(b, la, k, r, c));
    if r > 0 { assert(la[0] == b[0] - (if 0 < c { 1int } else { 0int })); assert(b[0] <= n + 1 + k) by { reveal(kpart); } }
    lemma_unlift(b, la, k, r, n + k, c);
    assert forall|j: int| 0 <= j < r implies (e_d(la, k, nt, j) <==> j < c) by { lemma_e_back(b, la, k, r, n + k, nt, c, j); }
    assert(lift(la, k, nt, r) =~= b);
    lemma_lift(la, k, n, r, nt);
}

pub open spec fn unlift(b: Seq<int>, la: Seq<int>, k: int, r: int, c: int) -> bool {
    la.len() == r && forall|j: int| 0 <= j < r ==> #[trigger] la[j] == b[j] - (if j < c { 1int } else { 0int }) && (b[j] > k <==> j < c)
}
pub proof fn lemma_unlift(b: Seq<int>, la: Seq<int>, k: int, r: int, w: int, c: int)
    requires kpart(b, k, r, w + 1), unlift(b, la, k, r, c), k >= 0, r > 0 ==> la[0] <= w
    ensures kpart(la, k, r, w)
{
    assert forall|i: int, j: int| 0 <= i <= j < r implies #[trigger] la[i] >= #[trigger] la[j] && la[j] >= 0 by { assert(b[i] >= b[j]); if i < j && b[i] > k { assert(b[i] > b[j]); } }
    assert forall|i: int, j: int| 0 <= i < j < r && #[trigger] la[i] > k implies la[i] > #[trigger] la[j] by { assert(b[i] > k); assert(b[i] > b[j]); }
}

pub proof fn lemma_e_back(b: Seq<int>, la: Seq<int>, k: int, r: int, w: int, nt: int, c: int, j: int)
    requires kpart(b, k, r, w + 1), kpart(la, k, r, w), unlift(b, la, k, r, c), k >= 0, 0 <= j < r, 0 <= c <= r,
        (exists|j: int| 0 <= j < r && #[trigger] la[j] == k) ==> (nt + c) % 2 == 0
    ensures e_d(la, k, nt, j) <==> j < c
{
    assert(la[j] == b[j] - (if j < c { 1int } else { 0int }));
    if la[j] == k {
        if j > 0 { assert(la[j - 1] == b[j - 1] - (if j - 1 < c { 1int } else { 0int })); assert(la[j - 1] >= la[j]); }
        if j < c {
            // the only row of length k + 1
            if j + 1 < r { assert(b[j] > b[j + 1]); assert(la[j + 1] == b[j + 1] - (if j + 1 < c { 1int } else { 0int })); assert(j + 1 >= c); }
            assert(j + 1 == c);
            if j > 0 { assert(b[j - 1] > b[j]); }
            assert((nt + c) % 2 == 0);
            assert((nt + j) % 2 == 1);
        } else {
            assert((nt + c) % 2 == 0);
            if j == 0 || k < la[j - 1] { assert(j == c) by { if j > 0 { assert(j - 1 < c); } } }
        }
    }
}

//# unit index
//# use idxmath spaces
// ---- index sets of classes and classes of index sets, as the functions compute them
pub open spec fn idx_a(l: Seq<int>, k: int, n: int) -> Seq<int> { f_a(pad(l, n - k), k, n - k) }
pub open spec fn idx_c(l: Seq<int>, k: int, n: int) -> Seq<int> { f_c(pad(l, n - k), k, n, n - k) }
pub open spec fn idx_b(l: Seq<int>, k: int, n: int) -> Seq<int> { f_b(pad(l, n - k), k, n, n - k) }
pub open spec fn nt_d(l: Seq<int>, n: int) -> int { if ends0(l) { n + 2 } else { n + 1 } }
pub open spec fn idx_d(l: Seq<int>, k: int, n: int) -> Seq<int> { f_d(pad(l, n + 1 - k), k, n, n + 1 - k, nt_d(l, n)) }
pub open spec fn part_a(x: Seq<int>, k: int, n: int) -> Seq<int> { clip(f_a(x, k, n - k)) }
pub open spec fn part_c(x: Seq<int>, k: int, n: int) -> Seq<int> { clip(g_c(x, k, n, n - k)) }
pub open spec fn part_b(x: Seq<int>, k: int, n: int) -> Seq<int> { clip(g_b(x, k, n, n - k)) }
pub open spec fn missing(x: Seq<int>, a: int) -> int { set_int_range(1, a + 1).difference(x.to_set()).len() as int }
pub open spec fn part_d(x: Seq<int>, k: int, n: int) -> Seq<int> {
    let l = clip(g_d(x, k, n, n + 1 - k));
    if l.contains(k) && missing(x, n + 1) % 2 == 1 { l.push(0) } else { l }
}
// N + 1 minus the numbers, in increasing order; in type D the two middle numbers change places when N / 2 is odd
pub open spec fn mid(v: int, nn: int) -> int { if v == nn / 2 { nn / 2 + 1 } else if v == nn / 2 + 1 { nn / 2 } else { v } }
pub open spec fn dual_idx(x: Seq<int>, nn: int, tp: int) -> Seq<int> {
    Seq::new(x.len(), |i: int| { let v = nn + 1 - x[x.len() - 1 - i]; if tp == str!"D" && (nn / 2) % 2 == 1 { mid(v, nn) } else { v } })
}

// ---- the classes of a space: at most m rows of length at most w, k-strict; in type D a zero may follow when k is a part
pub open spec fn box_a(l: Seq<int>, m: int, w: int) -> bool { is_part(l) && !ends0(l) && l.len() <= m && (l.len() > 0 ==> l[0] <= w) }
pub open spec fn in_box(l: Seq<int>, k: int, m: int, w: int) -> bool { box_a(l, m, w) && kstrict(l, k) }
pub open spec fn box_d(l: Seq<int>, k: int, m: int, w: int) -> bool {
    in_box(clip(l), k, m, w) && (if ends0(l) { k > 0 && l =~= clip(l).push(0) && clip(l).contains(k) } else { l =~= clip(l) })
}
pub open spec fn vidx_d(x: Seq<int>, k: int, n: int) -> bool { vidx(x, n + 1 - k, 2 * n + 2) && (k == 0 ==> missing(x, n + 1) % 2 == 0) }

pub proof fn lemma_pad_kpart(l: Seq<int>, k: int, m: int, w: int)
    requires in_box(l, k, m, w), m > 0 ==> w >= 0, k >= 0
    ensures kpart(pad(l, m), k, m, w), forall|g: Seq<int>| g.len() == m && (forall|j: int| 0 <= j < m ==> g[j] == pad(l, m)[j]) ==> #[trigger] clip(g) =~= l
{
    let la = pad(l, m);
    assert forall|i: int, j: int| 0 <= i <= j < m implies #[trigger] la[i] >= #[trigger] la[j] && la[j] >= 0 by { if j < l.len() { assert(l[i] >= l[j]); assert(l[j] >= 0); } else if i < l.len() { assert(l[i] >= 0); } }
    assert forall|i: int, j: int| 0 <= i < j < m && #[trigger] la[i] > k implies la[i] > #[trigger] la[j] by { if j < l.len() { assert(l[i] > l[j]); } }
    assert forall|g: Seq<int>| g.len() == m && (forall|j: int| 0 <= j < m ==> g[j] == pad(l, m)[j]) implies #[trigger] clip(g) =~= l by {
        assert(is_clip(g, l)) by { assert(g.subrange(0, l.len() as int) =~= l); }
        lemma_clip_unique(g, l);
    }
}

pub proof fn lemma_clip_box(g: Seq<int>, k: int, m: int, w: int)
    requires kpart(g, k, m, w), g.len() == m
    ensures in_box(clip(g), k, m, w), pad(clip(g), m).len() >= m, forall|j: int| 0 <= j < m ==> #[trigger] pad(clip(g), m)[j] == g[j], sum_seq(clip(g)) == sum_seq(g)
{
    let c = clip(g);
    lemma_is_clip(g);
    assert(is_part(c)) by {
        assert forall|i: int, j: int| 0 <= i <= j < c.len() implies c[i] >= c[j] by { assert(g[i] >= g[j]); }
        assert forall|j: int| 0 <= j < c.len() implies c[j] >= 0 by { assert(g[j] >= g[j]); }
    }
    assert(kstrict(c, k)) by { assert forall|i: int, j: int| 0 <= i < j < c.len() && c[i] > k implies c[i] > c[j] by { assert(g[i] > g[j]); } }
    assert(sum_seq(c) == sum_seq(g)) by {
        let z = g.subrange(c.len() as int, m);
        assert(g =~= c + z);
        lemma_sum_add(c, z);
        lemma_sum_zero(z);
    }
}

// a zero row more or not
pub proof fn lemma_append0(c: Seq<int>, b: bool)
    requires !ends0(c)
    ensures clip(c + tail0(b)) =~= c, ends0(c + tail0(b)) == b
{
    let l = c + tail0(b);
    assert(is_clip(l, c)) by { assert(l.subrange(0, c.len() as int) =~= c); if c.len() > 0 { assert(c.last() != 0); } }
    lemma_clip_unique(l, c);
}

pub proof fn lemma_f_ext(a: Seq<int>, b: Seq<int>, k: int, n: int, m: int)
    requires m >= 0, forall|j: int| 0 <= j < m ==> a[j] == #[trigger] b[j]
    ensures f_c(a, k, n, m) =~= f_c(b, k, n, m), f_b(a, k, n, m) =~= f_b(b, k, n, m), forall|nt: int| #[trigger] f_d(a, k, n, m, nt) =~= f_d(b, k, n, m, nt), f_a(a, k, m) =~= f_a(b, k, m)
{
    assert forall|j: int| 0 <= j < m implies #[trigger] cnt_le(a, 2 * k, j, j) == cnt_le(b, 2 * k, j, j) by {
        assert(a[j] == b[j]);
        assert forall|i: int| 0 <= i < j implies #[trigger] rel_le(a, 2 * k, i, j) == rel_le(b, 2 * k, i, j) by { assert(a[i] == b[i]); }
        lemma_cnt_le_ext(a, b, 2 * k, 2 * k, j, j);
    }
    assert forall|j: int| 0 <= j < m implies #[trigger] cnt_le(a, 2 * k - 1, j, j) == cnt_le(b, 2 * k - 1, j, j) by {
        assert(a[j] == b[j]);
        assert forall|i: int| 0 <= i < j implies #[trigger] rel_le(a, 2 * k - 1, i, j) == rel_le(b, 2 * k - 1, i, j) by { assert(a[i] == b[i]); }
        lemma_cnt_le_ext(a, b, 2 * k - 1, 2 * k - 1, j, j);
    }
    assert forall|nt: int| #[trigger] f_d(a, k, n, m, nt) =~= f_d(b, k, n, m, nt) by {
        assert forall|j: int| 0 <= j < m implies f_d(a, k, n, m, nt)[j] == f_d(b, k, n, m, nt)[j] by { assert(a[j] == b[j]); if j > 0 { assert(a[j - 1] == b[j - 1]); } }
    }
}

// C06, type A
pub proof fn theorem_index_a(l: Seq<int>, x: Seq<int>, k: int, n: int)
    requires 0 <= k <= n
    ensures box_a(l, n - k, k) ==> incr(idx_a(l, k, n), n - k, n) && part_a(idx_a(l, k, n), k, n) =~= l,
        incr(x, n - k, n) ==> box_a(part_a(x, k, n), n - k, k) && idx_a(part_a(x, k, n), k, n) =~= x,
{
    let m = n - k;
    if box_a(l, m, k) {
        let la = pad(l, m);
        lemma_pad_kpart(l, k, m, k);
        let f = idx_a(l, k, n);
        assert forall|i: int| 0 <= i < m implies 1 <= #[trigger] f[i] <= n by { assert(la[0] >= la[i] && la[i] >= 0); }
        assert forall|i: int, j: int| 0 <= i < j < m implies f[i] < f[j] by { assert(la[i] >= la[j]); }
        assert(clip(f_a(f, k, m)) =~= l) by { assert forall|j: int| 0 <= j < m implies f_a(f, k, m)[j] == la[j] by {} }
    }
    if incr(x, m, n) {
        let g = f_a(x, k, m);
        assert forall|i: int, j: int| 0 <= i <= j < m implies #[trigger] g[i] >= #[trigger] g[j] && g[j] >= 0 by { lemma_incr(x, m, n, i, j); lemma_incr(x, m, n, j, m - 1); assert(x[m - 1] <= n); }
        if m > 0 { assert(x[0] >= 1); }
        assert(kpart(g, k, m, k)) by { assert forall|i: int, j: int| 0 <= i < j < m && #[trigger] g[i] > k implies g[i] > #[trigger] g[j] by { assert(g[0] >= g[i]); } }
        lemma_clip_box(g, k, m, k);
        let la = pad(clip(g), m);
        lemma_f_ext(la, g, k, n, m);
        assert(f_a(g, k, m) =~= x);
    }
}
// C06, type C
pub proof fn theorem_index_c(l: Seq<int>, x: Seq<int>, k: int, n: int)
    requires 0 <= k <= n
    ensures in_box(l, k, n - k, n + k) ==> vidx(idx_c(l, k, n), n - k, 2 * n) && part_c(idx_c(l, k, n), k, n) =~= l,
        vidx(x, n - k, 2 * n) ==> in_box(part_c(x, k, n), k, n - k, n + k) && idx_c(part_c(x, k, n), k, n) =~= x,
{
    let m = n - k;
    if in_box(l, k, m, n + k) {
        lemma_pad_kpart(l, k, m, n + k);
        lemma_c_fwd(pad(l, m), k, n, m);
        let g = g_c(idx_c(l, k, n), k, n, m);
        assert forall|j: int| 0 <= j < m implies g[j] == pad(l, m)[j] by {}
        assert(clip(g) =~= l);
    }
    if vidx(x, m, 2 * n) {
        lemma_c_bwd(x, k, n, m);
        let g = g_c(x, k, n, m);
        lemma_clip_box(g, k, m, n + k);
        lemma_f_ext(pad(clip(g), m), g, k, n, m);
    }
}
// C06, type B
pub proof fn theorem_index_b(l: Seq<int>, x: Seq<int>, k: int, n: int)
    requires 0 <= k <= n
    ensures in_box(l, k, n - k, n + k) ==> vidx(idx_b(l, k, n), n - k, 2 * n + 1) && part_b(idx_b(l, k, n), k, n) =~= l,
        vidx(x, n - k, 2 * n + 1) ==> in_box(part_b(x, k, n), k, n - k, n + k) && idx_b(part_b(x, k, n), k, n) =~= x,
        vidx(x, n - k, 2 * n + 1) ==> !x.contains(n + 1),
{
    let m = n - k;
    if in_box(l, k, m, n + k) {
        lemma_pad_kpart(l, k, m, n + k);
        lemma_b_fwd(pad(l, m), k, n, m);
        let g = g_b(idx_b(l, k, n), k, n, m);
        assert forall|j: int| 0 <= j < m implies g[j] == pad(l, m)[j] by {}
        assert(clip(g) =~= l);
    }
    if vidx(x, m, 2 * n + 1) {
        lemma_b_bwd(x, k, n, m);
        let g = g_b(x, k, n, m);
        lemma_clip_box(g, k, m, n + k);
        lemma_f_ext(pad(clip(g), m), g, k, n, m);
        if x.contains(n + 1) { let i = choose|i: int| 0 <= i < x.len() && x[i] == n + 1; assert(x[i] + x[i] != 2 * n + 1 + 1); }
    }
}

pub proof fn lemma_has_k(l: Seq<int>, g: Seq<int>, k: int, m: int)
    requires l.len() <= m, g.len() == m, forall|j: int| 0 <= j < m ==> #[trigger] g[j] == pad(l, m)[j], k > 0
    ensures l.contains(k) <==> (exists|j: int| 0 <= j < m && #[trigger] g[j] == k)
{
    if l.contains(k) { let i = choose|i: int| 0 <= i < l.len() && l[i] == k; assert(g[i] == pad(l, m)[i]); }
    if exists|j: int| 0 <= j < m && #[trigger] g[j] == k { let i = choose|j: int| 0 <= j < m && #[trigger] g[j] == k; assert(g[i] == pad(l, m)[i]); assert(i < l.len()); assert(l[i] == k); }
}

// C06, type D
pub proof fn theorem_index_d(l: Seq<int>, x: Seq<int>, k: int, n: int)
    requires 0 <= k <= n + 1
    ensures box_d(l, k, n + 1 - k, n + k) ==> vidx_d(idx_d(l, k, n), k, n) && part_d(idx_d(l, k, n), k, n) =~= l,
        vidx_d(x, k, n) ==> box_d(part_d(x, k, n), k, n + 1 - k, n + k) && idx_d(part_d(x, k, n), k, n) =~= x,
{
    if box_d(l, k, n + 1 - k, n + k) { lemma_index_d_fwd(l, k, n); }
    if vidx_d(x, k, n) { lemma_index_d_bwd(x, k, n); }
}

pub proof fn lemma_index_d_fwd(l: Seq<int>, k: int, n: int)
    requires 0 <= k <= n + 1, box_d(l, k, n + 1 - k, n + k)
    ensures vidx_d(idx_d(l, k, n), k, n), part_d(idx_d(l, k, n), k, n) =~= l
{
    let r = n + 1 - k;
    let c = clip(l);
    let nt = nt_d(l, n);
    let la = pad(l, r);
    let lc = pad(c, r);
    let f = idx_d(l, k, n);
    let g = g_d(f, k, n, r);
    lemma_pad_kpart(c, k, r, n + k);
    assert(la =~= lc || la =~= lc.push(0)) by { if ends0(l) { assert(la =~= lc.push(0)); } }
    assert(kpart(la, k, r, n + k));
    lemma_d_type(la, k, n, r, nt);
    assert forall|j: int| 0 <= j < r implies #[trigger] g[j] == lc[j] by { assert(g[j] == la[j]); }
    assert(clip(g) =~= c);
    if k > 0 {
        lemma_has_k(c, g, k, r);
        if c.contains(k) {
            let j = choose|j: int| 0 <= j < r && #[trigger] g[j] == k;
            assert(la[j] == k);
        }
    } else {
        if c.contains(0) { let i = choose|i: int| 0 <= i < c.len() && c[i] == 0; lemma_is_clip(l); assert(c[i] >= c[c.len() - 1]); assert(c[c.len() - 1] >= 0); assert(false); }
    }
}

pub proof fn lemma_d_type(la: Seq<int>, k: int, n: int, r: int, nt: int)
    requires kpart(la, k, r, n + k), k >= 0, r == n + 1 - k, r >= 0, nt == n + 1 || nt == n + 2, k == 0 ==> nt == n + 1
    ensures vidx(f_d(la, k, n, r, nt), r, 2 * n + 2), forall|j: int| 0 <= j < r ==> #[trigger] g_d(f_d(la, k, n, r, nt), k, n, r)[j] == la[j],
        (exists|j: int| 0 <= j < r && #[trigger] la[j] == k) ==> (missing(f_d(la, k, n, r, nt), n + 1) % 2 == 1 <==> nt == n + 2),
        k == 0 ==> missing(f_d(la, k, n, r, nt), n + 1) % 2 == 0
{
    let f = f_d(la, k, n, r, nt);
    lemma_d_fwd(la, k, n, r, nt);
    lemma_low(f, r, 2 * n + 2, n + 1);
    let w = low(f, n + 1);
    assert(missing(f, n + 1) == n + 1 - w);
    assert((nt + w) % 2 == 0 ==> ((n + 1 - w) % 2 == 1 <==> nt == n + 2)) by (nonlinear_arith) requires nt == n + 1 || nt == n + 2;
}

pub proof fn lemma_index_d_bwd(x: Seq<int>, k: int, n: int)
    requires 0 <= k <= n + 1, vidx_d(x, k, n)
    ensures box_d(part_d(x, k, n), k, n + 1 - k, n + k), idx_d(part_d(x, k, n), k, n) =~= x
{
    let r = n + 1 - k;
    let g = g_d(x, k, n, r);
    let c = clip(g);
    let l = part_d(x, k, n);
    let nt = nt_d(l, n);
    let z = c.contains(k) && missing(x, n + 1) % 2 == 1;
    lemma_low(x, r, 2 * n + 2, n + 1);
    let w = low(x, n + 1);
    assert(missing(x, n + 1) == n + 1 - w);
    lemma_g_d_kpart(x, k, n, r);
    lemma_clip_box(g, k, r, n + k);
    assert(l =~= c + tail0(z));
    lemma_append0(c, z);
    if k == 0 && c.contains(0) {
        let i = choose|i: int| 0 <= i < c.len() && c[i] == 0; assert(c[i] >= c[c.len() - 1]); assert(false);
    }
    assert forall|j: int| 0 <= j < r implies #[trigger] g[j] == pad(c, r)[j] by { assert(pad(c, r)[j] == g[j]); }
    if k > 0 { lemma_has_k(c, g, k, r); }
    if exists|j: int| 0 <= j < r && #[trigger] g[j] == k { lemma_nt(nt, w, n); }
    lemma_d_bwd(x, k, n, r, nt);
    assert forall|j: int| 0 <= j < r implies pad(l, r)[j] == #[trigger] g[j] by { assert(g[j] == pad(c, r)[j]); }
    lemma_f_ext(pad(l, r), g, k, n, r);
}

pub proof fn lemma_nt(nt: int, w: int, n: int)
    requires nt == (if (n + 1 - w) % 2 == 1 { n + 2 } else { n + 1 })
    ensures (nt + w) % 2 == 0
{}

pub proof fn lemma_g_d_kpart(x: Seq<int>, k: int, n: int, r: int)
    requires vidx(x, r, 2 * n + 2), k >= 0, r == n + 1 - k, r >= 0
    ensures kpart(g_d(x, k, n, r), k, r, n + k)
{
    lemma_low(x, r, 2 * n + 2, n + 1);
    let nt = low(x, n + 1);
    assert((nt + nt) % 2 == 0);
    lemma_d_bwd(x, k, n, r, nt);
}

//# fn schubertpy/qcalc.py::part2indexA_inner(lam: L, k: I, n: I) -> L
//# spec idx_a
//# vars la a
ensures true
//# end
//# fn schubertpy/qcalc.py::_count_inner(la: L, k: I, j: I, delta: I) -> I
//# vars count
requires 0 <= j < la.len()
ensures result == cnt_le(la, 2 * k + delta, j, j)
//# loop 0
invariant count == cnt_le(la, 2 * k + delta, j, it0)
//# end
//# fn schubertpy/qcalc.py::part2indexB_inner(lam: L, k: I, n: I) -> L
//# spec idx_b
//# vars la res count a
ensures true
//# loop 0
invariant res =~= idx_b(lam, k, n).subrange(0, it0)
//# end
//# fn schubertpy/qcalc.py::part2indexC_inner(lam: L, k: I, n: I) -> L
//# spec idx_c
//# vars la res count
ensures true
//# loop 0
invariant res =~= idx_c(lam, k, n).subrange(0, it0)
//# end
//# fn schubertpy/qcalc.py::part2indexD_inner(lam: L, k: I, n: I) -> L
//# spec idx_d
//# vars la nt res count value
ensures true
//# loop 0
invariant res =~= idx_d(lam, k, n).subrange(0, it0)
//# end
//# fn schubertpy/qcalc.py::index2partA_inner(idx: L, k: I, n: I) -> L
//# spec part_a
//# vars la
requires idx.len() >= n - k
ensures true
//# loop 0
invariant la =~= f_a(idx, k, n - k).subrange(0, it0)
//# hint after loop 0
assert(la =~= f_a(idx, k, n - k));
//# end
//# fn schubertpy/qcalc.py::index2partC_inner(idx: L, k: I, n: I) -> L
//# spec part_c
//# vars la count
requires idx.len() >= n - k
ensures true
//# loop 0
invariant la =~= g_c(idx, k, n, n - k).subrange(0, it0)
//# loop 1
invariant count == cnt_gt(idx, 2 * n + 1, j, it1)
//# hint after loop 0
assert(la =~= g_c(idx, k, n, n - k));
//# end
//# fn schubertpy/qcalc.py::index2partB_inner(idx: L, k: I, n: I) -> L
//# spec part_b
//# vars la count
requires idx.len() >= n - k
ensures true
//# loop 0
invariant la =~= g_b(idx, k, n, n - k).subrange(0, it0)
//# loop 1
invariant count == cnt_gt(idx, 2 * n + 2, j, it1)
//# hint after loop 0
assert(la =~= g_b(idx, k, n, n - k));
//# end
//# fn schubertpy/qcalc.py::index2partD_inner(idx: L, k: I, n: I) -> L
//# spec part_d
//# vars la count missing_indices
requires idx.len() >= n + 1 - k
ensures true
//# loop 0
invariant la =~= g_d(idx, k, n, n + 1 - k).subrange(0, it0)
//# loop 1
invariant count == cnt_gt(idx, 2 * n + 3, j, it1)
//# hint after loop 0
assert(la =~= g_d(idx, k, n, n + 1 - k));
//# end
//# fn schubertpy/qcalc.py::dualize_index_inner(idx: L, N: I, tp: STR) -> L
//# spec dual_idx
//# vars res
//# types res: LF
requires tp == str!"D" ==> N % 2 == 0
ensures true
//# loop 0
invariant res =~= Seq::new(it0 as nat, |i: int| N + 1 - idx[idx.len() - 1 - i])
//# loop 1
invariant res =~= Seq::new(idx.len(), |i: int| { let v = N + 1 - idx[idx.len() - 1 - i]; if i < it1 { mid(v, N) } else { v } })
//# end

//# fn schubertpy/grassmannian.py::Grassmannian.part2index(self_: SPACE, lc: FS) -> FS
ensures result == fs_apply(|lam: Seq<int>| fs_one(idx_a(lam, self_._k, self_._n)), lc)
//# end
//# fn schubertpy/grassmannian.py::Grassmannian.part2index^list(self_: SPACE, lc: L) -> FS
ensures result =~= fs_one(idx_a(lc, self_._k, self_._n))
//# hint return
lemma_fs_apply_map(|lam: Seq<int>| fs_one(idx_a(lam, self_._k, self_._n)), |x: Seq<int>| idx_a(x, self_._k, self_._n), fs_one(lc));
//# end
//# fn schubertpy/grassmannian.py::Grassmannian.index2part(self_: SPACE, lc: FS) -> FS
requires forall|i: int| 0 <= i < lc.len() ==> (#[trigger] lc[i]).lam.len() >= self_._n - self_._k
ensures result == fs_apply(|idx: Seq<int>| fs_one(part_a(idx, self_._k, self_._n)), lc)
//# end
//# fn schubertpy/grassmannian.py::Grassmannian.index2part^list(self_: SPACE, lc: L) -> FS
requires lc.len() >= self_._n - self_._k
ensures result =~= fs_one(part_a(lc, self_._k, self_._n))
//# hint return
lemma_fs_apply_map(|lam: Seq<int>| fs_one(part_a(lam, self_._k, self_._n)), |x: Seq<int>| part_a(x, self_._k, self_._n), fs_one(lc));
//# end
//# fn schubertpy/isotropic_grassmannian.py::IsotropicGrassmannian.part2index(self_: SPACE, lc: FS) -> FS
ensures result == fs_apply(|lam: Seq<int>| fs_one(idx_c(lam, self_._k, self_._n)), lc)
//# end
//# fn schubertpy/isotropic_grassmannian.py::IsotropicGrassmannian.part2index^list(self_: SPACE, lc: L) -> FS
ensures result =~= fs_one(idx_c(lc, self_._k, self_._n))
//# hint return
lemma_fs_apply_map(|lam: Seq<int>| fs_one(idx_c(lam, self_._k, self_._n)), |x: Seq<int>| idx_c(x, self_._k, self_._n), fs_one(lc));
//# end
//# fn schubertpy/isotropic_grassmannian.py::IsotropicGrassmannian.index2part(self_: SPACE, lc: FS) -> FS
requires forall|i: int| 0 <= i < lc.len() ==> (#[trigger] lc[i]).lam.len() >= self_._n - self_._k
ensures result == fs_apply(|idx: Seq<int>| fs_one(part_c(idx, self_._k, self_._n)), lc)
//# end
//# fn schubertpy/isotropic_grassmannian.py::IsotropicGrassmannian.index2part^list(self_: SPACE, lc: L) -> FS
requires lc.len() >= self_._n - self_._k
ensures result =~= fs_one(part_c(lc, self_._k, self_._n))
//# hint return
lemma_fs_apply_map(|lam: Seq<int>| fs_one(part_c(lam, self_._k, self_._n)), |x: Seq<int>| part_c(x, self_._k, self_._n), fs_one(lc));
//# end

pub open spec fn idx_o(l: Seq<int>, s: Space) -> Seq<int> { if s._type == str!"D" { idx_d(l, s._k, s._n) } else { idx_b(l, s._k, s._n) } }
pub open spec fn part_o(l: Seq<int>, s: Space) -> Seq<int> { if s._type == str!"D" { part_d(l, s._k, s._n) } else { part_b(l, s._k, s._n) } }
pub open spec fn rows_o(s: Space) -> int { if s._type == str!"D" { s._n + 1 - s._k } else { s._n - s._k } }
//# fn schubertpy/orthogonal_grassmannian.py::OrthogonalGrassmannian.part2index(self_: SPACE, lc: FS) -> FS
//# types f: FN
//# vars f
ensures result == fs_apply(|lam: Seq<int>| fs_one(idx_o(lam, self_)), lc)
//# end
//# fn schubertpy/orthogonal_grassmannian.py::OrthogonalGrassmannian.part2index^list(self_: SPACE, lc: L) -> FS
//# types f: FN
ensures result =~= fs_one(idx_o(lc, self_))
//# hint return
lemma_fs_apply_map(|lam: Seq<int>| fs_one(idx_o(lam, self_)), |x: Seq<int>| idx_o(x, self_), fs_one(lc));
//# end
//# fn schubertpy/orthogonal_grassmannian.py::OrthogonalGrassmannian.index2part(self_: SPACE, lc: FS) -> FS
//# types f: FN
//# vars f
requires forall|i: int| 0 <= i < lc.len() ==> (#[trigger] lc[i]).lam.len() >= rows_o(self_)
ensures result == fs_apply(|idx: Seq<int>| fs_one(part_o(idx, self_)), lc)
//# end
//# fn schubertpy/orthogonal_grassmannian.py::OrthogonalGrassmannian.index2part^list(self_: SPACE, lc: L) -> FS
//# types f: FN
requires lc.len() >= rows_o(self_)
ensures result =~= fs_one(part_o(lc, self_))
//# hint return
lemma_fs_apply_map(|lam: Seq<int>| fs_one(part_o(lam, self_)), |x: Seq<int>| part_o(x, self_), fs_one(lc));
//# end

// three extensions of maps of classes one after the other
pub proof fn lemma_dualize(a: Seq<Term>, g1: spec_fn(Seq<int>) -> Seq<int>, g2: spec_fn(Seq<int>) -> Seq<int>, g3: spec_fn(Seq<int>) -> Seq<int>,
        f1: spec_fn(Seq<int>) -> Seq<Term>, f2: spec_fn(Seq<int>) -> Seq<Term>, f3: spec_fn(Seq<int>) -> Seq<Term>, g: spec_fn(Seq<int>) -> Seq<int>)
    requires forall|x: Seq<int>| #[trigger] f1(x) == fs_one(g1(x)), forall|x: Seq<int>| #[trigger] f2(x) == fs_one(g2(x)), forall|x: Seq<int>| #[trigger] f3(x) == fs_one(g3(x)),
        forall|x: Seq<int>| #[trigger] g(x) == g3(g2(g1(x)))
    ensures fs_apply(f3, fs_apply(f2, fs_apply(f1, a))) =~= fs_map(g, a)
{
    lemma_fs_apply_map(f1, g1, a);
    lemma_fs_apply_map(f2, g2, fs_map(g1, a));
    lemma_fs_apply_map(f3, g3, fs_map(g2, fs_map(g1, a)));
}

// ---- duals
pub open spec fn dual_a(l: Seq<int>, k: int, n: int) -> Seq<int> { part_a(dual_idx(idx_a(l, k, n), n, str!"A"), k, n) }
pub open spec fn dual_c(l: Seq<int>, k: int, n: int) -> Seq<int> { part_c(dual_idx(idx_c(l, k, n), 2 * n, str!"C"), k, n) }
pub open spec fn dual_b(l: Seq<int>, k: int, n: int) -> Seq<int> { part_b(dual_idx(idx_b(l, k, n), 2 * n + 1, str!"B"), k, n) }
pub open spec fn dual_d(l: Seq<int>, k: int, n: int) -> Seq<int> { part_d(dual_idx(idx_d(l, k, n), 2 * n + 2, str!"D"), k, n) }
pub open spec fn dual_o(l: Seq<int>, s: Space) -> Seq<int> { if s._type == str!"D" { dual_d(l, s._k, s._n) } else { dual_b(l, s._k, s._n) } }

//# fn schubertpy/grassmannian.py::Grassmannian.dualize(self_: SPACE, lc: FS) -> FS
//# vars N index
requires is_A(self_)
ensures result =~= fs_map(|l: Seq<int>| dual_a(l, self_._k, self_._n), lc)
//# hint return
lemma_dualize(lc, |l: Seq<int>| idx_a(l, self_._k, self_._n), |x: Seq<int>| dual_idx(x, self_._n, str!"A"), |x: Seq<int>| part_a(x, self_._k, self_._n),
    |l: Seq<int>| fs_one(idx_a(l, self_._k, self_._n)), |x: Seq<int>| fs_one(dual_idx(x, self_._n, str!"A")), |x: Seq<int>| fs_one(part_a(x, self_._k, self_._n)), |l: Seq<int>| dual_a(l, self_._k, self_._n));
//# hint call Grassmannian.part2index
lemma_fs_apply_map(|l: Seq<int>| fs_one(idx_a(l, self_._k, self_._n)), |l: Seq<int>| idx_a(l, self_._k, self_._n), lc);
lemma_fs_apply_map(|x: Seq<int>| fs_one(dual_idx(x, self_._n, str!"A")), |x: Seq<int>| dual_idx(x, self_._n, str!"A"), $r);
//# end
//# fn schubertpy/isotropic_grassmannian.py::IsotropicGrassmannian.dualize(self_: SPACE, lc: FS) -> FS
//# vars N index
requires is_C(self_)
ensures result =~= fs_map(|l: Seq<int>| dual_c(l, self_._k, self_._n), lc)
//# hint return
lemma_dualize(lc, |l: Seq<int>| idx_c(l, self_._k, self_._n), |x: Seq<int>| dual_idx(x, 2 * self_._n, str!"C"), |x: Seq<int>| part_c(x, self_._k, self_._n),
    |l: Seq<int>| fs_one(idx_c(l, self_._k, self_._n)), |x: Seq<int>| fs_one(dual_idx(x, 2 * self_._n, str!"C")), |x: Seq<int>| fs_one(part_c(x, self_._k, self_._n)), |l: Seq<int>| dual_c(l, self_._k, self_._n));
//# hint call IsotropicGrassmannian.part2index
lemma_fs_apply_map(|l: Seq<int>| fs_one(idx_c(l, self_._k, self_._n)), |l: Seq<int>| idx_c(l, self_._k, self_._n), lc);
lemma_fs_apply_map(|x: Seq<int>| fs_one(dual_idx(x, 2 * self_._n, str!"C")), |x: Seq<int>| dual_idx(x, 2 * self_._n, str!"C"), $r);
//# end
pub open spec fn nn_o(s: Space) -> int { if s._type == str!"D" { 2 * s._n + 2 } else { 2 * s._n + 1 } }
//# fn schubertpy/orthogonal_grassmannian.py::OrthogonalGrassmannian.dualize(self_: SPACE, lc: FS) -> FS
//# vars N index
requires is_B(self_) || is_D(self_)
ensures result =~= fs_map(|l: Seq<int>| dual_o(l, self_), lc)
//# hint return
lemma_dualize(lc, |l: Seq<int>| idx_o(l, self_), |x: Seq<int>| dual_idx(x, nn_o(self_), self_._type), |x: Seq<int>| part_o(x, self_),
    |l: Seq<int>| fs_one(idx_o(l, self_)), |x: Seq<int>| fs_one(dual_idx(x, nn_o(self_), self_._type)), |x: Seq<int>| fs_one(part_o(x, self_)), |l: Seq<int>| dual_o(l, self_));
//# hint call OrthogonalGrassmannian.part2index
lemma_fs_apply_map(|l: Seq<int>| fs_one(idx_o(l, self_)), |l: Seq<int>| idx_o(l, self_), lc);
lemma_fs_apply_map(|x: Seq<int>| fs_one(dual_idx(x, nn_o(self_), self_._type)), |x: Seq<int>| dual_idx(x, nn_o(self_), self_._type), $r);
//# end

// ---- C07: the dual of a class
pub open spec fn flip(x: Seq<int>, c: int) -> Seq<int> { Seq::new(x.len(), |i: int| c - x[x.len() - 1 - i]) }
// numbers of t above c
pub open spec fn hits(t: Seq<int>, c: int) -> int
    decreases t.len()
{ if t.len() == 0 { 0 } else { hits(t.drop_last(), c) + (if t.last() > c { 1int } else { 0int }) } }
pub open spec fn tot(x: Seq<int>, s: int) -> int
    decreases x.len()
{ if x.len() == 0 { 0 } else { tot(x.drop_last(), s) + hits(x.drop_last(), s - x.last()) } }

pub proof fn lemma_hits_cnt(x: Seq<int>, s: int, j: int, t: int)
    requires 0 <= t <= j < x.len()
    ensures cnt_gt(x, s, j, t) == hits(x.subrange(0, t), s - x[j])
    decreases t
{
    if t > 0 { lemma_hits_cnt(x, s, j, t - 1); assert(x.subrange(0, t).drop_last() =~= x.subrange(0, t - 1)); }
}
pub proof fn lemma_hits_front(a: int, t: Seq<int>, c: int)
    ensures hits(seq![a] + t, c) == hits(t, c) + (if a > c { 1int } else { 0int })
    decreases t.len()
{
    let y = seq![a] + t;
    if t.len() == 0 { assert(y.drop_last() =~= Seq::<int>::empty()); assert(hits(y.drop_last(), c) == 0); } else { assert(y.drop_last() =~= seq![a] + t.drop_last()); assert(y.last() == t.last()); lemma_hits_front(a, t.drop_last(), c); }
}
pub proof fn lemma_tot_front(a: int, t: Seq<int>, s: int)
    ensures tot(seq![a] + t, s) == tot(t, s) + hits(t, s - a)
    decreases t.len()
{
    let y = seq![a] + t;
    if t.len() == 0 {
        assert(y.drop_last() =~= Seq::<int>::empty());
        assert(tot(y.drop_last(), s) == 0);
        assert(hits(y.drop_last(), s - y.last()) == 0);
    } else {
        assert(y.drop_last() =~= seq![a] + t.drop_last());
        assert(y.last() == t.last());
        lemma_tot_front(a, t.drop_last(), s);
        lemma_hits_front(a, t.drop_last(), s - t.last());
    }
}
pub proof fn lemma_hits_flip(x: Seq<int>, c: int, b: int)
    requires forall|i: int| 0 <= i < x.len() ==> #[trigger] x[i] + b != c
    ensures hits(flip(x, c), b) + hits(x, c - b) == x.len()
    decreases x.len()
{
    if x.len() > 0 {
        let t = x.drop_last();
        assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] + b != c by { assert(t[i] == x[i]); }
        lemma_hits_flip(t, c, b);
        assert(flip(x, c) =~= seq![c - x.last()] + flip(t, c));
        lemma_hits_front(c - x.last(), flip(t, c), b);
        assert(x[x.len() - 1] + b != c);
    }
}
pub proof fn lemma_sum_one(v: int)
    ensures sum_seq(seq![v]) == v
{ assert(seq![v].drop_last() =~= Seq::<int>::empty()); assert(sum_seq(seq![v].drop_last()) == 0); }
// pairs with sum above c, in x and in what it is sent to, are all pairs
pub proof fn lemma_tot_flip(x: Seq<int>, c: int)
    requires forall|i: int, j: int| 0 <= i <= j < x.len() ==> #[trigger] x[i] + #[trigger] x[j] != c
    ensures 2 * (tot(x, c) + tot(flip(x, c), c)) == x.len() * (x.len() - 1), sum_seq(x) + sum_seq(flip(x, c)) == x.len() * c
    decreases x.len()
{
    if x.len() > 0 {
        let t = x.drop_last();
        let b = x.last();
        assert forall|i: int, j: int| 0 <= i <= j < t.len() implies #[trigger] t[i] + #[trigger] t[j] != c by { assert(t[i] == x[i] && t[j] == x[j]); assert(x[i] + x[j] != c); }
        lemma_tot_flip(t, c);
        assert(flip(x, c) =~= seq![c - b] + flip(t, c));
        lemma_tot_front(c - b, flip(t, c), c);
        assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] + b != c by { assert(t[i] == x[i]); assert(x[i] + x[x.len() - 1] != c); }
        lemma_hits_flip(t, c, b);
        lemma_sum_add(seq![c - b], flip(t, c));
        lemma_sum_one(c - b);
        let m = x.len() as int;
        assert(m * (m - 1) == (m - 1) * (m - 2) + 2 * (m - 1)) by (nonlinear_arith);
        assert(m * c == (m - 1) * c + c) by (nonlinear_arith);
    } else { assert(flip(x, c) =~= x); }
}

// the rows of the class add up to
pub proof fn lemma_sum_g_c(x: Seq<int>, k: int, n: int, m: int)
    requires x.len() == m
    ensures sum_seq(g_c(x, k, n, m)) == m * (n + k + 1) - sum_seq(x) + tot(x, 2 * n + 1)
{ lemma_sum_g_up(x, k, n, m, m); assert(x.subrange(0, m) =~= x); assert(g_c(x, k, n, m).subrange(0, m) =~= g_c(x, k, n, m)); }
pub proof fn lemma_sum_g_up(x: Seq<int>, k: int, n: int, m: int, t: int)
    requires x.len() == m, 0 <= t <= m
    ensures sum_seq(g_c(x, k, n, m).subrange(0, t)) == t * (n + k + 1) - sum_seq(x.subrange(0, t)) + tot(x.subrange(0, t), 2 * n + 1)
    decreases t
{
    let g = g_c(x, k, n, m);
    let s = 2 * n + 1;
    if t > 0 {
        lemma_sum_g_up(x, k, n, m, t - 1);
        let gt = g.subrange(0, t);
        let xt = x.subrange(0, t);
        assert(gt.drop_last() =~= g.subrange(0, t - 1));
        assert(xt.drop_last() =~= x.subrange(0, t - 1));
        lemma_hits_cnt(x, s, t - 1, t - 1);
        assert(gt.last() == n + k + 1 - x[t - 1] + cnt_gt(x, s, t - 1, t - 1));
        assert(xt.last() == x[t - 1]);
        assert(tot(xt, s) == tot(xt.drop_last(), s) + hits(xt.drop_last(), s - xt.last()));
        assert(t * (n + k + 1) == (t - 1) * (n + k + 1) + (n + k + 1)) by (nonlinear_arith);
    } else {
        assert(g.subrange(0, t).len() == 0 && x.subrange(0, t).len() == 0);
        assert(tot(x.subrange(0, t), s) == 0);
        assert(t * (n + k + 1) == 0) by (nonlinear_arith) requires t == 0;
    }
}

pub proof fn lemma_flip(x: Seq<int>, m: int, nn: int)
    requires vidx(x, m, nn)
    ensures vidx(flip(x, nn + 1), m, nn), flip(flip(x, nn + 1), nn + 1) =~= x
{
    let y = flip(x, nn + 1);
    assert forall|i: int, j: int| 0 <= i < j < m implies y[i] < y[j] by { assert(x[m - 1 - j] < x[m - 1 - i]); }
    assert forall|i: int| 0 <= i < m implies 1 <= #[trigger] y[i] <= nn by { assert(1 <= x[m - 1 - i] <= nn); }
    assert forall|i: int, j: int| 0 <= i <= j < m implies #[trigger] y[i] + #[trigger] y[j] != nn + 1 by { assert(x[m - 1 - j] + x[m - 1 - i] != nn + 1); }
}

// dimension of the space
pub open spec fn dim_a(m: int, k: int) -> int { m * k }
pub open spec fn dim2_c(m: int, k: int) -> int { m * (4 * k + m + 1) }
pub open spec fn dim2_d(m: int, k: int) -> int { m * (4 * k + m - 1) }

pub proof fn lemma_dual_c_sum(x: Seq<int>, k: int, n: int, m: int)
    requires vidx(x, m, 2 * n), m == n - k
    ensures 2 * (sum_seq(g_c(x, k, n, m)) + sum_seq(g_c(flip(x, 2 * n + 1), k, n, m))) == dim2_c(m, k)
{
    lemma_tot_flip(x, 2 * n + 1);
    lemma_sum_g_c(x, k, n, m);
    lemma_sum_g_c(flip(x, 2 * n + 1), k, n, m);
    assert(2 * (2 * (m * (n + k + 1)) - m * (2 * n + 1)) + m * (m - 1) == m * (4 * k + m + 1)) by (nonlinear_arith) requires m == n - k;
}

// C07, type C
pub proof fn theorem_dual_c(l: Seq<int>, k: int, n: int)
    requires 0 <= k <= n, in_box(l, k, n - k, n + k)
    ensures in_box(dual_c(l, k, n), k, n - k, n + k), dual_c(dual_c(l, k, n), k, n) =~= l, 2 * (sum_seq(l) + sum_seq(dual_c(l, k, n))) == dim2_c(n - k, k)
{
    let m = n - k;
    let x = idx_c(l, k, n);
    let y = dual_idx(x, 2 * n, str!"C");
    theorem_index_c(l, x, k, n);
    assert(y =~= flip(x, 2 * n + 1));
    lemma_flip(x, m, 2 * n);
    theorem_index_c(l, y, k, n);
    assert(dual_idx(y, 2 * n, str!"C") =~= flip(y, 2 * n + 1));
    lemma_dual_c_sum(x, k, n, m);
    lemma_c_bwd(x, k, n, m);
    lemma_c_bwd(y, k, n, m);
    lemma_clip_box(g_c(x, k, n, m), k, m, n + k);
    lemma_clip_box(g_c(y, k, n, m), k, m, n + k);
}
// C07, type B
pub proof fn theorem_dual_b(l: Seq<int>, k: int, n: int)
    requires 0 <= k <= n, in_box(l, k, n - k, n + k)
    ensures in_box(dual_b(l, k, n), k, n - k, n + k), dual_b(dual_b(l, k, n), k, n) =~= l, 2 * (sum_seq(l) + sum_seq(dual_b(l, k, n))) == dim2_c(n - k, k)
{
    lemma_dual_b_c(l, k, n);
    theorem_dual_c(l, k, n);
    lemma_dual_b_c(dual_c(l, k, n), k, n);
}
pub proof fn lemma_idx_b_c(l: Seq<int>, k: int, n: int)
    requires 0 <= k <= n, in_box(l, k, n - k, n + k)
    ensures idx_b(l, k, n) =~= up(idx_c(l, k, n), n)
{
    lemma_pad_kpart(l, k, n - k, n + k);
    lemma_b_fwd(pad(l, n - k), k, n, n - k);
}
pub proof fn lemma_flip_up(x: Seq<int>, m: int, n: int)
    requires vidx(x, m, 2 * n)
    ensures flip(up(x, n), 2 * n + 2) =~= up(flip(x, 2 * n + 1), n)
{}
pub proof fn lemma_dual_b_c(l: Seq<int>, k: int, n: int)
    requires 0 <= k <= n, in_box(l, k, n - k, n + k)
    ensures dual_b(l, k, n) =~= dual_c(l, k, n)
{
    let m = n - k;
    let x = idx_c(l, k, n);
    theorem_index_c(l, x, k, n);
    lemma_idx_b_c(l, k, n);
    let y = flip(x, 2 * n + 1);
    lemma_flip(x, m, 2 * n);
    lemma_flip_up(x, m, n);
    lemma_dual_flip(x, 2 * n, str!"C");
    lemma_dual_flip(up(x, n), 2 * n + 1, str!"B");
    lemma_g_up(y, k, n, m);
}
pub proof fn lemma_dual_flip(x: Seq<int>, nn: int, tp: int)
    requires tp != str!"D"
    ensures dual_idx(x, nn, tp) =~= flip(x, nn + 1)
{}
// C07, type A
pub proof fn lemma_flip_incr(x: Seq<int>, m: int, n: int)
    requires incr(x, m, n)
    ensures incr(flip(x, n + 1), m, n), flip(flip(x, n + 1), n + 1) =~= x
{
    let y = flip(x, n + 1);
    assert forall|i: int, j: int| 0 <= i < j < m implies y[i] < y[j] by { assert(x[m - 1 - j] < x[m - 1 - i]); }
    assert forall|i: int| 0 <= i < m implies 1 <= #[trigger] y[i] <= n by { assert(1 <= x[m - 1 - i] <= n); }
}
pub proof fn theorem_dual_a(l: Seq<int>, k: int, n: int)
    requires 0 <= k <= n, box_a(l, n - k, k)
    ensures box_a(dual_a(l, k, n), n - k, k), dual_a(dual_a(l, k, n), k, n) =~= l, sum_seq(l) + sum_seq(dual_a(l, k, n)) == dim_a(n - k, k)
{
    let m = n - k;
    let x = idx_a(l, k, n);
    let y = flip(x, n + 1);
    theorem_index_a(l, x, k, n);
    lemma_dual_flip(x, n, str!"A");
    lemma_flip_incr(x, m, n);
    theorem_index_a(l, y, k, n);
    lemma_dual_flip(y, n, str!"A");
    lemma_dual_a_sum(l, k, n);
}
pub proof fn lemma_dual_a_row(la: Seq<int>, k: int, m: int, n: int)
    requires la.len() == m, m == n - k
    ensures f_a(flip(f_a(la, k, m), n + 1), k, m) =~= flip(la, k)
{}
pub proof fn lemma_pad_front(l: Seq<int>, m: int)
    requires l.len() <= m
    ensures sum_seq(pad(l, m).subrange(0, m)) == sum_seq(l)
{
    let z = rep(0, m - l.len());
    assert(pad(l, m).subrange(0, m) =~= l + z);
    lemma_sum_add(l, z);
    lemma_sum_zero(z);
}
pub proof fn lemma_dual_a_sum(l: Seq<int>, k: int, n: int)
    requires 0 <= k <= n, box_a(l, n - k, k), incr(flip(idx_a(l, k, n), n + 1), n - k, n)
    ensures sum_seq(l) + sum_seq(dual_a(l, k, n)) == dim_a(n - k, k)
{
    let m = n - k;
    let x = idx_a(l, k, n);
    let y = flip(x, n + 1);
    let la = pad(l, m).subrange(0, m);
    lemma_dual_flip(x, n, str!"A");
    assert(f_a(la, k, m) =~= x);
    // row j of the dual is k minus row m - 1 - j
    lemma_dual_a_row(la, k, m, n);
    lemma_pad_front(l, m);
    lemma_sum_flip(la, k);
    lemma_incr_kpart(y, k, n, m);
    lemma_clip_box(f_a(y, k, m), k, m, k);
}
pub proof fn lemma_incr_kpart(x: Seq<int>, k: int, n: int, m: int)
    requires incr(x, m, n), m == n - k, k >= 0, m >= 0
    ensures kpart(f_a(x, k, m), k, m, k)
{
    let g = f_a(x, k, m);
    assert forall|i: int, j: int| 0 <= i <= j < m implies #[trigger] g[i] >= #[trigger] g[j] && g[j] >= 0 by { lemma_incr(x, m, n, i, j); lemma_incr(x, m, n, j, m - 1); assert(x[m - 1] <= n); }
    if m > 0 { assert(x[0] >= 1); }
    assert forall|i: int, j: int| 0 <= i < j < m && #[trigger] g[i] > k implies g[i] > #[trigger] g[j] by { assert(g[0] >= g[i]); }
}
pub proof fn lemma_sum_flip(x: Seq<int>, c: int)
    ensures sum_seq(x) + sum_seq(flip(x, c)) == x.len() * c
    decreases x.len()
{
    if x.len() > 0 {
        let t = x.drop_last();
        let b = x.last();
        lemma_sum_flip(t, c);
        assert(flip(x, c) =~= seq![c - b] + flip(t, c));
        lemma_sum_add(seq![c - b], flip(t, c));
        lemma_sum_one(c - b);
        let m = x.len() as int;
        assert(m * c == (m - 1) * c + c) by (nonlinear_arith);
    } else { assert(flip(x, c) =~= x); }
}

// exchanging the two middle numbers
pub open spec fn mids(x: Seq<int>, nn: int) -> Seq<int> { x.map_values(|v: int| mid(v, nn)) }
pub open spec fn has_mid(x: Seq<int>, h: int) -> bool { exists|j: int| 0 <= j < x.len() && (#[trigger] x[j] == h || x[j] == h + 1) }

pub proof fn lemma_mids(x: Seq<int>, k: int, n: int, r: int)
    requires vidx(x, r, 2 * n + 2), k >= 0, r == n + 1 - k, r >= 0
    ensures vidx(mids(x, 2 * n + 2), r, 2 * n + 2), g_d(mids(x, 2 * n + 2), k, n, r) =~= g_d(x, k, n, r),
        has_mid(x, n + 1) ==> (low(mids(x, 2 * n + 2), n + 1) + low(x, n + 1)) % 2 == 1
{
    let nn = 2 * n + 2;
    let z = mids(x, nn);
    assert forall|i: int, j: int| 0 <= i < j < r implies z[i] < z[j] by { assert(x[i] < x[j]); assert(x[i] + x[j] != nn + 1); }
    assert forall|i: int| 0 <= i < r implies 1 <= #[trigger] z[i] <= nn by { assert(1 <= x[i] <= nn); }
    assert forall|i: int, j: int| 0 <= i <= j < r implies #[trigger] z[i] + #[trigger] z[j] != nn + 1 by { assert(x[i] + x[j] != nn + 1); if i < j { assert(x[i] < x[j]); } }
    assert forall|j: int| 0 <= j < r implies g_d(z, k, n, r)[j] == g_d(x, k, n, r)[j] by {
        assert forall|i: int| 0 <= i < j implies #[trigger] rel_gt(z, nn + 1, i, j) == #[trigger] rel_gt(x, nn + 1, i, j) || x[j] <= n + 2 by { assert(x[i] + x[j] != nn + 1); assert(x[i] < x[j]); }
        if x[j] > n + 2 { lemma_cnt_gt_ext(z, x, nn + 1, nn + 1, j, j); }
        else {
            // nothing is counted
            lemma_none(x, nn + 1, j, j, r, nn); lemma_none(z, nn + 1, j, j, r, nn);
        }
    }
    lemma_low(x, r, nn, n + 1);
    lemma_low(z, r, nn, n + 1);
    if has_mid(x, n + 1) {
        let j = choose|j: int| 0 <= j < x.len() && (#[trigger] x[j] == n + 1 || x[j] == n + 2);
        let a = low(x, n + 1);
        let b = low(z, n + 1);
        assert(x[j] <= n + 1 <==> j < a);
        assert(z[j] <= n + 1 <==> j < b);
        if j > 0 { assert(x[j - 1] < x[j]); assert(x[j - 1] + x[j] != nn + 1); assert(j - 1 < a); assert(z[j - 1] <= n + 1); assert(j - 1 < b); }
        if j + 1 < r { assert(x[j] < x[j + 1]); assert(x[j] + x[j + 1] != nn + 1); assert(!(x[j + 1] <= n + 1)); assert(!(j + 1 < a)); assert(!(z[j + 1] <= n + 1)); assert(!(j + 1 < b)); }
    }
}
pub proof fn lemma_none(x: Seq<int>, s: int, j: int, t: int, r: int, nn: int)
    requires vidx(x, r, nn), 0 <= t <= j < r, 2 * x[j] <= nn + 2, s == nn + 1
    ensures cnt_gt(x, s, j, t) == 0
    decreases t
{ if t > 0 { lemma_none(x, s, j, t - 1, r, nn); assert(x[t - 1] < x[j]); assert(x[t - 1] + x[j] != nn + 1); } }

// a maximal set of numbers contains one of the middle numbers
pub proof fn lemma_max_mid(x: Seq<int>, h: int)
    requires vidx(x, h, 2 * h), h >= 1
    ensures has_mid(x, h)
{
    if !has_mid(x, h) {
        let y = x.map_values(|v: int| if v < h { v } else { v - 2 });
        assert forall|j: int| 0 <= j < h implies #[trigger] x[j] != h && x[j] != h + 1 by {}
        assert forall|i: int, j: int| 0 <= i < j < h implies y[i] < y[j] by { assert(x[i] < x[j]); assert(x[i] != h); assert(x[j] != h); }
        assert forall|i: int| 0 <= i < h implies 1 <= #[trigger] y[i] <= 2 * (h - 1) by { assert(1 <= x[i] <= 2 * h); assert(x[i] != h); }
        assert forall|i: int, j: int| 0 <= i <= j < h implies #[trigger] y[i] + #[trigger] y[j] != 2 * (h - 1) + 1 by { assert(x[i] + x[j] != 2 * h + 1); if i < j { assert(x[i] < x[j]); } assert(x[i] != h); assert(x[j] != h); }
        assert(1 <= y[0] && y[h - 1] <= 2 * (h - 1)) by { assert(1 <= y[0] <= 2 * (h - 1)); assert(1 <= y[h - 1] <= 2 * (h - 1)); }
        lemma_window(y, h, h - 1, 0, h - 1, 2 * (h - 1));
    }
}

pub proof fn lemma_low_flip(x: Seq<int>, m: int, h: int)
    requires vidx(x, m, 2 * h), h >= 0
    ensures low(x, h) + low(flip(x, 2 * h + 1), h) == m
{
    let y = flip(x, 2 * h + 1);
    lemma_flip(x, m, 2 * h);
    lemma_low(x, m, 2 * h, h);
    lemma_low(y, m, 2 * h, h);
    let a = low(x, h);
    let b = low(y, h);
    if a < m { assert(!(x[a] <= h)); assert(y[m - 1 - a] <= h); assert(m - 1 - a < b); }
    if a > 0 { assert(x[a - 1] <= h); assert(!(y[m - a] <= h)); assert(!(m - a < b)); }
}
// the rows of the class in type D
pub proof fn lemma_sum_g_d(x: Seq<int>, k: int, n: int, r: int)
    requires vidx(x, r, 2 * n + 2), k >= 0, r == n + 1 - k, r >= 0
    ensures sum_seq(g_d(x, k, n, r)) == sum_seq(g_c(x, k, n + 1, r)) - low(x, n + 1)
{
    lemma_low(x, r, 2 * n + 2, n + 1);
    assert forall|j: int| 0 <= j < r implies g_d(x, k, n, r)[j] == #[trigger] g_c(x, k, n + 1, r)[j] - (if j < low(x, n + 1) { 1int } else { 0int }) by {
        lemma_g_low(x, k, n + 1, r, j);
        assert(x[j] <= n + 1 <==> j < low(x, n + 1));
    }
    lemma_sum_minus(g_d(x, k, n, r), g_c(x, k, n + 1, r), low(x, n + 1));
}
pub proof fn lemma_sum_minus(a: Seq<int>, b: Seq<int>, c: int)
    requires a.len() == b.len(), 0 <= c, forall|j: int| 0 <= j < a.len() ==> a[j] == #[trigger] b[j] - (if j < c { 1int } else { 0int })
    ensures sum_seq(a) == sum_seq(b) - imin(c, a.len() as int)
    decreases a.len()
{
    if a.len() > 0 {
        let d = b.drop_last();
        assert forall|j: int| 0 <= j < d.len() implies a.drop_last()[j] == #[trigger] d[j] - (if j < c { 1int } else { 0int }) by { assert(d[j] == b[j]); }
        lemma_sum_minus(a.drop_last(), d, c);
        assert(a[a.len() - 1] == b[b.len() - 1] - (if a.len() - 1 < c { 1int } else { 0int }));
    }
}

pub proof fn lemma_mid_mid(x: Seq<int>, h: int)
    ensures flip(mids(x, 2 * h), 2 * h + 1) =~= mids(flip(x, 2 * h + 1), 2 * h), mids(mids(x, 2 * h), 2 * h) =~= x
{}
pub proof fn lemma_dual_idx_d(x: Seq<int>, h: int)
    ensures dual_idx(x, 2 * h, str!"D") =~= (if h % 2 == 1 { mids(flip(x, 2 * h + 1), 2 * h) } else { flip(x, 2 * h + 1) })
{ assert((2 * h) / 2 == h); }

// y is what x is sent to before the middle numbers change places
pub open spec fn dd(x: Seq<int>, z: Seq<int>, k: int, n: int) -> bool {
    vidx_d(z, k, n) && 2 * (sum_seq(g_d(x, k, n, n + 1 - k)) + sum_seq(g_d(z, k, n, n + 1 - k))) == dim2_d(n + 1 - k, k)
}
pub proof fn lemma_dual_d_sum(x: Seq<int>, k: int, n: int)
    requires 0 <= k <= n + 1, vidx(x, n + 1 - k, 2 * n + 2)
    ensures 2 * (sum_seq(g_d(x, k, n, n + 1 - k)) + sum_seq(g_d(flip(x, 2 * n + 3), k, n, n + 1 - k))) == dim2_d(n + 1 - k, k)
{
    let r = n + 1 - k;
    let y = flip(x, 2 * n + 3);
    lemma_flip(x, r, 2 * n + 2);
    lemma_sum_g_d(x, k, n, r);
    lemma_sum_g_d(y, k, n, r);
    lemma_dual_c_sum(x, k, n + 1, r);
    lemma_low_flip(x, r, n + 1);
    assert(2 * n + 3 == 2 * (n + 1) + 1);
    assert(dim2_c(r, k) - 2 * r == dim2_d(r, k)) by { assert(r * (4 * k + r + 1) - 2 * r == r * (4 * k + r - 1)) by (nonlinear_arith); }
}
pub proof fn lemma_missing(x: Seq<int>, m: int, nn: int, h: int)
    requires incr(x, m, nn), 0 <= h
    ensures missing(x, h) == h - low(x, h), 0 <= low(x, h) <= m
{ lemma_low(x, m, nn, h); }
pub proof fn lemma_dual_d_even(x: Seq<int>, k: int, n: int)
    requires 0 <= k <= n + 1, vidx_d(x, k, n), (n + 1) % 2 == 0
    ensures dd(x, flip(x, 2 * n + 3), k, n)
{
    let r = n + 1 - k;
    let y = flip(x, 2 * n + 3);
    lemma_flip(x, r, 2 * n + 2);
    lemma_dual_d_sum(x, k, n);
    lemma_low_flip(x, r, n + 1);
    lemma_missing(x, r, 2 * n + 2, n + 1);
    lemma_missing(y, r, 2 * n + 2, n + 1);
}
pub proof fn lemma_dual_d_odd(x: Seq<int>, k: int, n: int)
    requires 0 <= k <= n + 1, vidx_d(x, k, n), (n + 1) % 2 == 1
    ensures dd(x, mids(flip(x, 2 * n + 3), 2 * n + 2), k, n)
{
    let r = n + 1 - k;
    let y = flip(x, 2 * n + 3);
    let z = mids(y, 2 * n + 2);
    lemma_flip(x, r, 2 * n + 2);
    lemma_mids(y, k, n, r);
    lemma_dual_d_sum(x, k, n);
    lemma_low_flip(x, r, n + 1);
    lemma_missing(x, r, 2 * n + 2, n + 1);
    lemma_missing(z, r, 2 * n + 2, n + 1);
    if k == 0 { lemma_max_mid(y, n + 1); }
}
pub proof fn lemma_dual_d_idx(x: Seq<int>, k: int, n: int)
    requires 0 <= k <= n + 1, vidx_d(x, k, n)
    ensures dd(x, dual_idx(x, 2 * n + 2, str!"D"), k, n), dual_idx(dual_idx(x, 2 * n + 2, str!"D"), 2 * n + 2, str!"D") =~= x
{
    let h = n + 1;
    assert(2 * n + 2 == 2 * h && 2 * n + 3 == 2 * h + 1);
    let y = flip(x, 2 * h + 1);
    let z = dual_idx(x, 2 * h, str!"D");
    lemma_flip(x, n + 1 - k, 2 * h);
    lemma_dual_idx_d(x, h);
    lemma_dual_idx_d(z, h);
    lemma_mid_mid(y, h);
    lemma_mid_mid(x, h);
    if h % 2 == 1 { lemma_dual_d_odd(x, k, n); } else { lemma_dual_d_even(x, k, n); }
}
pub proof fn lemma_sum_part_d(x: Seq<int>, k: int, n: int)
    requires 0 <= k <= n + 1, vidx(x, n + 1 - k, 2 * n + 2)
    ensures sum_seq(part_d(x, k, n)) == sum_seq(g_d(x, k, n, n + 1 - k))
{
    let g = g_d(x, k, n, n + 1 - k);
    lemma_g_d_kpart(x, k, n, n + 1 - k);
    lemma_clip_box(g, k, n + 1 - k, n + k);
    assert(clip(g).push(0).drop_last() =~= clip(g));
}
// C07, type D
pub proof fn theorem_dual_d(l: Seq<int>, k: int, n: int)
    requires 0 <= k <= n + 1, box_d(l, k, n + 1 - k, n + k)
    ensures box_d(dual_d(l, k, n), k, n + 1 - k, n + k), dual_d(dual_d(l, k, n), k, n) =~= l, 2 * (sum_seq(l) + sum_seq(dual_d(l, k, n))) == dim2_d(n + 1 - k, k)
{
    let x = idx_d(l, k, n);
    let z = dual_idx(x, 2 * n + 2, str!"D");
    theorem_index_d(l, x, k, n);
    lemma_dual_d_idx(x, k, n);
    theorem_index_d(l, z, k, n);
    lemma_sum_part_d(x, k, n);
    lemma_sum_part_d(z, k, n);
}

// ---- the same on linear combinations of classes
pub open spec fn box_s(l: Seq<int>, s: Space) -> bool {
    if is_A(s) { box_a(l, s._n - s._k, s._k) } else if is_D(s) { box_d(l, s._k, s._n + 1 - s._k, s._n + s._k) } else { in_box(l, s._k, s._n - s._k, s._n + s._k) }
}
pub open spec fn idx_s(l: Seq<int>, s: Space) -> Seq<int> { if is_A(s) { idx_a(l, s._k, s._n) } else if is_C(s) { idx_c(l, s._k, s._n) } else { idx_o(l, s) } }
pub open spec fn part_s(l: Seq<int>, s: Space) -> Seq<int> { if is_A(s) { part_a(l, s._k, s._n) } else if is_C(s) { part_c(l, s._k, s._n) } else { part_o(l, s) } }
pub open spec fn dual_s(l: Seq<int>, s: Space) -> Seq<int> { if is_A(s) { dual_a(l, s._k, s._n) } else if is_C(s) { dual_c(l, s._k, s._n) } else { dual_o(l, s) } }
pub open spec fn is_space(s: Space) -> bool { is_A(s) || is_C(s) || is_B(s) || is_D(s) }

pub proof fn lemma_kinds(s: Space)
    ensures is_A(s) ==> s._type == str!"A" && 0 <= s._k <= s._n, is_C(s) ==> s._type == str!"C" && 0 <= s._k <= s._n, is_B(s) ==> s._type == str!"B" && 0 <= s._k <= s._n,
        is_D(s) ==> s._type == str!"D" && 0 <= s._k <= s._n + 1,
{}
pub proof fn theorem_index_linear(a: Seq<Term>, s: Space)
    requires is_space(s), forall|i: int| 0 <= i < a.len() ==> box_s((#[trigger] a[i]).lam, s)
    ensures fs_map(|x: Seq<int>| part_s(x, s), fs_map(|l: Seq<int>| idx_s(l, s), a)) =~= a
{
    lemma_kinds(s);
    let g = |l: Seq<int>| idx_s(l, s);
    let h = |x: Seq<int>| part_s(x, s);
    assert forall|i: int| 0 <= i < a.len() implies h(g((#[trigger] a[i]).lam)) =~= a[i].lam by {
        let l = a[i].lam;
        if is_A(s) { theorem_index_a(l, l, s._k, s._n); } else if is_C(s) { theorem_index_c(l, l, s._k, s._n); } else if is_B(s) { theorem_index_b(l, l, s._k, s._n); } else { theorem_index_d(l, l, s._k, s._n); }
    }
    lemma_fs_map_inverse(g, h, a);
}
pub proof fn theorem_dual_linear(a: Seq<Term>, s: Space)
    requires is_space(s), forall|i: int| 0 <= i < a.len() ==> box_s((#[trigger] a[i]).lam, s)
    ensures fs_map(|l: Seq<int>| dual_s(l, s), fs_map(|l: Seq<int>| dual_s(l, s), a)) =~= a
{
    lemma_kinds(s);
    let g = |l: Seq<int>| dual_s(l, s);
    assert forall|i: int| 0 <= i < a.len() implies g(g((#[trigger] a[i]).lam)) =~= a[i].lam by {
        let l = a[i].lam;
        if is_A(s) { theorem_dual_a(l, s._k, s._n); } else if is_C(s) { theorem_dual_c(l, s._k, s._n); } else if is_B(s) { theorem_dual_b(l, s._k, s._n); } else { theorem_dual_d(l, s._k, s._n); }
    }
    lemma_fs_map_inverse(g, g, a);
}

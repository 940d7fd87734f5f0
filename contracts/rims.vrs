//# unit rims
//# use partition
// ---- rim hooks: mu arises from lam by taking away the part of the border strip in the rows a to b
pub open spec fn at(l: Seq<int>, i: int) -> int { if 0 <= i < l.len() { l[i] } else { 0 } }
pub open spec fn pad_to(l: Seq<int>, n: nat) -> Seq<int> { Seq::new(n, |i: int| at(l, i)) }
// rows a to b - 1 become what the row below was without one box, row b loses at least one box, the other rows stay
pub open spec fn rimstrip(lam: Seq<int>, m: Seq<int>, a: int, b: int) -> bool {
    &&& m.len() == lam.len() && 0 <= a <= b < lam.len() && is_part(m) && m[b] < lam[b]
    &&& forall|i: int| 0 <= i < a ==> m[i] == #[trigger] lam[i]
    &&& forall|i: int| b < i < lam.len() ==> m[i] == #[trigger] lam[i]
    &&& forall|i: int| a <= i < b ==> #[trigger] m[i] == lam[i + 1] - 1
}
pub open spec fn rim_hook(lam: Seq<int>, mu: Seq<int>, a: int, b: int, r: int) -> bool {
    mu.len() <= lam.len() && rimstrip(lam, pad_to(mu, lam.len()), a, b) && sum_seq(mu) == sum_seq(lam) - r
}
// mu arises from lam by taking away k rim hooks of r boxes with h rows in all
pub open spec fn rim_chain(lam: Seq<int>, mu: Seq<int>, r: int, k: int, h: int) -> bool
    decreases k
{
    if k <= 0 { mu == lam && k == 0 && h == 0 }
    else { exists|mid: Seq<int>, a: int, b: int| #[trigger] rim_hook(mid, mu, a, b, r) && rim_chain(lam, mid, r, k - 1, h - (b - a + 1)) }
}
// no rim hook of r boxes is left
pub open spec fn rim_core(lam: Seq<int>, r: int) -> bool { forall|mu: Seq<int>, a: int, b: int| !#[trigger] rim_hook(lam, mu, a, b, r) }
// the reduction ends at a partition without rim hooks of r boxes, outside the grid
pub open spec fn rim_stuck(lam: Seq<int>, r: int, nrow: int, ncol: int) -> bool {
    exists|mid: Seq<int>, k: int, h: int| #[trigger] rim_chain(lam, mid, r, k, h) && rim_core(mid, r) && (k > 0 ==> !in_range(mid, nrow, ncol))
}

pub proof fn lemma_pad_sum(l: Seq<int>, n: nat)
    requires l.len() <= n
    ensures sum_seq(pad_to(l, n)) == sum_seq(l)
    decreases n
{
    if l.len() == n { assert(pad_to(l, n) =~= l); }
    else {
        lemma_pad_sum(l, (n - 1) as nat);
        assert(pad_to(l, n).drop_last() =~= pad_to(l, (n - 1) as nat));
        assert(pad_to(l, n).last() == 0);
    }
}
pub proof fn lemma_sum_diff(lam: Seq<int>, m: Seq<int>, a: int, b: int)
    requires m.len() == lam.len(), 0 <= a <= b < lam.len(), forall|i: int| 0 <= i < a ==> m[i] == #[trigger] lam[i],
        forall|i: int| b < i < lam.len() ==> m[i] == #[trigger] lam[i], forall|i: int| a <= i < b ==> #[trigger] m[i] == lam[i + 1] - 1
    ensures sum_seq(lam) - sum_seq(m) == lam[a] - m[b] + b - a
    decreases lam.len()
{
    let l2 = lam.drop_last();
    let m2 = m.drop_last();
    let e = lam.len() - 1;
    if e > b {
        assert(m[e] == lam[e]);
        assert forall|i: int| 0 <= i < a implies m2[i] == #[trigger] l2[i] by { assert(m[i] == lam[i]); }
        assert forall|i: int| b < i < l2.len() implies m2[i] == #[trigger] l2[i] by { assert(m[i] == lam[i]); }
        assert forall|i: int| a <= i < b implies #[trigger] m2[i] == l2[i + 1] - 1 by { assert(m[i] == lam[i + 1] - 1); }
        lemma_sum_diff(l2, m2, a, b);
    } else if a == b {
        assert forall|i: int| 0 <= i < l2.len() implies m2[i] == #[trigger] l2[i] by { assert(m[i] == lam[i]); }
        assert(l2 =~= m2);
    } else {
        assert forall|i: int| 0 <= i < a implies m2[i] == #[trigger] l2[i] by { assert(m[i] == lam[i]); }
        assert forall|i: int| a <= i < b - 1 implies #[trigger] m2[i] == l2[i + 1] - 1 by { assert(m[i] == lam[i + 1] - 1); }
        lemma_sum_diff(l2, m2, a, b - 1);
        assert(m[b - 1] == lam[b] - 1);
    }
}
// ---- beads: row i of n rows is the bead lam[i] + n - 1 - i
pub open spec fn beads_of(lam: Seq<int>) -> Seq<int> { Seq::new(lam.len(), |i: int| lam[i] + lam.len() - 1 - i) }
pub proof fn lemma_beads(lam: Seq<int>)
    requires is_part(lam)
    ensures decreasing(beads_of(lam)), forall|i: int| 0 <= i < lam.len() ==> #[trigger] beads_of(lam)[i] >= 0
{
    let d = beads_of(lam);
    assert forall|i: int, j: int| 0 <= i < j < d.len() implies #[trigger] d[i] > #[trigger] d[j] by { assert(lam[i] >= lam[j]); }
    assert forall|i: int| 0 <= i < lam.len() implies #[trigger] d[i] >= 0 by { assert(lam[i] >= 0); }
}
// the last bead of a decreasing list that is above t, from position a on
pub proof fn lemma_last_above(d: Seq<int>, a: int, t: int) -> (b: int)
    requires decreasing(d), 0 <= a < d.len(), d[a] > t
    ensures a <= b < d.len(), d[b] > t, forall|i: int| b < i < d.len() ==> #[trigger] d[i] <= t, forall|i: int| 0 <= i <= b ==> #[trigger] d[i] > t
    decreases d.len() - a
{
    if a + 1 < d.len() && d[a + 1] > t { lemma_last_above(d, a + 1, t) }
    else {
        assert forall|i: int| a < i < d.len() implies #[trigger] d[i] <= t by { if i > a + 1 { assert(d[a + 1] > d[i]); } }
        assert forall|i: int| 0 <= i <= a implies #[trigger] d[i] > t by { if i < a { assert(d[i] > d[a]); } }
        a
    }
}
// the bead at position a goes down to t, behind the bead at position b
pub open spec fn moved(d: Seq<int>, a: int, b: int, t: int) -> Seq<int> { Seq::new(d.len(), |i: int| if i < a || i > b { d[i] } else if i == b { t } else { d[i + 1] }) }
pub proof fn lemma_moved(d: Seq<int>, a: int, b: int, t: int)
    requires decreasing(d), 0 <= a <= b < d.len(), d[b] > t, !d.contains(t), forall|i: int| b < i < d.len() ==> #[trigger] d[i] <= t
    ensures decreasing(moved(d, a, b, t)), forall|v: int| #[trigger] moved(d, a, b, t).contains(v) <==> (v == t || (d.contains(v) && v != d[a]))
{
    let m = moved(d, a, b, t);
    assert forall|i: int| b < i < d.len() implies #[trigger] d[i] < t by { assert(d.contains(d[i])); }
    assert forall|i: int, j: int| 0 <= i < j < m.len() implies #[trigger] m[i] > #[trigger] m[j] by {
        let i2 = if a <= i < b { i + 1 } else { i };
        let j2 = if a <= j < b { j + 1 } else { j };
        if i != b && j != b { assert(m[i] == d[i2] && m[j] == d[j2]); assert(d[i2] > d[j2]); }
        if j == b { assert(m[i] == d[i2]); if i2 < b { assert(d[i2] > d[b]); } }
        if i == b { assert(m[j] == d[j]); }
    }
    assert forall|v: int| #[trigger] m.contains(v) <==> (v == t || (d.contains(v) && v != d[a])) by {
        if v == t { assert(m[b] == t); }
        if d.contains(v) && v != d[a] {
            let i = choose|i: int| 0 <= i < d.len() && d[i] == v;
            if i < a || i > b { assert(m[i] == v); } else { assert(m[i - 1] == d[i]); }
        }
        if m.contains(v) {
            let i = choose|i: int| 0 <= i < m.len() && m[i] == v;
            if i < a { assert(d[i] == v); assert(d[i] > d[a]); }
            else if i < b { assert(d[i + 1] == v); assert(d[a] > d[i + 1]); }
            else if i > b { assert(d[i] == v); assert(d[a] > d[i]); }
        }
    }
}
// what the code does with the beads
pub proof fn lemma_filter_members(d: Seq<int>, f: spec_fn(int) -> bool)
    ensures forall|v: int| #[trigger] d.filter(f).contains(v) <==> (d.contains(v) && f(v))
    decreases d.len()
{
    reveal(Seq::filter);
    if d.len() > 0 {
        let e = d.drop_last();
        lemma_filter_members(e, f);
        assert(d =~= e.push(d.last()));
        assert forall|v: int| #[trigger] d.filter(f).contains(v) <==> (d.contains(v) && f(v)) by {
            lemma_int_push(e, d.last(), v);
            lemma_int_push(e.filter(f), d.last(), v);
            assert(e.filter(f).contains(v) <==> (e.contains(v) && f(v)));
        }
    }
}
pub proof fn lemma_filter_nodup(d: Seq<int>, f: spec_fn(int) -> bool)
    requires decreasing(d)
    ensures decreasing(d.filter(f))
    decreases d.len()
{
    reveal(Seq::filter);
    if d.len() > 0 {
        let e = d.drop_last();
        assert(decreasing(e)) by { assert forall|i: int, j: int| 0 <= i < j < e.len() implies #[trigger] e[i] > #[trigger] e[j] by { assert(d[i] > d[j]); } }
        lemma_filter_nodup(e, f);
        lemma_filter_members(e, f);
        let g = e.filter(f);
        let r = d.filter(f);
        assert forall|i: int, j: int| 0 <= i < j < r.len() implies #[trigger] r[i] > #[trigger] r[j] by {
            if j < g.len() { assert(g[i] > g[j]); }
            else { assert(g.contains(g[i])); let h = choose|h: int| 0 <= h < e.len() && e[h] == g[i]; assert(d[h] > d[d.len() - 1]); }
        }
    }
}
pub broadcast proof fn lemma_filter_any(d: Seq<int>, f: spec_fn(int) -> bool)
    ensures #![trigger d.filter(f)] (forall|v: int| #[trigger] d.filter(f).contains(v) <==> (d.contains(v) && f(v))) && (decreasing(d) ==> decreasing(d.filter(f)))
{ lemma_filter_members(d, f); if decreasing(d) { lemma_filter_nodup(d, f); } }
pub broadcast proof fn lemma_sort_any(e: Seq<int>, t: int)
    ensures #![trigger isort(e + seq![t])] decreasing(e) && !e.contains(t) ==> decreasing(isort(e + seq![t]).reverse()) && isort(e + seq![t]).reverse().len() == e.len() + 1 && forall|v: int| #[trigger] isort(e + seq![t]).reverse().contains(v) <==> (e.contains(v) || v == t)
{
    let l = e + seq![t];
    let s = isort(l);
    let r = s.reverse();
    assert(l =~= e.push(t));
    if decreasing(e) && !e.contains(t) {
        assert forall|i: int, j: int| 0 <= i < l.len() && 0 <= j < l.len() && i != j implies l[i] != l[j] by {
            if i < e.len() { assert(e.contains(e[i])); }
            if j < e.len() { assert(e.contains(e[j])); }
            if i < e.len() && j < e.len() { if i < j { assert(e[i] > e[j]); } else { assert(e[j] > e[i]); } }
        }
        lemma_isort(l);
        assert forall|i: int, j: int| 0 <= i < j < r.len() implies #[trigger] r[i] > #[trigger] r[j] by { assert(s[r.len() - 1 - i] > s[r.len() - 1 - j]); }
        assert forall|v: int| #[trigger] r.contains(v) <==> (e.contains(v) || v == t) by {
            if s.contains(v) { let i = choose|i: int| 0 <= i < s.len() && s[i] == v; assert(r[s.len() - 1 - i] == v); }
            if r.contains(v) { let i = choose|i: int| 0 <= i < r.len() && r[i] == v; assert(s[s.len() - 1 - i] == v); }
            assert(s.contains(v) <==> l.contains(v));
            lemma_int_push(e, t, v);
        }
    }
}
pub broadcast proof fn lemma_sort_push(e: Seq<int>, t: int)
    ensures #![trigger isort(e.push(t))] decreasing(e) && !e.contains(t) ==> decreasing(isort(e.push(t)).reverse()) && isort(e.push(t)).reverse().len() == e.len() + 1 && forall|v: int| #[trigger] isort(e.push(t)).reverse().contains(v) <==> (e.contains(v) || v == t)
{ lemma_sort_any(e, t); assert(e + seq![t] =~= e.push(t)); }
pub broadcast proof fn lemma_count_filter(d: Seq<int>, f: spec_fn(int) -> bool)
    ensures #[trigger] d.filter(f).len() == count_where(d, f)
    decreases d.len()
{ reveal(Seq::filter); if d.len() > 0 { lemma_count_filter(d.drop_last(), f); } }
pub broadcast group group_rims { lemma_filter_any, lemma_sort_any, lemma_sort_push, lemma_count_filter }
proof fn lemma_count_range(d: Seq<int>, f: spec_fn(int) -> bool, a: int, b: int)
    requires 0 <= a <= b < d.len(), forall|i: int| 0 <= i < d.len() ==> (f(#[trigger] d[i]) <==> a < i <= b)
    ensures count_where(d, f) == b - a
    decreases d.len()
{
    let e = d.drop_last();
    let n = e.len() as int;
    if n > b {
        assert forall|i: int| 0 <= i < e.len() implies (f(#[trigger] e[i]) <==> a < i <= b) by { assert(f(d[i]) <==> a < i <= b); }
        lemma_count_range(e, f, a, b);
        assert(!f(d[n]));
    } else if a == b {
        assert forall|i: int| 0 <= i < e.len() implies !f(#[trigger] e[i]) by { assert(f(d[i]) <==> a < i <= b); }
        lemma_count_none(e, f);
        assert(!f(d[n]));
    } else {
        assert forall|i: int| 0 <= i < e.len() implies (f(#[trigger] e[i]) <==> a < i <= b - 1) by { assert(f(d[i]) <==> a < i <= b); }
        lemma_count_range(e, f, a, b - 1);
        assert(f(d[n]));
    }
}
proof fn lemma_count_none(d: Seq<int>, f: spec_fn(int) -> bool)
    requires forall|i: int| 0 <= i < d.len() ==> !f(#[trigger] d[i])
    ensures count_where(d, f) == 0
    decreases d.len()
{
    if d.len() > 0 {
        let e = d.drop_last();
        assert forall|i: int| 0 <= i < e.len() implies !f(#[trigger] e[i]) by { assert(!f(d[i])); }
        lemma_count_none(e, f);
        assert(!f(d[d.len() - 1]));
    }
}
// one step: the new beads n give the partition without the rim hook
pub open spec fn from_beads(d: Seq<int>) -> Seq<int> { Seq::new(d.len(), |i: int| d[i] - (d.len() - 1 - i)) }
proof fn lemma_step_count(d: Seq<int>, a: int, b: int, t: int, r: int)
    requires decreasing(d), 0 <= a <= b < d.len(), d[a] == t + r, forall|i: int| b < i < d.len() ==> #[trigger] d[i] <= t, forall|i: int| 0 <= i <= b ==> #[trigger] d[i] > t
    ensures count_where(d, |x: int| t < x && x < t + r) == b - a
{
    let f = |x: int| t < x && x < t + r;
    assert forall|i: int| 0 <= i < d.len() implies (f(#[trigger] d[i]) <==> a < i <= b) by {
        if i < a { assert(d[i] > d[a]); }
        if i > a { assert(d[a] > d[i]); }
    }
    lemma_count_range(d, f, a, b);
}
proof fn lemma_step_part(m: Seq<int>)
    requires decreasing(m), m.len() > 0, m[m.len() - 1] >= 0
    ensures forall|i: int, j: int| 0 <= i <= j < m.len() ==> #[trigger] from_beads(m)[i] >= #[trigger] from_beads(m)[j], nonneg(from_beads(m))
{
    let p = from_beads(m);
    assert forall|i: int, j: int| 0 <= i <= j < p.len() implies #[trigger] p[i] >= #[trigger] p[j] by { lemma_gap_rim(m, i, j); }
    assert forall|i: int| 0 <= i < p.len() implies p[i] >= 0 by { lemma_gap_rim(m, i, m.len() - 1); }
}
#[verifier::spinoff_prover]
#[verifier::rlimit(60)]
pub proof fn lemma_step(lam: Seq<int>, a: int, t: int, r: int, n: Seq<int>) -> (b: int)
    requires is_part(lam), 0 <= a < lam.len(), t >= 0, r > 0, t == beads_of(lam)[a] - r, !beads_of(lam).contains(t), decreasing(n),
        forall|v: int| #[trigger] n.contains(v) <==> (v == t || (beads_of(lam).contains(v) && v != beads_of(lam)[a]))
    ensures a <= b < lam.len(), rim_hook(lam, clip(from_beads(n)), a, b, r), is_part(clip(from_beads(n))), n.len() == lam.len(),
        count_where(beads_of(lam), |x: int| t < x && x < t + r) == b - a,
        sum_seq(clip(from_beads(n))) == sum_seq(lam) - r, sum_seq(clip(from_beads(n))) >= 0
{
    let d = beads_of(lam);
    lemma_beads(lam);
    let b = lemma_last_above(d, a, t);
    lemma_moved(d, a, b, t);
    let m = moved(d, a, b, t);
    assert(m[m.len() - 1] >= 0) by { if m.len() - 1 != b { assert(m[m.len() - 1] == d[d.len() - 1]); } }
    assert forall|v: int| #[trigger] n.contains(v) <==> m.contains(v) by { assert(m.contains(v) <==> (v == t || (d.contains(v) && v != d[a]))); }
    lemma_same_desc(n, m);
    let p = from_beads(m);
    lemma_step_part(m);
    assert forall|i: int| 0 <= i < a implies p[i] == #[trigger] lam[i] by { assert(m[i] == d[i]); }
    assert forall|i: int| b < i < lam.len() implies p[i] == #[trigger] lam[i] by { assert(m[i] == d[i]); }
    assert forall|i: int| a <= i < b implies #[trigger] p[i] == lam[i + 1] - 1 by { assert(m[i] == d[i + 1]); }
    assert(m[b] == t);
    assert(p[b] < lam[b]);
    lemma_sum_diff(lam, p, a, b);
    let c = clip(p);
    lemma_is_clip(p);
    assert(pad_to(c, lam.len()) =~= p) by { assert forall|i: int| 0 <= i < p.len() implies at(c, i) == p[i] by {} }
    lemma_pad_sum(c, lam.len());
    lemma_nonneg_sum(p);
    lemma_step_count(d, a, b, t, r);
    b
}
pub proof fn lemma_nonneg_sum(s: Seq<int>)
    requires nonneg(s)
    ensures sum_seq(s) >= 0
    decreases s.len()
{ if s.len() > 0 { assert(nonneg(s.drop_last())) by { assert forall|i: int| 0 <= i < s.len() - 1 implies s.drop_last()[i] >= 0 by { assert(s[i] >= 0); } } lemma_nonneg_sum(s.drop_last()); assert(s.last() >= 0); } }
// no room for a rim hook
pub proof fn lemma_small_rim(lam: Seq<int>, r: int, nrow: int, ncol: int)
    requires is_part(lam), r > 0, lam.len() == 0 || r > sum_seq(lam) + lam.len() - 1
    ensures rim_stuck(lam, r, nrow, ncol)
{
    assert forall|mu: Seq<int>, a: int, b: int| !#[trigger] rim_hook(lam, mu, a, b, r) by {
        if rim_hook(lam, mu, a, b, r) { lemma_pad_sum(mu, lam.len()); lemma_nonneg_sum(pad_to(mu, lam.len())); }
    }
    assert(rim_chain(lam, lam, r, 0, 0));
}
pub proof fn lemma_gap_rim(m: Seq<int>, i: int, j: int)
    requires decreasing(m), 0 <= i <= j < m.len()
    ensures m[i] - m[j] >= j - i
    decreases j - i
{ if i < j { assert(m[j - 1] > m[j]); lemma_gap_rim(m, i, j - 1); } }
// a rim hook moves a bead down to a free place
pub proof fn lemma_core(lam: Seq<int>, r: int)
    requires is_part(lam), r > 0, forall|i: int| 0 <= i < lam.len() && beads_of(lam)[i] >= r ==> beads_of(lam).contains(#[trigger] beads_of(lam)[i] - r)
    ensures rim_core(lam, r)
{
    assert forall|mu: Seq<int>, a: int, b: int| !#[trigger] rim_hook(lam, mu, a, b, r) by {
        if rim_hook(lam, mu, a, b, r) {
            let p = pad_to(mu, lam.len());
            let d = beads_of(lam);
            lemma_beads(lam);
            lemma_sum_diff(lam, p, a, b);
            lemma_pad_sum(mu, lam.len());
            let t = p[b] + lam.len() - 1 - b;
            assert(t == d[a] - r);
            assert(p[b] >= 0);
            assert(t >= 0);
            assert(d.contains(d[a] - r));
            let j = choose|j: int| 0 <= j < d.len() && d[j] == t;
            if j <= b { if j < b { assert(d[j] > d[b]); } assert(d[b] > t); }
            else { assert(p[b] >= p[j]); assert(p[j] == lam[j]); }
        }
    }
}
//# fn schubertpy/partition.py::Partition.remove_rim_hooks(self_: PART, rim_size: I, acceptable_grid: L) -> RIM
//# raises
//# attr #[verifier::rlimit(60)]
//# vars nrow ncol current_partition total_rim_hooks_removed total_height nrows beads free target new_partition
requires is_part(self_), acceptable_grid.len() == 2
ensures
    result is Exc ==> result->Exc_0 is ValueError && (acceptable_grid[0] < 0 || acceptable_grid[1] < 0),
    result is Val ==> rim_result(self_, rim_size, acceptable_grid[0], acceptable_grid[1], result->Val_0)
//# loop 0
invariant
    is_part(current_partition), rim_size > 0, nrow == acceptable_grid[0], ncol == acceptable_grid[1], total_rim_hooks_removed >= 0,
    rim_chain(self_, current_partition, rim_size, total_rim_hooks_removed, total_height),
    sum_seq(current_partition) == sum_seq(self_) - total_rim_hooks_removed * rim_size,
    total_rim_hooks_removed > 0 ==> !in_range(current_partition, nrow, ncol),
decreases sum_seq(current_partition)
//# hint entry
broadcast use group_rims;
if rim_size > 0 && (self_.len() == 0 || rim_size > sum_seq(self_) + self_.len() - 1) { lemma_small_rim(self_, rim_size, acceptable_grid[0], acceptable_grid[1]); }
assert(rim_chain(self_, self_, rim_size, 0, 0));
//# hint loop 0 head
let ghost was = current_partition;
let ghost was_n = total_rim_hooks_removed;
let ghost was_h = total_height;
lemma_beads(was);
//# hint set beads
assert(beads =~= beads_of(was));
//# hint set free
if free.len() == 0 {
    assert forall|i: int| 0 <= i < was.len() && beads_of(was)[i] >= rim_size implies beads_of(was).contains(#[trigger] beads_of(was)[i] - rim_size) by {
        assert(beads.contains(beads[i]));
        if !beads.contains(beads[i] - rim_size) {
            let k = beads.filter(|bead: int| bead >= rim_size && !beads.contains(bead - rim_size));
            assert(k.contains(beads[i]));
            assert(k.len() > 0);
        }
    }
    lemma_core(was, rim_size);
}
//# hint set target
let f_ = |bead: int| bead >= rim_size && !beads.contains(bead - rim_size);
let k_ = beads.filter(f_);
assert(k_.len() == free.len());
let j_ = choose|j: int| 0 <= j < free.len() && free[j] == target;
assert(free[j_] == target && free[j_] == k_[j_] - rim_size);
assert(k_.contains(k_[j_]));
assert(beads_of(was).contains(target + rim_size) && target >= 0 && !beads_of(was).contains(target));
let ghost a_ = choose|a: int| 0 <= a < was.len() && beads_of(was)[a] == target + rim_size;
//# hint set total_height#2
let ghost cnt_ = total_height - was_h - 1;
assert(cnt_ == count_where(beads_of(was), |x: int| target < x && x < target + rim_size));
//# hint set beads#2
let b_ = lemma_step(was, a_, target, rim_size, beads);
assert(from_beads(beads).len() == was.len());
//# hint call part_clip
assert($a0 =~= from_beads(beads));
let b_ = lemma_step(was, a_, target, rim_size, beads);
assert(rim_hook(was, $r, a_, b_, rim_size));
assert(total_height == was_h + (b_ - a_ + 1));
assert((was_n + 1) * rim_size == was_n * rim_size + rim_size) by (nonlinear_arith);
//# end
pub open spec fn rim_result(lam: Seq<int>, r: int, nrow: int, ncol: int, v: (Option<Seq<int>>, int, int)) -> bool {
    let (p, k, h) = v;
    &&& k >= 0
    &&& k > 0 ==> p.is_some() && r > 0 && is_part(p.unwrap()) && in_range(p.unwrap(), nrow, ncol) && rim_chain(lam, p.unwrap(), r, k, h) && sum_seq(p.unwrap()) == sum_seq(lam) - k * r
    &&& k == 0 ==> h == 0 && (r > 0 ==> rim_stuck(lam, r, nrow, ncol) && (p.is_none() || p.unwrap().len() == 0))
}

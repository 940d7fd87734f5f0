//# unit lex
// ---- sums and the lexicographic order
pub open spec fn psum(a: Seq<int>, t: int) -> int
    decreases t
{ if t <= 0 { 0 } else { psum(a, t - 1) + a[t - 1] } }
pub open spec fn lexat(a: Seq<int>, b: Seq<int>, j: int) -> bool { 0 <= j < a.len() && a.len() == b.len() && a[j] > b[j] && forall|i: int| 0 <= i < j ==> #[trigger] a[i] == b[i] }
pub open spec fn lexgt(a: Seq<int>, b: Seq<int>) -> bool { exists|j: int| lexat(a, b, j) }
pub open spec fn lexval(a: Seq<int>, b: int, t: int) -> int
    decreases t
{ if t <= 0 { 0 } else { lexval(a, b, t - 1) * b + a[t - 1] } }

pub proof fn lemma_psum_ext(a: Seq<int>, b: Seq<int>, t: int)
    requires t <= a.len(), t <= b.len(), forall|i: int| 0 <= i < t ==> #[trigger] a[i] == b[i]
    ensures psum(a, t) == psum(b, t)
    decreases t
{ if t > 0 { lemma_psum_ext(a, b, t - 1); assert(a[t - 1] == b[t - 1]); } }
pub proof fn lemma_psum_tail(a: Seq<int>, b: Seq<int>, r: int, t: int)
    requires 0 <= r <= t <= a.len(), t <= b.len(), forall|i: int| r <= i < t ==> #[trigger] a[i] <= b[i]
    ensures psum(a, t) - psum(a, r) <= psum(b, t) - psum(b, r)
    decreases t
{ if t > r { lemma_psum_tail(a, b, r, t - 1); assert(a[t - 1] <= b[t - 1]); } }
pub proof fn lemma_psum_sum(a: Seq<int>, t: int)
    requires 0 <= t <= a.len()
    ensures psum(a, t) == sum_seq(a.subrange(0, t))
    decreases t
{ if t > 0 { lemma_psum_sum(a, t - 1); lemma_sum_prefix(a, t - 1); } else { assert(a.subrange(0, 0).len() == 0); } }
pub proof fn lemma_lexval(a: Seq<int>, b: Seq<int>, j: int, c: int, t: int)
    requires lexat(a, b, j), j < t <= a.len(), forall|i: int| 0 <= i < a.len() ==> 0 <= #[trigger] a[i] < c && 0 <= b[i] < c
    ensures lexval(a, c, t) > lexval(b, c, t)
    decreases t
{
    assert(0 <= a[t - 1] < c && 0 <= b[t - 1] < c);
    let x = lexval(a, c, t - 1);
    let y = lexval(b, c, t - 1);
    if t - 1 > j {
        lemma_lexval(a, b, j, c, t - 1);
        assert(x * c >= y * c + c) by (nonlinear_arith) requires x >= y + 1, c > 0;
    } else {
        lemma_lexval_eq(a, b, c, t - 1);
    }
}
pub proof fn lemma_lexval_eq(a: Seq<int>, b: Seq<int>, c: int, t: int)
    requires t <= a.len(), t <= b.len(), forall|i: int| 0 <= i < t ==> #[trigger] a[i] == b[i]
    ensures lexval(a, c, t) == lexval(b, c, t)
    decreases t
{ if t > 0 { lemma_lexval_eq(a, b, c, t - 1); assert(a[t - 1] == b[t - 1]); } }
pub proof fn lemma_lexval_nonneg(a: Seq<int>, c: int, t: int)
    requires t <= a.len(), c > 0, forall|i: int| 0 <= i < a.len() ==> 0 <= #[trigger] a[i]
    ensures lexval(a, c, t) >= 0
    decreases t
{ if t > 0 { lemma_lexval_nonneg(a, c, t - 1); assert(a[t - 1] >= 0); let x = lexval(a, c, t - 1); assert(x * c >= 0) by (nonlinear_arith) requires x >= 0, c > 0; } }
pub proof fn lemma_lex_trans(a: Seq<int>, b: Seq<int>, c: Seq<int>)
    requires lexgt(a, b), lexgt(b, c)
    ensures lexgt(a, c)
{
    let i = choose|i: int| lexat(a, b, i);
    let j = choose|j: int| lexat(b, c, j);
    let h = imin(i, j);
    assert(lexat(a, c, h)) by {
        assert forall|l: int| 0 <= l < h implies #[trigger] a[l] == c[l] by { assert(a[l] == b[l]); assert(b[l] == c[l]); }
        if i < j { assert(b[i] == c[i]); } else if j < i { assert(a[j] == b[j]); }
    }
}
pub proof fn lemma_lex_irr(a: Seq<int>)
    ensures !lexgt(a, a)
{}
// the first place where two sequences differ
pub proof fn lemma_lex_total(a: Seq<int>, b: Seq<int>)
    requires a.len() == b.len()
    ensures a =~= b || lexgt(a, b) || lexgt(b, a)
{
    if !(a =~= b) {
        let j = lemma_diff(a, b, 0);
        if a[j] > b[j] { assert(lexat(a, b, j)); } else { assert(lexat(b, a, j)); }
    }
}
pub proof fn lemma_diff(a: Seq<int>, b: Seq<int>, t: int) -> (j: int)
    requires a.len() == b.len(), !(a =~= b), 0 <= t <= a.len(), forall|i: int| 0 <= i < t ==> #[trigger] a[i] == b[i]
    ensures t <= j < a.len(), a[j] != b[j], forall|i: int| 0 <= i < j ==> #[trigger] a[i] == b[i]
    decreases a.len() - t
{
    if t == a.len() { assert(a =~= b); t } else if a[t] != b[t] { t } else { lemma_diff(a, b, t + 1) }
}


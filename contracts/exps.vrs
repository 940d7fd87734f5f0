//# unit exps
//# use comps
// ---- how many of 0, ..., n - 1 have a property
pub open spec fn many(f: spec_fn(int) -> bool, n: int) -> int
    decreases n
{ if n <= 0 { 0 } else { many(f, n - 1) + (if f(n - 1) { 1int } else { 0int }) } }
pub open spec fn meet(lo: int, hi: int, n: int) -> int { imax(0, imin(hi, n) - imax(lo, 0)) }
pub proof fn lemma_many_le(f: spec_fn(int) -> bool, g: spec_fn(int) -> bool, n: int)
    requires forall|c: int| 0 <= c < n && #[trigger] f(c) ==> g(c)
    ensures 0 <= many(f, n) <= many(g, n)
    decreases n
{ if n > 0 { lemma_many_le(f, g, n - 1); if f(n - 1) { assert(g(n - 1)); } } }
pub proof fn lemma_many_none(f: spec_fn(int) -> bool, n: int)
    requires forall|c: int| 0 <= c < n ==> !#[trigger] f(c)
    ensures many(f, n) == 0
    decreases n
{ if n > 0 { lemma_many_none(f, n - 1); assert(!f(n - 1)); } }
pub proof fn lemma_many_not(f: spec_fn(int) -> bool, g: spec_fn(int) -> bool, n: int)
    requires forall|c: int| 0 <= c < n ==> (#[trigger] f(c) <==> !g(c)), n >= 0
    ensures many(f, n) + many(g, n) == n
    decreases n
{ if n > 0 { lemma_many_not(f, g, n - 1); assert(f(n - 1) <==> !g(n - 1)); } }
// g adds an interval to f
pub proof fn lemma_many_add(f: spec_fn(int) -> bool, g: spec_fn(int) -> bool, lo: int, hi: int, n: int)
    requires forall|c: int| 0 <= c < n ==> (#[trigger] g(c) <==> f(c) || lo <= c < hi), 0 <= n
    ensures many(g, n) <= many(f, n) + meet(lo, hi, n), (forall|c: int| 0 <= c < n && lo <= c < hi ==> !#[trigger] f(c)) ==> many(g, n) == many(f, n) + meet(lo, hi, n)
    decreases n
{
    if n > 0 {
        lemma_many_add(f, g, lo, hi, n - 1);
        assert(g(n - 1) <==> f(n - 1) || lo <= n - 1 < hi);
    }
}
// ---- the boxes right of column k, by columns
pub open spec fn boxed_f(lam: Seq<int>, mu: Seq<int>, k: int, n: int) -> spec_fn(int) -> bool { |c: int| boxed(lam, mu, k, n, c) }
pub open spec fn marks_f(lam: Seq<int>, mu: Seq<int>, k: int, d: int, n: int) -> spec_fn(int) -> bool { |c: int| marks(lam, mu, k, d, n, c) }
pub proof fn lemma_boxed_many(lam: Seq<int>, mu: Seq<int>, k: int, d: int, n: int)
    requires pairing(lam, mu, k, d), 0 <= n
    ensures many(boxed_f(lam, mu, k, n), ex(mu, k, 0)) == psum(bots(mu, k, n), n) - psum(bots(lam, k, n), n)
    decreases n
{
    lemma_comps_scope(lam, mu, k, d);
    lemma_strips_in(lam, mu, k);
    let e = ex(mu, k, 0);
    if n == 0 { lemma_many_none(boxed_f(lam, mu, k, 0), e); }
    else {
        let r = n - 1;
        lemma_boxed_many(lam, mu, k, d, r);
        let f = boxed_f(lam, mu, k, r);
        let g = boxed_f(lam, mu, k, n);
        assert forall|c: int| 0 <= c < e implies (#[trigger] g(c) <==> f(c) || ex(lam, k, r) <= c < ex(mu, k, r)) by { lemma_boxed_step(lam, mu, k, r, c); }
        assert forall|c: int| 0 <= c < e && ex(lam, k, r) <= c < ex(mu, k, r) implies !#[trigger] f(c) by {
            if f(c) {
                let a = choose|a: int| 0 <= a < r && #[trigger] in_col(lam, mu, k, a, c);
                assert(in_col(lam, mu, k, r, c));
                lemma_one_box(lam, mu, k, a, r, c);
            }
        }
        lemma_many_add(f, g, ex(lam, k, r), ex(mu, k, r), e);
        assert(ex(mu, k, r) <= ex(mu, k, 0));
        lemma_psum_ext(bots(mu, k, n), bots(mu, k, r), r);
        lemma_psum_ext(bots(lam, k, n), bots(lam, k, r), r);
        assert(ex(mu, k, r) >= ex(lam, k, r));
    }
}
pub proof fn lemma_boxed_step(lam: Seq<int>, mu: Seq<int>, k: int, n: int, c: int)
    requires 0 <= n
    ensures boxed(lam, mu, k, n + 1, c) <==> boxed(lam, mu, k, n, c) || in_col(lam, mu, k, n, c)
{
    if boxed(lam, mu, k, n, c) { let r = choose|r: int| 0 <= r < n && in_col(lam, mu, k, r, c); assert(in_col(lam, mu, k, r, c)); }
    if in_col(lam, mu, k, n, c) { assert(0 <= n < n + 1); }
}
pub proof fn lemma_marks_step(lam: Seq<int>, mu: Seq<int>, k: int, d: int, n: int, c: int)
    requires 0 <= n
    ensures marks(lam, mu, k, d, n + 1, c) <==> marks(lam, mu, k, d, n, c) || mark(lam, mu, k, d, n, c)
{
    if marks(lam, mu, k, d, n, c) { let i = choose|i: int| 0 <= i < n && mark(lam, mu, k, d, i, c); assert(mark(lam, mu, k, d, i, c)); }
    if mark(lam, mu, k, d, n, c) { assert(0 <= n < n + 1); }
}
// a column marks at most as many boxes as it loses, and one more
pub proof fn lemma_marks_many(lam: Seq<int>, mu: Seq<int>, k: int, d: int, n: int)
    requires pairing(lam, mu, k, d), 0 <= n <= k
    ensures many(marks_f(lam, mu, k, d, n), ex(mu, k, 0)) <= n + psum(cols(lam, k), n) - psum(cols(mu, k), n)
    decreases n
{
    lemma_comps_scope(lam, mu, k, d);
    lemma_strips_in(lam, mu, k);
    let e = ex(mu, k, 0);
    if n == 0 { lemma_many_none(marks_f(lam, mu, k, d, 0), e); }
    else {
        let i = n - 1;
        lemma_marks_many(lam, mu, k, d, i);
        let f = marks_f(lam, mu, k, d, i);
        let g = marks_f(lam, mu, k, d, n);
        let b = ptr(lam, mu, k, d, i);
        let lo = diag(mu, k, d, i) - 1 - b;
        let hi = if cnt(mu, i) <= cnt(lam, i) { diag(lam, k, d, i) - b } else { lo };
        assert forall|c: int| 0 <= c < e implies (#[trigger] g(c) <==> f(c) || lo <= c < hi) by { lemma_marks_step(lam, mu, k, d, i, c); }
        lemma_many_add(f, g, lo, hi, e);
        assert(cnt(mu, i) <= cnt(lam, i) + 1);
        assert(cols(lam, k)[i] == cnt(lam, i));
        assert(cols(mu, k)[i] == cnt(mu, i));
    }
}
pub proof fn lemma_free_leads(lam: Seq<int>, mu: Seq<int>, k: int, d: int, j: int, hi: int)
    requires pairing(lam, mu, k, d), 0 <= j <= hi
    ensures leaders(lam, mu, k, d, 0, hi) >= 0, col_free(lam, mu, k, d, j) ==> leaders(lam, mu, k, d, 0, hi) >= 1
    decreases hi, j
{
    lemma_strips_in(lam, mu, k);
    lemma_no_col0(lam, mu, k, d);
    if hi > 0 {
        if j < hi { lemma_free_leads(lam, mu, k, d, j, hi - 1); }
        else {
            lemma_free_leads(lam, mu, k, d, j - 1, hi - 1);
            lemma_leader(lam, mu, k, d, j);
        }
    }
}
// C03: the exponents are not negative
pub proof fn lemma_exponent(lam: Seq<int>, mu: Seq<int>, k: int, d: int, p: int)
    requires pairing(lam, mu, k, d), sum_seq(mu) == sum_seq(lam) + p
    ensures ncomp(lam, mu, k, d, false) >= 0, ncomp(lam, mu, k, d, true) >= 0, p > k ==> ncomp(lam, mu, k, d, false) >= 1
{
    lemma_comps_scope(lam, mu, k, d);
    let e = ex(mu, k, 0);
    assert(ex(mu, k, 0) >= 0);
    lemma_free_leads(lam, mu, k, d, 0, e);
    lemma_leaders_nonneg(lam, mu, k, d, 1, e);
    let n = cnt(mu, k);
    if p > k && ncomp(lam, mu, k, d, false) < 1 {
        lemma_pair_sum(lam, k, n);
        lemma_pair_sum(mu, k, n);
        lemma_psum_sum(cols(lam, k), k);
        lemma_psum_sum(cols(mu, k), k);
        assert(cols(lam, k).subrange(0, k) =~= cols(lam, k));
        assert(cols(mu, k).subrange(0, k) =~= cols(mu, k));
        lemma_boxed_many(lam, mu, k, d, n);
        lemma_marks_many(lam, mu, k, d, k);
        let f = boxed_f(lam, mu, k, n);
        let g = marks_f(lam, mu, k, d, k);
        assert forall|c: int| 0 <= c < e && #[trigger] f(c) implies g(c) by {
            lemma_free_leads(lam, mu, k, d, c + 1, e);
            if n >= 1 { lemma_col_free(lam, mu, k, d, c); }
        }
        lemma_many_le(f, g, e);
    }
}
pub proof fn lemma_leaders_nonneg(lam: Seq<int>, mu: Seq<int>, k: int, d: int, lo: int, hi: int)
    ensures leaders(lam, mu, k, d, lo, hi) >= 0
    decreases hi - lo
{ if hi > lo { lemma_leaders_nonneg(lam, mu, k, d, lo, hi - 1); } }

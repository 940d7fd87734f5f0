// Mathematical meaning of the Python operations used by the extraction (translate.py).
// Nothing here is about schubertpy.  `test` is the only trusted function: it makes the
// value of a ghost condition available to a branch.
use vstd::prelude::*;
verus! {

pub enum Ex { ValueError, TypeError, Exception }
#[verifier::ext_equal]
pub ghost enum Out<T> { Val(T), Exc(Ex) }

#[verifier::external_body]
pub fn test(b: Ghost<bool>) -> (r: bool)
    ensures r == b@
{ unimplemented!() }

pub uninterp spec fn tg<T>(x: T) -> bool;      // only a trigger

// ---------------------------------------------------------------- numbers
pub open spec fn imin(a: int, b: int) -> int { if b < a { b } else { a } }
pub open spec fn imax(a: int, b: int) -> int { if b > a { b } else { a } }
pub open spec fn iabs(a: int) -> int { if a < 0 { -a } else { a } }

pub open spec fn powi(a: int, e: int) -> int
    decreases e
{ if e <= 0 { 1 } else { a * powi(a, e - 1) } }

// 2 ** e for any integer e
pub open spec fn pow2r(e: int) -> real
    decreases iabs(e)
{ if e == 0 { 1real } else if e > 0 { 2real * pow2r(e - 1) } else { pow2r(e + 1) / 2real } }

pub open spec fn ir(a: int) -> real { a as real }

// ---------------------------------------------------------------- lists
pub open spec fn pylen(n: int) -> nat { if n < 0 { 0 } else { n as nat } }
pub open spec fn rep(x: int, n: int) -> Seq<int> { Seq::new(pylen(n), |i: int| x) }
pub open spec fn rangeseq(a: int, b: int) -> Seq<int> { Seq::new(pylen(b - a), |i: int| a + i) }
pub open spec fn nidx(len: int, i: int) -> int { if i < 0 { i + len } else { i } }
pub open spec fn clampi(len: int, i: int) -> int {
    if i < 0 { if i + len < 0 { 0 } else { i + len } } else if i > len { len } else { i }
}
// l[a:b]
pub open spec fn slice<T>(l: Seq<T>, a: int, b: int) -> Seq<T> {
    let lo = clampi(l.len() as int, a);
    let hi = clampi(l.len() as int, b);
    if lo < hi { l.subrange(lo, hi) } else { Seq::empty() }
}

pub open spec fn sum_seq(s: Seq<int>) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else { sum_seq(s.drop_last()) + s.last() } }

pub open spec fn seq_min(s: Seq<int>) -> int
    decreases s.len()
{ if s.len() <= 1 { s[0] } else { imin(seq_min(s.drop_last()), s.last()) } }

pub open spec fn seq_max(s: Seq<int>) -> int
    decreases s.len()
{ if s.len() <= 1 { s[0] } else { imax(seq_max(s.drop_last()), s.last()) } }

pub open spec fn count_in(s: Seq<int>, x: int) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else { count_in(s.drop_last(), x) + (if s.last() == x { 1int } else { 0int }) } }

// how many entries satisfy f
pub open spec fn count_where<T>(s: Seq<T>, f: spec_fn(T) -> bool) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else { count_where(s.drop_last(), f) + (if f(s.last()) { 1int } else { 0int }) } }

pub broadcast proof fn lemma_count_ext<T>(s: Seq<T>, f: spec_fn(T) -> bool, g: spec_fn(T) -> bool)
    ensures #![trigger count_where(s, f), count_where(s, g)] (forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i]) == g(s[i])) ==> count_where(s, f) == count_where(s, g)
    decreases s.len()
{
    if (forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i]) == g(s[i])) && s.len() > 0 {
        let t = s.drop_last();
        assert forall|i: int| 0 <= i < t.len() implies f(#[trigger] t[i]) == g(t[i]) by { assert(t[i] == s[i]); }
        lemma_count_ext(t, f, g);
        assert(f(s[s.len() - 1]) == g(s[s.len() - 1]));
    }
}

pub open spec fn set_int_range(a: int, b: int) -> Set<int> { rangeseq(a, b).to_set() }

pub proof fn lemma_seq_min(s: Seq<int>)
    requires s.len() > 0
    ensures s.contains(seq_min(s)), forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> seq_min(s) <= s[i]
    decreases s.len()
{
    if s.len() > 1 {
        lemma_seq_min(s.drop_last());
        let t = s.drop_last();
        let j = choose|j: int| 0 <= j < t.len() && t[j] == seq_min(t);
        assert(s[j] == seq_min(t));
        assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies seq_min(s) <= s[i] by {
            if i < t.len() { assert(t[i] == s[i]); }
        }
        if seq_min(s) == s.last() { assert(s[s.len() - 1] == seq_min(s)); } else { assert(s[j] == seq_min(s)); }
    } else {
        assert(s[0] == seq_min(s));
    }
}

pub proof fn lemma_seq_max(s: Seq<int>)
    requires s.len() > 0
    ensures s.contains(seq_max(s)), forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> s[i] <= seq_max(s)
    decreases s.len()
{
    if s.len() > 1 {
        lemma_seq_max(s.drop_last());
        let t = s.drop_last();
        let j = choose|j: int| 0 <= j < t.len() && t[j] == seq_max(t);
        assert(s[j] == seq_max(t));
        assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies s[i] <= seq_max(s) by {
            if i < t.len() { assert(t[i] == s[i]); }
        }
        if seq_max(s) == s.last() { assert(s[s.len() - 1] == seq_max(s)); } else { assert(s[j] == seq_max(s)); }
    } else {
        assert(s[0] == seq_max(s));
    }
}

pub proof fn lemma_sum_add(a: Seq<int>, b: Seq<int>)
    ensures sum_seq(a + b) == sum_seq(a) + sum_seq(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_sum_add(a, b.drop_last());
    }
}

pub proof fn lemma_sum_push(a: Seq<int>, x: int)
    ensures sum_seq(a.push(x)) == sum_seq(a) + x
{ assert(a.push(x).drop_last() =~= a); }

pub proof fn lemma_sum_zero(s: Seq<int>)
    requires forall|i: int| 0 <= i < s.len() ==> s[i] == 0
    ensures sum_seq(s) == 0
    decreases s.len()
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies s.drop_last()[i] == 0 by { assert(s[i] == 0); }
        lemma_sum_zero(s.drop_last());
    }
}

pub proof fn lemma_sum_nonneg(s: Seq<int>)
    requires forall|i: int| 0 <= i < s.len() ==> s[i] >= 0
    ensures sum_seq(s) >= 0
    decreases s.len()
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies s.drop_last()[i] >= 0 by { assert(s[i] >= 0); }
        lemma_sum_nonneg(s.drop_last());
    }
}

pub proof fn lemma_sum_le(a: Seq<int>, b: Seq<int>)
    requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> a[i] <= b[i]
    ensures sum_seq(a) <= sum_seq(b)
    decreases a.len()
{
    if a.len() > 0 {
        assert forall|i: int| 0 <= i < a.drop_last().len() implies a.drop_last()[i] <= b.drop_last()[i] by { assert(a[i] <= b[i]); }
        lemma_sum_le(a.drop_last(), b.drop_last());
    }
}

// sum_seq(l[0..i]) one step
pub proof fn lemma_sum_prefix(l: Seq<int>, i: int)
    requires 0 <= i < l.len()
    ensures sum_seq(l.subrange(0, i + 1)) == sum_seq(l.subrange(0, i)) + l[i]
{ assert(l.subrange(0, i + 1).drop_last() =~= l.subrange(0, i)); }

pub proof fn lemma_sum_update(l: Seq<int>, i: int, x: int)
    requires 0 <= i < l.len()
    ensures sum_seq(l.update(i, x)) == sum_seq(l) - l[i] + x
    decreases l.len()
{
    if i == l.len() - 1 {
        assert(l.update(i, x).drop_last() =~= l.drop_last());
    } else {
        assert(l.update(i, x).drop_last() =~= l.drop_last().update(i, x));
        lemma_sum_update(l.drop_last(), i, x);
    }
}

// ---------------------------------------------------------------- order of lists and sorting
// Python's order of two lists: the first different entry decides, a proper prefix is smaller
pub open spec fn lltat(a: Seq<int>, b: Seq<int>, j: int) -> bool {
    &&& 0 <= j <= a.len() && j < b.len()
    &&& forall|i: int| 0 <= i < j ==> #[trigger] a[i] == b[i]
    &&& j == a.len() || a[j] < b[j]
}
pub open spec fn llt(a: Seq<int>, b: Seq<int>) -> bool { exists|j: int| lltat(a, b, j) }
pub proof fn lemma_llt_irr(a: Seq<int>)
    ensures !llt(a, a)
{}
pub proof fn lemma_llt_trans(a: Seq<int>, b: Seq<int>, c: Seq<int>)
    requires llt(a, b), llt(b, c)
    ensures llt(a, c)
{
    let i = choose|i: int| lltat(a, b, i);
    let j = choose|j: int| lltat(b, c, j);
    let h = imin(i, j);
    assert(lltat(a, c, h)) by {
        assert forall|l: int| 0 <= l < h implies #[trigger] a[l] == c[l] by { assert(a[l] == b[l]); assert(b[l] == c[l]); }
        if i < j { assert(b[i] == c[i]); } else if j < i { assert(a[j] == b[j]); }
    }
}
pub proof fn lemma_llt_total(a: Seq<int>, b: Seq<int>, t: int)
    requires 0 <= t <= a.len(), t <= b.len(), forall|i: int| 0 <= i < t ==> #[trigger] a[i] == b[i]
    ensures a =~= b || llt(a, b) || llt(b, a)
    decreases a.len() - t
{
    if t < a.len() && t < b.len() && a[t] == b[t] { lemma_llt_total(a, b, t + 1); }
    else if t == a.len() && t == b.len() { assert(a =~= b); }
    else if t == a.len() || (t < b.len() && a[t] < b[t]) { assert(lltat(a, b, t)); }
    else { assert(lltat(b, a, t)); }
}
// sorted() of lists: insertion sort (the result of a stable sort is determined by the order)
pub open spec fn lins(r: Seq<Seq<int>>, x: Seq<int>) -> Seq<Seq<int>>
    decreases r.len()
{ if r.len() == 0 || !llt(x, r.last()) { r.push(x) } else { lins(r.drop_last(), x).push(r.last()) } }
pub open spec fn lsort(l: Seq<Seq<int>>) -> Seq<Seq<int>>
    decreases l.len()
{ if l.len() == 0 { l } else { lins(lsort(l.drop_last()), l.last()) } }
// in order; equal neighbours allowed
pub open spec fn lsorted(r: Seq<Seq<int>>) -> bool { forall|i: int, j: int| 0 <= i < j < r.len() ==> !llt(#[trigger] r[j], #[trigger] r[i]) }
// strictly increasing
pub open spec fn lstrict(r: Seq<Seq<int>>) -> bool { forall|i: int, j: int| 0 <= i < j < r.len() ==> llt(#[trigger] r[i], #[trigger] r[j]) }
pub open spec fn same_lists(a: Seq<Seq<int>>, b: Seq<Seq<int>>) -> bool { forall|v: Seq<int>| #[trigger] a.contains(v) <==> b.contains(v) }
pub proof fn lemma_lins(r: Seq<Seq<int>>, x: Seq<int>)
    ensures lins(r, x).len() == r.len() + 1, forall|v: Seq<int>| #[trigger] lins(r, x).contains(v) <==> (r.contains(v) || v =~= x),
        lstrict(r) && !r.contains(x) ==> lstrict(lins(r, x))
    decreases r.len()
{
    let o = lins(r, x);
    if r.len() == 0 || !llt(x, r.last()) {
        assert forall|v: Seq<int>| #[trigger] o.contains(v) <==> (r.contains(v) || v =~= x) by { lemma_push_contains(r, x, v); }
        if lstrict(r) && !r.contains(x) {
            assert forall|i: int, j: int| 0 <= i < j < o.len() implies llt(#[trigger] o[i], #[trigger] o[j]) by {
                if j == r.len() {
                    assert(r.contains(r[r.len() - 1]));
                    lemma_llt_total(r.last(), x, 0);
                    if i < r.len() - 1 { assert(llt(r[i], r[r.len() - 1])); lemma_llt_trans(r[i], r.last(), x); }
                }
            }
        }
    } else {
        let d = r.drop_last();
        let y = r.last();
        lemma_lins(d, x);
        let z = lins(d, x);
        assert(r =~= d.push(y));
        assert forall|v: Seq<int>| #[trigger] o.contains(v) <==> (r.contains(v) || v =~= x) by { lemma_push_contains(z, y, v); lemma_push_contains(d, y, v); assert(z.contains(v) <==> (d.contains(v) || v =~= x)); }
        if lstrict(r) && !r.contains(x) {
            assert(lstrict(d)) by { assert forall|i: int, j: int| 0 <= i < j < d.len() implies llt(#[trigger] d[i], #[trigger] d[j]) by { assert(llt(r[i], r[j])); } }
            assert(!d.contains(x)) by { lemma_push_contains(d, y, x); }
            assert forall|i: int, j: int| 0 <= i < j < o.len() implies llt(#[trigger] o[i], #[trigger] o[j]) by {
                if j == z.len() {
                    assert(z.contains(z[i]));
                    assert(z[i] == o[i]);
                    if !(z[i] =~= x) { let h = choose|h: int| 0 <= h < d.len() && d[h] == z[i]; assert(llt(r[h], r[r.len() - 1])); }
                }
            }
        }
    }
}
pub proof fn lemma_push_contains(r: Seq<Seq<int>>, x: Seq<int>, v: Seq<int>)
    ensures r.push(x).contains(v) <==> (r.contains(v) || v =~= x)
{
    let o = r.push(x);
    if r.contains(v) { let i = choose|i: int| 0 <= i < r.len() && r[i] == v; assert(o[i] == v); }
    if v =~= x { assert(o[r.len() as int] == v); }
    if o.contains(v) { let i = choose|i: int| 0 <= i < o.len() && o[i] == v; if i < r.len() { assert(r[i] == v); } }
}
pub proof fn lemma_lsort(l: Seq<Seq<int>>)
    ensures lsort(l).len() == l.len(), same_lists(lsort(l), l), l.no_duplicates() ==> lstrict(lsort(l))
    decreases l.len()
{
    if l.len() > 0 {
        let d = l.drop_last();
        let x = l.last();
        lemma_lsort(d);
        lemma_lins(lsort(d), x);
        assert(l =~= d.push(x));
        assert forall|v: Seq<int>| #[trigger] lsort(l).contains(v) <==> l.contains(v) by { lemma_push_contains(d, x, v); assert(lsort(d).contains(v) <==> d.contains(v)); }
        if l.no_duplicates() {
            assert(d.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < d.len() && 0 <= j < d.len() && i != j implies d[i] != d[j] by { assert(l[i] != l[j]); } }
            if d.contains(x) { let i = choose|i: int| 0 <= i < d.len() && d[i] == x; assert(l[i] != l[l.len() - 1]); }
            assert(lsort(d).contains(x) <==> d.contains(x));
        }
    }
}
// sorted() of integers
pub open spec fn iins(r: Seq<int>, x: int) -> Seq<int>
    decreases r.len()
{ if r.len() == 0 || r.last() <= x { r.push(x) } else { iins(r.drop_last(), x).push(r.last()) } }
pub open spec fn isort(l: Seq<int>) -> Seq<int>
    decreases l.len()
{ if l.len() == 0 { l } else { iins(isort(l.drop_last()), l.last()) } }
// classes named by a pair of lists: the pair as a label
pub uninterp spec fn label(p: Seq<Seq<int>>) -> Seq<int>;
pub uninterp spec fn unlabel(l: Seq<int>) -> Seq<Seq<int>>;
#[verifier::external_body]
pub broadcast proof fn axiom_label(p: Seq<Seq<int>>)
    ensures unlabel(#[trigger] label(p)) == p
{}
// the members of a finite set of lists, in some order
pub uninterp spec fn set_list(s: Set<Seq<int>>) -> Seq<Seq<int>>;
#[verifier::external_body]
pub proof fn axiom_set_list(s: Set<Seq<int>>)
    ensures s.finite() ==> set_list(s).no_duplicates() && set_list(s).len() == s.len() && forall|v: Seq<int>| #[trigger] set_list(s).contains(v) <==> s.contains(v)
{}
// the members of a finite set of integers, in some order
pub uninterp spec fn set_ints(s: Set<int>) -> Seq<int>;
#[verifier::external_body]
pub proof fn axiom_set_ints(s: Set<int>)
    ensures s.finite() ==> set_ints(s).no_duplicates() && set_ints(s).len() == s.len() && forall|v: int| #[trigger] set_ints(s).contains(v) <==> s.contains(v)
{}
pub open spec fn increasing(r: Seq<int>) -> bool { forall|i: int, j: int| 0 <= i < j < r.len() ==> #[trigger] r[i] < #[trigger] r[j] }
pub open spec fn decreasing(r: Seq<int>) -> bool { forall|i: int, j: int| 0 <= i < j < r.len() ==> #[trigger] r[i] > #[trigger] r[j] }
pub proof fn lemma_int_push(r: Seq<int>, x: int, v: int)
    ensures r.push(x).contains(v) <==> (r.contains(v) || v == x)
{
    let o = r.push(x);
    if r.contains(v) { let i = choose|i: int| 0 <= i < r.len() && r[i] == v; assert(o[i] == v); }
    if v == x { assert(o[r.len() as int] == v); }
    if o.contains(v) { let i = choose|i: int| 0 <= i < o.len() && o[i] == v; if i < r.len() { assert(r[i] == v); } }
}
pub proof fn lemma_iins(r: Seq<int>, x: int)
    ensures iins(r, x).len() == r.len() + 1, forall|v: int| #[trigger] iins(r, x).contains(v) <==> (r.contains(v) || v == x), increasing(r) && !r.contains(x) ==> increasing(iins(r, x))
    decreases r.len()
{
    let o = iins(r, x);
    if r.len() == 0 || r.last() <= x {
        assert forall|v: int| #[trigger] o.contains(v) <==> (r.contains(v) || v == x) by { lemma_int_push(r, x, v); }
        if increasing(r) && !r.contains(x) && r.len() > 0 { assert(r.contains(r[r.len() - 1])); assert(forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] <= r[r.len() - 1]); }
    } else {
        let d = r.drop_last();
        let y = r.last();
        lemma_iins(d, x);
        let z = iins(d, x);
        assert(r =~= d.push(y));
        assert forall|v: int| #[trigger] o.contains(v) <==> (r.contains(v) || v == x) by { lemma_int_push(z, y, v); lemma_int_push(d, y, v); assert(z.contains(v) <==> (d.contains(v) || v == x)); }
        if increasing(r) && !r.contains(x) {
            assert(!d.contains(x)) by { lemma_int_push(d, y, x); }
            assert(increasing(d)) by { assert(forall|i: int| 0 <= i < d.len() ==> #[trigger] d[i] == r[i]); }
            assert forall|i: int, j: int| 0 <= i < j < o.len() implies #[trigger] o[i] < #[trigger] o[j] by {
                if j == z.len() {
                    assert(z.contains(z[i]));
                    if z[i] != x { assert(d.contains(z[i])); let h = choose|h: int| 0 <= h < d.len() && d[h] == z[i]; assert(r[h] < r[r.len() - 1]); }
                } else { assert(z[i] < z[j]); }
            }
        }
    }
}
pub proof fn lemma_isort(l: Seq<int>)
    ensures isort(l).len() == l.len(), forall|v: int| #[trigger] isort(l).contains(v) <==> l.contains(v), l.no_duplicates() ==> increasing(isort(l))
    decreases l.len()
{
    if l.len() > 0 {
        let d = l.drop_last();
        let x = l.last();
        lemma_isort(d);
        lemma_iins(isort(d), x);
        assert(l =~= d.push(x));
        assert forall|v: int| #[trigger] isort(l).contains(v) <==> l.contains(v) by { lemma_int_push(d, x, v); assert(isort(d).contains(v) <==> d.contains(v)); }
        if l.no_duplicates() {
            assert(d.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < d.len() && 0 <= j < d.len() && i != j implies d[i] != d[j] by { assert(l[i] != l[j]); } }
            assert(!isort(d).contains(x)) by { if d.contains(x) { let i = choose|i: int| 0 <= i < d.len() && d[i] == x; assert(l[i] != l[l.len() - 1]); } }
        }
    }
}
// the members of a set from the largest
pub open spec fn set_desc(s: Set<int>) -> Seq<int> { isort(set_ints(s)).reverse() }
pub proof fn lemma_set_desc(s: Set<int>)
    requires s.finite()
    ensures decreasing(set_desc(s)), forall|v: int| #[trigger] set_desc(s).contains(v) <==> s.contains(v)
{
    let a = set_ints(s);
    axiom_set_ints(s);
    lemma_isort(a);
    let b = isort(a);
    let r = set_desc(s);
    assert forall|v: int| #[trigger] r.contains(v) <==> s.contains(v) by {
        assert(b.contains(v) <==> a.contains(v));
        assert(a.contains(v) <==> s.contains(v));
        if b.contains(v) { let i = choose|i: int| 0 <= i < b.len() && b[i] == v; assert(r[b.len() - 1 - i] == v); }
        if r.contains(v) { let i = choose|i: int| 0 <= i < r.len() && r[i] == v; assert(b[b.len() - 1 - i] == v); }
    }
}
pub proof fn lemma_same_desc(a: Seq<int>, b: Seq<int>)
    requires decreasing(a), decreasing(b), forall|v: int| #[trigger] a.contains(v) <==> b.contains(v)
    ensures a =~= b
    decreases a.len()
{
    if a.len() == 0 { if b.len() > 0 { assert(b.contains(b[0])); assert(a.contains(b[0])); } assert(b.len() == 0); }
    else {
        assert(a.contains(a[a.len() - 1]));
        assert(b.len() > 0) by { assert(b.contains(a[a.len() - 1])); }
        let x = a.last();
        let y = b.last();
        assert(b.contains(x));
        assert(b.contains(b[b.len() - 1]));
        assert(a.contains(y));
        let i = choose|i: int| 0 <= i < b.len() && b[i] == x;
        let j = choose|j: int| 0 <= j < a.len() && a[j] == y;
        assert(x == y) by { if i < b.len() - 1 && j < a.len() - 1 { assert(b[i] > b[b.len() - 1]); assert(a[j] > a[a.len() - 1]); } }
        let c = a.drop_last();
        let d = b.drop_last();
        assert(decreasing(c)) by { assert(forall|h: int| 0 <= h < c.len() ==> #[trigger] c[h] == a[h]); }
        assert(decreasing(d)) by { assert(forall|h: int| 0 <= h < d.len() ==> #[trigger] d[h] == b[h]); }
        assert(a =~= c.push(x) && b =~= d.push(y));
        assert forall|v: int| #[trigger] c.contains(v) <==> d.contains(v) by {
            lemma_int_push(c, x, v); lemma_int_push(d, y, v);
            assert(a.contains(v) <==> b.contains(v));
            if c.contains(x) { let h = choose|h: int| 0 <= h < c.len() && c[h] == x; assert(a[h] > a[a.len() - 1]); }
            if d.contains(y) { let h = choose|h: int| 0 <= h < d.len() && d[h] == y; assert(b[h] > b[b.len() - 1]); }
        }
        lemma_same_desc(c, d);
    }
}
// sorted(set(l))
pub open spec fn sset(l: Seq<Seq<int>>) -> Seq<Seq<int>> { lsort(set_list(l.to_set())) }
pub proof fn lemma_sset(l: Seq<Seq<int>>)
    ensures lstrict(sset(l)), same_lists(sset(l), l)
{
    axiom_set_list(l.to_set());
    lemma_lsort(set_list(l.to_set()));
    assert forall|v: Seq<int>| #[trigger] sset(l).contains(v) <==> l.contains(v) by { assert(set_list(l.to_set()).contains(v) <==> l.to_set().contains(v)); assert(lsort(set_list(l.to_set())).contains(v) <==> set_list(l.to_set()).contains(v)); }
}
// text and hash of values: functions of the value
pub uninterp spec fn py_str(l: Seq<int>) -> int;
pub uninterp spec fn py_hash(s: int) -> int;

// ---------------------------------------------------------------- formal sums
// A linear combination is a finite list of terms c * q^e0 * q1^e1 * q2^e2 * S[lam];
// two linear combinations are the same when all their coefficients agree.
pub type Exp = (int, int, int);
#[verifier::ext_equal]
pub ghost struct Term { pub lam: Seq<int>, pub c: real, pub e: Exp }
#[verifier::ext_equal]
// str.replace and str.translate
pub open spec fn treplace(t: Seq<char>, a: Seq<char>, b: Seq<char>) -> Seq<char>
    decreases t.len()
{
    if a.len() == 0 || t.len() < a.len() { t }
    else if t.subrange(0, a.len() as int) =~= a { b + treplace(t.subrange(a.len() as int, t.len() as int), a, b) }
    else { seq![t[0]] + treplace(t.subrange(1, t.len() as int), a, b) }
}
// the last of several entries for a character counts
pub open spec fn tr1(a: Seq<char>, b: Seq<char>, n: int, c: char) -> char
    decreases n
{ if n <= 0 || n > a.len() || n > b.len() { c } else if a[n - 1] == c { b[n - 1] } else { tr1(a, b, n - 1, c) } }
pub open spec fn ttr(a: Seq<char>, b: Seq<char>, t: Seq<char>) -> Seq<char> { Seq::new(t.len(), |i: int| tr1(a, b, a.len() as int, t[i])) }
pub ghost struct Scal { pub c: real, pub e: Exp }

pub open spec fn eadd(a: Exp, b: Exp) -> Exp { (a.0 + b.0, a.1 + b.1, a.2 + b.2) }
pub open spec fn esub(a: Exp, b: Exp) -> Exp { (a.0 - b.0, a.1 - b.1, a.2 - b.2) }
pub open spec fn e0() -> Exp { (0, 0, 0) }

pub open spec fn t_at(t: Term, lam: Seq<int>, e: Exp) -> real { if t.lam =~= lam && t.e == e { t.c } else { 0real } }
pub open spec fn fs_coef(s: Seq<Term>, lam: Seq<int>, e: Exp) -> real
    decreases s.len()
{ if s.len() == 0 { 0real } else { fs_coef(s.drop_last(), lam, e) + t_at(s.last(), lam, e) } }

pub open spec fn fs_zero() -> Seq<Term> { Seq::empty() }
// c * S[lam]; a plain number c stands for c * S[] in sums of classes
pub open spec fn fs_term(c: real, lam: Seq<int>) -> Seq<Term> { seq![Term { lam: lam, c: c, e: e0() }] }
pub open spec fn fs_one(lam: Seq<int>) -> Seq<Term> { fs_term(1real, lam) }
// the number c as a linear combination (only 0 occurs next to classes)
pub open spec fn fs_const(c: int) -> Seq<Term> { if c == 0 { fs_zero() } else { fs_term(ir(c), Seq::<int>::empty()) } }
// the value of a function that returns a class or 0
pub open spec fn fs_opt(l: Option<Seq<int>>) -> Seq<Term> { match l { Some(x) => fs_one(x), None => fs_zero() } }
pub open spec fn fs_add(a: Seq<Term>, b: Seq<Term>) -> Seq<Term> { a + b }
pub open spec fn fs_scale(c: real, a: Seq<Term>) -> Seq<Term> { a.map_values(|t: Term| Term { lam: t.lam, c: c * t.c, e: t.e }) }
pub open spec fn fs_sub(a: Seq<Term>, b: Seq<Term>) -> Seq<Term> { fs_add(a, fs_scale(-1real, b)) }
pub open spec fn fs_shift(m: Scal, a: Seq<Term>) -> Seq<Term> { a.map_values(|t: Term| Term { lam: t.lam, c: m.c * t.c, e: eadd(m.e, t.e) }) }
pub open spec fn fs_mul(s: Seq<Scal>, a: Seq<Term>) -> Seq<Term>
    decreases s.len()
{ if s.len() == 0 { fs_zero() } else { fs_add(fs_mul(s.drop_last(), a), fs_shift(s.last(), a)) } }
// linear extension of f from classes to sums
pub open spec fn fs_apply(f: spec_fn(Seq<int>) -> Seq<Term>, a: Seq<Term>) -> Seq<Term>
    decreases a.len()
{ if a.len() == 0 { fs_zero() } else { fs_add(fs_apply(f, a.drop_last()), fs_shift(Scal { c: a.last().c, e: a.last().e }, f(a.last().lam))) } }

pub open spec fn fs_scal(s: Seq<Scal>) -> Seq<Term> { fs_mul(s, fs_one(Seq::<int>::empty())) }

pub open spec fn sc_q() -> Seq<Scal> { seq![Scal { c: 1real, e: (1, 0, 0) }] }
pub open spec fn sc_q1() -> Seq<Scal> { seq![Scal { c: 1real, e: (0, 1, 0) }] }
pub open spec fn sc_q2() -> Seq<Scal> { seq![Scal { c: 1real, e: (0, 0, 1) }] }
pub open spec fn sc_scale(c: real, s: Seq<Scal>) -> Seq<Scal> { s.map_values(|m: Scal| Scal { c: c * m.c, e: m.e }) }
pub open spec fn sc_half(s: Seq<Scal>) -> Seq<Scal> { sc_scale(1real / 2real, s) }
pub open spec fn sc_shift(x: Scal, s: Seq<Scal>) -> Seq<Scal> { s.map_values(|m: Scal| Scal { c: x.c * m.c, e: eadd(x.e, m.e) }) }
pub open spec fn sc_mul(s: Seq<Scal>, t: Seq<Scal>) -> Seq<Scal>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { sc_mul(s.drop_last(), t) + sc_shift(s.last(), t) } }
pub open spec fn sc_one() -> Seq<Scal> { seq![Scal { c: 1real, e: e0() }] }
pub open spec fn sc_pow(s: Seq<Scal>, n: int) -> Seq<Scal>
    decreases n
{ if n <= 0 { sc_one() } else { sc_mul(s, sc_pow(s, n - 1)) } }

pub broadcast proof fn fs_coef_add(a: Seq<Term>, b: Seq<Term>, lam: Seq<int>, e: Exp)
    ensures #[trigger] fs_coef(fs_add(a, b), lam, e) == fs_coef(a, lam, e) + fs_coef(b, lam, e)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        fs_coef_add(a, b.drop_last(), lam, e);
        assert((a + b).last() == b.last());
    }
}

pub broadcast proof fn fs_coef_scale(c: real, a: Seq<Term>, lam: Seq<int>, e: Exp)
    ensures #[trigger] fs_coef(fs_scale(c, a), lam, e) == c * fs_coef(a, lam, e)
    decreases a.len()
{
    if a.len() == 0 {
        assert(fs_scale(c, a) =~= a);
    } else {
        assert(fs_scale(c, a).drop_last() =~= fs_scale(c, a.drop_last()));
        fs_coef_scale(c, a.drop_last(), lam, e);
        let x = fs_coef(a.drop_last(), lam, e);
        let y = t_at(a.last(), lam, e);
        assert(c * (x + y) == c * x + c * y) by (nonlinear_arith);
        assert(t_at(fs_scale(c, a).last(), lam, e) == c * y) by {
            if !(a.last().lam =~= lam && a.last().e == e) { assert(c * 0real == 0real) by (nonlinear_arith); }
        }
    }
}

pub broadcast proof fn fs_coef_sub(a: Seq<Term>, b: Seq<Term>, lam: Seq<int>, e: Exp)
    ensures #[trigger] fs_coef(fs_sub(a, b), lam, e) == fs_coef(a, lam, e) - fs_coef(b, lam, e)
{
    fs_coef_add(a, fs_scale(-1real, b), lam, e);
    fs_coef_scale(-1real, b, lam, e);
}

pub broadcast proof fn fs_coef_shift(m: Scal, a: Seq<Term>, lam: Seq<int>, e: Exp)
    ensures #[trigger] fs_coef(fs_shift(m, a), lam, e) == m.c * fs_coef(a, lam, esub(e, m.e))
    decreases a.len()
{
    let f = esub(e, m.e);
    if a.len() == 0 {
        assert(fs_shift(m, a) =~= a);
    } else {
        assert(fs_shift(m, a).drop_last() =~= fs_shift(m, a.drop_last()));
        fs_coef_shift(m, a.drop_last(), lam, e);
        let x = fs_coef(a.drop_last(), lam, f);
        let y = t_at(a.last(), lam, f);
        let c = m.c;
        assert(c * (x + y) == c * x + c * y) by (nonlinear_arith);
        assert(t_at(fs_shift(m, a).last(), lam, e) == c * y) by {
            if !(a.last().lam =~= lam && a.last().e == f) {
                assert(c * 0real == 0real) by (nonlinear_arith);
                assert(!(a.last().lam =~= lam && eadd(m.e, a.last().e) == e));
            } else {
                assert(eadd(m.e, a.last().e) == e);
            }
        }
    }
}

pub broadcast proof fn fs_coef_term(c: real, l: Seq<int>, lam: Seq<int>, e: Exp)
    ensures #[trigger] fs_coef(fs_term(c, l), lam, e) == (if l =~= lam && e == e0() { c } else { 0real })
{
    let s = fs_term(c, l);
    assert(s.drop_last() =~= Seq::empty());
    assert(fs_coef(s.drop_last(), lam, e) == 0real);
}

pub broadcast proof fn fs_coef_zero(lam: Seq<int>, e: Exp)
    ensures #[trigger] fs_coef(fs_zero(), lam, e) == 0real
{}

pub proof fn lemma_fs_mul1(m: Scal, a: Seq<Term>, lam: Seq<int>, e: Exp)
    ensures fs_coef(fs_mul(seq![m], a), lam, e) == m.c * fs_coef(a, lam, esub(e, m.e))
{
    let s = seq![m];
    assert(s.drop_last() =~= Seq::<Scal>::empty());
    assert(fs_mul(s.drop_last(), a) =~= fs_zero());
    fs_coef_add(fs_mul(s.drop_last(), a), fs_shift(m, a), lam, e);
    fs_coef_shift(m, a, lam, e);
    fs_coef_zero(lam, e);
}

pub broadcast proof fn fs_coef_q(a: Seq<Term>, lam: Seq<int>, e: Exp)
    ensures #[trigger] fs_coef(fs_mul(sc_q(), a), lam, e) == fs_coef(a, lam, (e.0 - 1, e.1, e.2))
{
    lemma_fs_mul1(Scal { c: 1real, e: (1, 0, 0) }, a, lam, e);
    assert(esub(e, (1, 0, 0)) == (e.0 - 1, e.1, e.2));
}

pub broadcast proof fn fs_coef_q1(a: Seq<Term>, lam: Seq<int>, e: Exp)
    ensures #[trigger] fs_coef(fs_mul(sc_q1(), a), lam, e) == fs_coef(a, lam, (e.0, e.1 - 1, e.2))
{
    lemma_fs_mul1(Scal { c: 1real, e: (0, 1, 0) }, a, lam, e);
    assert(esub(e, (0, 1, 0)) == (e.0, e.1 - 1, e.2));
}

pub broadcast proof fn fs_coef_q2(a: Seq<Term>, lam: Seq<int>, e: Exp)
    ensures #[trigger] fs_coef(fs_mul(sc_q2(), a), lam, e) == fs_coef(a, lam, (e.0, e.1, e.2 - 1))
{
    lemma_fs_mul1(Scal { c: 1real, e: (0, 0, 1) }, a, lam, e);
    assert(esub(e, (0, 0, 1)) == (e.0, e.1, e.2 - 1));
}

pub broadcast proof fn fs_coef_halfq(a: Seq<Term>, lam: Seq<int>, e: Exp)
    ensures #[trigger] fs_coef(fs_mul(sc_half(sc_q()), a), lam, e) == (1real / 2real) * fs_coef(a, lam, (e.0 - 1, e.1, e.2))
{
    assert(sc_half(sc_q()) =~= seq![Scal { c: 1real / 2real, e: (1, 0, 0) }]);
    lemma_fs_mul1(Scal { c: 1real / 2real, e: (1, 0, 0) }, a, lam, e);
    assert(esub(e, (1, 0, 0)) == (e.0 - 1, e.1, e.2));
}

pub broadcast proof fn fs_coef_qq(a: Seq<Term>, lam: Seq<int>, e: Exp)
    ensures #[trigger] fs_coef(fs_mul(sc_pow(sc_q(), 2), a), lam, e) == fs_coef(a, lam, (e.0 - 2, e.1, e.2))
{
    let one = Scal { c: 1real, e: (0, 0, 0) };
    let q = Scal { c: 1real, e: (1, 0, 0) };
    reveal_with_fuel(sc_pow, 3);
    assert(sc_q().drop_last() =~= Seq::<Scal>::empty());
    assert(sc_mul(sc_q().drop_last(), seq![one]) =~= Seq::<Scal>::empty());
    assert(sc_mul(sc_q(), seq![one]) =~= seq![q]);
    assert(sc_mul(sc_q().drop_last(), seq![q]) =~= Seq::<Scal>::empty());
    assert(sc_mul(sc_q(), seq![q]) =~= seq![Scal { c: 1real, e: (2, 0, 0) }]);
    assert(sc_pow(sc_q(), 2) =~= seq![Scal { c: 1real, e: (2, 0, 0) }]);
    lemma_fs_mul1(Scal { c: 1real, e: (2, 0, 0) }, a, lam, e);
    assert(esub(e, (2, 0, 0)) == (e.0 - 2, e.1, e.2));
}

pub broadcast proof fn fs_coef_q1q2(a: Seq<Term>, lam: Seq<int>, e: Exp)
    ensures #[trigger] fs_coef(fs_mul(sc_mul(sc_q1(), sc_q2()), a), lam, e) == fs_coef(a, lam, (e.0, e.1 - 1, e.2 - 1))
{
    assert(sc_q1().drop_last() =~= Seq::<Scal>::empty());
    assert(sc_mul(sc_q1().drop_last(), sc_q2()) =~= Seq::<Scal>::empty());
    assert(sc_mul(sc_q1(), sc_q2()) =~= seq![Scal { c: 1real, e: (0, 1, 1) }]);
    lemma_fs_mul1(Scal { c: 1real, e: (0, 1, 1) }, a, lam, e);
    assert(esub(e, (0, 1, 1)) == (e.0, e.1 - 1, e.2 - 1));
}

pub broadcast group group_fs {
    fs_coef_add, fs_coef_sub, fs_coef_scale, fs_coef_term, fs_coef_zero,
    fs_coef_q, fs_coef_q1, fs_coef_q2, fs_coef_halfq, fs_coef_qq, fs_coef_q1q2,
}

// every term of a lies in the set of classes P and has exponent e (used for homogeneity)
pub open spec fn fs_all(a: Seq<Term>, p: spec_fn(Seq<int>, Exp) -> bool) -> bool {
    forall|i: int| 0 <= i < a.len() ==> #[trigger] p(a[i].lam, a[i].e)
}

pub proof fn lemma_fs_support(a: Seq<Term>, lam: Seq<int>, e: Exp)
    requires fs_coef(a, lam, e) != 0real
    ensures exists|i: int| 0 <= i < a.len() && #[trigger] a[i].lam =~= lam && a[i].e == e
    decreases a.len()
{
    if t_at(a.last(), lam, e) != 0real {
        assert(a[a.len() - 1].lam =~= lam);
    } else {
        lemma_fs_support(a.drop_last(), lam, e);
        let i = choose|i: int| 0 <= i < a.drop_last().len() && #[trigger] a.drop_last()[i].lam =~= lam && a.drop_last()[i].e == e;
        assert(a[i].lam =~= lam);
    }
}

// linear extension of a partial injection g (class or 0): the coefficient of mu in the
// image is the coefficient of its only preimage pre, or 0 when nothing maps to mu
pub proof fn lemma_fs_apply_inj(f: spec_fn(Seq<int>) -> Seq<Term>, g: spec_fn(Seq<int>) -> Option<Seq<int>>, a: Seq<Term>, mu: Seq<int>, pre: Seq<int>, e: Exp)
    requires
        forall|x: Seq<int>| #[trigger] f(x) == fs_opt(g(x)),
        forall|i: int| 0 <= i < a.len() ==> (((#[trigger] g(a[i].lam)).is_some() && g(a[i].lam).unwrap() =~= mu) <==> a[i].lam =~= pre),
    ensures fs_coef(fs_apply(f, a), mu, e) == fs_coef(a, pre, e)
    decreases a.len()
{
    if a.len() > 0 {
        let b = a.drop_last();
        assert forall|i: int| 0 <= i < b.len() implies (((#[trigger] g(b[i].lam)).is_some() && g(b[i].lam).unwrap() =~= mu) <==> b[i].lam =~= pre) by {
            assert(b[i] == a[i]);
            assert(g(a[i].lam) == g(b[i].lam));
        }
        lemma_fs_apply_inj(f, g, b, mu, pre, e);
        let t = a.last();
        let m = Scal { c: t.c, e: t.e };
        fs_coef_add(fs_apply(f, b), fs_shift(m, f(t.lam)), mu, e);
        fs_coef_shift(m, f(t.lam), mu, e);
        assert(a[a.len() - 1] == t);
        assert(((g(t.lam)).is_some() && g(t.lam).unwrap() =~= mu) <==> t.lam =~= pre);
        let c = t.c;
        assert(c * 0real == 0real) by (nonlinear_arith);
        assert(c * 1real == c) by (nonlinear_arith);
        let ee = esub(e, t.e);
        if g(t.lam).is_some() { fs_coef_term(1real, g(t.lam).unwrap(), mu, ee); } else { fs_coef_zero(mu, ee); }
        assert(ee == e0() <==> t.e == e);
    }
}

// the same when no term maps to mu
pub proof fn lemma_fs_apply_none(f: spec_fn(Seq<int>) -> Seq<Term>, g: spec_fn(Seq<int>) -> Option<Seq<int>>, a: Seq<Term>, mu: Seq<int>, e: Exp)
    requires
        forall|x: Seq<int>| #[trigger] f(x) == fs_opt(g(x)),
        forall|i: int| 0 <= i < a.len() ==> !((#[trigger] g(a[i].lam)).is_some() && g(a[i].lam).unwrap() =~= mu),
    ensures fs_coef(fs_apply(f, a), mu, e) == 0real
    decreases a.len()
{
    if a.len() > 0 {
        let b = a.drop_last();
        assert forall|i: int| 0 <= i < b.len() implies !((#[trigger] g(b[i].lam)).is_some() && g(b[i].lam).unwrap() =~= mu) by {
            assert(b[i] == a[i]);
            assert(g(a[i].lam) == g(b[i].lam));
        }
        lemma_fs_apply_none(f, g, b, mu, e);
        let t = a.last();
        let m = Scal { c: t.c, e: t.e };
        fs_coef_add(fs_apply(f, b), fs_shift(m, f(t.lam)), mu, e);
        fs_coef_shift(m, f(t.lam), mu, e);
        assert(a[a.len() - 1] == t);
        let c = t.c;
        assert(c * 0real == 0real) by (nonlinear_arith);
        let ee = esub(e, t.e);
        if g(t.lam).is_some() { fs_coef_term(1real, g(t.lam).unwrap(), mu, ee); } else { fs_coef_zero(mu, ee); }
    }
}

// the class x occurs in a
pub open spec fn fs_has(a: Seq<Term>, x: Seq<int>) -> bool { exists|i: int| 0 <= i < a.len() && (#[trigger] a[i]).lam == x }
pub broadcast proof fn has_add(a: Seq<Term>, b: Seq<Term>, x: Seq<int>)
    ensures #[trigger] fs_has(fs_add(a, b), x) <==> fs_has(a, x) || fs_has(b, x)
{
    let c = fs_add(a, b);
    if fs_has(a, x) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).lam == x; assert(c[i] == a[i]); }
    if fs_has(b, x) { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).lam == x; assert(c[a.len() + i] == b[i]); }
    if fs_has(c, x) { let i = choose|i: int| 0 <= i < c.len() && (#[trigger] c[i]).lam == x; if i < a.len() { assert(c[i] == a[i]); } else { assert(c[i] == b[i - a.len()]); } }
}
pub broadcast proof fn has_scale(c: real, a: Seq<Term>, x: Seq<int>)
    ensures #[trigger] fs_has(fs_scale(c, a), x) <==> fs_has(a, x)
{
    let b = fs_scale(c, a);
    if fs_has(a, x) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).lam == x; assert(b[i].lam == x); }
    if fs_has(b, x) { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).lam == x; assert(a[i].lam == x); }
}
pub broadcast proof fn has_shift(m: Scal, a: Seq<Term>, x: Seq<int>)
    ensures #[trigger] fs_has(fs_shift(m, a), x) <==> fs_has(a, x)
{
    let b = fs_shift(m, a);
    if fs_has(a, x) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).lam == x; assert(b[i].lam == x); }
    if fs_has(b, x) { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).lam == x; assert(a[i].lam == x); }
}
pub broadcast proof fn has_sub(a: Seq<Term>, b: Seq<Term>, x: Seq<int>)
    ensures #[trigger] fs_has(fs_sub(a, b), x) <==> fs_has(a, x) || fs_has(b, x)
{ has_add(a, fs_scale(-1real, b), x); has_scale(-1real, b, x); }
pub broadcast proof fn has_term(c: real, l: Seq<int>, x: Seq<int>)
    ensures #[trigger] fs_has(fs_term(c, l), x) <==> l == x
{ let b = fs_term(c, l); assert(b[0].lam == l); }
pub broadcast proof fn has_zero(x: Seq<int>)
    ensures !#[trigger] fs_has(fs_zero(), x)
{}
pub broadcast proof fn has_mul(s: Seq<Scal>, a: Seq<Term>, x: Seq<int>)
    ensures #[trigger] fs_has(fs_mul(s, a), x) ==> fs_has(a, x)
    decreases s.len()
{
    if s.len() > 0 { has_mul(s.drop_last(), a, x); has_add(fs_mul(s.drop_last(), a), fs_shift(s.last(), a), x); has_shift(s.last(), a, x); }
}
pub broadcast group group_has { has_add, has_scale, has_shift, has_sub, has_term, has_zero, has_mul }
pub proof fn has_apply(f: spec_fn(Seq<int>) -> Seq<Term>, a: Seq<Term>, x: Seq<int>) -> (y: Seq<int>)
    requires fs_has(fs_apply(f, a), x)
    ensures fs_has(a, y), fs_has(f(y), x)
    decreases a.len()
{
    if a.len() == 0 { has_zero(x); a[0].lam } else {
        let b = a.drop_last();
        let m = Scal { c: a.last().c, e: a.last().e };
        has_add(fs_apply(f, b), fs_shift(m, f(a.last().lam)), x);
        has_shift(m, f(a.last().lam), x);
        if fs_has(fs_apply(f, b), x) { let y = has_apply(f, b, x); let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).lam == y; assert(a[i] == b[i]); y }
        else { assert(a[a.len() - 1] == a.last()); a.last().lam }
    }
}

pub broadcast proof fn lemma_fs_apply_ext(f: spec_fn(Seq<int>) -> Seq<Term>, g: spec_fn(Seq<int>) -> Seq<Term>, a: Seq<Term>)
    ensures #![trigger fs_apply(f, a), fs_apply(g, a)] (forall|i: int| 0 <= i < a.len() ==> f((#[trigger] a[i]).lam) == g(a[i].lam)) ==> fs_apply(f, a) == fs_apply(g, a)
    decreases a.len()
{
    if (forall|i: int| 0 <= i < a.len() ==> f((#[trigger] a[i]).lam) == g(a[i].lam)) && a.len() > 0 {
        let b = a.drop_last();
        assert forall|i: int| 0 <= i < b.len() implies f((#[trigger] b[i]).lam) == g(b[i].lam) by { assert(b[i] == a[i]); }
        lemma_fs_apply_ext(f, g, b);
        assert(f(a[a.len() - 1].lam) == g(a[a.len() - 1].lam));
    }
}
pub broadcast group group_ext { lemma_fs_apply_ext, lemma_count_ext }

// linear extension of a map from classes to classes, term by term
pub open spec fn fs_map(g: spec_fn(Seq<int>) -> Seq<int>, a: Seq<Term>) -> Seq<Term> { a.map_values(|t: Term| Term { lam: g(t.lam), c: t.c, e: t.e }) }
pub proof fn has_map(g: spec_fn(Seq<int>) -> Seq<int>, a: Seq<Term>, x: Seq<int>) -> (y: Seq<int>)
    requires fs_has(fs_map(g, a), x)
    ensures fs_has(a, y), g(y) == x
{
    let i = choose|i: int| 0 <= i < fs_map(g, a).len() && (#[trigger] fs_map(g, a)[i]).lam == x;
    assert(fs_map(g, a)[i].lam == g(a[i].lam));
    a[i].lam
}
pub proof fn lemma_fs_apply_map(f: spec_fn(Seq<int>) -> Seq<Term>, g: spec_fn(Seq<int>) -> Seq<int>, a: Seq<Term>)
    requires forall|i: int| 0 <= i < a.len() ==> f((#[trigger] a[i]).lam) == fs_one(g(a[i].lam))
    ensures fs_apply(f, a) =~= fs_map(g, a)
    decreases a.len()
{
    if a.len() > 0 {
        let b = a.drop_last();
        assert forall|i: int| 0 <= i < b.len() implies f((#[trigger] b[i]).lam) == fs_one(g(b[i].lam)) by { assert(b[i] == a[i]); }
        lemma_fs_apply_map(f, g, b);
        let t = a.last();
        assert(t == a[a.len() - 1]);
        let c = t.c;
        assert(c * 1real == c) by (nonlinear_arith);
        assert(fs_shift(Scal { c: t.c, e: t.e }, fs_one(g(t.lam))) =~= seq![Term { lam: g(t.lam), c: t.c, e: t.e }]);
        assert(fs_map(g, a) =~= fs_map(g, b) + seq![Term { lam: g(t.lam), c: t.c, e: t.e }]);
    } else {
        assert(fs_map(g, a) =~= fs_apply(f, a));
    }
}
// extending two maps one after the other that cancel on every class of a gives a back
pub proof fn lemma_fs_map_inverse(g: spec_fn(Seq<int>) -> Seq<int>, h: spec_fn(Seq<int>) -> Seq<int>, a: Seq<Term>)
    requires forall|i: int| 0 <= i < a.len() ==> h(g((#[trigger] a[i]).lam)) =~= a[i].lam
    ensures fs_map(h, fs_map(g, a)) =~= a
{
    assert forall|i: int| 0 <= i < a.len() implies fs_map(h, fs_map(g, a))[i] == a[i] by { assert(h(g(a[i].lam)) =~= a[i].lam); }
}

// an expression that is a single class (sympy symbol S[...]); trusted, see C12
pub uninterp spec fn is_schur(a: Seq<Term>) -> bool;
pub uninterp spec fn schur_of(a: Seq<Term>) -> Seq<int>;
pub uninterp spec fn fs_isinst(a: Seq<Term>, what: int) -> bool;
#[verifier::external_body]
pub proof fn axiom_schur(a: Seq<Term>)
    ensures is_schur(a) ==> fs_has(a, schur_of(a)) && forall|l: Seq<int>, e: Exp| #[trigger] fs_coef(a, l, e) == fs_coef(fs_one(schur_of(a)), l, e)
{}

// ---------------------------------------------------------------- the linear extension depends on the coefficients only
pub open spec fn fs_same(a: Seq<Term>, b: Seq<Term>) -> bool { forall|l: Seq<int>, e: Exp| #[trigger] fs_coef(a, l, e) == fs_coef(b, l, e) }
pub open spec fn fs_without(a: Seq<Term>, l: Seq<int>, e: Exp) -> Seq<Term>
    decreases a.len()
{ if a.len() == 0 { a } else { let b = fs_without(a.drop_last(), l, e); if a.last().lam =~= l && a.last().e == e { b } else { b.push(a.last()) } } }
pub proof fn lemma_fs_without(a: Seq<Term>, l: Seq<int>, e: Exp, f: spec_fn(Seq<int>) -> Seq<Term>)
    ensures fs_without(a, l, e).len() <= a.len(),
        a.len() > 0 && a.last().lam =~= l && a.last().e == e ==> fs_without(a, l, e).len() < a.len(),
        forall|m: Seq<int>, h: Exp| #[trigger] fs_coef(fs_without(a, l, e), m, h) == (if m =~= l && h == e { 0real } else { fs_coef(a, m, h) }),
        forall|m: Seq<int>, h: Exp| #[trigger] fs_coef(fs_apply(f, a), m, h) == fs_coef(fs_apply(f, fs_without(a, l, e)), m, h) + fs_coef(a, l, e) * fs_coef(f(l), m, esub(h, e)),
    decreases a.len()
{
    if a.len() == 0 {
        assert forall|m: Seq<int>, h: Exp| #[trigger] fs_coef(fs_apply(f, a), m, h) == fs_coef(fs_apply(f, fs_without(a, l, e)), m, h) + fs_coef(a, l, e) * fs_coef(f(l), m, esub(h, e)) by {
            let z = fs_coef(f(l), m, esub(h, e));
            assert(0real * z == 0real) by (nonlinear_arith);
        }
    } else {
        let b = a.drop_last();
        let t = a.last();
        lemma_fs_without(b, l, e, f);
        let w = fs_without(b, l, e);
        let v = fs_without(a, l, e);
        assert(w.push(t).drop_last() =~= w);
        assert forall|m: Seq<int>, h: Exp| #[trigger] fs_coef(v, m, h) == (if m =~= l && h == e { 0real } else { fs_coef(a, m, h) }) by {
            assert(fs_coef(w, m, h) == (if m =~= l && h == e { 0real } else { fs_coef(b, m, h) }));
        }
        assert forall|m: Seq<int>, h: Exp| #[trigger] fs_coef(fs_apply(f, a), m, h) == fs_coef(fs_apply(f, v), m, h) + fs_coef(a, l, e) * fs_coef(f(l), m, esub(h, e)) by {
            let s = Scal { c: t.c, e: t.e };
            fs_coef_add(fs_apply(f, b), fs_shift(s, f(t.lam)), m, h);
            assert(fs_coef(fs_apply(f, b), m, h) == fs_coef(fs_apply(f, w), m, h) + fs_coef(b, l, e) * fs_coef(f(l), m, esub(h, e)));
            let z = fs_coef(f(l), m, esub(h, e));
            let x = fs_coef(b, l, e);
            if t.lam =~= l && t.e == e {
                fs_coef_shift(s, f(t.lam), m, h);
                let y = t.c;
                assert((x + y) * z == x * z + y * z) by (nonlinear_arith);
            } else {
                fs_coef_add(fs_apply(f, w), fs_shift(s, f(t.lam)), m, h);
                assert(x + 0real == x);
            }
        }
    }
}
pub proof fn lemma_fs_apply_zero(a: Seq<Term>, f: spec_fn(Seq<int>) -> Seq<Term>)
    requires fs_same(a, fs_zero())
    ensures fs_same(fs_apply(f, a), fs_zero())
    decreases a.len()
{
    if a.len() > 0 {
        let t = a.last();
        lemma_fs_without(a, t.lam, t.e, f);
        let w = fs_without(a, t.lam, t.e);
        assert forall|l: Seq<int>, e: Exp| #[trigger] fs_coef(w, l, e) == fs_coef(fs_zero(), l, e) by { assert(fs_coef(a, l, e) == fs_coef(fs_zero(), l, e)); }
        lemma_fs_apply_zero(w, f);
        assert forall|m: Seq<int>, h: Exp| #[trigger] fs_coef(fs_apply(f, a), m, h) == fs_coef(fs_zero(), m, h) by {
            let z = fs_coef(f(t.lam), m, esub(h, t.e));
            assert(fs_coef(a, t.lam, t.e) == fs_coef(fs_zero(), t.lam, t.e));
            assert(fs_coef(fs_apply(f, w), m, h) == fs_coef(fs_zero(), m, h));
            assert(0real * z == 0real) by (nonlinear_arith);
        }
    }
}
pub proof fn lemma_fs_apply_add(f: spec_fn(Seq<int>) -> Seq<Term>, a: Seq<Term>, b: Seq<Term>)
    ensures fs_same(fs_apply(f, a + b), fs_add(fs_apply(f, a), fs_apply(f, b)))
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert forall|l: Seq<int>, e: Exp| #[trigger] fs_coef(fs_apply(f, a + b), l, e) == fs_coef(fs_add(fs_apply(f, a), fs_apply(f, b)), l, e) by { fs_coef_add(fs_apply(f, a), fs_apply(f, b), l, e); } } else {
        let c = b.drop_last();
        let t = b.last();
        let s = fs_shift(Scal { c: t.c, e: t.e }, f(t.lam));
        lemma_fs_apply_add(f, a, c);
        assert((a + b).drop_last() =~= a + c);
        assert((a + b).last() == t);
        assert forall|l: Seq<int>, e: Exp| #[trigger] fs_coef(fs_apply(f, a + b), l, e) == fs_coef(fs_add(fs_apply(f, a), fs_apply(f, b)), l, e) by {
            fs_coef_add(fs_apply(f, a + c), s, l, e);
            fs_coef_add(fs_apply(f, a), fs_apply(f, c), l, e);
            fs_coef_add(fs_apply(f, c), s, l, e);
            fs_coef_add(fs_apply(f, a), fs_apply(f, b), l, e);
            assert(fs_coef(fs_apply(f, a + c), l, e) == fs_coef(fs_add(fs_apply(f, a), fs_apply(f, c)), l, e));
        }
    }
}
pub proof fn lemma_fs_apply_scale(f: spec_fn(Seq<int>) -> Seq<Term>, c: real, a: Seq<Term>)
    ensures fs_same(fs_apply(f, fs_scale(c, a)), fs_scale(c, fs_apply(f, a)))
    decreases a.len()
{
    let sa = fs_scale(c, a);
    assert forall|l: Seq<int>, e: Exp| #[trigger] fs_coef(fs_apply(f, sa), l, e) == fs_coef(fs_scale(c, fs_apply(f, a)), l, e) by {
        fs_coef_scale(c, fs_apply(f, a), l, e);
        if a.len() == 0 { assert(c * 0real == 0real) by (nonlinear_arith); } else {
            let b = a.drop_last();
            let t = a.last();
            lemma_fs_apply_scale(f, c, b);
            assert(sa.drop_last() =~= fs_scale(c, b));
            assert(fs_coef(fs_apply(f, fs_scale(c, b)), l, e) == fs_coef(fs_scale(c, fs_apply(f, b)), l, e));
            fs_coef_scale(c, fs_apply(f, b), l, e);
            let s1 = Scal { c: t.c, e: t.e };
            let s2 = Scal { c: c * t.c, e: t.e };
            fs_coef_add(fs_apply(f, b), fs_shift(s1, f(t.lam)), l, e);
            fs_coef_add(fs_apply(f, fs_scale(c, b)), fs_shift(s2, f(t.lam)), l, e);
            fs_coef_shift(s1, f(t.lam), l, e);
            fs_coef_shift(s2, f(t.lam), l, e);
            let x = fs_coef(fs_apply(f, b), l, e);
            let z = fs_coef(f(t.lam), l, esub(e, t.e));
            let y = t.c;
            assert(c * (x + y * z) == c * x + (c * y) * z) by (nonlinear_arith);
        }
    }
}
pub proof fn lemma_fs_apply_same(f: spec_fn(Seq<int>) -> Seq<Term>, a: Seq<Term>, b: Seq<Term>)
    requires fs_same(a, b)
    ensures fs_same(fs_apply(f, a), fs_apply(f, b))
{
    let m = fs_scale(-1real, b);
    let d = a + m;
    assert forall|l: Seq<int>, e: Exp| #[trigger] fs_coef(d, l, e) == fs_coef(fs_zero(), l, e) by {
        fs_coef_add(a, m, l, e);
        fs_coef_scale(-1real, b, l, e);
        assert(fs_coef(a, l, e) == fs_coef(b, l, e));
    }
    lemma_fs_apply_zero(d, f);
    lemma_fs_apply_add(f, a, m);
    lemma_fs_apply_scale(f, -1real, b);
    assert forall|l: Seq<int>, e: Exp| #[trigger] fs_coef(fs_apply(f, a), l, e) == fs_coef(fs_apply(f, b), l, e) by {
        assert(fs_coef(fs_apply(f, d), l, e) == fs_coef(fs_zero(), l, e));
        assert(fs_coef(fs_apply(f, a + m), l, e) == fs_coef(fs_add(fs_apply(f, a), fs_apply(f, m)), l, e));
        fs_coef_add(fs_apply(f, a), fs_apply(f, m), l, e);
        assert(fs_coef(fs_apply(f, m), l, e) == fs_coef(fs_scale(-1real, fs_apply(f, b)), l, e));
        fs_coef_scale(-1real, fs_apply(f, b), l, e);
    }
}
// on a single class
pub proof fn lemma_fs_apply_one(f: spec_fn(Seq<int>) -> Seq<Term>, x: Seq<int>)
    ensures fs_same(fs_apply(f, fs_one(x)), f(x))
{
    let a = fs_one(x);
    assert(a.drop_last() =~= Seq::<Term>::empty());
    assert forall|l: Seq<int>, e: Exp| #[trigger] fs_coef(fs_apply(f, a), l, e) == fs_coef(f(x), l, e) by {
        let s = Scal { c: 1real, e: e0() };
        fs_coef_add(fs_apply(f, a.drop_last()), fs_shift(s, f(x)), l, e);
        fs_coef_shift(s, f(x), l, e);
        assert(esub(e, e0()) == e);
    }
}

// a Schur object or a symbol that stands for one
pub ghost struct SC { pub l: Seq<int>, pub sym: bool }
// a function of a number and a class, and where it may be called
pub type Op = spec_fn(int, Seq<int>) -> Seq<Term>;
pub uninterp spec fn fdom(f: Op, i: int, x: Seq<int>) -> bool;

// ---------------------------------------------------------------- spaces
#[verifier::ext_equal]
pub ghost struct Space { pub _type: int, pub _k: int, pub _n: int, pub _pieri: int, pub _qpieri: int }

// ---------------------------------------------------------------- multiplication tables
// a pandas DataFrame made from a list of rows with labels
pub ghost struct Table { pub cells: Seq<Seq<Seq<Term>>>, pub index: Seq<Seq<int>>, pub columns: Seq<Seq<int>> }
pub ghost struct MTab { pub gr: Space, pub df: Table }

} // verus!

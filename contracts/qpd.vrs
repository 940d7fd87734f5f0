//# unit qpd
//# use qpb swaps
pub open spec fn comp_fs(s: Space, intn: Set<int>, mu: Seq<int>) -> Seq<Term> { fs_one(set_desc(intn.difference(mu.to_set()))) }
//# fn schubertpy/orthogonal_grassmannian.py::OrthogonalGrassmannian._toSchurFromIntnMu(self_: SPACE, _intn: SET, _mu: L) -> FS
//# spec comp_fs
//# vars sch
//# types sch: FS
ensures result == comp_fs(self_, _intn, _mu)
//# end
// ---- C04, type D
// a partial map, injective on the classes that carry the coefficients
pub proof fn lemma_fs_apply_part(f: spec_fn(Seq<int>) -> Seq<Term>, g: spec_fn(Seq<int>) -> Option<Seq<int>>, h: Seq<Term>, p: spec_fn(Seq<int>) -> bool, nu: Seq<int>, pre: Seq<int>, e: Exp)
    requires
        forall|x: Seq<int>| #[trigger] f(x) == fs_opt(g(x)),
        forall|x: Seq<int>, e1: Exp| !p(x) ==> #[trigger] fs_coef(h, x, e1) == 0real,
        forall|x: Seq<int>| #[trigger] p(x) && g(x).is_some() && g(x).unwrap() =~= nu ==> x =~= pre,
    ensures fs_coef(fs_apply(f, h), nu, e) == (if p(pre) && g(pre).is_some() && g(pre).unwrap() =~= nu { fs_coef(h, pre, e) } else { 0real })
{
    if g(pre).is_some() && g(pre).unwrap() =~= nu {
        assert forall|x: Seq<int>| #[trigger] p(x) implies ((g(x).is_some() && g(x).unwrap() =~= nu) <==> x =~= pre) by {}
        lemma_fs_apply_on(f, g, h, p, nu, pre, e);
    } else {
        let c = fs_keep(h, p);
        lemma_fs_keep(h, p);
        assert(fs_same(h, c)) by { assert forall|x: Seq<int>, e1: Exp| #[trigger] fs_coef(h, x, e1) == fs_coef(c, x, e1) by {} }
        lemma_fs_apply_same(f, h, c);
        assert forall|i: int| 0 <= i < c.len() implies !((#[trigger] g(c[i].lam)).is_some() && g(c[i].lam).unwrap() =~= nu) by {
            let x = c[i].lam;
            assert(p(x));
            if g(x).is_some() && g(x).unwrap() =~= nu { assert(x =~= pre); }
        }
        lemma_fs_apply_none(f, g, c, nu, e);
        assert(fs_coef(fs_apply(f, h), nu, e) == fs_coef(fs_apply(f, c), nu, e));
    }
}
pub open spec fn full_d(lam: Seq<int>, nu: Seq<int>, p: int, k: int, n: int) -> real { if lam.len() > 0 && lam[0] == n + k { coef_d(slice(lam, 1, lam.len() as int), put(n + k, nu), p, k, n) } else { 0real } }
// k >= 2: the class of nu without its first row and ones, with the other type
pub open spec fn rim_d0(lam: Seq<int>, nu: Seq<int>, p: int, k: int, n: int) -> real {
    let y = untilde(nu, n - k + 2, n + k);
    if tilde(y, n - k + 2, n + k) == Some(nu) { coef_d(lam, y, p, k, n + 1) } else { 0real }
}
pub open spec fn rim_d(lam: Seq<int>, nu: Seq<int>, p: int, k: int, n: int) -> real { if is_class(nu, k) { rim_d0(lam, swap(nu, k), p, k, n) } else { 0real } }
// k = 1: the classes of OG(n, 2n + 2) with n parts, by the strict partition of the numbers they leave out
pub open spec fn left_out(mu: Seq<int>, n: int) -> Seq<int> { set_desc(set_int_range(1, n + 1).difference(mu.to_set())) }
pub open spec fn build(mu: Seq<int>, n: int, zero: bool) -> Seq<int> { left_out(mu, n).map_values(|x: int| x + 1) + rep(1, n - left_out(mu, n).len()) + tail0(zero) }
pub open spec fn unbuild(l: Seq<int>, n: int) -> Seq<int> { left_out(slice(l, 0, cnt(l, 1)).map_values(|x: int| x - 1), n) }
pub open spec fn lower(lam: Seq<int>) -> Seq<int> { clip(lam.map_values(|x: int| imax(x - 1, 0))) }
pub open spec fn dec_in(x: Seq<int>, n: int) -> bool { decreasing(x) && forall|i: int| 0 <= i < x.len() ==> 1 <= #[trigger] x[i] <= n }
pub open spec fn one_term(lam: Seq<int>, x: Seq<int>, p: int, n: int) -> real { if iabs(p) > 1 { coef_d(lower(lam), x, iabs(p) - 1, 0, n) } else { b2r(x =~= lower(lam)) } }
pub open spec fn rim_1(lam: Seq<int>, nu: Seq<int>, p: int, n: int, zero: bool) -> real {
    let x = unbuild(dual_d(nu, 1, n), n);
    if dec_in(x, n) && dual_d(build(x, n, zero), 1, n) =~= nu { one_term(lam, x, p, n) } else { 0real }
}
pub open spec fn qcoef_d(lam: Seq<int>, nu: Seq<int>, e: Exp, p: int, k: int, n: int) -> real {
    if e == e0() { coef_d(lam, nu, p, k, n) }
    else if k == 0 { if e == (1int, 0int, 0int) { full_d(lam, nu, p, k, n) } else { 0real } }
    else if k == 1 {
        if e == (0int, 1int, 0int) { if row(lam, n - 1) > 0 && typ(lam, 1) != 2 && p > 0 { rim_1(lam, nu, p, n, false) } else { 0real } }
        else if e == (0int, 0int, 1int) { if row(lam, n - 1) > 0 && typ(lam, 1) != 1 && (p == -1 || p > 1) { rim_1(lam, nu, p, n, true) } else { 0real } }
        else if e == (0int, 1int, 1int) { full_d(lam, nu, p, k, n) }
        else { 0real }
    }
    else if e == (1int, 0int, 0int) { rim_d(lam, nu, p, k, n) }
    else if e == (2int, 0int, 0int) { full_d(lam, nu, p, k, n) }
    else { 0real }
}
pub proof fn lemma_class_in(x: Seq<int>, k: int, m: int, w: int)
    requires class_in(x, k, m, w), k >= 0
    ensures is_part(x), clip(x) =~= bare(x), ends0(x) ==> x =~= clip(x).push(0)
{
    let b = bare(x);
    lemma_is_clip(x);
    if ends0(x) {
        assert(x =~= b.push(0));
        assert(is_clip(x, b)) by { assert(b =~= x.subrange(0, b.len() as int)); }
        lemma_clip_unique(x, b);
        assert forall|i: int, j: int| 0 <= i <= j < x.len() implies x[i] >= x[j] by { if j < b.len() { assert(b[i] >= b[j]); } else if i < b.len() { assert(b[i] >= 0); } }
        assert forall|i: int| 0 <= i < x.len() implies x[i] >= 0 by { if i < b.len() { assert(b[i] >= 0); } }
    } else {
        assert(is_clip(x, x));
        lemma_clip_unique(x, x);
    }
}
pub proof fn lemma_middle(y: Seq<int>, r: int, rows: int)
    requires is_part(y), 1 <= r <= rows <= y.len(), y[rows - 1] > 0
    ensures slice(y, 1, r).len() == r - 1, forall|i: int| 0 <= i < r - 1 ==> #[trigger] slice(y, 1, r)[i] == y[i + 1], is_part(slice(y, 1, r)), forall|i: int| 0 <= i < r - 1 ==> #[trigger] slice(y, 1, r)[i] > 0
{
    let s = slice(y, 1, r);
    assert forall|i: int| 0 <= i < r - 1 implies #[trigger] s[i] == y[i + 1] && s[i] > 0 by { assert(y[i + 1] >= y[rows - 1]); }
    assert forall|i: int, j: int| 0 <= i <= j < s.len() implies s[i] >= s[j] by { assert(y[i + 1] >= y[j + 1]); }
}
pub proof fn lemma_class_zero(s: Seq<int>, k: int)
    requires is_part(s), s.len() > 0, k > 0, s.contains(k), s[s.len() - 1] > 0
    ensures is_class(s.push(0), k)
{
    let nu = s.push(0);
    assert(nu.drop_last() =~= s);
    assert forall|i: int, j: int| 0 <= i <= j < nu.len() implies nu[i] >= nu[j] by { if j < s.len() { assert(s[i] >= s[j]); } else if i < s.len() { assert(s[i] >= 0); } }
    assert forall|i: int| 0 <= i < nu.len() implies nu[i] >= 0 by { if i < s.len() { assert(s[i] >= 0); } }
}
pub proof fn lemma_tilde_class(y: Seq<int>, nu: Seq<int>, k: int, n: int)
    requires k >= 2, n - k + 2 >= 1, class_in(y, k, n + 2 - k, n + 1 + k), tilde(y, n - k + 2, n + k) == Some(nu)
    ensures is_class(nu, k)
{
    lemma_class_in(y, k, n + 2 - k, n + 1 + k);
    lemma_is_clip(y);
    let rows = n - k + 2;
    let r = rows + y[0] - (n + k);
    let s = slice(y, 1, r);
    let b = bare(y);
    let z = ends0(y);
    assert(y[rows - 1] > 0) by { assert(y[rows - 1] != 0); assert(y[rows - 1] >= 0); }
    lemma_middle(y, r, rows);
    assert forall|i: int| r <= i < rows implies #[trigger] y[i] == 1 by { assert(row(y, i) == 1); }
    if z {
        assert(b.contains(k));
        let i = choose|i: int| 0 <= i < b.len() && b[i] == k;
        assert(y[i] == k);
        assert(b.len() == rows);
        assert(i < r);
        assert(y[0] < k ==> false) by { assert(y[0] >= y[i]); }
        lemma_tilde_first(y, k, n, i);
        assert(s[i - 1] == k);
        assert(s + tail0(true) =~= s.push(0));
        lemma_class_zero(s, k);
    } else {
        assert(s + tail0(false) =~= s);
    }
}
pub proof fn lemma_tilde_first(y: Seq<int>, k: int, n: int, i: int)
    requires is_part(y), k >= 2, 0 <= i < y.len(), y[i] == k, n - k + 2 + y[0] - (n + k) >= 1
    ensures i > 0
{}
pub proof fn lemma_rim_d(lam: Seq<int>, nu: Seq<int>, p: int, k: int, n: int, h: Seq<Term>, e: Exp, f: spec_fn(Seq<int>) -> Seq<Term>)
    requires forall|x: Seq<int>| #[trigger] f(x) == tilde_fs(x, n - k + 2, n + k), k >= 2, n - k + 2 >= 1,
        forall|x: Seq<int>, e1: Exp| #[trigger] fs_coef(h, x, e1) == (if e1 == e0() { coef_d(lam, x, p, k, n + 1) } else { 0real })
    ensures fs_coef(fs_apply(f, h), nu, e) == (if e == e0() { rim_d0(lam, nu, p, k, n) } else { 0real }), !is_class(nu, k) ==> rim_d0(lam, nu, p, k, n) == 0real
{
    let rows = n - k + 2;
    let cols = n + k;
    let y = untilde(nu, rows, cols);
    let g = |x: Seq<int>| tilde_raw(x, rows, cols);
    let ps = |x: Seq<int>| class_in(x, k, n + 2 - k, n + 1 + k);
    assert forall|x: Seq<int>| #[trigger] ps(x) implies tilde_raw(x, rows, cols) == tilde(x, rows, cols) && (g(x).is_some() && g(x).unwrap() =~= nu ==> x =~= y && is_class(nu, k)) by {
        lemma_class_in(x, k, n + 2 - k, n + 1 + k);
        lemma_is_clip(x);
        lemma_tilde_ok(x, rows, cols);
        if g(x).is_some() && g(x).unwrap() =~= nu { lemma_untilde(x, nu, rows, cols); lemma_tilde_class(x, nu, k, n); }
    }
    assert forall|x: Seq<int>, e1: Exp| !ps(x) implies #[trigger] fs_coef(h, x, e1) == 0real by {}
    lemma_fs_apply_part(f, g, h, ps, nu, y, e);
    if ps(y) {} else { assert(coef_d(lam, y, p, k, n + 1) == 0real); }
}
pub proof fn lemma_swap_terms(lam: Seq<int>, nu: Seq<int>, p: int, k: int, n: int, t: Seq<Term>, e: Exp, f: spec_fn(Seq<int>) -> Seq<Term>)
    requires forall|x: Seq<int>| #[trigger] f(x) == fs_one(swap(x, k)), k >= 2,
        forall|x: Seq<int>, e1: Exp| #[trigger] fs_coef(t, x, e1) == (if e1 == e0() { rim_d0(lam, x, p, k, n) } else { 0real }),
        forall|x: Seq<int>| !is_class(x, k) ==> #[trigger] rim_d0(lam, x, p, k, n) == 0real
    ensures fs_coef(fs_apply(f, t), nu, e) == (if e == e0() { rim_d(lam, nu, p, k, n) } else { 0real })
{
    let g = |x: Seq<int>| Some(swap(x, k));
    let ps = |x: Seq<int>| is_class(x, k);
    let pre = swap(nu, k);
    assert forall|x: Seq<int>| #[trigger] ps(x) && g(x).is_some() && g(x).unwrap() =~= nu implies x =~= pre by { lemma_swap(x, k); }
    lemma_fs_apply_part(f, g, t, ps, nu, pre, e);
    if is_class(nu, k) { lemma_swap(nu, k); }
    if is_class(pre, k) && swap(pre, k) =~= nu { lemma_swap(pre, k); }
}
pub proof fn lemma_rim_short_d(lam: Seq<int>, nu: Seq<int>, p: int, k: int, n: int)
    requires n + 1 - k >= 1, row(lam, n - k) <= 0
    ensures rim_d0(lam, nu, p, k, n) == 0real
{
    let y = untilde(nu, n - k + 2, n + k);
    let b = bare(y);
    if tilde(y, n - k + 2, n + k) == Some(nu) && typed(y, k) && term(lam, b, iabs(p), k, n + 2 - k, n + 1 + k, 1) {
        lemma_is_clip(y);
        assert(row(b, n - k + 1) <= imin(row(lam, n - k), row(b, n - k)));
        assert(y[n - k + 1] != 0);
        assert(b[n - k + 1] == y[n - k + 1]);
    }
}
// ---- k = 1
pub proof fn lemma_left_out(mu: Seq<int>, n: int)
    ensures dec_in(left_out(mu, n), n), n >= 0 ==> left_out(mu, n).len() <= n, forall|v: int| #[trigger] left_out(mu, n).contains(v) <==> 1 <= v <= n && !mu.contains(v)
{
    let r = rangeseq(1, n + 1);
    let s = set_int_range(1, n + 1).difference(mu.to_set());
    assert(s.finite());
    lemma_set_desc(s);
    let l = left_out(mu, n);
    assert forall|v: int| #[trigger] l.contains(v) <==> 1 <= v <= n && !mu.contains(v) by {
        if 1 <= v <= n { assert(r[v - 1] == v); assert(r.contains(v)); }
        if r.contains(v) { let i = choose|i: int| 0 <= i < r.len() && r[i] == v; }
        assert(s.contains(v) <==> r.contains(v) && !mu.contains(v));
    }
    assert forall|i: int| 0 <= i < l.len() implies 1 <= #[trigger] l[i] <= n by { assert(l.contains(l[i])); }
    if n >= 0 { lemma_dec_len(l, n); }
}
pub proof fn lemma_dec_len(l: Seq<int>, n: int)
    requires decreasing(l), forall|i: int| 0 <= i < l.len() ==> 1 <= #[trigger] l[i] <= n, n >= 0
    ensures l.len() <= n
    decreases n
{
    if l.len() > 0 {
        let t = l.subrange(1, l.len() as int);
        assert forall|i: int| 0 <= i < t.len() implies 1 <= #[trigger] t[i] <= n - 1 by { assert(t[i] == l[i + 1]); assert(l[0] > l[i + 1]); }
        assert(decreasing(t)) by { assert(forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] == l[i + 1]); }
        assert(1 <= l[0] <= n);
        lemma_dec_len(t, n - 1);
    }
}
pub proof fn lemma_left_out_twice(x: Seq<int>, n: int)
    requires dec_in(x, n)
    ensures left_out(left_out(x, n), n) =~= x
{
    let l = left_out(x, n);
    let r = left_out(l, n);
    lemma_left_out(x, n);
    lemma_left_out(l, n);
    assert forall|v: int| #[trigger] r.contains(v) <==> x.contains(v) by {
        assert(l.contains(v) <==> 1 <= v <= n && !x.contains(v));
        if x.contains(v) { let i = choose|i: int| 0 <= i < x.len() && x[i] == v; }
    }
    lemma_same_desc(r, x);
}
pub proof fn lemma_build(x: Seq<int>, n: int)
    requires dec_in(x, n), n >= 1
    ensures box_d(build(x, n, false), 1, n, n + 1), unbuild(build(x, n, false), n) =~= x, build(x, n, false).len() == n,
        left_out(x, n).len() < n ==> build(x, n, false).contains(1), left_out(x, n).len() == n ==> forall|i: int| 0 <= i < n ==> #[trigger] build(x, n, false)[i] > 1
{
    let r = left_out(x, n);
    lemma_left_out(x, n);
    let l = build(x, n, false);
    assert(l =~= r.map_values(|x: int| x + 1) + rep(1, n - r.len()));
    assert forall|i: int| 0 <= i < n implies #[trigger] l[i] == (if i < r.len() { r[i] + 1 } else { 1int }) by {}
    assert(is_part(l)) by { assert forall|i: int, j: int| 0 <= i <= j < l.len() implies l[i] >= l[j] by { if i < j && j < r.len() { assert(r[i] > r[j]); } } }
    assert(is_clip(l, l));
    lemma_clip_unique(l, l);
    assert(kstrict(l, 1)) by { assert forall|i: int, j: int| 0 <= i < j < l.len() && l[i] > 1 implies l[i] > l[j] by { if j < r.len() { assert(r[i] > r[j]); } } }
    lemma_cnt(l, 1);
    let c = cnt(l, 1);
    assert(c == r.len()) by { if c < r.len() { assert(l[c] > 1); } if c > r.len() { assert(l[c - 1] > 1); } }
    assert(slice(l, 0, c).map_values(|x: int| x - 1) =~= r);
    lemma_left_out_twice(x, n);
    if r.len() < n { assert(l[r.len() as int] == 1); }
}
// a zero after a class without a part 1 changes nothing
pub proof fn lemma_build_zero(x: Seq<int>, n: int)
    requires dec_in(x, n), n >= 1
    ensures unbuild(dual_d(dual_d(build(x, n, true), 1, n), 1, n), n) =~= x, unbuild(dual_d(dual_d(build(x, n, false), 1, n), 1, n), n) =~= x
{
    let l = build(x, n, false);
    let z = build(x, n, true);
    lemma_build(x, n);
    theorem_dual_d(l, 1, n);
    assert(z =~= l.push(0));
    if left_out(x, n).len() < n {
        assert(is_clip(z, l));
        lemma_clip_unique(z, l);
        assert(is_clip(l, l));
        lemma_clip_unique(l, l);
        theorem_dual_d(z, 1, n);
        lemma_cnt(l, 1);
        lemma_cnt(z, 1);
        assert(is_part(z));
        assert(cnt(z, 1) == cnt(l, 1)) by { let c = cnt(l, 1); if c < cnt(z, 1) { assert(z[cnt(z, 1) - 1] > 1); } if cnt(z, 1) < c { assert(l[c - 1] > 1); } }
        assert(slice(z, 0, cnt(z, 1)) =~= slice(l, 0, cnt(l, 1)));
    } else {
        let a = pad(z, n);
        let b = pad(l, n);
        assert forall|j: int| 0 <= j < n implies a[j] == b[j] && a[j] > 1 by { assert(l[j] > 1); }
        assert forall|j: int| 0 <= j < n implies #[trigger] cnt_le(a, 1, j, j) == cnt_le(b, 1, j, j) by { lemma_cnt_le_same(a, b, 1, j, j, n); }
        assert(idx_d(z, 1, n) =~= idx_d(l, 1, n));
    }
}
pub proof fn lemma_cnt_le_same(a: Seq<int>, b: Seq<int>, c: int, j: int, t: int, n: int)
    requires 0 <= t <= j < n, a.len() >= n, b.len() >= n, forall|i: int| 0 <= i < n ==> a[i] == b[i]
    ensures cnt_le(a, c, j, t) == cnt_le(b, c, j, t)
    decreases t
{ if t > 0 { lemma_cnt_le_same(a, b, c, j, t - 1, n); } }
pub proof fn lemma_fs_mul_one(m: Scal, a: Seq<Term>)
    ensures fs_mul(seq![m], a) =~= fs_shift(m, a)
{
    let s = seq![m];
    assert(s.drop_last() =~= Seq::<Scal>::empty());
    assert(fs_mul(s.drop_last(), a) =~= fs_zero());
    assert(s.last() == m);
    assert(fs_mul(s, a) == fs_add(fs_mul(s.drop_last(), a), fs_shift(s.last(), a)));
}
pub proof fn lemma_fs_map_mul(g: spec_fn(Seq<int>) -> Seq<int>, a: Seq<Term>, b: Seq<Term>, m: Scal)
    ensures fs_map(g, fs_mul(seq![m], a)) =~= fs_mul(seq![m], fs_map(g, a)), fs_map(g, a + b) =~= fs_map(g, a) + fs_map(g, b)
{
    let s = seq![m];
    assert(s.drop_last() =~= Seq::<Scal>::empty());
    lemma_fs_mul_one(m, a);
    lemma_fs_mul_one(m, fs_map(g, a));
}
pub proof fn lemma_rim_1(lam: Seq<int>, nu: Seq<int>, p: int, n: int, zero: bool, h: Seq<Term>, e: Exp, g: spec_fn(Seq<int>) -> Seq<int>)
    requires forall|x: Seq<int>| #[trigger] g(x) =~= dual_d(build(x, n, zero), 1, n), n >= 1, dec_in(lower(lam), n),
        forall|x: Seq<int>, e1: Exp| #[trigger] fs_coef(h, x, e1) == (if e1 == e0() { one_term(lam, x, p, n) } else { 0real })
    ensures fs_coef(fs_map(g, h), nu, e) == (if e == e0() { rim_1(lam, nu, p, n, zero) } else { 0real })
{
    let f = |x: Seq<int>| fs_one(g(x));
    let go = |x: Seq<int>| Some(g(x));
    let ps = |x: Seq<int>| dec_in(x, n);
    let pre = unbuild(dual_d(nu, 1, n), n);
    lemma_fs_apply_map(f, g, h);
    assert forall|x: Seq<int>| #[trigger] ps(x) && go(x).is_some() && go(x).unwrap() =~= nu implies x =~= pre by { lemma_build_zero(x, n); }
    assert forall|x: Seq<int>, e1: Exp| !ps(x) implies #[trigger] fs_coef(h, x, e1) == 0real by {
        if iabs(p) > 1 && e1 == e0() && class_in(x, 0, n + 1, n) {
            assert(decreasing(x)) by { assert forall|i: int, j: int| 0 <= i < j < x.len() implies #[trigger] x[i] > #[trigger] x[j] by { assert(x[j] >= x[x.len() - 1]); assert(x[i] >= x[j]); } }
            assert forall|i: int| 0 <= i < x.len() implies 1 <= #[trigger] x[i] <= n by { assert(x[i] >= x[x.len() - 1]); assert(x[0] >= x[i]); }
        }
    }
    lemma_fs_apply_part(f, go, h, ps, nu, pre, e);
}
pub proof fn lemma_box_d_scope(lam: Seq<int>, k: int, n: int)
    requires box_d(lam, k, n + 1 - k, n + k), n + 1 - k >= 1, k >= 0
    ensures in_scope(lam, k, n + 1 - k, n + k, 1), k == 0 ==> !lam.contains(0), n + 1 - k > 0 && n - k < lam.len() && lam[n - k] > 0 ==> lam.len() > 0
{
    lemma_is_clip(lam);
    let c = clip(lam);
    if ends0(lam) {
        assert(lam =~= c.push(0));
        assert forall|i: int, j: int| 0 <= i <= j < lam.len() implies lam[i] >= lam[j] by { if j < c.len() { assert(c[i] >= c[j]); } else if i < c.len() { assert(c[i] >= 0); } }
        assert forall|i: int| 0 <= i < lam.len() implies lam[i] >= 0 by { if i < c.len() { assert(c[i] >= 0); } }
        assert(kstrict(lam, k)) by { assert forall|i: int, j: int| 0 <= i < j < lam.len() && lam[i] > k implies lam[i] > lam[j] by { if j < c.len() { assert(c[i] > c[j]); } } }
        let i = choose|i: int| 0 <= i < c.len() && c[i] == k;
        assert(c[0] <= n + k);
    } else {
        assert(lam =~= c);
        if k == 0 && lam.contains(0) { let i = choose|i: int| 0 <= i < lam.len() && lam[i] == 0; assert(lam[i] >= lam[lam.len() - 1]); assert(lam[lam.len() - 1] >= 0); }
    }
    assert(is_part(lam));
    assert(n + k >= k);
    assert(row(lam, 0) <= n + k);
}
pub proof fn lemma_lower(lam: Seq<int>, n: int)
    requires in_scope(lam, 1, n, n + 1, 1), n >= 1
    ensures in_scope(lower(lam), 0, n + 1, n, 1), !lower(lam).contains(0), dec_in(lower(lam), n)
{
    let a = lam.map_values(|x: int| imax(x - 1, 0));
    let l = lower(lam);
    assert(is_part(a)) by { assert forall|i: int, j: int| 0 <= i <= j < a.len() implies a[i] >= a[j] by { assert(lam[i] >= lam[j]); } }
    lemma_is_clip(a);
    assert(l =~= a.subrange(0, l.len() as int));
    assert forall|i: int| 0 <= i < l.len() implies #[trigger] l[i] == lam[i] - 1 && l[i] >= 1 by { assert(a[i] >= a[l.len() - 1]); assert(l[l.len() - 1] != 0); assert(a[i] == imax(lam[i] - 1, 0)); }
    assert(decreasing(l)) by { assert forall|i: int, j: int| 0 <= i < j < l.len() implies #[trigger] l[i] > #[trigger] l[j] by { assert(lam[i] > lam[j]); } }
    assert forall|i: int| 0 <= i < l.len() implies 1 <= #[trigger] l[i] <= n by { assert(lam[0] >= lam[i]); assert(row(lam, 0) == lam[0]); }
    if l.contains(0) { let i = choose|i: int| 0 <= i < l.len() && l[i] == 0; }
    lemma_is_clip(l);
    assert(is_clip(l, l));
    lemma_clip_unique(l, l);
    lemma_dec_len(l, n);
    assert(is_part(l)) by { assert forall|i: int, j: int| 0 <= i <= j < l.len() implies l[i] >= l[j] by { if i < j { assert(l[i] > l[j]); } } }
    assert(kstrict(l, 0)) by { assert forall|i: int, j: int| 0 <= i < j < l.len() && l[i] > 0 implies l[i] > l[j] by {} }
}
// the conditions of the two k = 1 terms
pub proof fn lemma_typ_cond(lam: Seq<int>, n: int)
    requires box_d(lam, 1, n, n + 1), n >= 1, row(lam, n - 1) > 0
    ensures lam.len() >= 1, lam[lam.len() - 1] > 0 <==> typ(lam, 1) != 2, lam[lam.len() - 1] == 0 || !lam.contains(1) <==> typ(lam, 1) != 1
{
    lemma_box_d_scope(lam, 1, n);
    assert(lam[lam.len() - 1] >= 0);
    if ends0(lam) {
        let c = clip(lam);
        let i = choose|i: int| 0 <= i < c.len() && c[i] == 1;
        assert(lam[i] == 1);
    }
}
pub open spec fn raise_fs(x: Seq<int>, n: int, zero: bool) -> Seq<int> { x.map_values(|x: int| x + 1) + rep(1, n - x.len()) + tail0(zero) }
pub open spec fn ones_sum(c: Seq<Term>, f1: spec_fn(Seq<int>) -> Seq<Term>, f2: spec_fn(Seq<int>) -> Seq<Term>, b1: bool, b2: bool) -> Seq<Term> {
    (if b1 { fs_mul(sc_q1(), fs_apply(f1, c)) } else { fs_zero() }) + (if b2 { fs_mul(sc_q2(), fs_apply(f2, c)) } else { fs_zero() })
}
pub proof fn lemma_one_part(s: Space, lam: Seq<int>, nu: Seq<int>, p: int, n: int, zero: bool, h: Seq<Term>, e: Exp, fc: spec_fn(Seq<int>) -> Seq<Term>, f: spec_fn(Seq<int>) -> Seq<Term>, d: spec_fn(Seq<int>) -> Seq<int>)
    requires is_D(s), s._k == 1, s._n == n, n >= 1, dec_in(lower(lam), n),
        forall|x: Seq<int>| #[trigger] fc(x) == fs_one(left_out(x, n)),
        forall|x: Seq<int>| #[trigger] f(x) =~= fs_one(raise_fs(x, n, zero)),
        forall|x: Seq<int>| #[trigger] d(x) == dual_o(x, s),
        forall|x: Seq<int>, e1: Exp| #[trigger] fs_coef(h, x, e1) == (if e1 == e0() { one_term(lam, x, p, n) } else { 0real })
    ensures fs_coef(fs_map(d, fs_apply(f, fs_apply(fc, h))), nu, e) == (if e == e0() { rim_1(lam, nu, p, n, zero) } else { 0real })
{
    let gc = |x: Seq<int>| left_out(x, n);
    let gf = |x: Seq<int>| raise_fs(x, n, zero);
    let g = |x: Seq<int>| dual_d(build(x, n, zero), 1, n);
    lemma_fs_apply_map(fc, gc, h);
    lemma_fs_apply_map(f, gf, fs_map(gc, h));
    assert(fs_map(d, fs_map(gf, fs_map(gc, h))) =~= fs_map(g, h));
    lemma_rim_1(lam, nu, p, n, zero, h, e, g);
}
pub open spec fn qone(lam: Seq<int>, nu: Seq<int>, e: Exp, p: int, n: int, b1: bool, b2: bool) -> real {
    if e == (0int, 1int, 0int) { if b1 { rim_1(lam, nu, p, n, false) } else { 0real } }
    else if e == (0int, 0int, 1int) { if b2 { rim_1(lam, nu, p, n, true) } else { 0real } }
    else { 0real }
}
pub proof fn lemma_one_d(s: Space, lam: Seq<int>, nu: Seq<int>, e: Exp, p: int, n: int, h: Seq<Term>, b1: bool, b2: bool, fc: spec_fn(Seq<int>) -> Seq<Term>, f1: spec_fn(Seq<int>) -> Seq<Term>, f2: spec_fn(Seq<int>) -> Seq<Term>, d: spec_fn(Seq<int>) -> Seq<int>)
    requires is_D(s), s._k == 1, s._n == n, n >= 1, dec_in(lower(lam), n),
        forall|x: Seq<int>| #[trigger] fc(x) == fs_one(left_out(x, n)),
        forall|x: Seq<int>| #[trigger] f1(x) =~= fs_one(raise_fs(x, n, false)),
        forall|x: Seq<int>| #[trigger] f2(x) =~= fs_one(raise_fs(x, n, true)),
        forall|x: Seq<int>| #[trigger] d(x) == dual_o(x, s),
        forall|x: Seq<int>, e1: Exp| #[trigger] fs_coef(h, x, e1) == (if e1 == e0() { one_term(lam, x, p, n) } else { 0real })
    ensures fs_coef(fs_map(d, ones_sum(fs_apply(fc, h), f1, f2, b1, b2)), nu, e) == qone(lam, nu, e, p, n, b1, b2)
{
    let c = fs_apply(fc, h);
    let a1 = fs_apply(f1, c);
    let a2 = fs_apply(f2, c);
    let m1 = Scal { c: 1real, e: (0int, 1int, 0int) };
    let m2 = Scal { c: 1real, e: (0int, 0int, 1int) };
    let x1 = if b1 { fs_mul(sc_q1(), a1) } else { fs_zero() };
    let x2 = if b2 { fs_mul(sc_q2(), a2) } else { fs_zero() };
    lemma_fs_map_mul(d, a1, a1, m1);
    lemma_fs_map_mul(d, a2, a2, m2);
    lemma_fs_map_mul(d, x1, x2, m1);
    assert(fs_map(d, x1) =~= if b1 { fs_mul(sc_q1(), fs_map(d, a1)) } else { fs_zero() });
    assert(fs_map(d, x2) =~= if b2 { fs_mul(sc_q2(), fs_map(d, a2)) } else { fs_zero() });
    lemma_one_part(s, lam, nu, p, n, false, h, (e.0, e.1 - 1, e.2), fc, f1, d);
    lemma_one_part(s, lam, nu, p, n, true, h, (e.0, e.1, e.2 - 1), fc, f2, d);
    fs_coef_q1(fs_map(d, a1), nu, e);
    fs_coef_q2(fs_map(d, a2), nu, e);
    fs_coef_add(fs_map(d, x1), fs_map(d, x2), nu, e);
    fs_coef_zero(nu, e);
}
pub proof fn lemma_lower_terms(s: Space, lam: Seq<int>, p: int, n: int, h: Seq<Term>)
    requires is_D(s), h == (if iabs(p) > 1 { pieri_d(s, iabs(p) - 1, lower(lam), 0, n) } else { fs_one(lower(lam)) }), in_scope(lower(lam), 0, n + 1, n, 1), !lower(lam).contains(0)
    ensures forall|x: Seq<int>, e1: Exp| #[trigger] fs_coef(h, x, e1) == (if e1 == e0() { one_term(lam, x, p, n) } else { 0real })
{
    let l = lower(lam);
    if iabs(p) > 1 { axiom_pieri_d(s, iabs(p) - 1, l, 0, n); assert(iabs(iabs(p) - 1) == iabs(p) - 1); }
    else { assert forall|x: Seq<int>, e1: Exp| #[trigger] fs_coef(h, x, e1) == (if e1 == e0() { one_term(lam, x, p, n) } else { 0real }) by { fs_coef_term(1real, l, x, e1); } }
}
// every class that occurs belongs to the space
pub proof fn lemma_class_box(x: Seq<int>, k: int, m: int, w: int)
    requires k >= 0
    ensures class_in(x, k, m, w) <==> box_d(x, k, m, w)
{
    lemma_is_clip(x);
    if class_in(x, k, m, w) { lemma_class_in(x, k, m, w); }
    if box_d(x, k, m, w) {
        if ends0(x) { assert(bare(x) =~= clip(x)); } else { assert(bare(x) =~= x); }
    }
}
pub proof fn lemma_first_box(s: Space, lam: Seq<int>, p: int, k: int, n: int)
    requires box_d(lam, k, n + 1 - k, n + k), n + 1 - k >= 1, k >= 0, p != 0
    ensures forall|x: Seq<int>| #[trigger] fs_has(pieri_d(s, p, lam, k, n), x) ==> box_d(x, k, n + 1 - k, n + k)
{
    lemma_box_d_scope(lam, k, n);
    axiom_pieri_d(s, p, lam, k, n);
    assert forall|x: Seq<int>| #[trigger] fs_has(pieri_d(s, p, lam, k, n), x) implies box_d(x, k, n + 1 - k, n + k) by { lemma_class_box(x, k, n + 1 - k, n + k); }
}
pub proof fn lemma_full_box(s: Space, lam: Seq<int>, p: int, k: int, n: int, f: spec_fn(Seq<int>) -> Seq<Term>)
    requires box_d(lam, k, n + 1 - k, n + k), n + 1 - k >= 1, k >= 0, p != 0, lam.len() > 0, lam[0] == n + k,
        forall|x: Seq<int>| #[trigger] f(x) == star_fs(x, n + k)
    ensures forall|x: Seq<int>| #[trigger] fs_has(fs_apply(f, pieri_d(s, p, slice(lam, 1, lam.len() as int), k, n)), x) ==> box_d(x, k, n + 1 - k, n + k)
{
    broadcast use group_has;
    lemma_box_d_scope(lam, k, n);
    lemma_scope_tail(lam, k, n + 1 - k, n + k, 1);
    let u = pieri_d(s, p, slice(lam, 1, lam.len() as int), k, n);
    axiom_pieri_d(s, p, slice(lam, 1, lam.len() as int), k, n);
    assert forall|x: Seq<int>| #[trigger] fs_has(fs_apply(f, u), x) implies box_d(x, k, n + 1 - k, n + k) by {
        let y = has_apply(f, u, x);
        assert(f(y) == star_fs(y, n + k));
        assert(star(y, n + k).is_some() && x == star(y, n + k).unwrap());
        lemma_class_tail(y, k, n + 1 - k, n + k);
    }
}
pub proof fn lemma_class_tail(y: Seq<int>, k: int, m: int, w: int)
    requires class_in(y, k, m, w), y.len() > 0, y[0] == w, w > k || k == 0, k >= 0
    ensures box_d(slice(y, 1, y.len() as int), k, m, w)
{
    let x = slice(y, 1, y.len() as int);
    let b = bare(y);
    if b.len() == 0 { assert(y.len() == 1); assert(y.contains(0)); let i = choose|i: int| 0 <= i < b.len() && b[i] == k; assert(b.len() > 0); }
    let t = slice(b, 1, b.len() as int);
    lemma_box_tail(b, k, m, w);
    if ends0(y) {
        let i = choose|i: int| 0 <= i < b.len() && b[i] == k;
        assert(b[0] == y[0]);
        assert(x =~= t.push(0));
        assert(bare(x) =~= t);
        assert(t[i - 1] == k);
    } else {
        assert(x =~= t);
    }
    assert(class_in(x, k, m, w));
    lemma_class_box(x, k, m, w);
}
pub proof fn lemma_tilde_bare(y: Seq<int>, k: int, n: int)
    requires class_in(y, k, n + 2 - k, n + 1 + k), k >= 2, n + 1 - k >= 1, tilde_raw(y, n - k + 2, n + k).is_some()
    ensures clip(tilde_raw(y, n - k + 2, n + k).unwrap()) =~= slice(y, 1, n - k + 2 + row(y, 0) - (n + k)), in_box(slice(y, 1, n - k + 2 + row(y, 0) - (n + k)), k, n + 1 - k, n + k)
{
    hide(kstrict);
    let rows = n - k + 2;
    let nu = tilde_raw(y, rows, n + k).unwrap();
    let b = bare(y);
    lemma_class_in(y, k, n + 2 - k, n + 1 + k);
    lemma_is_clip(y);
    assert(is_clip(b, b));
    lemma_clip_unique(b, b);
    let r = rows + row(y, 0) - (n + k);
    let s = slice(y, 1, r);
    assert(b.len() == rows);
    assert(slice(b, 1, r) =~= s);
    assert(tilde_raw(b, rows, n + k).is_some());
    assert(tilde_raw(b, rows, n + k).unwrap() =~= s);
    lemma_tilde_in(b, k, rows, n + 1 + k, n + k);
    assert(is_clip(nu, s)) by { if ends0(y) { assert(nu =~= s.push(0)); assert(nu.subrange(0, s.len() as int) =~= s); } else { assert(nu =~= s); } }
    lemma_clip_unique(nu, s);
}
pub proof fn lemma_swap_box(nu: Seq<int>, k: int, m: int, w: int)
    requires is_class(nu, k), k >= 1, in_box(clip(nu), k, m, w)
    ensures box_d(swap(nu, k), k, m, w)
{
    let x = swap(nu, k);
    lemma_swap(nu, k);
    lemma_is_clip(x);
    if ends0(x) {
        let i = choose|i: int| 0 <= i < x.drop_last().len() && x.drop_last()[i] == k;
        assert(is_clip(x, x.drop_last())) by { assert(x.subrange(0, x.len() - 1) =~= x.drop_last()); }
        lemma_clip_unique(x, x.drop_last());
        assert(x =~= clip(x).push(0));
    } else {
        assert(is_clip(x, x)) by { assert(x.subrange(0, x.len() as int) =~= x); }
        lemma_clip_unique(x, x);
    }
}
pub proof fn lemma_tilde_swap_box(y: Seq<int>, k: int, n: int)
    requires class_in(y, k, n + 2 - k, n + 1 + k), k >= 2, n + 1 - k >= 1, tilde_raw(y, n - k + 2, n + k).is_some()
    ensures box_d(swap(tilde_raw(y, n - k + 2, n + k).unwrap(), k), k, n + 1 - k, n + k)
{
    hide(in_box);
    hide(box_d);
    let nu = tilde_raw(y, n - k + 2, n + k).unwrap();
    lemma_class_in(y, k, n + 2 - k, n + 1 + k);
    lemma_tilde_ok(y, n - k + 2, n + k);
    lemma_tilde_class(y, nu, k, n);
    lemma_tilde_bare(y, k, n);
    lemma_swap_box(nu, k, n + 1 - k, n + k);
}
pub proof fn lemma_rims_box(s: Space, lam: Seq<int>, p: int, k: int, n: int, ft: spec_fn(Seq<int>) -> Seq<Term>, fsw: spec_fn(Seq<int>) -> Seq<Term>)
    requires k >= 2, n + 1 - k >= 1, in_scope(lam, k, n + 2 - k, n + 1 + k, 1),
        forall|x: Seq<int>| #[trigger] ft(x) == tilde_fs(x, n - k + 2, n + k), forall|x: Seq<int>| #[trigger] fsw(x) == fs_one(swap(x, k))
    ensures forall|x: Seq<int>| #[trigger] fs_has(fs_apply(fsw, fs_apply(ft, pieri_d(s, p, lam, k, n + 1))), x) ==> box_d(x, k, n + 1 - k, n + k)
{
    broadcast use group_has;
    let h = pieri_d(s, p, lam, k, n + 1);
    axiom_pieri_d(s, p, lam, k, n + 1);
    let t = fs_apply(ft, h);
    assert forall|x: Seq<int>| #[trigger] fs_has(fs_apply(fsw, t), x) implies box_d(x, k, n + 1 - k, n + k) by {
        let z = has_apply(fsw, t, x);
        assert(fsw(z) == fs_one(swap(z, k)));
        let y = has_apply(ft, h, z);
        assert(ft(y) == tilde_fs(y, n - k + 2, n + k));
        assert(tilde_raw(y, n - k + 2, n + k).is_some() && z == tilde_raw(y, n - k + 2, n + k).unwrap());
        lemma_tilde_swap_box(y, k, n);
    }
}
pub proof fn lemma_build_box(x: Seq<int>, n: int, zero: bool)
    requires dec_in(x, n), n >= 1
    ensures box_d(dual_d(build(x, n, zero), 1, n), 1, n, n + 1)
{
    let l = build(x, n, false);
    lemma_build(x, n);
    theorem_dual_d(l, 1, n);
    if zero {
        let z = build(x, n, true);
        assert(z =~= l.push(0));
        if left_out(x, n).len() < n {
            assert(is_clip(z, l)) by { assert(z.subrange(0, l.len() as int) =~= l); }
            lemma_clip_unique(z, l);
            assert(is_clip(l, l));
            lemma_clip_unique(l, l);
            assert(ends0(z));
            theorem_dual_d(z, 1, n);
        } else {
            lemma_left_out(x, n);
            let a = pad(z, n);
            let b = pad(l, n);
            assert forall|j: int| 0 <= j < n implies a[j] == b[j] && a[j] > 1 by { assert(l[j] > 1); }
            assert forall|j: int| 0 <= j < n implies #[trigger] cnt_le(a, 1, j, j) == cnt_le(b, 1, j, j) by { lemma_cnt_le_same(a, b, 1, j, j, n); }
            assert(idx_d(z, 1, n) =~= idx_d(l, 1, n));
        }
    }
}
pub proof fn lemma_dec_class(x: Seq<int>, n: int)
    requires class_in(x, 0, n + 1, n)
    ensures dec_in(x, n)
{
    assert(bare(x) =~= x);
    assert forall|i: int| 0 <= i < x.len() implies 1 <= #[trigger] x[i] <= n by { assert(x[i] >= x[x.len() - 1]); assert(x[0] >= x[i]); assert(x[x.len() - 1] >= 0); }
    assert(decreasing(x)) by { assert forall|i: int, j: int| 0 <= i < j < x.len() implies #[trigger] x[i] > #[trigger] x[j] by { assert(x[i] > 0); } }
}
pub proof fn lemma_one_dbox(s: Space, lam: Seq<int>, p: int, n: int, h: Seq<Term>, b1: bool, b2: bool, fc: spec_fn(Seq<int>) -> Seq<Term>, f1: spec_fn(Seq<int>) -> Seq<Term>, f2: spec_fn(Seq<int>) -> Seq<Term>, d: spec_fn(Seq<int>) -> Seq<int>)
    requires is_D(s), s._k == 1, s._n == n, n >= 1, dec_in(lower(lam), n),
        h == (if iabs(p) > 1 { pieri_d(s, iabs(p) - 1, lower(lam), 0, n) } else { fs_one(lower(lam)) }), in_scope(lower(lam), 0, n + 1, n, 1), !lower(lam).contains(0),
        forall|x: Seq<int>| #[trigger] fc(x) == fs_one(left_out(x, n)),
        forall|x: Seq<int>| #[trigger] f1(x) =~= fs_one(raise_fs(x, n, false)),
        forall|x: Seq<int>| #[trigger] f2(x) =~= fs_one(raise_fs(x, n, true)),
        forall|x: Seq<int>| #[trigger] d(x) == dual_o(x, s),
    ensures forall|x: Seq<int>| #[trigger] fs_has(fs_map(d, ones_sum(fs_apply(fc, h), f1, f2, b1, b2)), x) ==> box_d(x, 1, n, n + 1)
{
    broadcast use group_has;
    let c = fs_apply(fc, h);
    if iabs(p) > 1 { axiom_pieri_d(s, iabs(p) - 1, lower(lam), 0, n); }
    let x1 = if b1 { fs_mul(sc_q1(), fs_apply(f1, c)) } else { fs_zero() };
    let x2 = if b2 { fs_mul(sc_q2(), fs_apply(f2, c)) } else { fs_zero() };
    let o = ones_sum(c, f1, f2, b1, b2);
    assert(o == fs_add(x1, x2));
    assert forall|x: Seq<int>| #[trigger] fs_has(fs_map(d, o), x) implies box_d(x, 1, n, n + 1) by {
        let z = has_map(d, o, x);
        assert(d(z) == dual_o(z, s));
        has_add(x1, x2, z);
        let zero = !fs_has(x1, z);
        let y = if fs_has(x1, z) { has_mul(sc_q1(), fs_apply(f1, c), z); has_apply(f1, c, z) } else { has_mul(sc_q2(), fs_apply(f2, c), z); has_apply(f2, c, z) };
        if zero { assert(f2(y) == fs_one(raise_fs(y, n, true))); } else { assert(f1(y) == fs_one(raise_fs(y, n, false))); }
        assert(z == raise_fs(y, n, zero));
        let v = has_apply(fc, h, y);
        assert(fc(v) == fs_one(left_out(v, n)));
        if iabs(p) > 1 { assert(class_in(v, 0, n + 1, n)); lemma_dec_class(v, n); } else { assert(v == lower(lam)); }
        assert(z =~= build(v, n, zero));
        lemma_build_box(v, n, zero);
    }
}
// k >= 2
pub proof fn lemma_rims(s: Space, lam: Seq<int>, nu: Seq<int>, e: Exp, p: int, k: int, n: int, ft: spec_fn(Seq<int>) -> Seq<Term>, fsw: spec_fn(Seq<int>) -> Seq<Term>)
    requires is_D(s), k >= 2, n + 1 - k >= 1, in_scope(lam, k, n + 2 - k, n + 1 + k, 1),
        forall|x: Seq<int>| #[trigger] ft(x) == tilde_fs(x, n - k + 2, n + k), forall|x: Seq<int>| #[trigger] fsw(x) == fs_one(swap(x, k))
    ensures fs_coef(fs_apply(fsw, fs_apply(ft, pieri_d(s, p, lam, k, n + 1))), nu, e) == (if e == e0() { rim_d(lam, nu, p, k, n) } else { 0real })
{
    let h = pieri_d(s, p, lam, k, n + 1);
    axiom_pieri_d(s, p, lam, k, n + 1);
    let t = fs_apply(ft, h);
    assert forall|x: Seq<int>, e1: Exp| #[trigger] fs_coef(t, x, e1) == (if e1 == e0() { rim_d0(lam, x, p, k, n) } else { 0real }) by { lemma_rim_d(lam, x, p, k, n, h, e1, ft); }
    assert forall|x: Seq<int>| !is_class(x, k) implies #[trigger] rim_d0(lam, x, p, k, n) == 0real by { lemma_rim_d(lam, x, p, k, n, h, e0(), ft); }
    lemma_swap_terms(lam, nu, p, k, n, t, e, fsw);
}
pub proof fn lemma_full_d(s: Space, lam: Seq<int>, nu: Seq<int>, e: Exp, p: int, k: int, n: int, f: spec_fn(Seq<int>) -> Seq<Term>)
    requires is_D(s), in_scope(slice(lam, 1, lam.len() as int), k, n + 1 - k, n + k, 1), k == 0 ==> p != 0 && !slice(lam, 1, lam.len() as int).contains(0), lam.len() > 0 && lam[0] == n + k,
        forall|x: Seq<int>| #[trigger] f(x) == star_fs(x, n + k)
    ensures fs_coef(fs_apply(f, pieri_d(s, p, slice(lam, 1, lam.len() as int), k, n)), nu, e) == (if e == e0() { full_d(lam, nu, p, k, n) } else { 0real })
{
    let t = slice(lam, 1, lam.len() as int);
    axiom_pieri_d(s, p, t, k, n);
    let u = pieri_d(s, p, t, k, n);
    lemma_star_pre(n + k, nu, u, e, f);
}
//# fn schubertpy/orthogonal_grassmannian.py::OrthogonalGrassmannian.qpieriD_inner(self_: SPACE, p: I, lam: L, k: I, n: I) -> FS
//# vars q q1 q2 res lb cprd intn res1
//# types res: FS, res1: FS, lb: L, cprd: FS, intn: SET
//# fun qpieri_d
requires box_d(lam, k, n + 1 - k, n + k), n + 1 - k >= 1, k >= 0, p != 0, is_D(self_), self_._k == k, self_._n == n
ensures forall|nu: Seq<int>, e: Exp| #[trigger] fs_coef(result, nu, e) == qcoef_d(lam, nu, e, p, k, n),
    forall|x: Seq<int>| #[trigger] fs_has(result, x) ==> box_d(x, k, n + 1 - k, n + k)
//# hint entry
broadcast use group_has;
hide(in_box);
hide(term);
hide(in_scope);
hide(coef_d);
hide(full_d);
hide(rim_d);
hide(rim_d0);
hide(rim_1);
hide(one_term);
hide(dual_o);
hide(star_fs);
hide(tilde_fs);
hide(swap);
hide(box_d);
hide(lower);
hide(left_out);
hide(dec_in);
lemma_box_d_scope(lam, k, n);
lemma_scope_up(lam, k, n + 1 - k, n + k, 1);
lemma_scope_tail(lam, k, n + 1 - k, n + k, 1);
if k == 1 { lemma_lower(lam, n); if row(lam, n - 1) > 0 { lemma_typ_cond(lam, n); } }
//# hint call part_clip
assert($r == lower(lam)) by { reveal(lower); }
//# hint call OrthogonalGrassmannian.dualize
let d = |l: Seq<int>| dual_o(l, self_);
let fc = |mu: Seq<int>| comp_fs(self_, intn, mu);
let f1 = |mu: Seq<int>| fs_one((mu.map_values(|x: int| (x + 1int)) + rep(1int, (n - (mu.len() as int)))));
let f2 = |mu: Seq<int>| fs_one(((mu.map_values(|x: int| (x + 1int)) + rep(1int, (n - (mu.len() as int)))) + seq![0int]));
let h = if iabs(p) > 1 { pieri_d(self_, iabs(p) - 1, lb, 0, n) } else { fs_one(lb) };
let b1 = typ(lam, 1) != 2 && p > 0;
let b2 = typ(lam, 1) != 1 && (p == -1 || p > 1);
assert(cprd == fs_apply(fc, h));
assert(res1 =~= ones_sum(cprd, f1, f2, b1, b2));
lemma_lower_terms(self_, lam, p, n, h);
assert forall|x: Seq<int>| #[trigger] fc(x) == fs_one(left_out(x, n)) by { reveal(left_out); }
assert forall|x: Seq<int>| #[trigger] f1(x) =~= fs_one(raise_fs(x, n, false)) by { assert(raise_fs(x, n, false) =~= x.map_values(|x: int| (x + 1int)) + rep(1int, (n - (x.len() as int)))); }
assert forall|x: Seq<int>| #[trigger] f2(x) =~= fs_one(raise_fs(x, n, true)) by {}
lemma_one_dbox(self_, lam, p, n, h, b1, b2, fc, f1, f2, d);
assert forall|nu: Seq<int>, e: Exp| #[trigger] fs_coef($r, nu, e) == qone(lam, nu, e, p, n, b1, b2) by { lemma_one_d(self_, lam, nu, e, p, n, h, b1, b2, fc, f1, f2, d); }
//# hint return
let f = |x: Seq<int>| star_fs(x, n + k);
let ft = |x: Seq<int>| tilde_fs(x, n - k + 2, n + k);
let fw = |x: Seq<int>| fs_one(swap(x, self_._k));
let h = pieri_d(self_, p, lam, k, n + 1);
let t = slice(lam, 1, lam.len() as int);
let u = pieri_d(self_, p, t, k, n);
axiom_pieri_d(self_, p, lam, k, n);
lemma_first_box(self_, lam, p, k, n);
let full = lam.len() > 0 && lam[0] == n + k;
if full { lemma_full_box(self_, lam, p, k, n, f); }
if k >= 2 { lemma_rims_box(self_, lam, p, k, n, ft, fw); }
assert forall|nu: Seq<int>, e: Exp| #[trigger] fs_coef(result, nu, e) == qcoef_d(lam, nu, e, p, k, n) by {
    if !full { assert(full_d(lam, nu, p, k, n) == 0real) by { reveal(full_d); } }
    if k == 0 {
        if full { lemma_full_d(self_, lam, nu, (e.0 - 1, e.1, e.2), p, k, n, f); fs_coef_q(fs_apply(f, u), nu, e); }
    } else if k == 1 {
        if full { lemma_full_d(self_, lam, nu, (e.0, e.1 - 1, e.2 - 1), p, k, n, f); fs_coef_q1q2(fs_apply(f, u), nu, e); }
    } else {
        if full { lemma_full_d(self_, lam, nu, (e.0 - 2, e.1, e.2), p, k, n, f); fs_coef_qq(fs_apply(f, u), nu, e); }
        if row(lam, n - k) > 0 { lemma_rims(self_, lam, nu, (e.0 - 1, e.1, e.2), p, k, n, ft, fw); fs_coef_q(fs_apply(fw, fs_apply(ft, h)), nu, e); }
        else { lemma_rim_short_d(lam, swap(nu, k), p, k, n); reveal(rim_d); }
    }
}
//# end
// ---- the methods and the theorem
pub open spec fn qpieri_b_of(s: Space, i: int) -> spec_fn(Seq<int>) -> Seq<Term> { |x: Seq<int>| qpieri_b(s, i, x, s._k, s._n) }
pub open spec fn qpieri_d_of(s: Space, i: int) -> spec_fn(Seq<int>) -> Seq<Term> { |x: Seq<int>| qpieri_d(s, i, x, s._k, s._n) }
pub open spec fn all_box_b(a: Seq<Term>, s: Space) -> bool { forall|x: Seq<int>| #[trigger] fs_has(a, x) ==> in_box(x, s._k, s._n - s._k, s._n + s._k) }
pub open spec fn all_box_d(a: Seq<Term>, s: Space) -> bool { forall|x: Seq<int>| #[trigger] fs_has(a, x) ==> box_d(x, s._k, s._n + 1 - s._k, s._n + s._k) }
pub proof fn lemma_box_scope(lam: Seq<int>, k: int, n: int)
    requires in_box(lam, k, n - k, n + k), n - k >= 1, k >= 0
    ensures in_scope(lam, k, n - k, n + k, 0), lam.len() <= n - k
{ lemma_is_clip(lam); }

//# fn schubertpy/abstract_grassmannian.py::AbstractGrassmannian.qpieri@OrthogonalGrassmannian^b(self_: SPACE, i: I, lc: FS) -> FS
//# types _qpieri: qpieriB_inner
requires is_B(self_), self_._n - self_._k >= 1, self_._k >= 0, all_box_b(lc, self_)
ensures fs_same(result, fs_apply(qpieri_b_of(self_, i), lc))
//# hint entry
assert forall|x: Seq<int>| #[trigger] fs_has(lc, x) implies in_scope(x, self_._k, self_._n - self_._k, self_._n + self_._k, 0) && x.len() <= self_._n - self_._k by { lemma_box_scope(x, self_._k, self_._n); }
//# hint return
let f = qpieri_b_of(self_, i);
if is_schur(lc) {
    lemma_on_class(f, lc, result);
} else {
    lemma_fs_apply_ext(f, |p: Seq<int>| qpieri_b(self_, i, p, self_._k, self_._n), lc);
}
//# fn schubertpy/abstract_grassmannian.py::AbstractGrassmannian.qpieri@OrthogonalGrassmannian^d(self_: SPACE, i: I, lc: FS) -> FS
//# types _qpieri: qpieriD_inner
requires is_D(self_), self_._n + 1 - self_._k >= 1, self_._k >= 0, i != 0, all_box_d(lc, self_)
ensures fs_same(result, fs_apply(qpieri_d_of(self_, i), lc))
//# hint return
let f = qpieri_d_of(self_, i);
if is_schur(lc) {
    lemma_on_class(f, lc, result);
} else {
    lemma_fs_apply_ext(f, |p: Seq<int>| qpieri_d(self_, i, p, self_._k, self_._n), lc);
}
//# end
pub open spec fn natural(x: real) -> bool { exists|m: int| m >= 0 && x == #[trigger] ir(m) }
pub proof fn lemma_pow2_natural(e: int)
    requires e >= 0
    ensures natural(pow2r(e))
    decreases e
{
    if e > 0 {
        lemma_pow2_natural(e - 1);
        let m = choose|m: int| m >= 0 && pow2r(e - 1) == #[trigger] ir(m);
        assert(pow2r(e) == ir(2 * m));
    } else { assert(pow2r(e) == ir(1)); }
}
pub proof fn lemma_natural_b(lam: Seq<int>, mu: Seq<int>, p: int, k: int, n: int)
    requires in_scope(lam, k, n - k, n + k, 0)
    ensures natural(coef_b(lam, mu, p, k, n))
{
    assert(0real == ir(0));
    if term(lam, mu, p, k, n - k, n + k, 0) { lemma_term_pairing(lam, mu, p, k, n - k, n + k, 0); lemma_pow2_natural(ncomp(lam, mu, k, 0, false) - (if p <= k { 0int } else { 1int })); }
}
pub proof fn lemma_natural_d(lam: Seq<int>, nu: Seq<int>, p: int, k: int, n: int)
    requires in_scope(lam, k, n + 1 - k, n + k, 1)
    ensures natural(coef_d(lam, nu, p, k, n))
{
    let mu = bare(nu);
    assert(0real == ir(0));
    assert(1real == ir(1));
    if typed(nu, k) && term(lam, mu, iabs(p), k, n + 1 - k, n + k, 1) {
        lemma_term_pairing(lam, mu, iabs(p), k, n + 1 - k, n + k, 1);
        let c = ncomp(lam, mu, k, 1, false);
        lemma_pow2_natural(c);
        if c > 0 { lemma_pow2_natural(c - 1); }
    }
}
// C04 in types B and D
pub proof fn theorem_qpieri_b(s: Space, i: int, lam: Seq<int>)
    requires is_B(s), 1 <= s._n - s._k, s._k >= 0, in_box(lam, s._k, s._n - s._k, s._n + s._k)
    ensures forall|nu: Seq<int>, e: Exp| #[trigger] fs_coef(fs_apply(qpieri_b_of(s, i), fs_one(lam)), nu, e) == qcoef_b(lam, nu, e, i, s._k, s._n) && natural(qcoef_b(lam, nu, e, i, s._k, s._n))
{
    let f = qpieri_b_of(s, i);
    let k = s._k;
    let n = s._n;
    lemma_box_scope(lam, k, n);
    axiom_qpieri_b(s, i, lam, k, n);
    lemma_fs_apply_one(f, lam);
    lemma_scope_up(lam, k, n - k, n + k, 0);
    lemma_scope_tail(lam, k, n - k, n + k, 0);
    assert(0real == ir(0));
    assert forall|nu: Seq<int>, e: Exp| #[trigger] fs_coef(fs_apply(f, fs_one(lam)), nu, e) == qcoef_b(lam, nu, e, i, k, n) && natural(qcoef_b(lam, nu, e, i, k, n)) by {
        assert(fs_coef(fs_apply(f, fs_one(lam)), nu, e) == fs_coef(f(lam), nu, e));
        lemma_natural_b(lam, nu, i, k, n);
        lemma_natural_b(slice(lam, 1, lam.len() as int), put(n + k, nu), i, k, n);
        lemma_natural_b(lam, untilde(nu, n - k + 1, n + k), i, k, n + 1);
    }
}
pub proof fn theorem_qpieri_d(s: Space, i: int, lam: Seq<int>)
    requires is_D(s), 1 <= s._n + 1 - s._k, s._k >= 0, i != 0, box_d(lam, s._k, s._n + 1 - s._k, s._n + s._k)
    ensures forall|nu: Seq<int>, e: Exp| #[trigger] fs_coef(fs_apply(qpieri_d_of(s, i), fs_one(lam)), nu, e) == qcoef_d(lam, nu, e, i, s._k, s._n) && natural(qcoef_d(lam, nu, e, i, s._k, s._n))
{
    let f = qpieri_d_of(s, i);
    let k = s._k;
    let n = s._n;
    lemma_box_d_scope(lam, k, n);
    axiom_qpieri_d(s, i, lam, k, n);
    lemma_fs_apply_one(f, lam);
    lemma_scope_up(lam, k, n + 1 - k, n + k, 1);
    lemma_scope_tail(lam, k, n + 1 - k, n + k, 1);
    assert forall|nu: Seq<int>, e: Exp| #[trigger] fs_coef(fs_apply(f, fs_one(lam)), nu, e) == qcoef_d(lam, nu, e, i, k, n) && natural(qcoef_d(lam, nu, e, i, k, n)) by {
        assert(fs_coef(fs_apply(f, fs_one(lam)), nu, e) == fs_coef(f(lam), nu, e));
        lemma_natural_qd(lam, nu, e, i, k, n);
    }
}
pub proof fn lemma_natural_qd(lam: Seq<int>, nu: Seq<int>, e: Exp, p: int, k: int, n: int)
    requires box_d(lam, k, n + 1 - k, n + k), n + 1 - k >= 1, k >= 0
    ensures natural(qcoef_d(lam, nu, e, p, k, n))
{
    lemma_box_d_scope(lam, k, n);
    lemma_scope_up(lam, k, n + 1 - k, n + k, 1);
    lemma_scope_tail(lam, k, n + 1 - k, n + k, 1);
    assert(0real == ir(0));
    assert(1real == ir(1));
    lemma_natural_d(lam, nu, p, k, n);
    lemma_natural_d(slice(lam, 1, lam.len() as int), put(n + k, nu), p, k, n);
    if k == 1 {
        lemma_lower(lam, n);
        lemma_natural_d(lower(lam), unbuild(dual_d(nu, 1, n), n), iabs(p) - 1, 0, n);
    } else if k >= 2 {
        lemma_natural_d(lam, untilde(swap(nu, k), n - k + 2, n + k), p, k, n + 1);
    }
}

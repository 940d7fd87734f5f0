//# unit prods
//# use qpd ring
// ---- the products of the spaces: the Pieri operators give polynomials and their values
pub open spec fn pieri_s(s: Space, i: int, x: Seq<int>) -> Seq<Term> {
    if is_A(s) { pieri_a(s, i, x, s._k, s._n) } else if is_C(s) { pieri_c(s, i, x, s._k, s._n) } else if is_B(s) { pieri_b(s, i, x, s._k, s._n) } else { pieri_d(s, i, x, s._k, s._n) }
}
pub open spec fn qpieri_s(s: Space, i: int, x: Seq<int>) -> Seq<Term> {
    if is_A(s) { qpieri_a(s, i, x, s._k, s._n) } else if is_C(s) { qpieri_c(s, i, x, s._k, s._n) } else if is_B(s) { qpieri_b(s, i, x, s._k, s._n) } else { qpieri_d(s, i, x, s._k, s._n) }
}
pub open spec fn op_s(s: Space) -> Op { |i: int, x: Seq<int>| pieri_s(s, i, x) }
pub open spec fn qop_s(s: Space) -> Op { |i: int, x: Seq<int>| qpieri_s(s, i, x) }

pub proof fn lemma_dist(s: Space)
    ensures is_A(s) ==> !is_B(s) && !is_C(s) && !is_D(s), is_B(s) ==> !is_C(s) && !is_D(s), is_C(s) ==> !is_D(s)
{ lemma_kinds(s); }
// what a special class says about the space
pub proof fn lemma_special(p: int, s: Space)
    requires is_space(s), sp_num(p, s)
    ensures p != 0, is_A(s) ==> 1 <= p <= s._k && s._n - s._k >= 1, is_C(s) || is_B(s) ==> 1 <= p <= s._n + s._k && s._n - s._k >= 1,
        is_D(s) ==> 1 <= iabs(p) <= s._n + s._k && s._n + 1 - s._k >= 1 && (p < 0 ==> p == -s._k)
{
    lemma_kinds(s);
    let v = specl(p);
    if p < 0 {
        assert(v.last() == 0);
        assert(ends0(v));
        let c = clip(v);
        lemma_is_clip(v);
        if is_D(s) {
            assert(v =~= c.push(0));
            assert(c.len() == 1);
            assert(c[0] == -p);
            let i = choose|i: int| 0 <= i < c.len() && c[i] == s._k;
            assert(i == 0);
        }
    } else {
        assert(v[0] == p);
        assert(!ends0(v)) by { assert(v.last() == p); }
        if is_D(s) { lemma_clip_id(v); }
    }
}
// ---- type A
pub proof fn lemma_op_a(s: Space, i: int, x: Seq<int>)
    requires is_A(s), sp_num(i, s), box_s(x, s)
    ensures shut_at(op_s(s), i, x, s), shut_at(qop_s(s), i, x, s), qcut_at(qop_s(s), op_s(s), i, x), is_a(s), 1 <= i <= s._k, rect(x, s._k, s._n - s._k)
{
    lemma_special(i, s);
    let k = s._k;
    let m = s._n - k;
    let f = pieri_a(s, i, x, k, s._n);
    let g = qpieri_a(s, i, x, k, s._n);
    axiom_pieri_a(s, i, x, k, s._n);
    axiom_qpieri_a(s, i, x, k, s._n);
    assert forall|y: Seq<int>| cls_a(y, k, m) implies box_s(y, s) by {}
    let d = dq(s);
    assert forall|y: Seq<int>, e: Exp| #[trigger] fs_coef(f, y, e) != 0real implies e.0 >= 0 && e.1 >= 0 && e.2 >= 0 && cw()(y) + d * (e.0 + e.1 + e.2) == iabs(i) + sum_seq(x) by { assert(d * 0 == 0); }
    assert forall|y: Seq<int>, e: Exp| #[trigger] fs_coef(g, y, e) != 0real implies e.0 >= 0 && e.1 >= 0 && e.2 >= 0 && cw()(y) + d * (e.0 + e.1 + e.2) == iabs(i) + sum_seq(x) by { assert(d * 0 == 0); assert(d * 1 == d); }
    lemma_q0(g);
    assert forall|y: Seq<int>, e: Exp| #[trigger] fs_coef(q0(g), y, e) == fs_coef(f, y, e) by {}
}
// ---- type C
pub proof fn lemma_op_c(s: Space, i: int, x: Seq<int>)
    requires is_C(s), sp_num(i, s), box_s(x, s)
    ensures shut_at(op_s(s), i, x, s), shut_at(qop_s(s), i, x, s), qcut_at(qop_s(s), op_s(s), i, x), in_scope(x, s._k, s._n - s._k, s._n + s._k, 0)
{
    lemma_dist(s);
    lemma_special(i, s);
    let k = s._k;
    let n = s._n;
    lemma_box_scope(x, k, n);
    let f = pieri_c(s, i, x, k, n);
    let g = qpieri_c(s, i, x, k, n);
    axiom_pieri_c(s, i, x, k, n);
    axiom_qpieri_c(s, i, x, k, n);
    let d = dq(s);
    assert forall|y: Seq<int>, e: Exp| #[trigger] fs_coef(f, y, e) != 0real implies e.0 >= 0 && e.1 >= 0 && e.2 >= 0 && cw()(y) + d * (e.0 + e.1 + e.2) == iabs(i) + sum_seq(x) by { assert(d * 0 == 0); }
    assert forall|y: Seq<int>, e: Exp| #[trigger] fs_coef(g, y, e) != 0real implies e.0 >= 0 && e.1 >= 0 && e.2 >= 0 && cw()(y) + d * (e.0 + e.1 + e.2) == iabs(i) + sum_seq(x) by {
        assert(d * 0 == 0);
        assert(d * 1 == d);
        lemma_put_sum(n + k + 1, y);
        if e != e0() { assert((1real / 2real) * 0real == 0real); }
    }
    lemma_q0(g);
    assert forall|y: Seq<int>, e: Exp| #[trigger] fs_coef(q0(g), y, e) == fs_coef(f, y, e) by {}
}
pub proof fn lemma_put_sum(c: int, x: Seq<int>)
    ensures sum_seq(put(c, x)) == c + sum_seq(x)
{
    let v = seq![c];
    lemma_sum_add(v, x);
    assert(v.drop_last() =~= Seq::<int>::empty());
    assert(sum_seq(v.drop_last()) == 0);
    assert(sum_seq(v) == c);
}
// ---- type B
pub proof fn lemma_op_b(s: Space, i: int, x: Seq<int>)
    requires is_B(s), sp_num(i, s), box_s(x, s)
    ensures shut_at(op_s(s), i, x, s), shut_at(qop_s(s), i, x, s), qcut_at(qop_s(s), op_s(s), i, x), in_scope(x, s._k, s._n - s._k, s._n + s._k, 0), x.len() <= s._n - s._k, s._n - s._k >= 1
{
    lemma_dist(s);
    lemma_special(i, s);
    let k = s._k;
    let n = s._n;
    lemma_box_scope(x, k, n);
    let f = pieri_b(s, i, x, k, n);
    let g = qpieri_b(s, i, x, k, n);
    axiom_pieri_b(s, i, x, k, n);
    axiom_qpieri_b(s, i, x, k, n);
    let d = dq(s);
    assert forall|y: Seq<int>, e: Exp| #[trigger] fs_coef(f, y, e) != 0real implies e.0 >= 0 && e.1 >= 0 && e.2 >= 0 && cw()(y) + d * (e.0 + e.1 + e.2) == iabs(i) + sum_seq(x) by { assert(d * 0 == 0); }
    assert forall|y: Seq<int>, e: Exp| #[trigger] fs_coef(g, y, e) != 0real implies e.0 >= 0 && e.1 >= 0 && e.2 >= 0 && cw()(y) + d * (e.0 + e.1 + e.2) == iabs(i) + sum_seq(x) by {
        assert(d * 0 == 0);
        assert(d * 1 == d);
        assert(d * 2 == 2 * d);
        if e != e0() {
            lemma_put_sum(n + k, y);
            if full_b(x, y, i, k, n) != 0real { lemma_sum_head(x); }
            if rim_b(x, y, i, k, n) != 0real { lemma_untilde_sum(y, n - k + 1, n + k); }
        }
    }
    lemma_q0(g);
    assert forall|y: Seq<int>, e: Exp| #[trigger] fs_coef(q0(g), y, e) == fs_coef(f, y, e) by {}
}
pub proof fn lemma_bare_sum(x: Seq<int>)
    ensures sum_seq(bare(x)) == sum_seq(x)
{ if ends0(x) { assert(bare(x) =~= x.drop_last()); } }
pub proof fn lemma_rep_sum(v: int, c: int)
    requires c >= 0
    ensures sum_seq(rep(v, c)) == v * c
    decreases c
{
    if c > 0 { lemma_rep_sum(v, c - 1); assert(rep(v, c).drop_last() =~= rep(v, c - 1)); assert(v * c == v * (c - 1) + v) by (nonlinear_arith); }
    else { assert(rep(v, c) =~= Seq::<int>::empty()); assert(v * 0 == 0); }
}
pub proof fn lemma_untilde_sum(nu: Seq<int>, rows: int, cols: int)
    requires tilde(untilde(nu, rows, cols), rows, cols) == Some(nu), rows >= 1
    ensures sum_seq(untilde(nu, rows, cols)) == sum_seq(nu) + cols, sum_seq(bare(untilde(nu, rows, cols))) == sum_seq(nu) + cols
{
    let b = bare(nu);
    let y = untilde(nu, rows, cols);
    let h = put(b.len() + 1 + cols - rows, b);
    lemma_put_sum(b.len() + 1 + cols - rows, b);
    lemma_bare_sum(nu);
    lemma_bare_sum(y);
    lemma_is_clip(y);
    assert(rows - 1 - b.len() >= 0) by {
        assert(y[0] == b.len() + 1 + cols - rows);
        assert(row(y, 0) <= cols);
    }
    lemma_rep_sum(1, rows - 1 - b.len());
    lemma_sum_add(h, rep(1, rows - 1 - b.len()));
    lemma_sum_add(h + rep(1, rows - 1 - b.len()), tail0(ends0(nu)));
    assert(sum_seq(tail0(ends0(nu))) == 0) by { if ends0(nu) { assert(tail0(true).drop_last() =~= Seq::<int>::empty()); assert(sum_seq(tail0(true).drop_last()) == 0); } }
}
// ---- type D
#[verifier::spinoff_prover]
#[verifier::rlimit(40)]
pub proof fn lemma_left_sum(x: Seq<int>, n: int)
    requires dec_in(x, n), n >= 0
    ensures 2 * (sum_seq(x) + sum_seq(left_out(x, n))) == n * (n + 1)
    decreases n
{
    let l = left_out(x, n);
    lemma_left_out(x, n);
    if n == 0 {
        if x.len() > 0 { assert(1 <= x[0] <= 0); }
        if l.len() > 0 { assert(1 <= l[0] <= 0); }
        assert(x =~= Seq::<int>::empty());
        assert(l =~= Seq::<int>::empty());
    } else {
        assert(n * (n + 1) == (n - 1) * n + 2 * n) by (nonlinear_arith);
        if x.contains(n) {
            let i = choose|i: int| 0 <= i < x.len() && x[i] == n;
            if i > 0 { assert(x[0] > x[i]); }
            let t = slice(x, 1, x.len() as int);
            lemma_sum_head(x);
            lemma_tail_dec(x, n);
            lemma_left_out(t, n - 1);
            let r = left_out(t, n - 1);
            assert forall|v: int| #[trigger] r.contains(v) <==> l.contains(v) by {
                assert(l.contains(v) <==> 1 <= v <= n && !x.contains(v));
                if t.contains(v) { let j = choose|j: int| 0 <= j < t.len() && t[j] == v; assert(x[j + 1] == v); }
                if x.contains(v) && v != n { let j = choose|j: int| 0 <= j < x.len() && x[j] == v; assert(t[j - 1] == v); }
            }
            lemma_same_desc(r, l);
            lemma_left_sum(t, n - 1);
        } else {
            assert(l.contains(n));
            let i = choose|i: int| 0 <= i < l.len() && l[i] == n;
            if i > 0 { assert(l[0] > l[i]); }
            let t = slice(l, 1, l.len() as int);
            lemma_sum_head(l);
            lemma_tail_dec(l, n);
            assert(dec_in(x, n - 1)) by { assert forall|j: int| 0 <= j < x.len() implies 1 <= #[trigger] x[j] <= n - 1 by { assert(x.contains(x[j])); } }
            lemma_left_out(x, n - 1);
            let r = left_out(x, n - 1);
            assert forall|v: int| #[trigger] r.contains(v) <==> t.contains(v) by {
                assert(l.contains(v) <==> 1 <= v <= n && !x.contains(v));
                if t.contains(v) { let j = choose|j: int| 0 <= j < t.len() && t[j] == v; assert(l[j + 1] == v); assert(l[0] > l[j + 1]); }
                if l.contains(v) && v != n { let j = choose|j: int| 0 <= j < l.len() && l[j] == v; assert(t[j - 1] == v); }
            }
            lemma_same_desc(r, t);
            lemma_left_sum(x, n - 1);
        }
    }
}
pub proof fn lemma_tail_dec(x: Seq<int>, n: int)
    requires dec_in(x, n), x.len() > 0
    ensures dec_in(slice(x, 1, x.len() as int), n - 1)
{
    let t = slice(x, 1, x.len() as int);
    assert(decreasing(t)) by { assert forall|i: int, j: int| 0 <= i < j < t.len() implies #[trigger] t[i] > #[trigger] t[j] by { assert(x[i + 1] > x[j + 1]); } }
    assert forall|i: int| 0 <= i < t.len() implies 1 <= #[trigger] t[i] <= n - 1 by { assert(t[i] == x[i + 1]); assert(x[0] > x[i + 1]); }
}
pub proof fn lemma_map_sum(x: Seq<int>, c: int)
    ensures sum_seq(x.map_values(|v: int| v + c)) == sum_seq(x) + c * x.len()
    decreases x.len()
{
    let y = x.map_values(|v: int| v + c);
    if x.len() > 0 {
        lemma_map_sum(x.drop_last(), c);
        assert(y.drop_last() =~= x.drop_last().map_values(|v: int| v + c));
        assert(c * x.len() == c * (x.len() - 1) + c) by (nonlinear_arith);
    } else { assert(c * 0 == 0); }
}
pub proof fn lemma_tail0_sum(b: bool)
    ensures sum_seq(tail0(b)) == 0
{ if b { assert(tail0(true).drop_last() =~= Seq::<int>::empty()); assert(sum_seq(tail0(true).drop_last()) == 0); } }
pub proof fn lemma_build_sum(x: Seq<int>, n: int, zero: bool)
    requires dec_in(x, n), n >= 1
    ensures sum_seq(dual_d(build(x, n, zero), 1, n)) == sum_seq(x) + n - n
{
    let r = left_out(x, n);
    lemma_left_out(x, n);
    lemma_left_sum(x, n);
    let a = r.map_values(|v: int| v + 1);
    lemma_map_sum(r, 1);
    let o = rep(1, n - r.len());
    lemma_rep_sum(1, n - r.len());
    let l = build(x, n, false);
    let z = build(x, n, true);
    lemma_sum_add(a, o);
    lemma_sum_add(a + o, tail0(false));
    lemma_sum_add(a + o, tail0(true));
    lemma_tail0_sum(true);
    lemma_tail0_sum(false);
    lemma_build(x, n);
    theorem_dual_d(l, 1, n);
    assert(dim2_d(n, 1) == n * (n + 1) + 2 * n) by { assert(n * (4 * 1 + n - 1) == n * (n + 1) + 2 * n) by (nonlinear_arith); }
    if zero {
        assert(z =~= l.push(0));
        if r.len() < n {
            assert(is_clip(z, l)) by { assert(z.subrange(0, l.len() as int) =~= l); }
            lemma_clip_unique(z, l);
            assert(is_clip(l, l));
            lemma_clip_unique(l, l);
            assert(ends0(z));
            theorem_dual_d(z, 1, n);
        } else {
            let a = pad(z, n);
            let b = pad(l, n);
            assert forall|j: int| 0 <= j < n implies a[j] == b[j] && a[j] > 1 by { assert(l[j] > 1); }
            assert forall|j: int| 0 <= j < n implies #[trigger] cnt_le(a, 1, j, j) == cnt_le(b, 1, j, j) by { lemma_cnt_le_same(a, b, 1, j, j, n); }
            assert(idx_d(z, 1, n) =~= idx_d(l, 1, n));
        }
    }
}
pub proof fn lemma_less_sum(x: Seq<int>)
    requires forall|i: int| 0 <= i < x.len() ==> #[trigger] x[i] >= 1
    ensures sum_seq(x.map_values(|v: int| imax(v - 1, 0))) == sum_seq(x) - x.len()
    decreases x.len()
{
    if x.len() > 0 {
        assert(x[x.len() - 1] >= 1);
        lemma_less_sum(x.drop_last());
        assert(x.map_values(|v: int| imax(v - 1, 0)).drop_last() =~= x.drop_last().map_values(|v: int| imax(v - 1, 0)));
    }
}
pub proof fn lemma_clip_keeps_sum(x: Seq<int>)
    ensures sum_seq(clip(x)) == sum_seq(x)
    decreases x.len()
{
    lemma_is_clip(x);
    if ends0(x) {
        lemma_clip_keeps_sum(x.drop_last());
        let c = clip(x.drop_last());
        lemma_is_clip(x.drop_last());
        assert(is_clip(x, c)) by { assert(x.subrange(0, c.len() as int) =~= x.drop_last().subrange(0, c.len() as int)); }
        lemma_clip_unique(x, c);
    } else { lemma_clip_id(x); }
}
pub proof fn lemma_lower_sum(lam: Seq<int>, n: int)
    requires box_d(lam, 1, n, n + 1), row(lam, n - 1) > 0, n >= 1
    ensures sum_seq(lower(lam)) == sum_seq(lam) - n
{
    let c = clip(lam);
    lemma_is_clip(lam);
    lemma_clip_keeps_sum(lam);
    let f = |v: int| imax(v - 1, 0);
    let y = lam.map_values(f);
    lemma_clip_keeps_sum(y);
    assert(c.len() == n) by { if c.len() < n { if lam.len() >= n { assert(lam[n - 1] == 0); } } }
    assert forall|i: int| 0 <= i < c.len() implies #[trigger] c[i] >= 1 by { assert(c[i] >= c[n - 1]); assert(c[n - 1] >= 0); if ends0(lam) { assert(c[n - 1] == lam[n - 1]); } }
    lemma_less_sum(c);
    if ends0(lam) {
        assert(y =~= c.map_values(f).push(0));
        assert(y.drop_last() =~= c.map_values(f));
    } else { assert(y =~= c.map_values(f)); }
}
pub proof fn lemma_rim1_sum(lam: Seq<int>, nu: Seq<int>, p: int, n: int, zero: bool)
    requires box_d(lam, 1, n, n + 1), row(lam, n - 1) > 0, n >= 1, rim_1(lam, nu, p, n, zero) != 0real, p != 0
    ensures sum_seq(nu) + n + 1 == sum_seq(lam) + iabs(p)
{
    let x = unbuild(dual_d(nu, 1, n), n);
    lemma_lower_sum(lam, n);
    lemma_build_sum(x, n, zero);
    lemma_bare_sum(x);
    if iabs(p) > 1 { assert(iabs(iabs(p) - 1) == iabs(p) - 1); } else { assert(x =~= lower(lam)); }
}
pub proof fn lemma_qcoef_d_sum(lam: Seq<int>, nu: Seq<int>, e: Exp, p: int, k: int, n: int)
    requires box_d(lam, k, n + 1 - k, n + k), n + 1 - k >= 1, k >= 0, p != 0, qcoef_d(lam, nu, e, p, k, n) != 0real
    ensures e.0 >= 0, e.1 >= 0, e.2 >= 0, sum_seq(nu) + (e.0 + e.1 + e.2) * (if k == 0 { 2 * n } else { n + k }) == sum_seq(lam) + iabs(p)
{
    let d = if k == 0 { 2 * n } else { n + k };
    assert(0 * d == 0);
    assert(1 * d == d);
    assert(2 * d == d + d);
    lemma_bare_sum(nu);
    if e != e0() {
        let y = put(n + k, nu);
        lemma_put_sum(n + k, nu);
        lemma_bare_sum(y);
        if full_d(lam, nu, p, k, n) != 0real { lemma_sum_head(lam); }
        if k == 1 {
            if row(lam, n - 1) > 0 && rim_1(lam, nu, p, n, false) != 0real { lemma_rim1_sum(lam, nu, p, n, false); }
            if row(lam, n - 1) > 0 && rim_1(lam, nu, p, n, true) != 0real { lemma_rim1_sum(lam, nu, p, n, true); }
        }
        if k >= 2 && rim_d(lam, nu, p, k, n) != 0real {
            lemma_swap(nu, k);
            let z = untilde(swap(nu, k), n - k + 2, n + k);
            lemma_untilde_sum(swap(nu, k), n - k + 2, n + k);
        }
    }
}
pub proof fn lemma_op_d(s: Space, i: int, x: Seq<int>)
    requires is_D(s), sp_num(i, s), box_s(x, s)
    ensures shut_at(op_s(s), i, x, s), shut_at(qop_s(s), i, x, s), qcut_at(qop_s(s), op_s(s), i, x), in_scope(x, s._k, s._n + 1 - s._k, s._n + s._k, 1), s._k == 0 ==> !x.contains(0), i != 0, s._n + 1 - s._k >= 1, s._k >= 0
{
    lemma_dist(s);
    lemma_kinds(s);
    lemma_special(i, s);
    let k = s._k;
    let n = s._n;
    lemma_box_d_scope(x, k, n);
    let f = pieri_d(s, i, x, k, n);
    let g = qpieri_d(s, i, x, k, n);
    axiom_pieri_d(s, i, x, k, n);
    axiom_qpieri_d(s, i, x, k, n);
    assert forall|y: Seq<int>| class_in(y, k, n + 1 - k, n + k) implies box_s(y, s) by { lemma_class_box(y, k, n + 1 - k, n + k); }
    let d = dq(s);
    assert forall|y: Seq<int>, e: Exp| #[trigger] fs_coef(f, y, e) != 0real implies e.0 >= 0 && e.1 >= 0 && e.2 >= 0 && cw()(y) + d * (e.0 + e.1 + e.2) == iabs(i) + sum_seq(x) by { assert(d * 0 == 0); lemma_bare_sum(y); }
    assert forall|y: Seq<int>, e: Exp| #[trigger] fs_coef(g, y, e) != 0real implies e.0 >= 0 && e.1 >= 0 && e.2 >= 0 && cw()(y) + d * (e.0 + e.1 + e.2) == iabs(i) + sum_seq(x) by {
        lemma_qcoef_d_sum(x, y, e, i, k, n);
        assert(d * (e.0 + e.1 + e.2) == (e.0 + e.1 + e.2) * d) by (nonlinear_arith);
    }
    lemma_q0(g);
    assert forall|y: Seq<int>, e: Exp| #[trigger] fs_coef(q0(g), y, e) == fs_coef(f, y, e) by {}
}
pub proof fn lemma_op(s: Space)
    requires is_space(s)
    ensures shut(op_s(s), s), shut(qop_s(s), s), qcut(qop_s(s), op_s(s), s)
{
    lemma_dist(s);
    assert forall|i: int, x: Seq<int>| sp_num(i, s) && box_s(x, s) implies #[trigger] shut_at(op_s(s), i, x, s) by { if is_A(s) { lemma_op_a(s, i, x); } else if is_C(s) { lemma_op_c(s, i, x); } else if is_B(s) { lemma_op_b(s, i, x); } else { lemma_op_d(s, i, x); } }
    assert forall|i: int, x: Seq<int>| sp_num(i, s) && box_s(x, s) implies #[trigger] shut_at(qop_s(s), i, x, s) by { if is_A(s) { lemma_op_a(s, i, x); } else if is_C(s) { lemma_op_c(s, i, x); } else if is_B(s) { lemma_op_b(s, i, x); } else { lemma_op_d(s, i, x); } }
    assert forall|i: int, x: Seq<int>| sp_num(i, s) && box_s(x, s) implies #[trigger] qcut_at(qop_s(s), op_s(s), i, x) by { if is_A(s) { lemma_op_a(s, i, x); } else if is_C(s) { lemma_op_c(s, i, x); } else if is_B(s) { lemma_op_b(s, i, x); } else { lemma_op_d(s, i, x); } }
}
// ---- the Pieri operator takes S[] to the special class
pub proof fn lemma_empty_rows(mu: Seq<int>, k: int, m: int, w: int, d: int, p: int)
    requires term(Seq::<int>::empty(), mu, p, k, m, w, d), p > 0
    ensures mu =~= seq![p]
{
    let l = Seq::<int>::empty();
    if mu.len() >= 2 {
        assert(row(mu, 1) <= imin(row(l, 0), row(mu, 0)));
        assert(mu[1] >= mu[mu.len() - 1]);
        assert(mu[mu.len() - 1] >= 0);
        assert(ends0(mu));
    }
    if mu.len() == 1 { lemma_sum_head(mu); assert(slice(mu, 1, 1) =~= l); assert(sum_seq(l) == 0); }
}
pub proof fn lemma_one_row(p: int, k: int, d: int)
    requires p > 0, k >= 0, 0 <= d <= 1
    ensures arrow(Seq::<int>::empty(), seq![p], k, d), ncomp(Seq::<int>::empty(), seq![p], k, d, true) == 0, ncomp(Seq::<int>::empty(), seq![p], k, d, false) == (if p > k { 1int } else { 0int }),
        forall|i: int| 0 <= i < k && p >= k ==> #[trigger] cnt(seq![p], i) == 1, forall|i: int| #[trigger] cnt(Seq::<int>::empty(), i) == 0
{
    let l = Seq::<int>::empty();
    let mu = seq![p];
    lemma_cnt(l, 0);
    assert forall|i: int| #[trigger] cnt(mu, i) == (if p > i { 1int } else { 0int }) by { lemma_cnt(l, i); lemma_cnt_unique(mu, i, if p > i { 1int } else { 0int }); }
    assert forall|b: int, t: int| #[trigger] has(l, mu, k, b, t) implies b == 0 && 1 <= t <= p - k by {}
    assert(forall|t: int| 1 <= t <= p - k ==> #[trigger] has(l, mu, k, 0, t));
    assert(strips(l, mu, k));
    assert forall|i: int| 0 <= i < k implies #[trigger] column_ok(l, mu, k, d, i) by {}
    if p > k {
        assert forall|t: int| !#[trigger] mentioned(l, mu, k, d, t) by {
            if mentioned(l, mu, k, d, t) { let i = choose|i: int| 0 <= i < k && #[trigger] uses(l, mu, k, d, i, t); assert(cnt(mu, i) == 1); }
        }
        assert forall|r: int, j: int| #[trigger] free_box(l, mu, k, d, r, j) implies r == 0 && 1 <= j <= p - k by {}
        assert(free_box(l, mu, k, d, 0, 1)) by { assert(has(l, mu, k, 0, 1)); }
        assert(leads(l, mu, k, d, 0, 1));
        assert(leader(l, mu, k, d, 1));
        assert forall|j: int| j >= 2 implies !#[trigger] leader(l, mu, k, d, j) by {
            if leader(l, mu, k, d, j) {
                let r = choose|r: int| leads(l, mu, k, d, r, j);
                assert(free_box(l, mu, k, d, r, j));
                assert(has(l, mu, k, 0, 0 + (j - 1)));
                assert(free_box(l, mu, k, d, 0, j - 1));
            }
        }
        lemma_no_leaders(l, mu, k, d, 1, p - k);
        lemma_leaders_one(l, mu, k, d, p - k);
    }
}
pub proof fn lemma_no_leaders(l: Seq<int>, mu: Seq<int>, k: int, d: int, lo: int, hi: int)
    requires forall|j: int| j > lo ==> !#[trigger] leader(l, mu, k, d, j)
    ensures leaders(l, mu, k, d, lo, hi) == 0
    decreases hi - lo
{ if hi > lo { lemma_no_leaders(l, mu, k, d, lo, hi - 1); } }
pub proof fn lemma_leaders_one(l: Seq<int>, mu: Seq<int>, k: int, d: int, hi: int)
    requires forall|j: int| j > 1 ==> !#[trigger] leader(l, mu, k, d, j), leader(l, mu, k, d, 1), hi >= 1
    ensures leaders(l, mu, k, d, 0, hi) == 1
    decreases hi
{ if hi > 1 { lemma_leaders_one(l, mu, k, d, hi - 1); } else { assert(leaders(l, mu, k, d, 0, 0) == 0); } }
pub open spec fn normal_at(f: Op, p: int) -> bool { fs_same(f(p, Seq::<int>::empty()), fs_one(specl(p))) }
pub proof fn lemma_normal_a(s: Space, p: int)
    requires is_A(s), sp_num(p, s)
    ensures normal_at(op_s(s), p), normal_at(qop_s(s), p)
{
    let v = Seq::<int>::empty();
    let m = s._n - s._k;
    lemma_unit_in(s);
    lemma_special(p, s);
    lemma_op_a(s, p, v);
    axiom_pieri_a(s, p, v, s._k, s._n);
    axiom_qpieri_a(s, p, v, s._k, s._n);
    let w = specl(p);
    lemma_sum_head(w);
    assert(slice(w, 1, 1) =~= v);
    assert(sum_seq(v) == 0);
    assert forall|nu: Seq<int>| #[trigger] strip(nu, v, p, s._k, m) <==> nu =~= w by {
        if strip(nu, v, p, s._k, m) {
            if nu.len() >= 2 { assert(row(v, 0) >= row(nu, 0int + 1)); assert(nu[1] >= nu[nu.len() - 1]); assert(nu[nu.len() - 1] >= 0); }
            if nu.len() == 1 { lemma_sum_head(nu); assert(slice(nu, 1, 1) =~= v); }
        }
        if nu =~= w { assert(nu == w); assert forall|j: int| 0 <= j < m - 1 implies #[trigger] row(v, j) >= row(nu, j + 1) by {} }
    }
    assert forall|x: Seq<int>, e: Exp| #[trigger] fs_coef(pieri_s(s, p, v), x, e) == fs_coef(fs_one(w), x, e) by { fs_coef_term(1real, w, x, e); assert(strip(x, v, p, s._k, m) <==> x =~= w); }
    assert forall|x: Seq<int>, e: Exp| #[trigger] fs_coef(qpieri_s(s, p, v), x, e) == fs_coef(fs_one(w), x, e) by { fs_coef_term(1real, w, x, e); assert(strip(x, v, p, s._k, m) <==> x =~= w); }
}
pub proof fn lemma_normal_cb(s: Space, p: int)
    requires is_B(s) || is_C(s), sp_num(p, s)
    ensures normal_at(op_s(s), p), normal_at(qop_s(s), p)
{
    let v = Seq::<int>::empty();
    let k = s._k;
    let n = s._n;
    lemma_dist(s);
    lemma_kinds(s);
    lemma_unit_in(s);
    lemma_special(p, s);
    let w = specl(p);
    lemma_sum_head(w);
    assert(slice(w, 1, 1) =~= v);
    assert(sum_seq(v) == 0);
    assert(w =~= seq![p]);
    lemma_one_row(p, k, 0);
    assert(term(v, w, p, k, n - k, n + k, 0));
    let f1 = pieri_s(s, p, v);
    let f2 = qpieri_s(s, p, v);
    assert(op_s(s)(p, v) == f1 && qop_s(s)(p, v) == f2);
    assert forall|x: Seq<int>, e: Exp| #![trigger fs_coef(f1, x, e)] #![trigger fs_coef(f2, x, e)] fs_coef(f1, x, e) == fs_coef(fs_one(w), x, e) && fs_coef(f2, x, e) == fs_coef(fs_one(w), x, e) by {
        fs_coef_term(1real, w, x, e);
        if term(v, x, p, k, n - k, n + k, 0) { lemma_empty_rows(x, k, n - k, n + k, 0, p); }
        if is_C(s) {
            lemma_op_c(s, p, v);
            axiom_pieri_c(s, p, v, k, n);
            axiom_qpieri_c(s, p, v, k, n);
            let y = put(n + k + 1, x);
            if term(v, y, p, k, n + 1 - k, n + 1 + k, 0) { lemma_empty_rows(y, k, n + 1 - k, n + 1 + k, 0, p); assert(y[0] == n + k + 1); }
            assert((1real / 2real) * 0real == 0real);
        } else {
            lemma_op_b(s, p, v);
            axiom_pieri_b(s, p, v, k, n);
            axiom_qpieri_b(s, p, v, k, n);
            let y = untilde(x, n - k + 1, n + k);
            if term(v, y, p, k, n + 1 - k, n + 1 + k, 0) { lemma_empty_rows(y, k, n + 1 - k, n + 1 + k, 0, p); lemma_is_clip(y); }
        }
        assert(pow2r(0) == 1real);
    }
}
// classical: the only term is the special class
pub proof fn lemma_empty_d(x: Seq<int>, p: int, k: int, n: int)
    requires p != 0, 1 <= iabs(p) <= n + k, n + 1 - k >= 1, k >= 0, p < 0 ==> p == -k, box_d(specl(p), k, n + 1 - k, n + k)
    ensures coef_d(Seq::<int>::empty(), x, p, k, n) == (if x =~= specl(p) { 1real } else { 0real })
{
    let v = Seq::<int>::empty();
    let m = n + 1 - k;
    let a = iabs(p);
    let w = specl(p);
    let u = seq![a];
    lemma_sum_head(u);
    assert(slice(u, 1, 1) =~= v);
    assert(sum_seq(v) == 0);
    lemma_one_row(a, k, 1);
    lemma_clip_id(u);
    assert(term(v, u, a, k, m, n + k, 1));
    assert(w =~= (if p > 0 { u } else { u.push(0) }));
    assert(bare(w) =~= u);
    assert(u.contains(k) <==> a == k) by { if a == k { assert(u[0] == k); } }
    assert(!v.contains(k));
    assert(typed(w, k));
    assert(pow2r(0) == 1real);
    if a == k { lemma_many_none(kept_f(v, u), k); }
    if typed(x, k) && term(v, bare(x), a, k, m, n + k, 1) {
        lemma_empty_rows(bare(x), k, m, n + k, 1, a);
        assert(x =~= u || x =~= u.push(0));
        if ends0(x) { assert(a == k); assert(x =~= u.push(0)); assert(x[0] == k); } else { assert(x =~= u); }
        assert(x.contains(k) <==> a == k) by { if a == k { assert(x[0] == k); } }
    }
}
// quantum: nothing more
pub proof fn lemma_empty_qd(x: Seq<int>, p: int, k: int, n: int)
    requires p != 0, 1 <= iabs(p) <= n + k, n + 1 - k >= 1, k >= 2, is_class(x, k)
    ensures rim_d(Seq::<int>::empty(), x, p, k, n) == 0real
{
    let v = Seq::<int>::empty();
    let y = untilde(swap(x, k), n - k + 2, n + k);
    if typed(y, k) && term(v, bare(y), iabs(p), k, n + 2 - k, n + 1 + k, 1) {
        lemma_empty_rows(bare(y), k, n + 2 - k, n + 1 + k, 1, iabs(p));
        lemma_class_in(y, k, n + 2 - k, n + 1 + k);
        lemma_is_clip(y);
    }
}
pub proof fn lemma_normal_d(s: Space, p: int)
    requires is_D(s), sp_num(p, s)
    ensures normal_at(op_s(s), p), normal_at(qop_s(s), p)
{
    let v = Seq::<int>::empty();
    let k = s._k;
    let n = s._n;
    lemma_dist(s);
    lemma_kinds(s);
    lemma_unit_in(s);
    lemma_special(p, s);
    lemma_op_d(s, p, v);
    axiom_pieri_d(s, p, v, k, n);
    axiom_qpieri_d(s, p, v, k, n);
    let w = specl(p);
    let f1 = pieri_s(s, p, v);
    let f2 = qpieri_s(s, p, v);
    assert(op_s(s)(p, v) == f1 && qop_s(s)(p, v) == f2);
    assert forall|x: Seq<int>, e: Exp| #[trigger] fs_coef(f1, x, e) == fs_coef(fs_one(w), x, e) by { fs_coef_term(1real, w, x, e); lemma_empty_d(x, p, k, n); }
    assert forall|x: Seq<int>, e: Exp| #[trigger] fs_coef(f2, x, e) == fs_coef(fs_one(w), x, e) by {
        fs_coef_term(1real, w, x, e);
        lemma_empty_d(x, p, k, n);
        if k >= 2 { if is_class(x, k) { lemma_empty_qd(x, p, k, n); } else { reveal(rim_d); } }
    }
}
pub proof fn lemma_normal(s: Space, p: int)
    requires is_space(s), sp_num(p, s)
    ensures normal_at(op_s(s), p), normal_at(qop_s(s), p)
{ lemma_dist(s); if is_A(s) { lemma_normal_a(s, p); } else if is_D(s) { lemma_normal_d(s, p); } else { lemma_normal_cb(s, p); } }
// ---- the methods
pub open spec fn giam_s(s: Space) -> spec_fn(Seq<int>) -> Seq<Term> { giam_of(s, op_s(s), s._k) }
pub open spec fn qgiam_s(s: Space) -> spec_fn(Seq<int>) -> Seq<Term> { giam_of(s, qop_s(s), s._k) }
pub open spec fn mult_s(s: Space, a: Seq<Term>, b: Seq<Term>) -> Seq<Term> { prod(giam_s(s), op_s(s), a, b) }
pub open spec fn qmult_s(s: Space, a: Seq<Term>, b: Seq<Term>) -> Seq<Term> { prod(qgiam_s(s), qop_s(s), a, b) }
// products with special classes commute (the classical and the quantum Pieri rules of Buch, Kresch and Tamvakis are
// products in commutative rings); not proved here
#[verifier::external_body]
pub proof fn axiom_comm(s: Space)
    requires is_space(s)
    ensures comm(op_s(s), s), comm(qop_s(s), s)
{ }
//# fn schubertpy/abstract_grassmannian.py::AbstractGrassmannian.act@Grassmannian(self_: SPACE, expr: P, lc: FS) -> FS
//# types _pieri: pieriA_inner
requires is_A(self_), poly_in(expr, self_), all_in(lc, self_)
ensures fs_same(result, ev(expr, op_s(self_), lc)), all_in(result, self_), ring(giam_s(self_), op_s(self_), self_)
//# hint lambda
lemma_dist(self_);
assert($r =~= op_s(self_));
lemma_op(self_);
axiom_comm(self_);
assert forall|i: int, x: Seq<int>| sp_num(i, self_) && box_s(x, self_) implies #[trigger] fdom($r, i, x) by { lemma_op_a(self_, i, x); lemma_kinds(self_); }
lemma_giam_repr(self_, op_s(self_));
//# fn schubertpy/abstract_grassmannian.py::AbstractGrassmannian.giambelli@Grassmannian(self_: SPACE, lc: FS) -> P
//# types _pieri: pieriA_inner
requires is_A(self_), all_in(lc, self_)
ensures result == fs_apply(giam_s(self_), lc), poly_in(result, self_), ring(giam_s(self_), op_s(self_), self_)
//# hint lambda
lemma_dist(self_);
assert($r =~= op_s(self_));
lemma_op(self_);
axiom_comm(self_);
assert forall|i: int, x: Seq<int>| sp_num(i, self_) && box_s(x, self_) implies #[trigger] fdom($r, i, x) by { lemma_op_a(self_, i, x); lemma_kinds(self_); }
lemma_giam_repr(self_, op_s(self_));
//# hint return
lemma_stands(giam_s(self_), op_s(self_), self_, lc);
//# fn schubertpy/abstract_grassmannian.py::AbstractGrassmannian.mult@Grassmannian(self_: SPACE, lc1: FS, lc2: FS) -> FS
requires is_A(self_), all_in(lc1, self_), all_in(lc2, self_)
ensures fs_same(result, mult_s(self_, lc1, lc2)), all_in(result, self_), ring(giam_s(self_), op_s(self_), self_)
//# fn schubertpy/abstract_grassmannian.py::AbstractGrassmannian.toS@Grassmannian(self_: SPACE, lc: FS) -> FS
requires is_A(self_), all_in(lc, self_)
ensures fs_same(result, lc), all_in(result, self_), ring(giam_s(self_), op_s(self_), self_)
//# hint entry
lemma_unit_in(self_);
//# hint return
lemma_stands(giam_s(self_), op_s(self_), self_, lc);
lemma_same_trans(result, mult_s(self_, lc, unit()), lc);
//# fn schubertpy/abstract_grassmannian.py::AbstractGrassmannian.qact@Grassmannian(self_: SPACE, expr: P, lc: FS) -> FS
//# types _qpieri: qpieriA_inner
requires is_A(self_), poly_in(expr, self_), all_in(lc, self_)
ensures fs_same(result, ev(expr, qop_s(self_), lc)), all_in(result, self_), ring(qgiam_s(self_), qop_s(self_), self_)
//# hint lambda
lemma_dist(self_);
assert($r =~= qop_s(self_));
lemma_op(self_);
axiom_comm(self_);
assert forall|i: int, x: Seq<int>| sp_num(i, self_) && box_s(x, self_) implies #[trigger] fdom($r, i, x) by { lemma_op_a(self_, i, x); lemma_kinds(self_); }
lemma_giam_repr(self_, qop_s(self_));
//# fn schubertpy/abstract_grassmannian.py::AbstractGrassmannian.qgiambelli@Grassmannian(self_: SPACE, lc: FS) -> P
//# types _qpieri: qpieriA_inner
requires is_A(self_), all_in(lc, self_)
ensures result == fs_apply(qgiam_s(self_), lc), poly_in(result, self_), ring(qgiam_s(self_), qop_s(self_), self_)
//# hint lambda
lemma_dist(self_);
assert($r =~= qop_s(self_));
lemma_op(self_);
axiom_comm(self_);
assert forall|i: int, x: Seq<int>| sp_num(i, self_) && box_s(x, self_) implies #[trigger] fdom($r, i, x) by { lemma_op_a(self_, i, x); lemma_kinds(self_); }
lemma_giam_repr(self_, qop_s(self_));
//# hint return
lemma_stands(qgiam_s(self_), qop_s(self_), self_, lc);
//# fn schubertpy/abstract_grassmannian.py::AbstractGrassmannian.qmult@Grassmannian(self_: SPACE, lc1: FS, lc2: FS) -> FS
requires is_A(self_), all_in(lc1, self_), all_in(lc2, self_)
ensures fs_same(result, qmult_s(self_, lc1, lc2)), all_in(result, self_), ring(qgiam_s(self_), qop_s(self_), self_)
//# fn schubertpy/abstract_grassmannian.py::AbstractGrassmannian.qtoS@Grassmannian(self_: SPACE, lc: FS) -> FS
requires is_A(self_), all_in(lc, self_)
ensures fs_same(result, lc), all_in(result, self_), ring(qgiam_s(self_), qop_s(self_), self_)
//# hint entry
lemma_unit_in(self_);
//# hint return
lemma_stands(qgiam_s(self_), qop_s(self_), self_, lc);
lemma_same_trans(result, qmult_s(self_, lc, unit()), lc);
//# fn schubertpy/abstract_grassmannian.py::AbstractGrassmannian.act@IsotropicGrassmannian(self_: SPACE, expr: P, lc: FS) -> FS
//# types _pieri: pieriC_inner
requires is_C(self_), poly_in(expr, self_), all_in(lc, self_)
ensures fs_same(result, ev(expr, op_s(self_), lc)), all_in(result, self_), ring(giam_s(self_), op_s(self_), self_)
//# hint lambda
lemma_dist(self_);
assert($r =~= op_s(self_));
lemma_op(self_);
axiom_comm(self_);
assert forall|i: int, x: Seq<int>| sp_num(i, self_) && box_s(x, self_) implies #[trigger] fdom($r, i, x) by { lemma_op_c(self_, i, x); lemma_kinds(self_); }
lemma_giam_repr(self_, op_s(self_));
//# fn schubertpy/abstract_grassmannian.py::AbstractGrassmannian.giambelli@IsotropicGrassmannian(self_: SPACE, lc: FS) -> P
//# types _pieri: pieriC_inner
requires is_C(self_), all_in(lc, self_)
ensures result == fs_apply(giam_s(self_), lc), poly_in(result, self_), ring(giam_s(self_), op_s(self_), self_)
//# hint lambda
lemma_dist(self_);
assert($r =~= op_s(self_));
lemma_op(self_);
axiom_comm(self_);
assert forall|i: int, x: Seq<int>| sp_num(i, self_) && box_s(x, self_) implies #[trigger] fdom($r, i, x) by { lemma_op_c(self_, i, x); lemma_kinds(self_); }
lemma_giam_repr(self_, op_s(self_));
//# hint return
lemma_stands(giam_s(self_), op_s(self_), self_, lc);
//# fn schubertpy/abstract_grassmannian.py::AbstractGrassmannian.mult@IsotropicGrassmannian(self_: SPACE, lc1: FS, lc2: FS) -> FS
requires is_C(self_), all_in(lc1, self_), all_in(lc2, self_)
ensures fs_same(result, mult_s(self_, lc1, lc2)), all_in(result, self_), ring(giam_s(self_), op_s(self_), self_)
//# fn schubertpy/abstract_grassmannian.py::AbstractGrassmannian.toS@IsotropicGrassmannian(self_: SPACE, lc: FS) -> FS
requires is_C(self_), all_in(lc, self_)
ensures fs_same(result, lc), all_in(result, self_), ring(giam_s(self_), op_s(self_), self_)
//# hint entry
lemma_unit_in(self_);
//# hint return
lemma_stands(giam_s(self_), op_s(self_), self_, lc);
lemma_same_trans(result, mult_s(self_, lc, unit()), lc);
//# fn schubertpy/abstract_grassmannian.py::AbstractGrassmannian.qact@IsotropicGrassmannian(self_: SPACE, expr: P, lc: FS) -> FS
//# types _qpieri: qpieriC_inner
requires is_C(self_), poly_in(expr, self_), all_in(lc, self_)
ensures fs_same(result, ev(expr, qop_s(self_), lc)), all_in(result, self_), ring(qgiam_s(self_), qop_s(self_), self_)
//# hint lambda
lemma_dist(self_);
assert($r =~= qop_s(self_));
lemma_op(self_);
axiom_comm(self_);
assert forall|i: int, x: Seq<int>| sp_num(i, self_) && box_s(x, self_) implies #[trigger] fdom($r, i, x) by { lemma_op_c(self_, i, x); lemma_kinds(self_); }
lemma_giam_repr(self_, qop_s(self_));
//# fn schubertpy/abstract_grassmannian.py::AbstractGrassmannian.qgiambelli@IsotropicGrassmannian(self_: SPACE, lc: FS) -> P
//# types _qpieri: qpieriC_inner
requires is_C(self_), all_in(lc, self_)
ensures result == fs_apply(qgiam_s(self_), lc), poly_in(result, self_), ring(qgiam_s(self_), qop_s(self_), self_)
//# hint lambda
lemma_dist(self_);
assert($r =~= qop_s(self_));
lemma_op(self_);
axiom_comm(self_);
assert forall|i: int, x: Seq<int>| sp_num(i, self_) && box_s(x, self_) implies #[trigger] fdom($r, i, x) by { lemma_op_c(self_, i, x); lemma_kinds(self_); }
lemma_giam_repr(self_, qop_s(self_));
//# hint return
lemma_stands(qgiam_s(self_), qop_s(self_), self_, lc);
//# fn schubertpy/abstract_grassmannian.py::AbstractGrassmannian.qmult@IsotropicGrassmannian(self_: SPACE, lc1: FS, lc2: FS) -> FS
requires is_C(self_), all_in(lc1, self_), all_in(lc2, self_)
ensures fs_same(result, qmult_s(self_, lc1, lc2)), all_in(result, self_), ring(qgiam_s(self_), qop_s(self_), self_)
//# fn schubertpy/abstract_grassmannian.py::AbstractGrassmannian.qtoS@IsotropicGrassmannian(self_: SPACE, lc: FS) -> FS
requires is_C(self_), all_in(lc, self_)
ensures fs_same(result, lc), all_in(result, self_), ring(qgiam_s(self_), qop_s(self_), self_)
//# hint entry
lemma_unit_in(self_);
//# hint return
lemma_stands(qgiam_s(self_), qop_s(self_), self_, lc);
lemma_same_trans(result, qmult_s(self_, lc, unit()), lc);
//# fn schubertpy/abstract_grassmannian.py::AbstractGrassmannian.act@OrthogonalGrassmannian^b(self_: SPACE, expr: P, lc: FS) -> FS
//# types _pieri: pieriB_inner
requires is_B(self_), poly_in(expr, self_), all_in(lc, self_)
ensures fs_same(result, ev(expr, op_s(self_), lc)), all_in(result, self_), ring(giam_s(self_), op_s(self_), self_)
//# hint lambda
lemma_dist(self_);
assert($r =~= op_s(self_));
lemma_op(self_);
axiom_comm(self_);
assert forall|i: int, x: Seq<int>| sp_num(i, self_) && box_s(x, self_) implies #[trigger] fdom($r, i, x) by { lemma_op_b(self_, i, x); lemma_kinds(self_); }
lemma_giam_repr(self_, op_s(self_));
//# fn schubertpy/abstract_grassmannian.py::AbstractGrassmannian.giambelli@OrthogonalGrassmannian^b(self_: SPACE, lc: FS) -> P
//# types _pieri: pieriB_inner
requires is_B(self_), all_in(lc, self_)
ensures result == fs_apply(giam_s(self_), lc), poly_in(result, self_), ring(giam_s(self_), op_s(self_), self_)
//# hint lambda
lemma_dist(self_);
assert($r =~= op_s(self_));
lemma_op(self_);
axiom_comm(self_);
assert forall|i: int, x: Seq<int>| sp_num(i, self_) && box_s(x, self_) implies #[trigger] fdom($r, i, x) by { lemma_op_b(self_, i, x); lemma_kinds(self_); }
lemma_giam_repr(self_, op_s(self_));
//# hint return
lemma_stands(giam_s(self_), op_s(self_), self_, lc);
//# fn schubertpy/abstract_grassmannian.py::AbstractGrassmannian.mult@OrthogonalGrassmannian^b(self_: SPACE, lc1: FS, lc2: FS) -> FS
requires is_B(self_), all_in(lc1, self_), all_in(lc2, self_)
ensures fs_same(result, mult_s(self_, lc1, lc2)), all_in(result, self_), ring(giam_s(self_), op_s(self_), self_)
//# fn schubertpy/abstract_grassmannian.py::AbstractGrassmannian.toS@OrthogonalGrassmannian^b(self_: SPACE, lc: FS) -> FS
requires is_B(self_), all_in(lc, self_)
ensures fs_same(result, lc), all_in(result, self_), ring(giam_s(self_), op_s(self_), self_)
//# hint entry
lemma_unit_in(self_);
//# hint return
lemma_stands(giam_s(self_), op_s(self_), self_, lc);
lemma_same_trans(result, mult_s(self_, lc, unit()), lc);
//# fn schubertpy/abstract_grassmannian.py::AbstractGrassmannian.qact@OrthogonalGrassmannian^b(self_: SPACE, expr: P, lc: FS) -> FS
//# types _qpieri: qpieriB_inner
requires is_B(self_), poly_in(expr, self_), all_in(lc, self_)
ensures fs_same(result, ev(expr, qop_s(self_), lc)), all_in(result, self_), ring(qgiam_s(self_), qop_s(self_), self_)
//# hint lambda
lemma_dist(self_);
assert($r =~= qop_s(self_));
lemma_op(self_);
axiom_comm(self_);
assert forall|i: int, x: Seq<int>| sp_num(i, self_) && box_s(x, self_) implies #[trigger] fdom($r, i, x) by { lemma_op_b(self_, i, x); lemma_kinds(self_); }
lemma_giam_repr(self_, qop_s(self_));
//# fn schubertpy/abstract_grassmannian.py::AbstractGrassmannian.qgiambelli@OrthogonalGrassmannian^b(self_: SPACE, lc: FS) -> P
//# types _qpieri: qpieriB_inner
requires is_B(self_), all_in(lc, self_)
ensures result == fs_apply(qgiam_s(self_), lc), poly_in(result, self_), ring(qgiam_s(self_), qop_s(self_), self_)
//# hint lambda
lemma_dist(self_);
assert($r =~= qop_s(self_));
lemma_op(self_);
axiom_comm(self_);
assert forall|i: int, x: Seq<int>| sp_num(i, self_) && box_s(x, self_) implies #[trigger] fdom($r, i, x) by { lemma_op_b(self_, i, x); lemma_kinds(self_); }
lemma_giam_repr(self_, qop_s(self_));
//# hint return
lemma_stands(qgiam_s(self_), qop_s(self_), self_, lc);
//# fn schubertpy/abstract_grassmannian.py::AbstractGrassmannian.qmult@OrthogonalGrassmannian^b(self_: SPACE, lc1: FS, lc2: FS) -> FS
requires is_B(self_), all_in(lc1, self_), all_in(lc2, self_)
ensures fs_same(result, qmult_s(self_, lc1, lc2)), all_in(result, self_), ring(qgiam_s(self_), qop_s(self_), self_)
//# fn schubertpy/abstract_grassmannian.py::AbstractGrassmannian.qtoS@OrthogonalGrassmannian^b(self_: SPACE, lc: FS) -> FS
requires is_B(self_), all_in(lc, self_)
ensures fs_same(result, lc), all_in(result, self_), ring(qgiam_s(self_), qop_s(self_), self_)
//# hint entry
lemma_unit_in(self_);
//# hint return
lemma_stands(qgiam_s(self_), qop_s(self_), self_, lc);
lemma_same_trans(result, qmult_s(self_, lc, unit()), lc);
//# fn schubertpy/abstract_grassmannian.py::AbstractGrassmannian.act@OrthogonalGrassmannian^d(self_: SPACE, expr: P, lc: FS) -> FS
//# types _pieri: pieriD_inner
requires is_D(self_), poly_in(expr, self_), all_in(lc, self_)
ensures fs_same(result, ev(expr, op_s(self_), lc)), all_in(result, self_), ring(giam_s(self_), op_s(self_), self_)
//# hint lambda
lemma_dist(self_);
assert($r =~= op_s(self_));
lemma_op(self_);
axiom_comm(self_);
assert forall|i: int, x: Seq<int>| sp_num(i, self_) && box_s(x, self_) implies #[trigger] fdom($r, i, x) by { lemma_op_d(self_, i, x); lemma_kinds(self_); }
lemma_giam_repr(self_, op_s(self_));
//# fn schubertpy/abstract_grassmannian.py::AbstractGrassmannian.giambelli@OrthogonalGrassmannian^d(self_: SPACE, lc: FS) -> P
//# types _pieri: pieriD_inner
requires is_D(self_), all_in(lc, self_)
ensures result == fs_apply(giam_s(self_), lc), poly_in(result, self_), ring(giam_s(self_), op_s(self_), self_)
//# hint lambda
lemma_dist(self_);
assert($r =~= op_s(self_));
lemma_op(self_);
axiom_comm(self_);
assert forall|i: int, x: Seq<int>| sp_num(i, self_) && box_s(x, self_) implies #[trigger] fdom($r, i, x) by { lemma_op_d(self_, i, x); lemma_kinds(self_); }
lemma_giam_repr(self_, op_s(self_));
//# hint return
lemma_stands(giam_s(self_), op_s(self_), self_, lc);
//# fn schubertpy/abstract_grassmannian.py::AbstractGrassmannian.mult@OrthogonalGrassmannian^d(self_: SPACE, lc1: FS, lc2: FS) -> FS
requires is_D(self_), all_in(lc1, self_), all_in(lc2, self_)
ensures fs_same(result, mult_s(self_, lc1, lc2)), all_in(result, self_), ring(giam_s(self_), op_s(self_), self_)
//# fn schubertpy/abstract_grassmannian.py::AbstractGrassmannian.toS@OrthogonalGrassmannian^d(self_: SPACE, lc: FS) -> FS
requires is_D(self_), all_in(lc, self_)
ensures fs_same(result, lc), all_in(result, self_), ring(giam_s(self_), op_s(self_), self_)
//# hint entry
lemma_unit_in(self_);
//# hint return
lemma_stands(giam_s(self_), op_s(self_), self_, lc);
lemma_same_trans(result, mult_s(self_, lc, unit()), lc);
//# fn schubertpy/abstract_grassmannian.py::AbstractGrassmannian.qact@OrthogonalGrassmannian^d(self_: SPACE, expr: P, lc: FS) -> FS
//# types _qpieri: qpieriD_inner
requires is_D(self_), poly_in(expr, self_), all_in(lc, self_)
ensures fs_same(result, ev(expr, qop_s(self_), lc)), all_in(result, self_), ring(qgiam_s(self_), qop_s(self_), self_)
//# hint lambda
lemma_dist(self_);
assert($r =~= qop_s(self_));
lemma_op(self_);
axiom_comm(self_);
assert forall|i: int, x: Seq<int>| sp_num(i, self_) && box_s(x, self_) implies #[trigger] fdom($r, i, x) by { lemma_op_d(self_, i, x); lemma_kinds(self_); }
lemma_giam_repr(self_, qop_s(self_));
//# fn schubertpy/abstract_grassmannian.py::AbstractGrassmannian.qgiambelli@OrthogonalGrassmannian^d(self_: SPACE, lc: FS) -> P
//# types _qpieri: qpieriD_inner
requires is_D(self_), all_in(lc, self_)
ensures result == fs_apply(qgiam_s(self_), lc), poly_in(result, self_), ring(qgiam_s(self_), qop_s(self_), self_)
//# hint lambda
lemma_dist(self_);
assert($r =~= qop_s(self_));
lemma_op(self_);
axiom_comm(self_);
assert forall|i: int, x: Seq<int>| sp_num(i, self_) && box_s(x, self_) implies #[trigger] fdom($r, i, x) by { lemma_op_d(self_, i, x); lemma_kinds(self_); }
lemma_giam_repr(self_, qop_s(self_));
//# hint return
lemma_stands(qgiam_s(self_), qop_s(self_), self_, lc);
//# fn schubertpy/abstract_grassmannian.py::AbstractGrassmannian.qmult@OrthogonalGrassmannian^d(self_: SPACE, lc1: FS, lc2: FS) -> FS
requires is_D(self_), all_in(lc1, self_), all_in(lc2, self_)
ensures fs_same(result, qmult_s(self_, lc1, lc2)), all_in(result, self_), ring(qgiam_s(self_), qop_s(self_), self_)
//# fn schubertpy/abstract_grassmannian.py::AbstractGrassmannian.qtoS@OrthogonalGrassmannian^d(self_: SPACE, lc: FS) -> FS
requires is_D(self_), all_in(lc, self_)
ensures fs_same(result, lc), all_in(result, self_), ring(qgiam_s(self_), qop_s(self_), self_)
//# hint entry
lemma_unit_in(self_);
//# hint return
lemma_stands(qgiam_s(self_), qop_s(self_), self_, lc);
lemma_same_trans(result, qmult_s(self_, lc, unit()), lc);
//# end
// ---- C09, C10, C20: what the contracts of the methods say together
pub proof fn lemma_of(s: Space, i: int)
    requires is_space(s)
    ensures is_A(s) ==> op(op_s(s), i) =~= pieri_a_of(s, i) && op(qop_s(s), i) =~= qpieri_a_of(s, i),
        is_B(s) ==> op(op_s(s), i) =~= pieri_b_of(s, i) && op(qop_s(s), i) =~= qpieri_b_of(s, i),
        is_C(s) ==> op(op_s(s), i) =~= pieri_c_of(s, i) && op(qop_s(s), i) =~= qpieri_c_of(s, i),
        is_D(s) ==> op(op_s(s), i) =~= pieri_d_of(s, i) && op(qop_s(s), i) =~= qpieri_d_of(s, i)
{ lemma_dist(s); }
// what every method above ensures of its own operator
pub open spec fn rings(s: Space) -> bool { ring(giam_s(s), op_s(s), s) && ring(qgiam_s(s), qop_s(s), s) }
// C09: the Giambelli polynomial of a sum of classes is a polynomial in the special classes, and it acts on S[] as the sum
pub proof fn theorem_giambelli(s: Space, a: Seq<Term>)
    requires rings(s), all_in(a, s)
    ensures poly_in(fs_apply(giam_s(s), a), s), fs_same(ev(fs_apply(giam_s(s), a), op_s(s), unit()), a),
        poly_in(fs_apply(qgiam_s(s), a), s), fs_same(ev(fs_apply(qgiam_s(s), a), qop_s(s), unit()), a)
{ lemma_stands(giam_s(s), op_s(s), s, a); lemma_stands(qgiam_s(s), qop_s(s), s, a); }
// C10
pub proof fn theorem_mult(s: Space, a: Seq<Term>, b: Seq<Term>, c: Seq<Term>, m: Scal)
    requires rings(s), all_in(a, s), all_in(b, s), all_in(c, s)
    ensures fs_same(mult_s(s, a, b), mult_s(s, b, a)), fs_same(mult_s(s, mult_s(s, a, b), c), mult_s(s, a, mult_s(s, b, c))),
        fs_same(mult_s(s, fs_add(a, b), c), fs_add(mult_s(s, a, c), mult_s(s, b, c))), fs_same(mult_s(s, fs_shift(m, a), c), fs_shift(m, mult_s(s, a, c))),
        fs_same(mult_s(s, b, unit()), b), fs_same(mult_s(s, unit(), b), b)
{
    theorem_commutes(giam_s(s), op_s(s), s, a, b);
    theorem_associates(giam_s(s), op_s(s), s, a, b, c);
    theorem_bilinear(giam_s(s), op_s(s), a, b, c, m);
    theorem_unit(giam_s(s), op_s(s), s, b);
}
pub proof fn theorem_qmult(s: Space, a: Seq<Term>, b: Seq<Term>, c: Seq<Term>, m: Scal)
    requires rings(s), all_in(a, s), all_in(b, s), all_in(c, s)
    ensures fs_same(qmult_s(s, a, b), qmult_s(s, b, a)), fs_same(qmult_s(s, qmult_s(s, a, b), c), qmult_s(s, a, qmult_s(s, b, c))),
        fs_same(qmult_s(s, fs_add(a, b), c), fs_add(qmult_s(s, a, c), qmult_s(s, b, c))), fs_same(qmult_s(s, fs_shift(m, a), c), fs_shift(m, qmult_s(s, a, c))),
        fs_same(qmult_s(s, b, unit()), b), fs_same(qmult_s(s, unit(), b), b)
{
    theorem_commutes(qgiam_s(s), qop_s(s), s, a, b);
    theorem_associates(qgiam_s(s), qop_s(s), s, a, b, c);
    theorem_bilinear(qgiam_s(s), qop_s(s), a, b, c, m);
    theorem_unit(qgiam_s(s), qop_s(s), s, b);
}
// C10: multiplying by a special class is the Pieri product
pub proof fn theorem_mult_special(s: Space, p: int, b: Seq<Term>)
    requires rings(s), all_in(b, s), sp_num(p, s)
    ensures fs_same(mult_s(s, fs_one(specl(p)), b), fs_apply(op(op_s(s), p), b)), fs_same(qmult_s(s, fs_one(specl(p)), b), fs_apply(op(qop_s(s), p), b))
{
    lemma_normal(s, p);
    theorem_special(giam_s(s), op_s(s), s, p, b);
    theorem_special(qgiam_s(s), qop_s(s), s, p, b);
}
// C10: the quantum product at q = 0
pub proof fn theorem_q0(s: Space, a: Seq<Term>, b: Seq<Term>)
    requires rings(s), all_in(a, s), all_in(b, s), nn(a), nn(b)
    ensures fs_same(q0(qmult_s(s, a, b)), mult_s(s, q0(a), q0(b)))
{ lemma_op(s); theorem_at_q0(qgiam_s(s), qop_s(s), giam_s(s), op_s(s), s, a, b); }
// C20: the degree of q is the number degree_q() returns
pub proof fn theorem_degree(s: Space, a: Seq<Term>, b: Seq<Term>, A: int, B: int)
    requires rings(s), all_in(a, s), all_in(b, s), hm(a, cw(), dq(s), A), hm(b, cw(), dq(s), B)
    ensures hm(mult_s(s, a, b), cw(), dq(s), A + B), all_in(mult_s(s, a, b), s), hm(qmult_s(s, a, b), cw(), dq(s), A + B), all_in(qmult_s(s, a, b), s)
{
    theorem_homogeneous(giam_s(s), op_s(s), s, a, b, A, B);
    theorem_homogeneous(qgiam_s(s), qop_s(s), s, a, b, A, B);
}
pub proof fn theorem_degree_pieri(s: Space, i: int, a: Seq<Term>, A: int)
    requires is_space(s), sp_num(i, s), all_in(a, s), hm(a, cw(), dq(s), A)
    ensures hm(fs_apply(op(op_s(s), i), a), cw(), dq(s), A + iabs(i)), all_in(fs_apply(op(op_s(s), i), a), s),
        hm(fs_apply(op(qop_s(s), i), a), cw(), dq(s), A + iabs(i)), all_in(fs_apply(op(qop_s(s), i), a), s)
{
    lemma_op(s);
    lemma_hm_act(op_s(s), i, a, s, A);
    lemma_hm_act(qop_s(s), i, a, s, A);
    lemma_apply_in(op_s(s), i, a, s);
    lemma_apply_in(qop_s(s), i, a, s);
}
// a special class is homogeneous: pieri(i, .) and mult(S[i], .) raise the degree by |i|
pub proof fn theorem_degree_q(s: Space)
    requires is_space(s)
    ensures is_A(s) ==> dq(s) == s._n, is_C(s) ==> dq(s) == s._n + 1 + s._k, is_B(s) || is_D(s) ==> dq(s) == deg_O(s)
{ lemma_dist(s); }

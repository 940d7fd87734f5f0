//# unit ring
//# use poly
// ---- laws of the product "evaluate a polynomial that stands for a at b", for any family of commuting operators f(p, .)
// sums over two sums may be exchanged
pub proof fn lemma_fs_plus(g: spec_fn(Seq<int>) -> Seq<Term>, h: spec_fn(Seq<int>) -> Seq<Term>, r: spec_fn(Seq<int>) -> Seq<Term>, a: Seq<Term>)
    requires forall|x: Seq<int>| #[trigger] r(x) == fs_add(g(x), h(x))
    ensures fs_same(fs_apply(r, a), fs_add(fs_apply(g, a), fs_apply(h, a)))
    decreases a.len()
{
    if a.len() > 0 {
        let b = a.drop_last();
        let t = a.last();
        let m = Scal { c: t.c, e: t.e };
        lemma_fs_plus(g, h, r, b);
        assert forall|l: Seq<int>, e: Exp| #[trigger] fs_coef(fs_apply(r, a), l, e) == fs_coef(fs_add(fs_apply(g, a), fs_apply(h, a)), l, e) by {
            let k = esub(e, t.e);
            fs_coef_add(fs_apply(r, b), fs_shift(m, r(t.lam)), l, e);
            fs_coef_add(fs_apply(g, a), fs_apply(h, a), l, e);
            fs_coef_add(fs_apply(g, b), fs_shift(m, g(t.lam)), l, e);
            fs_coef_add(fs_apply(h, b), fs_shift(m, h(t.lam)), l, e);
            fs_coef_add(fs_apply(g, b), fs_apply(h, b), l, e);
            assert(fs_coef(fs_apply(r, b), l, e) == fs_coef(fs_add(fs_apply(g, b), fs_apply(h, b)), l, e));
            fs_coef_shift(m, r(t.lam), l, e);
            fs_coef_shift(m, g(t.lam), l, e);
            fs_coef_shift(m, h(t.lam), l, e);
            fs_coef_add(g(t.lam), h(t.lam), l, k);
            let u = fs_coef(g(t.lam), l, k);
            let v = fs_coef(h(t.lam), l, k);
            assert(t.c * (u + v) == t.c * u + t.c * v) by (nonlinear_arith);
        }
    } else {
        assert forall|l: Seq<int>, e: Exp| #[trigger] fs_coef(fs_apply(r, a), l, e) == fs_coef(fs_add(fs_apply(g, a), fs_apply(h, a)), l, e) by { fs_coef_add(fs_apply(g, a), fs_apply(h, a), l, e); }
    }
}
pub proof fn lemma_fs_fshift(m: Scal, g: spec_fn(Seq<int>) -> Seq<Term>, r: spec_fn(Seq<int>) -> Seq<Term>, a: Seq<Term>)
    requires forall|x: Seq<int>| #[trigger] r(x) == fs_shift(m, g(x))
    ensures fs_same(fs_apply(r, a), fs_shift(m, fs_apply(g, a)))
    decreases a.len()
{
    if a.len() > 0 {
        let b = a.drop_last();
        let t = a.last();
        let n = Scal { c: t.c, e: t.e };
        lemma_fs_fshift(m, g, r, b);
        assert forall|l: Seq<int>, e: Exp| #[trigger] fs_coef(fs_apply(r, a), l, e) == fs_coef(fs_shift(m, fs_apply(g, a)), l, e) by {
            let k = esub(e, m.e);
            let h = esub(e, t.e);
            fs_coef_add(fs_apply(r, b), fs_shift(n, r(t.lam)), l, e);
            fs_coef_shift(n, r(t.lam), l, e);
            fs_coef_shift(m, g(t.lam), l, h);
            assert(esub(h, m.e) == esub(k, t.e));
            fs_coef_shift(m, fs_apply(g, a), l, e);
            fs_coef_add(fs_apply(g, b), fs_shift(n, g(t.lam)), l, k);
            fs_coef_shift(n, g(t.lam), l, k);
            assert(fs_coef(fs_apply(r, b), l, e) == fs_coef(fs_shift(m, fs_apply(g, b)), l, e));
            fs_coef_shift(m, fs_apply(g, b), l, e);
            let u = fs_coef(g(t.lam), l, esub(k, t.e));
            let v = fs_coef(fs_apply(g, b), l, k);
            let c = m.c;
            let d = t.c;
            assert(c * v + d * (c * u) == c * (v + d * u)) by (nonlinear_arith);
        }
    } else {
        assert forall|l: Seq<int>, e: Exp| #[trigger] fs_coef(fs_apply(r, a), l, e) == fs_coef(fs_shift(m, fs_apply(g, a)), l, e) by { fs_coef_shift(m, fs_apply(g, a), l, e); assert(m.c * 0real == 0real) by (nonlinear_arith); }
    }
}
pub type Ker = spec_fn(Seq<int>, Seq<int>) -> Seq<Term>;
pub open spec fn k_left(f: Ker, b: Seq<Term>) -> spec_fn(Seq<int>) -> Seq<Term> { |m: Seq<int>| fs_apply(|x: Seq<int>| f(m, x), b) }
pub open spec fn k_right(f: Ker, e: Seq<Term>) -> spec_fn(Seq<int>) -> Seq<Term> { |x: Seq<int>| fs_apply(|m: Seq<int>| f(m, x), e) }
pub proof fn lemma_fubini(f: Ker, e: Seq<Term>, b: Seq<Term>)
    ensures fs_same(fs_apply(k_left(f, b), e), fs_apply(k_right(f, e), b))
    decreases b.len()
{
    if b.len() > 0 {
        let c = b.drop_last();
        let t = b.last();
        let s = Scal { c: t.c, e: t.e };
        let g = |m: Seq<int>| f(m, t.lam);
        let h = |m: Seq<int>| fs_shift(s, f(m, t.lam));
        lemma_fubini(f, e, c);
        assert forall|m: Seq<int>| #[trigger] k_left(f, b)(m) == fs_add(k_left(f, c)(m), h(m)) by {}
        lemma_fs_plus(k_left(f, c), h, k_left(f, b), e);
        lemma_fs_fshift(s, g, h, e);
        assert(k_right(f, e)(t.lam) == fs_apply(g, e));
        lemma_same_add(fs_apply(k_left(f, c), e), fs_apply(k_right(f, e), c), fs_apply(h, e), fs_shift(s, fs_apply(g, e)));
        lemma_same_trans(fs_apply(k_left(f, b), e), fs_add(fs_apply(k_left(f, c), e), fs_apply(h, e)), fs_apply(k_right(f, e), b));
    } else {
        assert forall|m: Seq<int>| #[trigger] k_left(f, b)(m) == fs_zero() by {}
        lemma_fs_none(k_left(f, b), e);
    }
}
pub proof fn lemma_fs_none(g: spec_fn(Seq<int>) -> Seq<Term>, a: Seq<Term>)
    requires forall|x: Seq<int>| #[trigger] g(x) == fs_zero()
    ensures fs_same(fs_apply(g, a), fs_zero())
    decreases a.len()
{
    if a.len() > 0 {
        let b = a.drop_last();
        let t = a.last();
        lemma_fs_none(g, b);
        assert forall|l: Seq<int>, e: Exp| #[trigger] fs_coef(fs_apply(g, a), l, e) == fs_coef(fs_zero(), l, e) by {
            fs_coef_add(fs_apply(g, b), fs_shift(Scal { c: t.c, e: t.e }, g(t.lam)), l, e);
            fs_coef_shift(Scal { c: t.c, e: t.e }, g(t.lam), l, e);
            assert(fs_coef(fs_apply(g, b), l, e) == fs_coef(fs_zero(), l, e));
            assert(t.c * 0real == 0real) by (nonlinear_arith);
        }
    }
}
// ---- the value of a polynomial depends linearly on the sum it acts on
pub open spec fn mx(m: Seq<int>, f: Op) -> spec_fn(Seq<int>) -> Seq<Term> { |x: Seq<int>| mon_act(m, f, fs_one(x)) }
pub open spec fn evx(e: Seq<Term>, f: Op) -> spec_fn(Seq<int>) -> Seq<Term> { |x: Seq<int>| ev(e, f, fs_one(x)) }
pub proof fn lemma_mon_lin(m: Seq<int>, f: Op, b: Seq<Term>)
    ensures fs_same(mon_act(m, f, b), fs_apply(mx(m, f), b))
    decreases m.len()
{
    if m.len() > 0 {
        let w = m.drop_last();
        let g = op(f, m.last());
        lemma_mon_lin(w, f, b);
        lemma_fs_apply_same(g, mon_act(w, f, b), fs_apply(mx(w, f), b));
        lemma_fs_comp(g, mx(w, f), b);
        lemma_fs_apply_ext(comp(g, mx(w, f)), mx(m, f), b);
        lemma_same_trans(mon_act(m, f, b), fs_apply(g, fs_apply(mx(w, f), b)), fs_apply(mx(m, f), b));
    } else {
        lemma_fs_apply_ones(b);
        lemma_fs_apply_ext(fones(), mx(m, f), b);
        lemma_same_sym(fs_apply(fones(), b), b);
    }
}
pub proof fn lemma_ev_lin(e: Seq<Term>, f: Op, b: Seq<Term>)
    ensures fs_same(ev(e, f, b), fs_apply(evx(e, f), b))
{
    let k: Ker = |m: Seq<int>, x: Seq<int>| mx(m, f)(x);
    assert forall|m: Seq<int>| #[trigger] fs_has(e, m) implies fs_same(act_of(f, b)(m), k_left(k, b)(m)) by {
        lemma_mon_lin(m, f, b);
        lemma_fs_apply_ext(mx(m, f), |x: Seq<int>| k(m, x), b);
    }
    lemma_fs_point(act_of(f, b), k_left(k, b), e);
    lemma_fubini(k, e, b);
    assert forall|x: Seq<int>| #[trigger] k_right(k, e)(x) == evx(e, f)(x) by {
        lemma_fs_apply_ext(|m: Seq<int>| k(m, x), act_of(f, fs_one(x)), e);
    }
    lemma_fs_apply_ext(k_right(k, e), evx(e, f), b);
    lemma_same_trans(ev(e, f, b), fs_apply(k_left(k, b), e), fs_apply(evx(e, f), b));
}
pub proof fn lemma_ev_same(e: Seq<Term>, f: Op, a: Seq<Term>, b: Seq<Term>)
    requires fs_same(a, b)
    ensures fs_same(ev(e, f, a), ev(e, f, b))
{
    let g = evx(e, f);
    lemma_ev_lin(e, f, a);
    lemma_ev_lin(e, f, b);
    lemma_fs_apply_same(g, a, b);
    lemma_same_trans(ev(e, f, a), fs_apply(g, a), fs_apply(g, b));
    lemma_same_sym(ev(e, f, b), fs_apply(g, b));
    lemma_same_trans(ev(e, f, a), fs_apply(g, b), ev(e, f, b));
}
// ---- values of polynomials commute
pub proof fn lemma_mon_op(m: Seq<int>, p: int, f: Op, b: Seq<Term>, s: Space)
    requires shut(f, s), comm(f, s), mon_in(m, s), sp_num(p, s), all_in(b, s)
    ensures fs_same(fs_apply(op(f, p), mon_act(m, f, b)), mon_act(m, f, fs_apply(op(f, p), b)))
    decreases m.len()
{
    if m.len() > 0 {
        let w = m.drop_last();
        let q = m.last();
        let y = mon_act(w, f, b);
        lemma_mon_in_tail(m, s);
        lemma_act_in(w, f, b, s);
        lemma_mon_op(w, p, f, b, s);
        lemma_comm_sum(f, p, q, y, s);
        lemma_fs_apply_same(op(f, q), fs_apply(op(f, p), y), mon_act(w, f, fs_apply(op(f, p), b)));
        lemma_same_trans(fs_apply(op(f, p), mon_act(m, f, b)), fs_apply(op(f, q), fs_apply(op(f, p), y)), mon_act(m, f, fs_apply(op(f, p), b)));
    }
}
pub proof fn lemma_ev_op(e: Seq<Term>, p: int, f: Op, b: Seq<Term>, s: Space)
    requires shut(f, s), comm(f, s), poly_in(e, s), sp_num(p, s), all_in(b, s)
    ensures fs_same(fs_apply(op(f, p), ev(e, f, b)), ev(e, f, fs_apply(op(f, p), b)))
{
    let g = op(f, p);
    lemma_fs_comp(g, act_of(f, b), e);
    assert forall|m: Seq<int>| #[trigger] fs_has(e, m) implies fs_same(comp(g, act_of(f, b))(m), act_of(f, fs_apply(g, b))(m)) by { lemma_mon_op(m, p, f, b, s); }
    lemma_fs_point(comp(g, act_of(f, b)), act_of(f, fs_apply(g, b)), e);
    lemma_same_trans(fs_apply(g, ev(e, f, b)), fs_apply(comp(g, act_of(f, b)), e), ev(e, f, fs_apply(g, b)));
}
pub proof fn lemma_mon_ev(m: Seq<int>, e: Seq<Term>, f: Op, b: Seq<Term>, s: Space)
    requires shut(f, s), comm(f, s), mon_in(m, s), poly_in(e, s), all_in(b, s)
    ensures fs_same(mon_act(m, f, ev(e, f, b)), ev(e, f, mon_act(m, f, b)))
    decreases m.len()
{
    if m.len() > 0 {
        let w = m.drop_last();
        let q = m.last();
        let y = mon_act(w, f, b);
        lemma_mon_in_tail(m, s);
        lemma_act_in(w, f, b, s);
        lemma_mon_ev(w, e, f, b, s);
        lemma_fs_apply_same(op(f, q), mon_act(w, f, ev(e, f, b)), ev(e, f, y));
        lemma_ev_op(e, q, f, y, s);
        lemma_same_trans(mon_act(m, f, ev(e, f, b)), fs_apply(op(f, q), ev(e, f, y)), ev(e, f, mon_act(m, f, b)));
    }
}
pub proof fn lemma_ev_ev(d: Seq<Term>, e: Seq<Term>, f: Op, b: Seq<Term>, s: Space)
    requires shut(f, s), comm(f, s), poly_in(d, s), poly_in(e, s), all_in(b, s)
    ensures fs_same(ev(d, f, ev(e, f, b)), ev(e, f, ev(d, f, b)))
{
    let g = evx(e, f);
    let h = act_of(f, b);
    let k = act_of(f, ev(e, f, b));
    assert forall|m: Seq<int>| #[trigger] fs_has(d, m) implies fs_same(k(m), comp(g, h)(m)) by {
        lemma_mon_ev(m, d, f, b, s);
        lemma_mon_ev(m, e, f, b, s);
        lemma_ev_lin(e, f, mon_act(m, f, b));
        lemma_same_trans(k(m), ev(e, f, mon_act(m, f, b)), comp(g, h)(m));
    }
    lemma_fs_point(k, comp(g, h), d);
    lemma_fs_comp(g, h, d);
    lemma_same_sym(fs_apply(g, fs_apply(h, d)), fs_apply(comp(g, h), d));
    lemma_same_trans(ev(d, f, ev(e, f, b)), fs_apply(comp(g, h), d), fs_apply(g, ev(d, f, b)));
    lemma_ev_lin(e, f, ev(d, f, b));
    lemma_same_sym(ev(e, f, ev(d, f, b)), fs_apply(g, ev(d, f, b)));
    lemma_same_trans(ev(d, f, ev(e, f, b)), fs_apply(g, ev(d, f, b)), ev(e, f, ev(d, f, b)));
}
// ---- polynomials that stand for classes
pub open spec fn rep_at(g: spec_fn(Seq<int>) -> Seq<Term>, x: Seq<int>, f: Op, s: Space) -> bool { stands_for(g(x), x, f, s) }
pub open spec fn repr(g: spec_fn(Seq<int>) -> Seq<Term>, f: Op, s: Space) -> bool { forall|x: Seq<int>| box_s(x, s) ==> #[trigger] rep_at(g, x, f, s) }
pub open spec fn prod(g: spec_fn(Seq<int>) -> Seq<Term>, f: Op, a: Seq<Term>, b: Seq<Term>) -> Seq<Term> { ev(fs_apply(g, a), f, b) }
pub proof fn lemma_giam_repr(s: Space, f: Op)
    requires is_space(s), good(f, s), comm(f, s)
    ensures repr(giam_of(s, f, s._k), f, s)
{
    let g = giam_of(s, f, s._k);
    assert forall|x: Seq<int>| box_s(x, s) implies #[trigger] rep_at(g, x, f, s) by { axiom_giam(s, x, f, s._k); }
}
pub open spec fn ring(g: spec_fn(Seq<int>) -> Seq<Term>, f: Op, s: Space) -> bool { is_space(s) && shut(f, s) && comm(f, s) && repr(g, f, s) }
// C09: a polynomial that stands for a sum of classes acts on S[] as that sum
pub proof fn lemma_stands(g: spec_fn(Seq<int>) -> Seq<Term>, f: Op, s: Space, a: Seq<Term>)
    requires ring(g, f, s), all_in(a, s)
    ensures poly_in(fs_apply(g, a), s), fs_same(prod(g, f, a, unit()), a)
{
    let e = fs_apply(g, a);
    let h = act_of(f, unit());
    assert forall|m: Seq<int>| #[trigger] fs_has(e, m) implies mon_in(m, s) by { let x = has_apply(g, a, m); assert(rep_at(g, x, f, s)); assert(fs_has(g(x), m)); }
    lemma_fs_comp(h, g, a);
    assert forall|x: Seq<int>| #[trigger] fs_has(a, x) implies fs_same(comp(h, g)(x), fones()(x)) by { assert(rep_at(g, x, f, s)); }
    lemma_fs_point(comp(h, g), fones(), a);
    lemma_fs_apply_ones(a);
    lemma_same_trans(prod(g, f, a, unit()), fs_apply(comp(h, g), a), fs_apply(fones(), a));
    lemma_same_trans(prod(g, f, a, unit()), fs_apply(fones(), a), a);
}
// a polynomial is determined by its value at S[]
pub proof fn lemma_unique(g: spec_fn(Seq<int>) -> Seq<Term>, f: Op, s: Space, d: Seq<Term>, e: Seq<Term>, b: Seq<Term>)
    requires ring(g, f, s), all_in(b, s), poly_in(d, s), poly_in(e, s), fs_same(ev(d, f, unit()), ev(e, f, unit()))
    ensures fs_same(ev(d, f, b), ev(e, f, b))
{
    lemma_unit_in(s);
    lemma_half(g, f, s, d, b);
    lemma_half(g, f, s, e, b);
    let w = fs_apply(g, b);
    lemma_ev_same(w, f, ev(d, f, unit()), ev(e, f, unit()));
    lemma_same_trans(ev(d, f, b), ev(w, f, ev(d, f, unit())), ev(w, f, ev(e, f, unit())));
    lemma_same_sym(ev(e, f, b), ev(w, f, ev(e, f, unit())));
    lemma_same_trans(ev(d, f, b), ev(w, f, ev(e, f, unit())), ev(e, f, b));
}
pub proof fn lemma_half(g: spec_fn(Seq<int>) -> Seq<Term>, f: Op, s: Space, d: Seq<Term>, b: Seq<Term>)
    requires ring(g, f, s), all_in(b, s), poly_in(d, s)
    ensures fs_same(ev(d, f, b), ev(fs_apply(g, b), f, ev(d, f, unit())))
{
    let w = fs_apply(g, b);
    lemma_unit_in(s);
    lemma_stands(g, f, s, b);
    lemma_same_sym(ev(w, f, unit()), b);
    lemma_ev_same(d, f, b, ev(w, f, unit()));
    lemma_ev_ev(d, w, f, unit(), s);
    lemma_same_trans(ev(d, f, b), ev(d, f, ev(w, f, unit())), ev(w, f, ev(d, f, unit())));
}
// C10
pub proof fn lemma_prod_in(g: spec_fn(Seq<int>) -> Seq<Term>, f: Op, s: Space, a: Seq<Term>, b: Seq<Term>)
    requires ring(g, f, s), all_in(a, s), all_in(b, s)
    ensures all_in(prod(g, f, a, b), s)
{ lemma_stands(g, f, s, a); lemma_ev_in(fs_apply(g, a), f, b, s); }
pub proof fn lemma_prod_same(g: spec_fn(Seq<int>) -> Seq<Term>, f: Op, a: Seq<Term>, a1: Seq<Term>, b: Seq<Term>, b1: Seq<Term>)
    requires fs_same(a, a1), fs_same(b, b1)
    ensures fs_same(prod(g, f, a, b), prod(g, f, a1, b1))
{
    lemma_fs_apply_same(g, a, a1);
    lemma_fs_apply_same(act_of(f, b), fs_apply(g, a), fs_apply(g, a1));
    lemma_ev_same(fs_apply(g, a1), f, b, b1);
    lemma_same_trans(prod(g, f, a, b), ev(fs_apply(g, a1), f, b), prod(g, f, a1, b1));
}
pub proof fn theorem_commutes(g: spec_fn(Seq<int>) -> Seq<Term>, f: Op, s: Space, a: Seq<Term>, b: Seq<Term>)
    requires ring(g, f, s), all_in(a, s), all_in(b, s)
    ensures fs_same(prod(g, f, a, b), prod(g, f, b, a))
{
    let w = fs_apply(g, a);
    lemma_stands(g, f, s, a);
    lemma_half(g, f, s, w, b);
    lemma_ev_same(fs_apply(g, b), f, prod(g, f, a, unit()), a);
    lemma_same_trans(prod(g, f, a, b), prod(g, f, b, prod(g, f, a, unit())), prod(g, f, b, a));
}
pub proof fn theorem_associates(g: spec_fn(Seq<int>) -> Seq<Term>, f: Op, s: Space, a: Seq<Term>, b: Seq<Term>, c: Seq<Term>)
    requires ring(g, f, s), all_in(a, s), all_in(b, s), all_in(c, s)
    ensures fs_same(prod(g, f, prod(g, f, a, b), c), prod(g, f, a, prod(g, f, b, c)))
{
    let x = fs_apply(g, a);
    let z = fs_apply(g, c);
    lemma_stands(g, f, s, a);
    lemma_stands(g, f, s, c);
    lemma_prod_in(g, f, s, a, b);
    theorem_commutes(g, f, s, prod(g, f, a, b), c);
    lemma_ev_ev(z, x, f, b, s);
    theorem_commutes(g, f, s, c, b);
    lemma_ev_same(x, f, prod(g, f, c, b), prod(g, f, b, c));
    lemma_same_trans(prod(g, f, prod(g, f, a, b), c), prod(g, f, c, prod(g, f, a, b)), prod(g, f, a, prod(g, f, c, b)));
    lemma_same_trans(prod(g, f, prod(g, f, a, b), c), prod(g, f, a, prod(g, f, c, b)), prod(g, f, a, prod(g, f, b, c)));
}
pub proof fn theorem_bilinear(g: spec_fn(Seq<int>) -> Seq<Term>, f: Op, a: Seq<Term>, b: Seq<Term>, c: Seq<Term>, m: Scal)
    ensures fs_same(prod(g, f, fs_add(a, b), c), fs_add(prod(g, f, a, c), prod(g, f, b, c))), fs_same(prod(g, f, fs_shift(m, a), c), fs_shift(m, prod(g, f, a, c))),
        fs_same(prod(g, f, c, fs_add(a, b)), fs_add(prod(g, f, c, a), prod(g, f, c, b))), fs_same(prod(g, f, c, fs_shift(m, a)), fs_shift(m, prod(g, f, c, a)))
{
    let h = act_of(f, c);
    let x = fs_apply(g, a);
    let y = fs_apply(g, b);
    lemma_fs_apply_add(g, a, b);
    lemma_fs_apply_same(h, fs_apply(g, fs_add(a, b)), fs_add(x, y));
    lemma_fs_apply_add(h, x, y);
    lemma_same_trans(prod(g, f, fs_add(a, b), c), fs_apply(h, fs_add(x, y)), fs_add(prod(g, f, a, c), prod(g, f, b, c)));
    lemma_fs_apply_shift(g, m, a);
    lemma_fs_apply_same(h, fs_apply(g, fs_shift(m, a)), fs_shift(m, x));
    lemma_fs_apply_shift(h, m, x);
    lemma_same_trans(prod(g, f, fs_shift(m, a), c), fs_apply(h, fs_shift(m, x)), fs_shift(m, prod(g, f, a, c)));
    // on the right
    let e = fs_apply(g, c);
    let k = evx(e, f);
    lemma_ev_lin(e, f, a);
    lemma_ev_lin(e, f, b);
    lemma_ev_lin(e, f, fs_add(a, b));
    lemma_ev_lin(e, f, fs_shift(m, a));
    lemma_fs_apply_add(k, a, b);
    lemma_fs_apply_shift(k, m, a);
    lemma_same_sym(ev(e, f, a), fs_apply(k, a));
    lemma_same_sym(ev(e, f, b), fs_apply(k, b));
    lemma_same_add(fs_apply(k, a), ev(e, f, a), fs_apply(k, b), ev(e, f, b));
    lemma_same_trans(ev(e, f, fs_add(a, b)), fs_apply(k, fs_add(a, b)), fs_add(fs_apply(k, a), fs_apply(k, b)));
    lemma_same_trans(ev(e, f, fs_add(a, b)), fs_add(fs_apply(k, a), fs_apply(k, b)), fs_add(ev(e, f, a), ev(e, f, b)));
    lemma_same_shift(m, fs_apply(k, a), ev(e, f, a));
    lemma_same_trans(ev(e, f, fs_shift(m, a)), fs_apply(k, fs_shift(m, a)), fs_shift(m, fs_apply(k, a)));
    lemma_same_trans(ev(e, f, fs_shift(m, a)), fs_shift(m, fs_apply(k, a)), fs_shift(m, ev(e, f, a)));
}
pub proof fn theorem_unit(g: spec_fn(Seq<int>) -> Seq<Term>, f: Op, s: Space, b: Seq<Term>)
    requires ring(g, f, s), all_in(b, s)
    ensures fs_same(prod(g, f, b, unit()), b), fs_same(prod(g, f, unit(), b), b)
{
    lemma_unit_in(s);
    lemma_stands(g, f, s, b);
    theorem_commutes(g, f, s, unit(), b);
    lemma_same_trans(prod(g, f, unit(), b), prod(g, f, b, unit()), b);
}
// the product with a special class is the operator, where the operator takes S[] to that class
pub proof fn theorem_special(g: spec_fn(Seq<int>) -> Seq<Term>, f: Op, s: Space, p: int, b: Seq<Term>)
    requires ring(g, f, s), all_in(b, s), sp_num(p, s), fs_same(f(p, Seq::<int>::empty()), fs_one(specl(p)))
    ensures fs_same(prod(g, f, fs_one(specl(p)), b), fs_apply(op(f, p), b))
{
    let x = fs_one(specl(p));
    let m = seq![p];
    let d = fs_one(m);
    lemma_unit_in(s);
    assert(all_in(x, s)) by { assert forall|y: Seq<int>| #[trigger] fs_has(x, y) implies box_s(y, s) by { has_term(1real, specl(p), y); } }
    lemma_stands(g, f, s, x);
    assert(poly_in(d, s)) by { assert forall|y: Seq<int>| #[trigger] fs_has(d, y) implies mon_in(y, s) by { has_term(1real, m, y); } }
    assert(m.drop_last() =~= Seq::<int>::empty());
    assert(mon_act(m.drop_last(), f, unit()) == unit());
    assert(m.last() == p);
    assert(mon_act(m, f, unit()) == fs_apply(op(f, p), unit()));
    assert(mon_act(m, f, b) == fs_apply(op(f, p), b)) by { assert(mon_act(m.drop_last(), f, b) == b); }
    lemma_fs_apply_one(act_of(f, unit()), m);
    lemma_fs_apply_one(act_of(f, b), m);
    lemma_fs_apply_one(op(f, p), Seq::<int>::empty());
    lemma_same_trans(ev(d, f, unit()), mon_act(m, f, unit()), f(p, Seq::<int>::empty()));
    lemma_same_trans(ev(d, f, unit()), f(p, Seq::<int>::empty()), x);
    lemma_same_sym(ev(d, f, unit()), x);
    lemma_same_trans(prod(g, f, x, unit()), x, ev(d, f, unit()));
    lemma_unique(g, f, s, fs_apply(g, x), d, b);
    lemma_same_trans(prod(g, f, x, b), ev(d, f, b), fs_apply(op(f, p), b));
}
// C20
pub proof fn theorem_homogeneous(g: spec_fn(Seq<int>) -> Seq<Term>, f: Op, s: Space, a: Seq<Term>, b: Seq<Term>, A: int, B: int)
    requires ring(g, f, s), all_in(a, s), all_in(b, s), hm(a, cw(), dq(s), A), hm(b, cw(), dq(s), B)
    ensures hm(prod(g, f, a, b), cw(), dq(s), A + B), all_in(prod(g, f, a, b), s)
{
    lemma_stands(g, f, s, a);
    lemma_prod_in(g, f, s, a, b);
    assert forall|x: Seq<int>| #[trigger] fs_nonzero(a, x) implies hm(g(x), mw(), dq(s), cw()(x)) by { lemma_support_has(a, x); assert(rep_at(g, x, f, s)); }
    lemma_hm_apply(g, a, cw(), mw(), dq(s), A);
    lemma_hm_ev(fs_apply(g, a), f, b, s, B, A);
}
// ---- at q = 0
pub open spec fn nn(a: Seq<Term>) -> bool { forall|x: Seq<int>, e: Exp| #[trigger] fs_coef(a, x, e) != 0real ==> e.0 >= 0 && e.1 >= 0 && e.2 >= 0 }
pub open spec fn q0(a: Seq<Term>) -> Seq<Term>
    decreases a.len()
{ if a.len() == 0 { a } else { let b = q0(a.drop_last()); if a.last().e == e0() { b.push(a.last()) } else { b } } }
pub proof fn lemma_q0(a: Seq<Term>)
    ensures forall|x: Seq<int>, e: Exp| #[trigger] fs_coef(q0(a), x, e) == (if e == e0() { fs_coef(a, x, e) } else { 0real }), forall|x: Seq<int>| #[trigger] fs_has(q0(a), x) ==> fs_has(a, x)
    decreases a.len()
{
    if a.len() > 0 {
        let b = a.drop_last();
        let c = q0(a);
        lemma_q0(b);
        if a.last().e == e0() { assert(c.drop_last() =~= q0(b)); }
        assert forall|x: Seq<int>, e: Exp| #[trigger] fs_coef(c, x, e) == (if e == e0() { fs_coef(a, x, e) } else { 0real }) by {
            assert(fs_coef(q0(b), x, e) == (if e == e0() { fs_coef(b, x, e) } else { 0real }));
        }
        assert forall|x: Seq<int>| #[trigger] fs_has(c, x) implies fs_has(a, x) by {
            let i = choose|i: int| 0 <= i < c.len() && (#[trigger] c[i]).lam == x;
            if i < q0(b).len() {
                assert(q0(b)[i] == c[i]);
                assert(fs_has(q0(b), x));
                let h = choose|h: int| 0 <= h < b.len() && (#[trigger] b[h]).lam == x;
                assert(a[h] == b[h]);
            } else { assert(a[a.len() - 1].lam == x); }
        }
    }
}
pub open spec fn nn_terms(a: Seq<Term>) -> bool { forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).e.0 >= 0 && a[i].e.1 >= 0 && a[i].e.2 >= 0 }
pub proof fn lemma_q0_list(g: spec_fn(Seq<int>) -> Seq<Term>, h: spec_fn(Seq<int>) -> Seq<Term>, a: Seq<Term>)
    requires nn_terms(a), forall|x: Seq<int>| #[trigger] fs_has(a, x) ==> nn(g(x)) && fs_same(q0(g(x)), h(x))
    ensures fs_same(q0(fs_apply(g, a)), fs_apply(h, q0(a))), nn(fs_apply(g, a))
    decreases a.len()
{
    let r = fs_apply(g, a);
    lemma_q0(r);
    if a.len() > 0 {
        let b = a.drop_last();
        let t = a.last();
        let m = Scal { c: t.c, e: t.e };
        assert forall|x: Seq<int>| #[trigger] fs_has(b, x) implies nn(g(x)) && fs_same(q0(g(x)), h(x)) by { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).lam == x; assert(a[i].lam == x); assert(fs_has(a, x)); }
        assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).e.0 >= 0 && b[i].e.1 >= 0 && b[i].e.2 >= 0 by { assert(a[i] == b[i]); }
        lemma_q0_list(g, h, b);
        assert(a[a.len() - 1].lam == t.lam);
        assert(fs_has(a, t.lam));
        let y = fs_apply(g, b);
        let z = fs_shift(m, g(t.lam));
        lemma_q0(y);
        lemma_q0(g(t.lam));
        let c = q0(a);
        if t.e == e0() { assert(c.drop_last() =~= q0(b)); }
        assert forall|x: Seq<int>, e: Exp| #[trigger] fs_coef(r, x, e) != 0real implies e.0 >= 0 && e.1 >= 0 && e.2 >= 0 by {
            fs_coef_add(y, z, x, e);
            fs_coef_shift(m, g(t.lam), x, e);
            if fs_coef(y, x, e) == 0real {
                let v = fs_coef(g(t.lam), x, esub(e, t.e));
                assert(v != 0real) by { if v == 0real { assert(t.c * 0real == 0real) by (nonlinear_arith); } }
            }
        }
        assert forall|x: Seq<int>, e: Exp| #[trigger] fs_coef(q0(r), x, e) == fs_coef(fs_apply(h, c), x, e) by {
            let k = esub(e, t.e);
            fs_coef_add(y, z, x, e);
            fs_coef_shift(m, g(t.lam), x, e);
            assert(fs_coef(q0(y), x, e) == fs_coef(fs_apply(h, q0(b)), x, e));
            if t.e == e0() {
                assert(k == e);
                fs_coef_add(fs_apply(h, q0(b)), fs_shift(m, h(t.lam)), x, e);
                fs_coef_shift(m, h(t.lam), x, e);
                assert(fs_coef(q0(g(t.lam)), x, e) == fs_coef(h(t.lam), x, e));
                if e != e0() { assert(t.c * 0real == 0real) by (nonlinear_arith); }
            } else if e == e0() {
                let v = fs_coef(g(t.lam), x, k);
                assert(v == 0real) by { if v != 0real { assert(k.0 >= 0 && k.1 >= 0 && k.2 >= 0); assert(t.e == e0()); } }
                assert(t.c * 0real == 0real) by (nonlinear_arith);
            }
        }
    } else {
        assert forall|x: Seq<int>, e: Exp| #[trigger] fs_coef(q0(r), x, e) == fs_coef(fs_apply(h, q0(a)), x, e) by {}
    }
}
pub proof fn lemma_q0_same(a: Seq<Term>, b: Seq<Term>)
    requires fs_same(a, b)
    ensures fs_same(q0(a), q0(b))
{
    lemma_q0(a);
    lemma_q0(b);
    assert forall|x: Seq<int>, e: Exp| #[trigger] fs_coef(q0(a), x, e) == fs_coef(q0(b), x, e) by { assert(fs_coef(a, x, e) == fs_coef(b, x, e)); }
}
pub proof fn lemma_nn_same(a: Seq<Term>, b: Seq<Term>)
    requires nn(a), fs_same(a, b)
    ensures nn(b)
{ assert forall|x: Seq<int>, e: Exp| #[trigger] fs_coef(b, x, e) != 0real implies e.0 >= 0 && e.1 >= 0 && e.2 >= 0 by { assert(fs_coef(a, x, e) != 0real); } }
pub proof fn lemma_q0_apply(g: spec_fn(Seq<int>) -> Seq<Term>, h: spec_fn(Seq<int>) -> Seq<Term>, a: Seq<Term>)
    requires nn(a), forall|x: Seq<int>| #[trigger] fs_nonzero(a, x) ==> nn(g(x)) && fs_same(q0(g(x)), h(x))
    ensures fs_same(q0(fs_apply(g, a)), fs_apply(h, q0(a))), nn(fs_apply(g, a))
{
    let b = fs_norm(a);
    lemma_fs_norm(a);
    lemma_norm_terms(a);
    assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).e.0 >= 0 && b[i].e.1 >= 0 && b[i].e.2 >= 0 by { assert(fs_coef(a, b[i].lam, b[i].e) != 0real); }
    lemma_q0_list(g, h, b);
    lemma_fs_apply_same(g, b, a);
    lemma_nn_same(fs_apply(g, b), fs_apply(g, a));
    lemma_q0_same(fs_apply(g, b), fs_apply(g, a));
    lemma_q0_same(b, a);
    lemma_fs_apply_same(h, q0(b), q0(a));
    lemma_same_sym(q0(fs_apply(g, b)), q0(fs_apply(g, a)));
    lemma_same_trans(q0(fs_apply(g, a)), q0(fs_apply(g, b)), fs_apply(h, q0(b)));
    lemma_same_trans(q0(fs_apply(g, a)), fs_apply(h, q0(b)), fs_apply(h, q0(a)));
}
// h is F without its terms in q
pub open spec fn qcut_at(F: Op, h: Op, i: int, x: Seq<int>) -> bool { fs_same(q0(F(i, x)), h(i, x)) }
pub open spec fn qcut(F: Op, h: Op, s: Space) -> bool { forall|i: int, x: Seq<int>| sp_num(i, s) && box_s(x, s) ==> #[trigger] qcut_at(F, h, i, x) }
pub proof fn lemma_hm_nn(a: Seq<Term>, w: spec_fn(Seq<int>) -> int, d: int, D: int)
    requires hm(a, w, d, D)
    ensures nn(a)
{}
pub proof fn lemma_q0_mon(F: Op, h: Op, m: Seq<int>, b: Seq<Term>, s: Space)
    requires qcut(F, h, s), shut(F, s), mon_in(m, s), all_in(b, s), nn(b)
    ensures fs_same(q0(mon_act(m, F, b)), mon_act(m, h, q0(b))), nn(mon_act(m, F, b))
    decreases m.len()
{
    if m.len() > 0 {
        let w = m.drop_last();
        let p = m.last();
        let y = mon_act(w, F, b);
        lemma_mon_in_tail(m, s);
        lemma_q0_mon(F, h, w, b, s);
        lemma_act_in(w, F, b, s);
        assert forall|x: Seq<int>| #[trigger] fs_nonzero(y, x) implies nn(op(F, p)(x)) && fs_same(q0(op(F, p)(x)), op(h, p)(x)) by {
            lemma_support_has(y, x);
            assert(shut_at(F, p, x, s));
            assert(qcut_at(F, h, p, x));
        }
        lemma_q0_apply(op(F, p), op(h, p), y);
        lemma_fs_apply_same(op(h, p), q0(y), mon_act(w, h, q0(b)));
        lemma_same_trans(q0(mon_act(m, F, b)), fs_apply(op(h, p), q0(y)), mon_act(m, h, q0(b)));
    }
}
pub proof fn lemma_q0_ev(F: Op, h: Op, e: Seq<Term>, b: Seq<Term>, s: Space)
    requires qcut(F, h, s), shut(F, s), poly_in(e, s), nn(e), all_in(b, s), nn(b)
    ensures fs_same(q0(ev(e, F, b)), ev(q0(e), h, q0(b)))
{
    assert forall|m: Seq<int>| #[trigger] fs_nonzero(e, m) implies nn(act_of(F, b)(m)) && fs_same(q0(act_of(F, b)(m)), act_of(h, q0(b))(m)) by { lemma_support_has(e, m); lemma_q0_mon(F, h, m, b, s); }
    lemma_q0_apply(act_of(F, b), act_of(h, q0(b)), e);
}
// C10: the quantum product at q = 0 is the classical product
pub proof fn theorem_at_q0(G: spec_fn(Seq<int>) -> Seq<Term>, F: Op, g: spec_fn(Seq<int>) -> Seq<Term>, h: Op, s: Space, a: Seq<Term>, b: Seq<Term>)
    requires ring(G, F, s), ring(g, h, s), qcut(F, h, s), all_in(a, s), all_in(b, s), nn(a), nn(b)
    ensures fs_same(q0(prod(G, F, a, b)), prod(g, h, q0(a), q0(b)))
{
    let e = fs_apply(G, a);
    let z = fs_apply(g, q0(a));
    lemma_unit_in(s);
    lemma_stands(G, F, s, a);
    lemma_q0(a);
    lemma_q0(b);
    lemma_stands(g, h, s, q0(a));
    let qe = |x: Seq<int>| q0(G(x));
    assert forall|x: Seq<int>| #[trigger] fs_nonzero(a, x) implies nn(G(x)) && fs_same(q0(G(x)), qe(x)) by { lemma_support_has(a, x); assert(rep_at(G, x, F, s)); }
    lemma_q0_apply(G, qe, a);
    lemma_q0_ev(F, h, e, b, s);
    assert(nn(unit())) by { lemma_hm_one(Seq::<int>::empty(), cw(), 0); }
    lemma_q0_ev(F, h, e, unit(), s);
    lemma_q0(e);
    let c = q0(e);
    assert(poly_in(c, s));
    assert(q0(unit()) =~= unit()) by { let u = unit(); assert(u.drop_last() =~= fs_zero()); assert(q0(u.drop_last()) =~= fs_zero()); assert(u.last().e == e0()); assert(q0(u) =~= fs_zero().push(u.last())); }
    lemma_same_sym(q0(ev(e, F, unit())), ev(c, h, unit()));
    lemma_q0_same(ev(e, F, unit()), a);
    lemma_same_trans(ev(c, h, unit()), q0(ev(e, F, unit())), q0(a));
    lemma_same_sym(ev(z, h, unit()), q0(a));
    lemma_same_trans(ev(c, h, unit()), q0(a), ev(z, h, unit()));
    lemma_unique(g, h, s, c, z, q0(b));
    lemma_same_trans(q0(prod(G, F, a, b)), ev(c, h, q0(b)), ev(z, h, q0(b)));
}

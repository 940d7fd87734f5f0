//# unit fsalg
// ---- formal sums: what a linear extension depends on
pub open spec fn fs_keep(a: Seq<Term>, p: spec_fn(Seq<int>) -> bool) -> Seq<Term>
    decreases a.len()
{ if a.len() == 0 { a } else { let b = fs_keep(a.drop_last(), p); if p(a.last().lam) { b.push(a.last()) } else { b } } }
pub proof fn lemma_fs_keep(a: Seq<Term>, p: spec_fn(Seq<int>) -> bool)
    ensures forall|x: Seq<int>, e: Exp| #[trigger] fs_coef(fs_keep(a, p), x, e) == (if p(x) { fs_coef(a, x, e) } else { 0real }),
        forall|i: int| 0 <= i < fs_keep(a, p).len() ==> p((#[trigger] fs_keep(a, p)[i]).lam)
    decreases a.len()
{
    if a.len() > 0 {
        let b = a.drop_last();
        lemma_fs_keep(b, p);
        let c = fs_keep(a, p);
        if p(a.last().lam) { assert(c.drop_last() =~= fs_keep(b, p)); }
        assert forall|x: Seq<int>, e: Exp| #[trigger] fs_coef(c, x, e) == (if p(x) { fs_coef(a, x, e) } else { 0real }) by {
            assert(fs_coef(fs_keep(b, p), x, e) == (if p(x) { fs_coef(b, x, e) } else { 0real }));
            if a.last().lam =~= x { assert(a.last().lam == x); }
        }
    }
}

pub open spec fn fs_nonzero(a: Seq<Term>, x: Seq<int>) -> bool { exists|e: Exp| #[trigger] fs_coef(a, x, e) != 0real }
// an expanded sum: no term twice, none with coefficient 0
pub open spec fn fs_norm(a: Seq<Term>) -> Seq<Term>
    decreases a.len()
    via fs_norm_dec
{
    if a.len() == 0 { a } else {
        let t = a.last();
        let b = fs_norm(fs_without(a, t.lam, t.e));
        let c = fs_coef(a, t.lam, t.e);
        if c != 0real { b.push(Term { lam: t.lam, c: c, e: t.e }) } else { b }
    }
}
#[via_fn]
proof fn fs_norm_dec(a: Seq<Term>)
{ if a.len() > 0 { lemma_fs_without(a, a.last().lam, a.last().e, |x: Seq<int>| fs_zero()); } }
pub proof fn lemma_fs_norm(a: Seq<Term>)
    ensures fs_same(fs_norm(a), a), forall|x: Seq<int>| #[trigger] fs_has(fs_norm(a), x) ==> fs_nonzero(a, x)
    decreases a.len()
{
    if a.len() > 0 {
        let t = a.last();
        let w = fs_without(a, t.lam, t.e);
        let b = fs_norm(w);
        let c = fs_coef(a, t.lam, t.e);
        let r = fs_norm(a);
        lemma_fs_without(a, t.lam, t.e, |x: Seq<int>| fs_zero());
        lemma_fs_norm(w);
        if c != 0real { assert(r.drop_last() =~= b); }
        assert forall|l: Seq<int>, e: Exp| #[trigger] fs_coef(r, l, e) == fs_coef(a, l, e) by {
            assert(fs_coef(b, l, e) == fs_coef(w, l, e));
            assert(fs_coef(w, l, e) == (if l =~= t.lam && e == t.e { 0real } else { fs_coef(a, l, e) }));
        }
        assert forall|x: Seq<int>| #[trigger] fs_has(r, x) implies fs_nonzero(a, x) by {
            let i = choose|i: int| 0 <= i < r.len() && (#[trigger] r[i]).lam == x;
            if i < b.len() {
                assert(b[i].lam == x);
                assert(fs_has(b, x));
                let e = choose|e: Exp| #[trigger] fs_coef(w, x, e) != 0real;
                assert(fs_coef(a, x, e) != 0real);
            } else { assert(x == t.lam); assert(fs_coef(a, x, t.e) != 0real); }
        }
    }
}
pub proof fn lemma_same_trans(a: Seq<Term>, b: Seq<Term>, c: Seq<Term>)
    requires fs_same(a, b), fs_same(b, c)
    ensures fs_same(a, c)
{ assert forall|l: Seq<int>, e: Exp| #[trigger] fs_coef(a, l, e) == fs_coef(c, l, e) by { assert(fs_coef(a, l, e) == fs_coef(b, l, e)); } }
pub proof fn lemma_same_sym(a: Seq<Term>, b: Seq<Term>)
    requires fs_same(a, b)
    ensures fs_same(b, a)
{ assert forall|l: Seq<int>, e: Exp| #[trigger] fs_coef(b, l, e) == fs_coef(a, l, e) by { assert(fs_coef(a, l, e) == fs_coef(b, l, e)); } }
pub proof fn lemma_same_add(a: Seq<Term>, b: Seq<Term>, c: Seq<Term>, d: Seq<Term>)
    requires fs_same(a, b), fs_same(c, d)
    ensures fs_same(fs_add(a, c), fs_add(b, d)), fs_same(fs_sub(a, c), fs_sub(b, d))
{
    assert forall|l: Seq<int>, e: Exp| #[trigger] fs_coef(fs_add(a, c), l, e) == fs_coef(fs_add(b, d), l, e) by {
        fs_coef_add(a, c, l, e); fs_coef_add(b, d, l, e); assert(fs_coef(a, l, e) == fs_coef(b, l, e) && fs_coef(c, l, e) == fs_coef(d, l, e));
    }
    assert forall|l: Seq<int>, e: Exp| #[trigger] fs_coef(fs_sub(a, c), l, e) == fs_coef(fs_sub(b, d), l, e) by {
        fs_coef_sub(a, c, l, e); fs_coef_sub(b, d, l, e); assert(fs_coef(a, l, e) == fs_coef(b, l, e) && fs_coef(c, l, e) == fs_coef(d, l, e));
    }
}
pub proof fn lemma_same_shift(m: Scal, a: Seq<Term>, b: Seq<Term>)
    requires fs_same(a, b)
    ensures fs_same(fs_shift(m, a), fs_shift(m, b))
{
    assert forall|l: Seq<int>, e: Exp| #[trigger] fs_coef(fs_shift(m, a), l, e) == fs_coef(fs_shift(m, b), l, e) by {
        fs_coef_shift(m, a, l, e); fs_coef_shift(m, b, l, e); assert(fs_coef(a, l, esub(e, m.e)) == fs_coef(b, l, esub(e, m.e)));
    }
}
// pointwise equal functions
pub proof fn lemma_fs_point(g: spec_fn(Seq<int>) -> Seq<Term>, h: spec_fn(Seq<int>) -> Seq<Term>, a: Seq<Term>)
    requires forall|x: Seq<int>| #[trigger] fs_has(a, x) ==> fs_same(g(x), h(x))
    ensures fs_same(fs_apply(g, a), fs_apply(h, a))
    decreases a.len()
{
    if a.len() > 0 {
        let b = a.drop_last();
        let t = a.last();
        assert forall|x: Seq<int>| #[trigger] fs_has(b, x) implies fs_same(g(x), h(x)) by { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).lam == x; assert(a[i].lam == x); assert(fs_has(a, x)); }
        lemma_fs_point(g, h, b);
        assert(a[a.len() - 1].lam == t.lam);
        assert(fs_has(a, t.lam));
        let m = Scal { c: t.c, e: t.e };
        lemma_same_shift(m, g(t.lam), h(t.lam));
        lemma_same_add(fs_apply(g, b), fs_apply(h, b), fs_shift(m, g(t.lam)), fs_shift(m, h(t.lam)));
    }
}
pub proof fn lemma_fs_point_nz(g: spec_fn(Seq<int>) -> Seq<Term>, h: spec_fn(Seq<int>) -> Seq<Term>, a: Seq<Term>)
    requires forall|x: Seq<int>| #[trigger] fs_nonzero(a, x) ==> fs_same(g(x), h(x))
    ensures fs_same(fs_apply(g, a), fs_apply(h, a))
{
    let b = fs_norm(a);
    lemma_fs_norm(a);
    lemma_same_sym(b, a);
    lemma_fs_apply_same(g, a, b);
    lemma_fs_apply_same(h, b, a);
    lemma_fs_point(g, h, b);
    lemma_same_trans(fs_apply(g, a), fs_apply(g, b), fs_apply(h, b));
    lemma_same_trans(fs_apply(g, a), fs_apply(h, b), fs_apply(h, a));
}
pub proof fn lemma_fs_apply_shift(f: spec_fn(Seq<int>) -> Seq<Term>, m: Scal, a: Seq<Term>)
    ensures fs_same(fs_apply(f, fs_shift(m, a)), fs_shift(m, fs_apply(f, a)))
    decreases a.len()
{
    let sa = fs_shift(m, a);
    assert forall|l: Seq<int>, e: Exp| #[trigger] fs_coef(fs_apply(f, sa), l, e) == fs_coef(fs_shift(m, fs_apply(f, a)), l, e) by {
        let h = esub(e, m.e);
        fs_coef_shift(m, fs_apply(f, a), l, e);
        if a.len() == 0 { assert(m.c * 0real == 0real) by (nonlinear_arith); } else {
            let b = a.drop_last();
            let t = a.last();
            lemma_fs_apply_shift(f, m, b);
            assert(sa.drop_last() =~= fs_shift(m, b));
            assert(fs_coef(fs_apply(f, fs_shift(m, b)), l, e) == fs_coef(fs_shift(m, fs_apply(f, b)), l, e));
            fs_coef_shift(m, fs_apply(f, b), l, e);
            let s1 = Scal { c: t.c, e: t.e };
            let s2 = Scal { c: m.c * t.c, e: eadd(m.e, t.e) };
            fs_coef_add(fs_apply(f, b), fs_shift(s1, f(t.lam)), l, h);
            fs_coef_add(fs_apply(f, fs_shift(m, b)), fs_shift(s2, f(t.lam)), l, e);
            fs_coef_shift(s1, f(t.lam), l, h);
            fs_coef_shift(s2, f(t.lam), l, e);
            assert(esub(h, t.e) == esub(e, s2.e));
            let x = fs_coef(fs_apply(f, b), l, h);
            let z = fs_coef(f(t.lam), l, esub(h, t.e));
            let c = m.c;
            let y = t.c;
            assert(c * (x + y * z) == c * x + (c * y) * z) by (nonlinear_arith);
        }
    }
}
// one linear extension after another
pub open spec fn comp(g: spec_fn(Seq<int>) -> Seq<Term>, h: spec_fn(Seq<int>) -> Seq<Term>) -> spec_fn(Seq<int>) -> Seq<Term> { |x: Seq<int>| fs_apply(g, h(x)) }
pub proof fn lemma_fs_comp(g: spec_fn(Seq<int>) -> Seq<Term>, h: spec_fn(Seq<int>) -> Seq<Term>, a: Seq<Term>)
    ensures fs_same(fs_apply(g, fs_apply(h, a)), fs_apply(comp(g, h), a))
    decreases a.len()
{
    if a.len() > 0 {
        let b = a.drop_last();
        let t = a.last();
        let m = Scal { c: t.c, e: t.e };
        lemma_fs_comp(g, h, b);
        let u = fs_apply(h, b);
        let v = fs_shift(m, h(t.lam));
        lemma_fs_apply_add(g, u, v);
        lemma_fs_apply_shift(g, m, h(t.lam));
        lemma_same_add(fs_apply(g, u), fs_apply(comp(g, h), b), fs_apply(g, v), fs_shift(m, fs_apply(g, h(t.lam))));
        lemma_same_trans(fs_apply(g, u + v), fs_add(fs_apply(g, u), fs_apply(g, v)), fs_add(fs_apply(comp(g, h), b), fs_shift(m, fs_apply(g, h(t.lam)))));
    }
}
pub proof fn lemma_fs_apply_sub(f: spec_fn(Seq<int>) -> Seq<Term>, a: Seq<Term>, b: Seq<Term>)
    ensures fs_same(fs_apply(f, fs_sub(a, b)), fs_sub(fs_apply(f, a), fs_apply(f, b)))
{
    let m = fs_scale(-1real, b);
    lemma_fs_apply_add(f, a, m);
    lemma_fs_apply_scale(f, -1real, b);
    assert forall|l: Seq<int>, e: Exp| #[trigger] fs_coef(fs_apply(f, fs_sub(a, b)), l, e) == fs_coef(fs_sub(fs_apply(f, a), fs_apply(f, b)), l, e) by {
        assert(fs_coef(fs_apply(f, a + m), l, e) == fs_coef(fs_add(fs_apply(f, a), fs_apply(f, m)), l, e));
        fs_coef_add(fs_apply(f, a), fs_apply(f, m), l, e);
        fs_coef_sub(fs_apply(f, a), fs_apply(f, b), l, e);
        assert(fs_coef(fs_apply(f, m), l, e) == fs_coef(fs_scale(-1real, fs_apply(f, b)), l, e));
        fs_coef_scale(-1real, fs_apply(f, b), l, e);
    }
}
// classes by themselves: the extension of x -> x changes nothing
pub open spec fn fones() -> spec_fn(Seq<int>) -> Seq<Term> { |x: Seq<int>| fs_one(x) }
pub proof fn lemma_fs_apply_ones(a: Seq<Term>)
    ensures fs_same(fs_apply(fones(), a), a)
{
    let g = |x: Seq<int>| x;
    lemma_fs_apply_map(fones(), g, a);
    assert(fs_map(g, a) =~= a);
}
pub proof fn lemma_fs_apply_fsmap(f: spec_fn(Seq<int>) -> Seq<Term>, g: spec_fn(Seq<int>) -> Seq<int>, a: Seq<Term>)
    ensures fs_apply(f, fs_map(g, a)) == fs_apply(|x: Seq<int>| f(g(x)), a)
    decreases a.len()
{
    if a.len() > 0 {
        let b = a.drop_last();
        lemma_fs_apply_fsmap(f, g, b);
        assert(fs_map(g, a).drop_last() =~= fs_map(g, b));
    } else { assert(fs_map(g, a) =~= a); }
}

// ---- homogeneous sums: exponents of q, q1, q2 not negative, and every term of the same degree D, where x has
// weight w(x) and q, q1, q2 have degree d
pub open spec fn hm(a: Seq<Term>, w: spec_fn(Seq<int>) -> int, d: int, D: int) -> bool {
    forall|x: Seq<int>, e: Exp| #[trigger] fs_coef(a, x, e) != 0real ==> e.0 >= 0 && e.1 >= 0 && e.2 >= 0 && w(x) + d * (e.0 + e.1 + e.2) == D
}
pub proof fn lemma_hm_same(a: Seq<Term>, b: Seq<Term>, w: spec_fn(Seq<int>) -> int, d: int, D: int)
    requires hm(a, w, d, D), fs_same(a, b)
    ensures hm(b, w, d, D)
{ assert forall|x: Seq<int>, e: Exp| #[trigger] fs_coef(b, x, e) != 0real implies e.0 >= 0 && e.1 >= 0 && e.2 >= 0 && w(x) + d * (e.0 + e.1 + e.2) == D by { assert(fs_coef(a, x, e) != 0real); } }
pub proof fn lemma_hm_one(x: Seq<int>, w: spec_fn(Seq<int>) -> int, d: int)
    ensures hm(fs_one(x), w, d, w(x))
{
    assert forall|y: Seq<int>, e: Exp| #[trigger] fs_coef(fs_one(x), y, e) != 0real implies e.0 >= 0 && e.1 >= 0 && e.2 >= 0 && w(y) + d * (e.0 + e.1 + e.2) == w(x) by {
        fs_coef_term(1real, x, y, e);
        assert(x =~= y);
        assert(d * 0 == 0);
    }
}
pub proof fn lemma_hm_add(a: Seq<Term>, b: Seq<Term>, w: spec_fn(Seq<int>) -> int, d: int, D: int)
    requires hm(a, w, d, D), hm(b, w, d, D)
    ensures hm(fs_add(a, b), w, d, D), hm(fs_sub(a, b), w, d, D)
{
    assert forall|x: Seq<int>, e: Exp| #[trigger] fs_coef(fs_add(a, b), x, e) != 0real implies e.0 >= 0 && e.1 >= 0 && e.2 >= 0 && w(x) + d * (e.0 + e.1 + e.2) == D by {
        fs_coef_add(a, b, x, e);
        if fs_coef(a, x, e) == 0real { assert(fs_coef(b, x, e) != 0real); }
    }
    assert forall|x: Seq<int>, e: Exp| #[trigger] fs_coef(fs_sub(a, b), x, e) != 0real implies e.0 >= 0 && e.1 >= 0 && e.2 >= 0 && w(x) + d * (e.0 + e.1 + e.2) == D by {
        fs_coef_sub(a, b, x, e);
        if fs_coef(a, x, e) == 0real { assert(fs_coef(b, x, e) != 0real); }
    }
}
// the terms of an expanded sum are its coefficients
pub proof fn lemma_norm_terms(a: Seq<Term>)
    ensures forall|i: int| 0 <= i < fs_norm(a).len() ==> fs_coef(a, (#[trigger] fs_norm(a)[i]).lam, fs_norm(a)[i].e) != 0real
    decreases a.len()
{
    if a.len() > 0 {
        let t = a.last();
        let w = fs_without(a, t.lam, t.e);
        let b = fs_norm(w);
        let r = fs_norm(a);
        lemma_fs_without(a, t.lam, t.e, |x: Seq<int>| fs_zero());
        lemma_norm_terms(w);
        assert forall|i: int| 0 <= i < r.len() implies fs_coef(a, (#[trigger] r[i]).lam, r[i].e) != 0real by {
            if i < b.len() {
                assert(r[i] == b[i]);
                assert(fs_coef(w, b[i].lam, b[i].e) == (if b[i].lam =~= t.lam && b[i].e == t.e { 0real } else { fs_coef(a, b[i].lam, b[i].e) }));
            }
        }
    }
}
pub open spec fn hm_terms(a: Seq<Term>, w: spec_fn(Seq<int>) -> int, d: int, D: int) -> bool {
    forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).e.0 >= 0 && a[i].e.1 >= 0 && a[i].e.2 >= 0 && w(a[i].lam) + d * (a[i].e.0 + a[i].e.1 + a[i].e.2) == D
}
pub proof fn lemma_hm_shift(m: Scal, a: Seq<Term>, w: spec_fn(Seq<int>) -> int, d: int, D: int)
    requires hm(a, w, d, D), m.e.0 >= 0, m.e.1 >= 0, m.e.2 >= 0
    ensures hm(fs_shift(m, a), w, d, D + d * (m.e.0 + m.e.1 + m.e.2))
{
    assert forall|x: Seq<int>, e: Exp| #[trigger] fs_coef(fs_shift(m, a), x, e) != 0real implies e.0 >= 0 && e.1 >= 0 && e.2 >= 0 && w(x) + d * (e.0 + e.1 + e.2) == D + d * (m.e.0 + m.e.1 + m.e.2) by {
        fs_coef_shift(m, a, x, e);
        let h = esub(e, m.e);
        assert(fs_coef(a, x, h) != 0real) by { if fs_coef(a, x, h) == 0real { assert(m.c * 0real == 0real) by (nonlinear_arith); } }
        assert(d * (e.0 + e.1 + e.2) == d * (h.0 + h.1 + h.2) + d * (m.e.0 + m.e.1 + m.e.2)) by (nonlinear_arith)
            requires e.0 == h.0 + m.e.0, e.1 == h.1 + m.e.1, e.2 == h.2 + m.e.2;
    }
}
pub proof fn lemma_hm_list(g: spec_fn(Seq<int>) -> Seq<Term>, a: Seq<Term>, w: spec_fn(Seq<int>) -> int, v: spec_fn(Seq<int>) -> int, d: int, D: int)
    requires hm_terms(a, w, d, D), forall|x: Seq<int>| #[trigger] fs_has(a, x) ==> hm(g(x), v, d, w(x))
    ensures hm(fs_apply(g, a), v, d, D)
    decreases a.len()
{
    if a.len() > 0 {
        let b = a.drop_last();
        let t = a.last();
        assert forall|x: Seq<int>| #[trigger] fs_has(b, x) implies hm(g(x), v, d, w(x)) by { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).lam == x; assert(a[i].lam == x); assert(fs_has(a, x)); }
        assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).e.0 >= 0 && b[i].e.1 >= 0 && b[i].e.2 >= 0 && w(b[i].lam) + d * (b[i].e.0 + b[i].e.1 + b[i].e.2) == D by { assert(a[i] == b[i]); }
        lemma_hm_list(g, b, w, v, d, D);
        assert(a[a.len() - 1].lam == t.lam);
        assert(fs_has(a, t.lam));
        lemma_hm_shift(Scal { c: t.c, e: t.e }, g(t.lam), v, d, w(t.lam));
        lemma_hm_add(fs_apply(g, b), fs_shift(Scal { c: t.c, e: t.e }, g(t.lam)), v, d, D);
    } else {
        assert forall|x: Seq<int>, e: Exp| #[trigger] fs_coef(fs_apply(g, a), x, e) == 0real by {}
    }
}
// a homogeneous map on a homogeneous sum
pub proof fn lemma_hm_apply(g: spec_fn(Seq<int>) -> Seq<Term>, a: Seq<Term>, w: spec_fn(Seq<int>) -> int, v: spec_fn(Seq<int>) -> int, d: int, D: int)
    requires hm(a, w, d, D), forall|x: Seq<int>| #[trigger] fs_nonzero(a, x) ==> hm(g(x), v, d, w(x))
    ensures hm(fs_apply(g, a), v, d, D)
{
    let b = fs_norm(a);
    lemma_fs_norm(a);
    lemma_norm_terms(a);
    assert(hm_terms(b, w, d, D)) by { assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).e.0 >= 0 && b[i].e.1 >= 0 && b[i].e.2 >= 0 && w(b[i].lam) + d * (b[i].e.0 + b[i].e.1 + b[i].e.2) == D by { assert(fs_coef(a, b[i].lam, b[i].e) != 0real); } }
    lemma_hm_list(g, b, w, v, d, D);
    lemma_fs_apply_same(g, b, a);
    lemma_hm_same(fs_apply(g, b), fs_apply(g, a), v, d, D);
}

//# unit poly
//# use index fsalg
// ---- polynomials in the special classes: formal sums of monomials, a monomial is the ascending list of its numbers
// (a number p > 0 stands for S[p], -p for S[p,0])
pub open spec fn spnum(v: Seq<int>) -> int { if v.len() > 1 { -v[0] } else { v[0] } }
pub open spec fn specl(p: int) -> Seq<int> { if p > 0 { seq![p] } else { seq![-p, 0] } }
pub open spec fn speclist(v: Seq<int>) -> bool { v.len() > 0 && v[0] > 0 && (v.len() == 1 || (v.len() == 2 && v[1] == 0)) }
pub open spec fn msorted(m: Seq<int>) -> bool { forall|i: int, j: int| 0 <= i <= j < m.len() ==> m[i] <= m[j] }
pub open spec fn minsert(m: Seq<int>, p: int) -> Seq<int>
    decreases m.len()
{ if m.len() == 0 || m.last() <= p { m.push(p) } else { minsert(m.drop_last(), p).push(m.last()) } }
pub open spec fn idel(m: Seq<int>, p: int) -> Seq<int>
    decreases m.len()
{ if m.len() == 0 { m } else if m.last() == p { m.drop_last() } else { idel(m.drop_last(), p).push(m.last()) } }
pub open spec fn p_times(v: Seq<int>, a: Seq<Term>) -> Seq<Term> { fs_map(|m: Seq<int>| minsert(m, spnum(v)), a) }
pub open spec fn p_without(a: Seq<Term>, v: Seq<int>) -> Seq<Term> { fs_keep(a, |m: Seq<int>| !m.contains(spnum(v))) }
pub open spec fn p_with(a: Seq<Term>, p: int) -> Seq<Term> { fs_keep(a, |m: Seq<int>| m.contains(p)) }
pub open spec fn p_over(a: Seq<Term>, v: Seq<int>) -> Seq<Term> { fs_map(|m: Seq<int>| idel(m, spnum(v)), p_with(a, spnum(v))) }
pub open spec fn p_scaled(a: Seq<Term>, lc: Seq<Term>) -> Seq<Term> { fs_apply(|m: Seq<int>| lc, a) }
pub open spec fn pwf(a: Seq<Term>) -> bool { forall|m: Seq<int>| #[trigger] fs_has(a, m) ==> !m.contains(0) }
// the symbols of an expression other than q, q1, q2 (sympy): at least those its value needs, at most those written in it
pub uninterp spec fn psyms(a: Seq<Term>) -> Seq<Seq<int>>;
#[verifier::external_body]
pub proof fn axiom_psyms(a: Seq<Term>)
    requires pwf(a)
    ensures
        forall|v: Seq<int>| #[trigger] psyms(a).contains(v) ==> speclist(v) && exists|m: Seq<int>| #[trigger] fs_has(a, m) && m.contains(spnum(v)),
        forall|m: Seq<int>| #[trigger] fs_nonzero(a, m) && m.len() > 0 ==> psyms(a).len() > 0,
{ }
// the same symbols in some order (the order of their names)
pub uninterp spec fn sym_sorted(l: Seq<Seq<int>>) -> Seq<Seq<int>>;
#[verifier::external_body]
pub proof fn axiom_sym_sorted(l: Seq<Seq<int>>)
    ensures sym_sorted(l).len() == l.len(), forall|v: Seq<int>| #[trigger] sym_sorted(l).contains(v) <==> l.contains(v)
{ }

pub open spec fn op(f: Op, i: int) -> spec_fn(Seq<int>) -> Seq<Term> { |x: Seq<int>| f(i, x) }
pub open spec fn mon_act(m: Seq<int>, f: Op, a: Seq<Term>) -> Seq<Term>
    decreases m.len()
{ if m.len() == 0 { a } else { fs_apply(op(f, m.last()), mon_act(m.drop_last(), f, a)) } }
pub open spec fn act_of(f: Op, a: Seq<Term>) -> spec_fn(Seq<int>) -> Seq<Term> { |m: Seq<int>| mon_act(m, f, a) }
// the value of a polynomial, S_p read as f(p, .), at a
pub open spec fn ev(e: Seq<Term>, f: Op, a: Seq<Term>) -> Seq<Term> { fs_apply(act_of(f, a), e) }

pub open spec fn sp_num(p: int, s: Space) -> bool { p != 0 && box_s(specl(p), s) }
pub open spec fn all_in(a: Seq<Term>, s: Space) -> bool { forall|x: Seq<int>| #[trigger] fs_has(a, x) ==> box_s(x, s) }
pub open spec fn mon_in(m: Seq<int>, s: Space) -> bool { msorted(m) && forall|i: int| 0 <= i < m.len() ==> sp_num(#[trigger] m[i], s) }
pub open spec fn poly_in(a: Seq<Term>, s: Space) -> bool { forall|m: Seq<int>| #[trigger] fs_has(a, m) ==> mon_in(m, s) }
// weights of a class and of a monomial, the degree of q
pub open spec fn cw() -> spec_fn(Seq<int>) -> int { |x: Seq<int>| sum_seq(x) }
pub open spec fn msum(m: Seq<int>) -> int
    decreases m.len()
{ if m.len() == 0 { 0 } else { msum(m.drop_last()) + iabs(m.last()) } }
pub open spec fn mw() -> spec_fn(Seq<int>) -> int { |m: Seq<int>| msum(m) }
pub open spec fn dq(s: Space) -> int { if is_A(s) { s._n } else if is_C(s) { s._n + 1 + s._k } else { deg_O(s) } }
pub open spec fn shut_at(f: Op, i: int, x: Seq<int>, s: Space) -> bool { all_in(f(i, x), s) && hm(f(i, x), cw(), dq(s), iabs(i) + sum_seq(x)) }
// f(i, .) takes classes of the space to homogeneous sums of classes of the space
pub open spec fn shut(f: Op, s: Space) -> bool { forall|i: int, x: Seq<int>| sp_num(i, s) && box_s(x, s) ==> #[trigger] shut_at(f, i, x, s) }
pub open spec fn callable(f: Op, s: Space) -> bool { forall|i: int, x: Seq<int>| sp_num(i, s) && box_s(x, s) ==> #[trigger] fdom(f, i, x) }
pub open spec fn good(f: Op, s: Space) -> bool { shut(f, s) && callable(f, s) }
pub open spec fn comm_at(f: Op, i: int, j: int, x: Seq<int>) -> bool { fs_same(fs_apply(op(f, i), f(j, x)), fs_apply(op(f, j), f(i, x))) }
pub open spec fn comm(f: Op, s: Space) -> bool { forall|i: int, j: int, x: Seq<int>| sp_num(i, s) && sp_num(j, s) && box_s(x, s) ==> #[trigger] comm_at(f, i, j, x) }

pub proof fn lemma_apply_in(f: Op, i: int, a: Seq<Term>, s: Space)
    requires shut(f, s), sp_num(i, s), all_in(a, s)
    ensures all_in(fs_apply(op(f, i), a), s)
{
    assert forall|x: Seq<int>| #[trigger] fs_has(fs_apply(op(f, i), a), x) implies box_s(x, s) by {
        let y = has_apply(op(f, i), a, x);
        assert(shut_at(f, i, y, s));
        assert(fs_has(f(i, y), x));
    }
}
pub proof fn lemma_mon_in_tail(m: Seq<int>, s: Space)
    requires mon_in(m, s), m.len() > 0
    ensures mon_in(m.drop_last(), s), sp_num(m.last(), s)
{ assert(sp_num(m[m.len() - 1], s)); let w = m.drop_last(); assert forall|i: int| 0 <= i < w.len() implies sp_num(#[trigger] w[i], s) by { assert(sp_num(m[i], s)); } }
pub proof fn lemma_act_in(m: Seq<int>, f: Op, a: Seq<Term>, s: Space)
    requires shut(f, s), mon_in(m, s), all_in(a, s)
    ensures all_in(mon_act(m, f, a), s)
    decreases m.len()
{
    if m.len() > 0 {
        lemma_mon_in_tail(m, s);
        lemma_act_in(m.drop_last(), f, a, s);
        lemma_apply_in(f, m.last(), mon_act(m.drop_last(), f, a), s);
    }
}
pub proof fn lemma_ev_in(e: Seq<Term>, f: Op, a: Seq<Term>, s: Space)
    requires shut(f, s), poly_in(e, s), all_in(a, s)
    ensures all_in(ev(e, f, a), s)
{
    assert forall|x: Seq<int>| #[trigger] fs_has(ev(e, f, a), x) implies box_s(x, s) by {
        let m = has_apply(act_of(f, a), e, x);
        lemma_act_in(m, f, a, s);
        assert(fs_has(mon_act(m, f, a), x));
    }
}
pub proof fn lemma_comm_sum(f: Op, i: int, j: int, a: Seq<Term>, s: Space)
    requires comm(f, s), sp_num(i, s), sp_num(j, s), all_in(a, s)
    ensures fs_same(fs_apply(op(f, i), fs_apply(op(f, j), a)), fs_apply(op(f, j), fs_apply(op(f, i), a)))
{
    let g = op(f, i);
    let h = op(f, j);
    lemma_fs_comp(g, h, a);
    lemma_fs_comp(h, g, a);
    assert forall|x: Seq<int>| #[trigger] fs_has(a, x) implies fs_same(comp(g, h)(x), comp(h, g)(x)) by { assert(comm_at(f, i, j, x)); }
    lemma_fs_point(comp(g, h), comp(h, g), a);
    lemma_same_trans(fs_apply(g, fs_apply(h, a)), fs_apply(comp(g, h), a), fs_apply(comp(h, g), a));
    lemma_same_sym(fs_apply(h, fs_apply(g, a)), fs_apply(comp(h, g), a));
    lemma_same_trans(fs_apply(g, fs_apply(h, a)), fs_apply(comp(h, g), a), fs_apply(h, fs_apply(g, a)));
}
pub proof fn lemma_minsert(m: Seq<int>, p: int)
    requires msorted(m)
    ensures msorted(minsert(m, p)), minsert(m, p).len() == m.len() + 1, forall|v: int| #[trigger] minsert(m, p).contains(v) <==> m.contains(v) || v == p
    decreases m.len()
{
    let r = minsert(m, p);
    if m.len() == 0 || m.last() <= p {
        assert forall|v: int| #[trigger] r.contains(v) <==> m.contains(v) || v == p by {
            if m.contains(v) { let i = choose|i: int| 0 <= i < m.len() && m[i] == v; assert(r[i] == v); }
            if v == p { assert(r[r.len() - 1] == p); }
        }
    } else {
        let w = m.drop_last();
        let u = minsert(w, p);
        lemma_minsert(w, p);
        assert forall|v: int| #[trigger] r.contains(v) <==> m.contains(v) || v == p by {
            if m.contains(v) { let i = choose|i: int| 0 <= i < m.len() && m[i] == v; if i < w.len() { assert(w[i] == v); assert(w.contains(v)); assert(u.contains(v)); let h = choose|h: int| 0 <= h < u.len() && u[h] == v; assert(r[h] == v); } else { assert(r[r.len() - 1] == v); } }
            if v == p { assert(u.contains(v)); let h = choose|h: int| 0 <= h < u.len() && u[h] == v; assert(r[h] == v); }
            if r.contains(v) { let i = choose|i: int| 0 <= i < r.len() && r[i] == v; if i < u.len() { assert(u.contains(v)); if w.contains(v) { let h = choose|h: int| 0 <= h < w.len() && w[h] == v; assert(m[h] == v); } } else { assert(m[m.len() - 1] == v); } }
        }
        assert forall|i: int, j: int| 0 <= i <= j < r.len() implies r[i] <= r[j] by {
            if j == r.len() - 1 && i < j {
                assert(u.contains(u[i]));
                if u[i] != p { assert(w.contains(u[i])); let h = choose|h: int| 0 <= h < w.len() && w[h] == u[i]; assert(m[h] <= m[m.len() - 1]); }
            }
        }
    }
}
pub proof fn lemma_idel(m: Seq<int>, p: int)
    requires msorted(m)
    ensures msorted(idel(m, p)), forall|v: int| #[trigger] idel(m, p).contains(v) ==> m.contains(v)
    decreases m.len()
{
    let r = idel(m, p);
    if m.len() > 0 && m.last() != p {
        let w = m.drop_last();
        let u = idel(w, p);
        lemma_idel(w, p);
        assert forall|v: int| #[trigger] r.contains(v) implies m.contains(v) by {
            let i = choose|i: int| 0 <= i < r.len() && r[i] == v;
            if i < u.len() { assert(u.contains(v)); let h = choose|h: int| 0 <= h < w.len() && w[h] == v; assert(m[h] == v); } else { assert(m[m.len() - 1] == v); }
        }
        assert forall|i: int, j: int| 0 <= i <= j < r.len() implies r[i] <= r[j] by {
            if j == r.len() - 1 && i < j { assert(u.contains(u[i])); let h = choose|h: int| 0 <= h < w.len() && w[h] == u[i]; assert(m[h] <= m[m.len() - 1]); }
        }
    } else if m.len() > 0 {
        assert forall|v: int| #[trigger] r.contains(v) implies m.contains(v) by { let i = choose|i: int| 0 <= i < r.len() && r[i] == v; assert(m[i] == v); }
    }
}
pub proof fn lemma_msum_ins(m: Seq<int>, p: int)
    ensures msum(minsert(m, p)) == msum(m) + iabs(p)
    decreases m.len()
{
    let r = minsert(m, p);
    if m.len() == 0 || m.last() <= p { assert(r.drop_last() =~= m); } else {
        lemma_msum_ins(m.drop_last(), p);
        assert(r.drop_last() =~= minsert(m.drop_last(), p));
    }
}
pub proof fn lemma_hm_times(a: Seq<Term>, p: int, d: int, D: int)
    requires hm(a, mw(), d, D), spnum(specl(p)) == p
    ensures hm(p_times(specl(p), a), mw(), d, D + iabs(p))
{
    let ins = |m: Seq<int>| minsert(m, p);
    let g = |m: Seq<int>| fs_one(minsert(m, p));
    let w = |m: Seq<int>| msum(m) + iabs(p);
    let pt = p_times(specl(p), a);
    assert(pt =~= fs_map(ins, a)) by { assert forall|i: int| 0 <= i < a.len() implies pt[i] == fs_map(ins, a)[i] by {} }
    lemma_fs_apply_map(g, ins, a);
    assert(hm(a, w, d, D + iabs(p))) by {
        assert forall|x: Seq<int>, e: Exp| #[trigger] fs_coef(a, x, e) != 0real implies e.0 >= 0 && e.1 >= 0 && e.2 >= 0 && w(x) + d * (e.0 + e.1 + e.2) == D + iabs(p) by { assert(mw()(x) + d * (e.0 + e.1 + e.2) == D); }
    }
    assert forall|m: Seq<int>| #[trigger] fs_nonzero(a, m) implies hm(g(m), mw(), d, w(m)) by {
        lemma_msum_ins(m, p);
        lemma_hm_one(minsert(m, p), mw(), d);
    }
    lemma_hm_apply(g, a, w, mw(), d, D + iabs(p));
}
// the value of a homogeneous polynomial at a homogeneous sum is homogeneous
pub proof fn lemma_hm_mon(m: Seq<int>, f: Op, a: Seq<Term>, s: Space, D: int)
    requires shut(f, s), mon_in(m, s), all_in(a, s), hm(a, cw(), dq(s), D)
    ensures hm(mon_act(m, f, a), cw(), dq(s), msum(m) + D)
    decreases m.len()
{
    if m.len() > 0 {
        let y = mon_act(m.drop_last(), f, a);
        let p = m.last();
        let d = dq(s);
        lemma_mon_in_tail(m, s);
        lemma_hm_mon(m.drop_last(), f, a, s, D);
        lemma_act_in(m.drop_last(), f, a, s);
        lemma_hm_act(f, p, y, s, msum(m.drop_last()) + D);
    }
}
pub proof fn lemma_hm_act(f: Op, p: int, y: Seq<Term>, s: Space, D: int)
    requires shut(f, s), sp_num(p, s), all_in(y, s), hm(y, cw(), dq(s), D)
    ensures hm(fs_apply(op(f, p), y), cw(), dq(s), D + iabs(p))
{
    let d = dq(s);
    let w = |x: Seq<int>| sum_seq(x) + iabs(p);
    assert(hm(y, w, d, D + iabs(p))) by {
        assert forall|x: Seq<int>, e: Exp| #[trigger] fs_coef(y, x, e) != 0real implies e.0 >= 0 && e.1 >= 0 && e.2 >= 0 && w(x) + d * (e.0 + e.1 + e.2) == D + iabs(p) by { assert(cw()(x) + d * (e.0 + e.1 + e.2) == D); }
    }
    assert forall|x: Seq<int>| #[trigger] fs_nonzero(y, x) implies hm(op(f, p)(x), cw(), d, w(x)) by { lemma_support_has(y, x); assert(shut_at(f, p, x, s)); }
    lemma_hm_apply(op(f, p), y, w, cw(), d, D + iabs(p));
}
pub proof fn lemma_hm_ev(e: Seq<Term>, f: Op, a: Seq<Term>, s: Space, D: int, E: int)
    requires shut(f, s), poly_in(e, s), all_in(a, s), hm(e, mw(), dq(s), E), hm(a, cw(), dq(s), D)
    ensures hm(ev(e, f, a), cw(), dq(s), E + D)
{
    let d = dq(s);
    let w = |m: Seq<int>| msum(m) + D;
    assert(hm(e, w, d, E + D)) by {
        assert forall|x: Seq<int>, h: Exp| #[trigger] fs_coef(e, x, h) != 0real implies h.0 >= 0 && h.1 >= 0 && h.2 >= 0 && w(x) + d * (h.0 + h.1 + h.2) == E + D by { assert(mw()(x) + d * (h.0 + h.1 + h.2) == E); }
    }
    assert forall|m: Seq<int>| #[trigger] fs_nonzero(e, m) implies hm(act_of(f, a)(m), cw(), d, w(m)) by { lemma_support_has(e, m); lemma_hm_mon(m, f, a, s, D); }
    lemma_hm_apply(act_of(f, a), e, w, cw(), d, E + D);
}
pub proof fn lemma_mon_in_has(m: Seq<int>, w: Seq<int>, p: int, s: Space)
    requires mon_in(m, s), msorted(w), sp_num(p, s), forall|v: int| #[trigger] w.contains(v) ==> m.contains(v) || v == p
    ensures mon_in(w, s)
{
    assert forall|i: int| 0 <= i < w.len() implies sp_num(#[trigger] w[i], s) by {
        assert(w.contains(w[i]));
        if w[i] != p { let h = choose|h: int| 0 <= h < m.len() && m[h] == w[i]; assert(sp_num(m[h], s)); }
    }
}
pub proof fn lemma_mon_ins(m: Seq<int>, p: int, f: Op, a: Seq<Term>, s: Space)
    requires shut(f, s), comm(f, s), mon_in(m, s), sp_num(p, s), all_in(a, s)
    ensures fs_same(mon_act(minsert(m, p), f, a), fs_apply(op(f, p), mon_act(m, f, a)))
    decreases m.len()
{
    let r = minsert(m, p);
    if m.len() == 0 || m.last() <= p { assert(r.drop_last() =~= m); } else {
        let w = m.drop_last();
        let q = m.last();
        lemma_mon_in_tail(m, s);
        lemma_mon_ins(w, p, f, a, s);
        lemma_act_in(w, f, a, s);
        assert(r.drop_last() =~= minsert(w, p));
        let x = mon_act(w, f, a);
        lemma_fs_apply_same(op(f, q), mon_act(minsert(w, p), f, a), fs_apply(op(f, p), x));
        lemma_comm_sum(f, q, p, x, s);
        lemma_same_trans(mon_act(r, f, a), fs_apply(op(f, q), fs_apply(op(f, p), x)), fs_apply(op(f, p), fs_apply(op(f, q), x)));
    }
}
pub proof fn lemma_mon_del(m: Seq<int>, p: int, f: Op, a: Seq<Term>, s: Space)
    requires shut(f, s), comm(f, s), mon_in(m, s), m.contains(p), all_in(a, s)
    ensures fs_same(mon_act(m, f, a), fs_apply(op(f, p), mon_act(idel(m, p), f, a))), sp_num(p, s), mon_in(idel(m, p), s)
    decreases m.len()
{
    let r = idel(m, p);
    let h = choose|h: int| 0 <= h < m.len() && m[h] == p;
    assert(sp_num(m[h], s));
    lemma_idel(m, p);
    lemma_mon_in_has(m, r, p, s);
    if m.last() != p {
        let w = m.drop_last();
        let q = m.last();
        lemma_mon_in_tail(m, s);
        assert(w[h] == p);
        lemma_mon_del(w, p, f, a, s);
        let y = mon_act(idel(w, p), f, a);
        lemma_act_in(idel(w, p), f, a, s);
        assert(r.drop_last() =~= idel(w, p));
        lemma_fs_apply_same(op(f, q), mon_act(w, f, a), fs_apply(op(f, p), y));
        lemma_comm_sum(f, q, p, y, s);
        lemma_same_trans(mon_act(m, f, a), fs_apply(op(f, q), fs_apply(op(f, p), y)), fs_apply(op(f, p), fs_apply(op(f, q), y)));
    }
}
// ---- the value of a polynomial from the parts with and without v
pub proof fn lemma_over(x: Seq<Term>, p: int, v: Seq<int>, f: Op, a: Seq<Term>, s: Space)
    requires shut(f, s), comm(f, s), poly_in(x, s), all_in(a, s), p == spnum(v), forall|m: Seq<int>| #[trigger] fs_nonzero(x, m) ==> m.contains(p)
    ensures fs_same(ev(x, f, a), fs_apply(op(f, p), ev(p_over(x, v), f, a))), poly_in(p_over(x, v), s), all_in(ev(p_over(x, v), f, a), s)
{
    let c = p_with(x, p);
    let has = |m: Seq<int>| m.contains(p);
    lemma_fs_keep(x, has);
    assert(fs_same(x, c)) by {
        assert forall|m: Seq<int>, e: Exp| #[trigger] fs_coef(x, m, e) == fs_coef(c, m, e) by {
            if fs_coef(x, m, e) != 0real { assert(fs_nonzero(x, m)); assert(has(m)); }
        }
    }
    let g = act_of(f, a);
    lemma_fs_apply_same(g, x, c);
    assert(poly_in(c, s)) by { assert forall|m: Seq<int>| #[trigger] fs_has(c, m) implies mon_in(m, s) by { lemma_keep_has(x, has, m); } }
    let d = |m: Seq<int>| idel(m, p);
    let o = p_over(x, v);
    assert(o =~= fs_map(d, c)) by { assert forall|i: int| 0 <= i < c.len() implies o[i] == fs_map(d, c)[i] by {} }
    assert(poly_in(o, s)) by {
        assert forall|m: Seq<int>| #[trigger] fs_has(o, m) implies mon_in(m, s) by {
            let y = has_map(d, c, m);
            lemma_keep_has(x, has, y);
            lemma_mon_del(y, p, f, a, s);
        }
    }
    lemma_ev_in(o, f, a, s);
    // f_p after the value of o
    lemma_fs_apply_fsmap(g, d, c);
    let gd = |m: Seq<int>| g(d(m));
    lemma_fs_comp(op(f, p), gd, c);
    assert(fs_apply(g, o) == fs_apply(gd, c));
    assert forall|m: Seq<int>| #[trigger] fs_has(c, m) implies fs_same(g(m), comp(op(f, p), gd)(m)) by {
        lemma_keep_has(x, has, m);
        lemma_mon_del(m, p, f, a, s);
    }
    lemma_fs_point(g, comp(op(f, p), gd), c);
    lemma_same_sym(fs_apply(op(f, p), fs_apply(gd, c)), fs_apply(comp(op(f, p), gd), c));
    lemma_same_trans(ev(x, f, a), fs_apply(g, c), fs_apply(comp(op(f, p), gd), c));
    lemma_same_trans(ev(x, f, a), fs_apply(comp(op(f, p), gd), c), fs_apply(op(f, p), fs_apply(gd, c)));
}
pub proof fn lemma_keep_has(a: Seq<Term>, p: spec_fn(Seq<int>) -> bool, x: Seq<int>)
    requires fs_has(fs_keep(a, p), x)
    ensures fs_has(a, x), p(x)
    decreases a.len()
{
    if a.len() > 0 {
        let b = a.drop_last();
        let c = fs_keep(a, p);
        let i = choose|i: int| 0 <= i < c.len() && (#[trigger] c[i]).lam == x;
        if i < fs_keep(b, p).len() {
            assert(fs_keep(b, p)[i] == c[i]);
            assert(fs_has(fs_keep(b, p), x));
            lemma_keep_has(b, p, x);
            let h = choose|h: int| 0 <= h < b.len() && (#[trigger] b[h]).lam == x;
            assert(a[h] == b[h]);
        } else { assert(a[a.len() - 1].lam == x); }
    }
}
pub proof fn lemma_support_has(a: Seq<Term>, x: Seq<int>)
    requires fs_nonzero(a, x)
    ensures fs_has(a, x)
{ let e = choose|e: Exp| #[trigger] fs_coef(a, x, e) != 0real; lemma_fs_support(a, x, e); }
pub proof fn lemma_poly_norm(a: Seq<Term>, s: Space, f: Op, x: Seq<Term>)
    requires poly_in(a, s)
    ensures poly_in(fs_norm(a), s), fs_same(ev(fs_norm(a), f, x), ev(a, f, x))
{
    lemma_fs_norm(a);
    assert forall|m: Seq<int>| #[trigger] fs_has(fs_norm(a), m) implies mon_in(m, s) by { lemma_support_has(a, m); }
    lemma_fs_apply_same(act_of(f, x), fs_norm(a), a);
}

// ---- the functions
//# fn schubertpy/abstract_grassmannian.py::AbstractGrassmannian.spec2num(self_: SPACE, sc: SC) -> I
requires sc.l.len() == 1 || (sc.l.len() > 1 && self_._type == str!"D" && sc.l[1] == 0)
ensures result == spnum(sc.l)
//# end
//# fn schubertpy/abstract_grassmannian.py::AbstractGrassmannian.num2spec(self_: SPACE, p: I) -> SCH
ensures result == specl(p)
//# end
pub proof fn lemma_sp_num(p: int, s: Space)
    requires is_space(s), sp_num(p, s)
    ensures speclist(specl(p)), spnum(specl(p)) == p, p < 0 ==> is_D(s) && s._type == str!"D"
{
    lemma_kinds(s);
    if p < 0 {
        let v = specl(p);
        assert(v =~= seq![-p, 0]);
        assert(ends0(v));
        if !is_D(s) { assert(false); }
    }
}
pub proof fn lemma_pwf(e: Seq<Term>, s: Space)
    requires poly_in(e, s)
    ensures pwf(e)
{
    assert forall|m: Seq<int>| #[trigger] fs_has(e, m) implies !m.contains(0) by {
        if m.contains(0) { let i = choose|i: int| 0 <= i < m.len() && m[i] == 0; assert(sp_num(m[i], s)); }
    }
}
// a symbol of the polynomial is a special class
pub proof fn lemma_sym(e: Seq<Term>, v: Seq<int>, s: Space)
    requires is_space(s), poly_in(e, s), psyms(e).contains(v)
    ensures speclist(v), sp_num(spnum(v), s), v.len() > 1 ==> s._type == str!"D"
{
    lemma_pwf(e, s);
    axiom_psyms(e);
    let m = choose|m: Seq<int>| #[trigger] fs_has(e, m) && m.contains(spnum(v));
    let i = choose|i: int| 0 <= i < m.len() && m[i] == spnum(v);
    assert(sp_num(m[i], s));
    lemma_sp_num(spnum(v), s);
}
pub proof fn lemma_scalar(e: Seq<Term>, f: Op, a: Seq<Term>, s: Space)
    requires forall|m: Seq<int>| #[trigger] fs_nonzero(e, m) ==> m.len() == 0, all_in(a, s)
    ensures fs_same(p_scaled(e, a), ev(e, f, a)), all_in(p_scaled(e, a), s)
{
    let c = |m: Seq<int>| a;
    assert forall|m: Seq<int>| #[trigger] fs_nonzero(e, m) implies fs_same(c(m), act_of(f, a)(m)) by {}
    lemma_fs_point_nz(c, act_of(f, a), e);
    assert forall|x: Seq<int>| #[trigger] fs_has(p_scaled(e, a), x) implies box_s(x, s) by { let m = has_apply(c, e, x); }
}
pub open spec fn no_v(a: Seq<Term>, p: int) -> Seq<Term> { fs_keep(a, |m: Seq<int>| !m.contains(p)) }
pub proof fn lemma_psplit(e: Seq<Term>, v: Seq<int>, s: Space)
    requires poly_in(e, s)
    ensures poly_in(p_without(e, v), s), poly_in(fs_sub(e, p_without(e, v)), s), forall|m: Seq<int>| #[trigger] fs_nonzero(fs_sub(e, p_without(e, v)), m) ==> m.contains(spnum(v))
{
    broadcast use group_has;
    let q = |m: Seq<int>| !m.contains(spnum(v));
    let b = p_without(e, v);
    lemma_fs_keep(e, q);
    assert forall|m: Seq<int>| #[trigger] fs_has(b, m) implies mon_in(m, s) by { lemma_keep_has(e, q, m); }
    let x = fs_sub(e, b);
    assert forall|m: Seq<int>| #[trigger] fs_nonzero(x, m) implies m.contains(spnum(v)) by {
        let h = choose|h: Exp| #[trigger] fs_coef(x, m, h) != 0real;
        fs_coef_sub(e, b, m, h);
        if !m.contains(spnum(v)) { assert(q(m)); assert(fs_coef(b, m, h) == fs_coef(e, m, h)); }
    }
}
pub proof fn lemma_pjoin(e: Seq<Term>, e0: Seq<Term>, e1: Seq<Term>, r0: Seq<Term>, r1: Seq<Term>, v: Seq<int>, f: Op, a: Seq<Term>, s: Space)
    requires shut(f, s), comm(f, s), all_in(a, s), poly_in(e, s), e0 == p_without(e, v), e1 == fs_norm(p_over(fs_sub(e, e0), v)), sp_num(spnum(v), s),
        fs_same(r0, ev(e0, f, a)), fs_same(r1, ev(e1, f, a))
    ensures fs_same(fs_add(fs_apply(op(f, spnum(v)), r1), r0), ev(e, f, a))
{
    let p = spnum(v);
    let g = act_of(f, a);
    let x = fs_sub(e, e0);
    let o = p_over(x, v);
    lemma_psplit(e, v, s);
    lemma_over(x, p, v, f, a, s);
    lemma_poly_norm(o, s, f, a);
    lemma_same_trans(r1, ev(e1, f, a), ev(o, f, a));
    lemma_fs_apply_same(op(f, p), r1, ev(o, f, a));
    let y = fs_apply(op(f, p), r1);
    lemma_same_sym(ev(x, f, a), fs_apply(op(f, p), ev(o, f, a)));
    lemma_same_trans(y, fs_apply(op(f, p), ev(o, f, a)), ev(x, f, a));
    lemma_fs_apply_sub(g, e, e0);
    assert forall|l: Seq<int>, h: Exp| #[trigger] fs_coef(fs_add(y, r0), l, h) == fs_coef(ev(e, f, a), l, h) by {
        fs_coef_add(y, r0, l, h);
        assert(fs_coef(y, l, h) == fs_coef(ev(x, f, a), l, h));
        assert(fs_coef(r0, l, h) == fs_coef(ev(e0, f, a), l, h));
        assert(fs_coef(fs_apply(g, fs_sub(e, e0)), l, h) == fs_coef(fs_sub(fs_apply(g, e), fs_apply(g, e0)), l, h));
        fs_coef_sub(fs_apply(g, e), fs_apply(g, e0), l, h);
    }
}
//# fn schubertpy/abstract_grassmannian.py::AbstractGrassmannian.act_lc(self_: SPACE, expc: P, lc: FS, pieri: FN2) -> FS
//# vars vars v i expc0 expc1 lc_p1 lc_p2 res1 res
//# types vars: LSYM, v: SYM, expc0: P, expc1: P, lc_p1: FS, lc_p2: FS, res1: FS, res: FS
//# attr #[verifier::exec_allows_no_decreases_clause]
requires is_space(self_), good(pieri, self_), comm(pieri, self_), poly_in(expc, self_), all_in(lc, self_)
ensures fs_same(result, ev(expc, pieri, lc)), all_in(result, self_)
//# hint entry
lemma_pwf(expc, self_);
axiom_psyms(expc);
axiom_sym_sorted(psyms(expc));
if psyms(expc).len() == 0 { lemma_scalar(expc, pieri, lc, self_); }
else {
    let v0 = sym_sorted(psyms(expc))[0];
    assert(sym_sorted(psyms(expc)).contains(v0));
    lemma_sym(expc, v0, self_);
    lemma_psplit(expc, v0, self_);
    let x = fs_sub(expc, p_without(expc, v0));
    lemma_over(x, spnum(v0), v0, pieri, lc, self_);
    lemma_poly_norm(p_over(x, v0), self_, pieri, lc);
}
//# hint return
if psyms(expc).len() > 0 {
    broadcast use group_has;
    lemma_fs_apply_ext(op(pieri, i), |p: Seq<int>| pieri(i, p), lc_p1);
    lemma_apply_in(pieri, i, lc_p1, self_);
    lemma_pjoin(expc, expc0, expc1, lc_p2, lc_p1, v, pieri, lc, self_);
}
//# end
// ---- Giambelli: the first part and the rest
pub open spec fn g_first(lam: Seq<int>, k: int) -> int { if lam[0] == k && lam.last() == 0 { -k } else { lam[0] } }
pub open spec fn g_rest(lam: Seq<int>, k: int) -> Seq<int> { if lam.last() == 0 && lam[1] < k { slice(lam, 1, lam.len() - 1) } else { slice(lam, 1, lam.len() as int) } }
pub proof fn lemma_g_plain(lam: Seq<int>, s: Space)
    requires is_space(s), box_s(lam, s), lam.len() > 0, !is_D(s)
    ensures lam[0] > 0, lam.last() != 0, sp_num(lam[0], s), box_s(slice(lam, 1, lam.len() as int), s), sum_seq(lam) == lam[0] + sum_seq(slice(lam, 1, lam.len() as int))
{
    lemma_kinds(s);
    let x = slice(lam, 1, lam.len() as int);
    assert(lam[0] >= lam[lam.len() - 1]);
    assert(lam[lam.len() - 1] >= 0);
    assert forall|i: int| 0 <= i < x.len() implies #[trigger] x[i] == lam[i + 1] by {}
    assert(is_part(x));
    assert(!ends0(x)) by { if x.len() > 0 { assert(x.last() == lam.last()); } }
    if x.len() > 0 { assert(lam[0] >= lam[1]); }
    let v = specl(lam[0]);
    assert(v =~= seq![lam[0]]);
    assert(is_part(v) && !ends0(v));
    lemma_sum_head(lam);
}
pub proof fn lemma_sum_head(l: Seq<int>)
    requires l.len() > 0
    ensures sum_seq(l) == l[0] + sum_seq(slice(l, 1, l.len() as int))
{
    let x = slice(l, 1, l.len() as int);
    let v = seq![l[0]];
    assert(l =~= v + x);
    lemma_sum_add(v, x);
    assert(v.drop_last() =~= Seq::<int>::empty());
    assert(sum_seq(v.drop_last()) == 0);
    assert(sum_seq(v) == l[0]);
}
pub proof fn lemma_g_sum(lam: Seq<int>, k: int)
    requires lam.len() > 0, lam.last() == 0 ==> lam.len() > 1, lam[0] > 0
    ensures sum_seq(lam) == iabs(g_first(lam, k)) + sum_seq(g_rest(lam, k))
{
    lemma_sum_head(lam);
    if lam.last() == 0 && lam.len() > 1 {
        let r1 = slice(lam, 1, lam.len() as int);
        assert(r1.drop_last() =~= slice(lam, 1, lam.len() - 1));
        assert(r1.last() == 0);
    }
}
pub proof fn lemma_tail_contains(lam: Seq<int>, k: int)
    requires is_part(lam), lam.contains(k), lam.len() > 0, lam[0] != k
    ensures slice(lam, 1, lam.len() as int).contains(k), lam.len() > 1 && lam[1] >= k
{
    let x = slice(lam, 1, lam.len() as int);
    let i = choose|i: int| 0 <= i < lam.len() && lam[i] == k;
    assert(x[i - 1] == k);
    assert(lam[1] >= lam[i]);
}
pub proof fn lemma_g_d(lam: Seq<int>, s: Space)
    requires is_space(s), is_D(s), box_s(lam, s), lam.len() > 0
    ensures lam[0] > 0, lam.last() == 0 ==> lam.len() > 1, sp_num(g_first(lam, s._k), s), box_s(g_rest(lam, s._k), s)
{
    lemma_kinds(s);
    let k = s._k;
    let m = s._n + 1 - k;
    let w = s._n + k;
    let c = clip(lam);
    lemma_is_clip(lam);
    assert(!ends0(c)) by { if c.len() > 0 { assert(c[c.len() - 1] == lam[c.len() - 1]); } }
    assert(c.len() > 0) by { if !ends0(lam) { assert(lam =~= c); } }
    assert(c[0] >= c[c.len() - 1]);
    assert(c[c.len() - 1] >= 0);
    let t = slice(c, 1, c.len() as int);
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] == c[i + 1] by {}
    assert(is_part(t));
    assert(!ends0(t)) by { if t.len() > 0 { assert(t.last() == c.last()); } }
    if t.len() > 0 { assert(c[0] >= c[1]); }
    assert(kstrict(t, k));
    assert(in_box(t, k, m, w));
    lemma_clip_id(t);
    let p = g_first(lam, k);
    let v = specl(p);
    let one = seq![c[0]];
    assert(in_box(one, k, m, w));
    lemma_clip_id(one);
    if lam.last() == 0 {
        assert(ends0(lam));
        assert(lam =~= c.push(0));
        if lam[0] == k {
            assert(v =~= one.push(0));
            lemma_clip_push0(one);
            assert(one[0] == k);
            assert(one.contains(k));
            assert(box_s(v, s));
        } else { assert(v =~= one); }
        let r = g_rest(lam, k);
        if lam[1] < k {
            assert(r =~= t);
        } else {
            assert(r =~= t.push(0));
            lemma_clip_push0(t);
            assert(t.contains(k)) by {
                if c[0] == k { assert(c.len() > 1); assert(c[1] <= c[0]); assert(t[0] == k); }
                else { lemma_tail_contains(c, k); }
            }
        }
    } else {
        assert(!ends0(lam)) by { if lam.len() > 0 { assert(lam[lam.len() - 1] == lam.last()); } }
        assert(lam =~= c);
        assert(v =~= one);
        assert(g_rest(lam, k) =~= t);
    }
}
pub proof fn lemma_clip_id(x: Seq<int>)
    requires !ends0(x)
    ensures clip(x) =~= x
{ assert(is_clip(x, x)) by { assert(x.subrange(0, x.len() as int) =~= x); } lemma_clip_unique(x, x); }
pub proof fn lemma_clip_push0(x: Seq<int>)
    requires !ends0(x)
    ensures clip(x.push(0)) =~= x
{ assert(is_clip(x.push(0), x)) by { assert(x.push(0).subrange(0, x.len() as int) =~= x); } lemma_clip_unique(x.push(0), x); }

pub open spec fn unit() -> Seq<Term> { fs_one(Seq::<int>::empty()) }
pub open spec fn stands_for(e: Seq<Term>, x: Seq<int>, f: Op, s: Space) -> bool { poly_in(e, s) && fs_same(ev(e, f, unit()), fs_one(x)) && hm(e, mw(), dq(s), sum_seq(x)) }
pub proof fn lemma_giam(a: Seq<Term>, b: Seq<Term>, r: Seq<Term>, g: spec_fn(Seq<int>) -> Seq<Term>, lam: Seq<int>, p: int, rest: Seq<int>, f: Op, s: Space)
    requires is_space(s), shut(f, s), comm(f, s), sp_num(p, s), box_s(rest, s), stands_for(a, rest, f, s), sum_seq(lam) == iabs(p) + sum_seq(rest),
        b == fs_apply(g, fs_sub(f(p, rest), fs_one(lam))),
        forall|x: Seq<int>| #[trigger] fs_nonzero(fs_sub(f(p, rest), fs_one(lam)), x) ==> stands_for(g(x), x, f, s),
        r == fs_norm(fs_sub(p_times(specl(p), a), b)),
    ensures stands_for(r, lam, f, s)
{
    let stuff = fs_sub(f(p, rest), fs_one(lam));
    let ns = fs_norm(stuff);
    let ac = act_of(f, unit());
    let u = fs_apply(g, ns);
    let pt = p_times(specl(p), a);
    lemma_unit_in(s);
    lemma_fs_norm(stuff);
    lemma_same_sym(ns, stuff);
    lemma_fs_apply_same(g, stuff, ns);
    assert(poly_in(u, s)) by {
        assert forall|m: Seq<int>| #[trigger] fs_has(u, m) implies mon_in(m, s) by { let y = has_apply(g, ns, m); assert(fs_nonzero(stuff, y)); assert(fs_has(g(y), m)); }
    }
    lemma_times(a, p, f, unit(), s);
    // the monomials that occur
    let d = fs_sub(pt, b);
    lemma_fs_norm(d);
    assert forall|m: Seq<int>| #[trigger] fs_has(r, m) implies mon_in(m, s) by {
        let e = choose|e: Exp| #[trigger] fs_coef(d, m, e) != 0real;
        fs_coef_sub(pt, b, m, e);
        assert(fs_coef(b, m, e) == fs_coef(u, m, e));
        if fs_coef(pt, m, e) != 0real { assert(fs_nonzero(pt, m)); lemma_support_has(pt, m); }
        else { assert(fs_coef(u, m, e) != 0real); assert(fs_nonzero(u, m)); lemma_support_has(u, m); }
    }
    // the degree
    let dd = dq(s);
    assert(shut_at(f, p, rest, s));
    lemma_hm_one(lam, cw(), dd);
    lemma_hm_add(f(p, rest), fs_one(lam), cw(), dd, sum_seq(lam));
    assert forall|x: Seq<int>| #[trigger] fs_nonzero(stuff, x) implies hm(g(x), mw(), dd, cw()(x)) by { assert(stands_for(g(x), x, f, s)); }
    lemma_hm_apply(g, stuff, cw(), mw(), dd, sum_seq(lam));
    lemma_sp_num(p, s);
    lemma_hm_times(a, p, dd, sum_seq(rest));
    lemma_hm_add(pt, b, mw(), dd, sum_seq(lam));
    lemma_same_sym(r, d);
    lemma_hm_same(d, r, mw(), dd, sum_seq(lam));
    // the value
    lemma_fs_apply_same(ac, r, d);
    lemma_fs_apply_sub(ac, pt, b);
    lemma_fs_apply_same(ac, b, u);
    lemma_fs_comp(ac, g, ns);
    assert forall|x: Seq<int>| #[trigger] fs_has(ns, x) implies fs_same(comp(ac, g)(x), fones()(x)) by { assert(fs_nonzero(stuff, x)); }
    lemma_fs_point(comp(ac, g), fones(), ns);
    lemma_fs_apply_ones(ns);
    lemma_fs_apply_same(op(f, p), ev(a, f, unit()), fs_one(rest));
    lemma_fs_apply_one(op(f, p), rest);
    assert forall|l: Seq<int>, e: Exp| #[trigger] fs_coef(ev(r, f, unit()), l, e) == fs_coef(fs_one(lam), l, e) by {
        assert(fs_coef(fs_apply(ac, r), l, e) == fs_coef(fs_apply(ac, d), l, e));
        assert(fs_coef(fs_apply(ac, d), l, e) == fs_coef(fs_sub(fs_apply(ac, pt), fs_apply(ac, b)), l, e));
        fs_coef_sub(fs_apply(ac, pt), fs_apply(ac, b), l, e);
        assert(fs_coef(fs_apply(ac, b), l, e) == fs_coef(fs_apply(ac, u), l, e));
        assert(fs_coef(fs_apply(ac, u), l, e) == fs_coef(fs_apply(comp(ac, g), ns), l, e));
        assert(fs_coef(fs_apply(comp(ac, g), ns), l, e) == fs_coef(fs_apply(fones(), ns), l, e));
        assert(fs_coef(fs_apply(fones(), ns), l, e) == fs_coef(ns, l, e));
        assert(fs_coef(ns, l, e) == fs_coef(stuff, l, e));
        fs_coef_sub(f(p, rest), fs_one(lam), l, e);
        assert(fs_coef(ev(pt, f, unit()), l, e) == fs_coef(fs_apply(op(f, p), ev(a, f, unit())), l, e));
        assert(fs_coef(fs_apply(op(f, p), ev(a, f, unit())), l, e) == fs_coef(fs_apply(op(f, p), fs_one(rest)), l, e));
        assert(fs_coef(fs_apply(op(f, p), fs_one(rest)), l, e) == fs_coef(f(p, rest), l, e));
    }
}
pub proof fn lemma_unit_in(s: Space)
    requires is_space(s)
    ensures all_in(unit(), s), box_s(Seq::<int>::empty(), s)
{
    broadcast use group_has;
    lemma_kinds(s);
    let v = Seq::<int>::empty();
    lemma_clip_id(v);
    assert forall|x: Seq<int>| #[trigger] fs_has(unit(), x) implies box_s(x, s) by { assert(x == v); }
}
// the value of S_p times a polynomial
pub proof fn lemma_times(a: Seq<Term>, p: int, f: Op, x: Seq<Term>, s: Space)
    requires is_space(s), shut(f, s), comm(f, s), poly_in(a, s), sp_num(p, s), all_in(x, s)
    ensures poly_in(p_times(specl(p), a), s), fs_same(ev(p_times(specl(p), a), f, x), fs_apply(op(f, p), ev(a, f, x)))
{
    lemma_sp_num(p, s);
    let g = act_of(f, x);
    let ins = |m: Seq<int>| minsert(m, p);
    let pt = p_times(specl(p), a);
    assert(pt =~= fs_map(ins, a)) by { assert forall|i: int| 0 <= i < a.len() implies pt[i] == fs_map(ins, a)[i] by {} }
    assert forall|m: Seq<int>| #[trigger] fs_has(pt, m) implies mon_in(m, s) by {
        let y = has_map(ins, a, m);
        lemma_minsert(y, p);
        lemma_mon_in_has(y, m, p, s);
    }
    lemma_fs_apply_fsmap(g, ins, a);
    let gi = |m: Seq<int>| g(ins(m));
    lemma_fs_comp(op(f, p), g, a);
    assert forall|m: Seq<int>| #[trigger] fs_has(a, m) implies fs_same(gi(m), comp(op(f, p), g)(m)) by { lemma_mon_ins(m, p, f, x, s); }
    lemma_fs_point(gi, comp(op(f, p), g), a);
    lemma_same_sym(fs_apply(op(f, p), ev(a, f, x)), fs_apply(comp(op(f, p), g), a));
    lemma_same_trans(ev(pt, f, x), fs_apply(comp(op(f, p), g), a), fs_apply(op(f, p), ev(a, f, x)));
}
pub open spec fn giam_of(s: Space, f: Op, k: int) -> spec_fn(Seq<int>) -> Seq<Term> { |x: Seq<int>| giam(s, x, f, k) }
//# fn schubertpy/abstract_grassmannian.py::AbstractGrassmannian.giambelli_rec_inner(self_: SPACE, lam: L, pieri: FN2, k: I) -> P
//# vars p lam0 stuff a b res
//# types p: I, lam0: L, stuff: FS, a: P, b: P, res: P
//# fun giam
//# attr #[verifier::exec_allows_no_decreases_clause]
requires is_space(self_), k == self_._k, good(pieri, self_), comm(pieri, self_), box_s(lam, self_)
ensures stands_for(result, lam, pieri, self_)
//# hint entry
let ghost lamx = lam;
lemma_unit_in(self_);
if lam.len() > 0 {
    if is_D(self_) { lemma_g_d(lam, self_); } else { lemma_g_plain(lam, self_); }
    lemma_g_sum(lam, k);
    assert(sp_num(g_first(lam, k), self_) && box_s(g_rest(lam, k), self_));
    assert(fdom(pieri, g_first(lam, k), g_rest(lam, k)));
    lemma_sp_num(g_first(lam, k), self_);
    lemma_stuff_in(pieri, g_first(lam, k), g_rest(lam, k), lam, self_);
}
//# hint return
if lam.len() == 0 { lemma_one_poly(result, pieri, self_); } else {
    let g = giam_of(self_, pieri, k);
    let st = fs_sub(pieri(p, lam0), fs_one(lamx));
    assert forall|x: Seq<int>| #[trigger] fs_nonzero(st, x) implies stands_for(g(x), x, pieri, self_) by {
        lemma_support_has(st, x);
        lemma_stuff_in(pieri, p, lam0, lamx, self_);
        axiom_giam(self_, x, pieri, k);
    }
    lemma_giam(a, b, result, g, lamx, p, lam0, pieri, self_);
}
//# end
pub proof fn lemma_one_poly(e: Seq<Term>, f: Op, s: Space)
    requires e == fs_const(1), is_space(s)
    ensures stands_for(e, Seq::<int>::empty(), f, s)
{
    let m = Seq::<int>::empty();
    assert(e == fs_one(m));
    lemma_hm_one(m, mw(), dq(s));
    lemma_fs_apply_one(act_of(f, unit()), m);
    assert forall|x: Seq<int>| #[trigger] fs_has(e, x) implies mon_in(x, s) by { has_term(1real, m, x); }
}
pub proof fn lemma_stuff_in(f: Op, p: int, rest: Seq<int>, lam: Seq<int>, s: Space)
    requires shut(f, s), sp_num(p, s), box_s(rest, s), box_s(lam, s)
    ensures all_in(fs_sub(f(p, rest), fs_one(lam)), s)
{
    broadcast use group_has;
    assert(shut_at(f, p, rest, s));
}
//# fn schubertpy/abstract_grassmannian.py::AbstractGrassmannian.giambelli_rec(self_: SPACE, lc: FS, pieri: FN2, k: I) -> P
//# attr #[verifier::exec_allows_no_decreases_clause]
requires is_space(self_), k == self_._k, good(pieri, self_), comm(pieri, self_), all_in(lc, self_)
ensures result == fs_apply(giam_of(self_, pieri, k), lc)
//# hint return
lemma_fs_apply_ext(giam_of(self_, pieri, k), |x: Seq<int>| giam(self_, x, pieri, k), lc);
//# end

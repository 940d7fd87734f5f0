//# unit lin
//# use partition fsalg
// ---- symbolic expressions: the trees sympy shows through is_Add, is_Mul, is_Pow, args, func; the symbol of a class; integers; anything else
pub ghost enum Node { Sum(Seq<Node>), Prod(Seq<Node>), Power(Seq<Node>), Cls(Seq<int>), Int(int), Atom(int) }
// what LinearCombination(...) is given and what functions on classes return
pub ghost enum Arg { Lst(Seq<int>), Sch(Seq<int>), Text(Seq<char>), Expr(Node), Lc(Node), Int(int), Other }
pub open spec fn nargs(e: Node) -> Seq<Node> { match e { Node::Sum(a) => a, Node::Prod(a) => a, Node::Power(a) => a, _ => Seq::<Node>::empty() } }
pub open spec fn like(e: Node, a: Seq<Node>) -> Node { match e { Node::Sum(_) => Node::Sum(a), Node::Prod(_) => Node::Prod(a), Node::Power(_) => Node::Power(a), _ => e } }
pub open spec fn anode(a: Arg) -> Node { match a { Arg::Lst(p) => Node::Cls(p), Arg::Sch(p) => Node::Cls(p), Arg::Text(t) => ptree(untext(t)), Arg::Expr(n) => n, Arg::Lc(n) => n, Arg::Int(i) => Node::Int(i), Arg::Other => Node::Int(0) } }
pub open spec fn arg_list(a: Arg) -> Seq<int> { match a { Arg::Lst(p) => p, Arg::Sch(p) => p, _ => Seq::<int>::empty() } }
pub type Fn1 = spec_fn(Seq<int>) -> Arg;
pub uninterp spec fn fdom1(f: Fn1, x: Seq<int>) -> bool;

// ---- sympy: algebraic equality is a congruence; rebuilding, expanding, reading keep the algebraic value
pub uninterp spec fn eqv(a: Node, b: Node) -> bool;
pub uninterp spec fn rebuild(e: Node, a: Seq<Node>) -> Node;
pub uninterp spec fn expanded(e: Node) -> Node;
#[verifier::external_body]
pub broadcast proof fn axiom_eqv_refl(a: Node)
    ensures #[trigger] eqv(a, a)
{ }
#[verifier::external_body]
pub broadcast proof fn axiom_eqv_trans(a: Node, b: Node, c: Node)
    requires #[trigger] eqv(a, b), #[trigger] eqv(b, c)
    ensures eqv(a, c)
{ }
#[verifier::external_body]
pub proof fn axiom_eqv_sym(a: Node, b: Node)
    requires eqv(a, b)
    ensures eqv(b, a)
{ }
#[verifier::external_body]
pub proof fn axiom_eqv_cong(e: Node, a: Seq<Node>, b: Seq<Node>)
    requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> eqv(#[trigger] a[i], b[i])
    ensures eqv(like(e, a), like(e, b))
{ }
#[verifier::external_body]
pub proof fn axiom_rebuild(e: Node, a: Seq<Node>)
    ensures eqv(rebuild(e, a), like(e, a))
{ }
#[verifier::external_body]
pub proof fn axiom_expand(e: Node)
    ensures eqv(expanded(e), e)
{ }
// texts: sstr is what str(e) prints, ptree what sp.parse_expr reads; reading a text as a linear combination
pub uninterp spec fn sstr(e: Node) -> Seq<char>;
pub uninterp spec fn ptree(t: Seq<char>) -> Node;
pub open spec fn haschar(t: Seq<char>, c: char) -> bool { exists|i: int| 0 <= i < t.len() && #[trigger] t[i] == c }
pub open spec fn plain(t: Seq<char>) -> bool { forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] != '[' && t[i] != ',' && t[i] != ']' && t[i] != '^' }
pub open spec fn untext(t: Seq<char>) -> Seq<char> { ttr(seq!['[', ',', ']'], seq!['f', 'j', 'g'], treplace(t, seq!['^'], seq!['*', '*'])) }
#[verifier::external_body]
pub proof fn axiom_print(e: Node)
    ensures plain(sstr(e)), eqv(ptree(sstr(e)), e)
{ }
// a text without the character that is replaced stays as it is
pub proof fn lemma_replace_none(t: Seq<char>, a: char, b: Seq<char>)
    requires forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] != a
    ensures treplace(t, seq![a], b) =~= t
    decreases t.len()
{
    if t.len() >= 1 {
        assert(t[0] != a);
        assert(!(t.subrange(0, 1) =~= seq![a])) by { if t.subrange(0, 1) =~= seq![a] { assert(t.subrange(0, 1)[0] == a); } }
        let r = t.subrange(1, t.len() as int);
        assert forall|i: int| 0 <= i < r.len() implies #[trigger] r[i] != a by { assert(r[i] == t[i + 1]); }
        lemma_replace_none(r, a, b);
    }
}
pub proof fn lemma_ttr_none(a: Seq<char>, b: Seq<char>, t: Seq<char>)
    requires forall|i: int| 0 <= i < t.len() ==> !a.contains(#[trigger] t[i])
    ensures ttr(a, b, t) =~= t
{
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] ttr(a, b, t)[i] == t[i] by { lemma_tr1_none(a, b, t[i], a.len() as int); }
}
pub proof fn lemma_tr1_none(a: Seq<char>, b: Seq<char>, c: char, n: int)
    requires 0 <= n <= a.len(), !a.contains(c)
    ensures tr1(a, b, n, c) == c
    decreases n
{ if n > 0 { assert(a.contains(a[n - 1])); lemma_tr1_none(a, b, c, n - 1); } }
pub proof fn lemma_untext_plain(t: Seq<char>)
    requires plain(t)
    ensures untext(t) =~= t
{
    lemma_replace_none(t, '^', seq!['*', '*']);
    let a = seq!['[', ',', ']'];
    assert forall|i: int| 0 <= i < t.len() implies !a.contains(#[trigger] t[i]) by { assert(t[i] != a[0] && t[i] != a[1] && t[i] != a[2]); }
    lemma_ttr_none(a, seq!['f', 'j', 'g'], t);
}
pub broadcast proof fn lemma_parse(e: Node)
    ensures eqv(ptree(untext(#[trigger] sstr(e))), e)
{ axiom_print(e); lemma_untext_plain(sstr(e)); }

// ---- substitution of f(x) for every class x
pub open spec fn subst(f: Fn1, e: Node) -> Node
    decreases e, nargs(e).len() + 1
{ match e { Node::Cls(x) => anode(f(x)), Node::Int(_) => e, Node::Atom(_) => e, _ => like(e, slist(f, e, nargs(e).len() as int)) } }
pub open spec fn slist(f: Fn1, e: Node, n: int) -> Seq<Node>
    decreases e, n
{ if n <= 0 || n > nargs(e).len() { Seq::empty() } else { slist(f, e, n - 1).push(subst(f, nargs(e)[n - 1])) } }
proof fn lemma_slist(f: Fn1, e: Node, n: int)
    requires 0 <= n <= nargs(e).len()
    ensures slist(f, e, n).len() == n, forall|i: int| 0 <= i < n ==> #[trigger] slist(f, e, n)[i] == subst(f, nargs(e)[i])
    decreases n
{ if n > 0 { lemma_slist(f, e, n - 1); } }
// the classes in an expression
pub open spec fn occ(e: Node, x: Seq<int>) -> bool
    decreases e
{ match e { Node::Cls(y) => x == y, Node::Int(_) => false, Node::Atom(_) => false, _ => exists|i: int| 0 <= i < nargs(e).len() && occ(#[trigger] nargs(e)[i], x) } }

// ---- what LinearCombination(a) holds
pub open spec fn readable(a: Arg) -> bool { !(a is Other) && (a is Lst ==> is_part(a->Lst_0)) }
pub open spec fn read(a: Arg) -> Node { anode(a) }
// a function on classes as apply takes it, as apply2 takes it
pub open spec fn gives(a: Arg) -> bool { a is Sch || a is Lc || a is Expr || a is Int }

// ---- linear combinations of classes: sums of linear combinations, products of one with expressions without classes, 0
pub open spec fn free(e: Node) -> bool { forall|x: Seq<int>| !(#[trigger] occ(e, x)) }
pub open spec fn zf(e: Node) -> bool
    decreases e
{ match e { Node::Int(i) => i == 0, Node::Sum(a) => forall|i: int| 0 <= i < a.len() ==> zf(#[trigger] a[i]), Node::Prod(a) => free(e) && exists|i: int| 0 <= i < a.len() && zf(#[trigger] a[i]), _ => false } }
// numbers (rational) and polynomials in the quantum parameters
pub uninterp spec fn pol(e: Node) -> bool;
pub open spec fn only(a: Seq<Node>, w: int) -> bool { 0 <= w < a.len() && !free(a[w]) && forall|i: int| 0 <= i < a.len() && i != w ==> free(#[trigger] a[i]) && pol(a[i]) }
pub open spec fn pick(a: Seq<Node>) -> int { choose|w: int| only(a, w) }
pub open spec fn lin(e: Node) -> bool
    decreases e
{
    zf(e) || match e {
        Node::Cls(_) => true,
        Node::Sum(a) => forall|i: int| 0 <= i < a.len() ==> lin(#[trigger] a[i]),
        Node::Prod(a) => only(a, pick(a)) && lin(a[pick(a)]),
        _ => false,
    }
}
// the value of an expression without classes: a polynomial in the quantum parameters
pub uninterp spec fn sval(e: Node) -> Seq<Scal>;
pub open spec fn lmul(a: Seq<Node>, v: Seq<Term>) -> Seq<Term>
    decreases a.len()
{ if a.len() == 0 { v } else { fs_mul(sval(a.last()), lmul(a.drop_last(), v)) } }
pub open spec fn rest(a: Seq<Node>, w: int) -> Seq<Node> { a.subrange(0, w) + a.subrange(w + 1, a.len() as int) }
// the value of a linear combination
pub open spec fn lval(e: Node) -> Seq<Term>
    decreases e, nargs(e).len() + 1
{
    if zf(e) { fs_zero() } else { match e {
        Node::Cls(x) => fs_one(x),
        Node::Sum(a) => lsum(e, a.len() as int),
        Node::Prod(a) => if only(a, pick(a)) { lmul(rest(a, pick(a)), lval(a[pick(a)])) } else { fs_zero() },
        _ => fs_zero(),
    } }
}
pub open spec fn lsum(e: Node, n: int) -> Seq<Term>
    decreases e, n
{ if n <= 0 || n > nargs(e).len() { fs_zero() } else { fs_add(lsum(e, n - 1), lval(nargs(e)[n - 1])) } }
// sympy: algebraically equal linear combinations have equal coefficients
#[verifier::external_body]
pub proof fn axiom_eqv_lin(a: Node, b: Node)
    requires eqv(a, b), lin(a), lin(b)
    ensures fs_same(lval(a), lval(b))
{ }
// the value of an expression that is algebraically a linear combination (by axiom_eqv_lin there is one)
pub open spec fn has_value(e: Node, v: Seq<Term>) -> bool { exists|b: Node| #[trigger] eqv(e, b) && lin(b) && fs_same(lval(b), v) }
pub open spec fn lf(f: Fn1) -> spec_fn(Seq<int>) -> Seq<Term> { |x: Seq<int>| lval(anode(f(x))) }
pub open spec fn lin_on(f: Fn1, e: Node) -> bool { forall|x: Seq<int>| #[trigger] occ(e, x) ==> lin(anode(f(x))) }

proof fn lemma_mul_same(s: Seq<Scal>, a: Seq<Term>, b: Seq<Term>)
    requires fs_same(a, b)
    ensures fs_same(fs_mul(s, a), fs_mul(s, b))
    decreases s.len()
{
    if s.len() > 0 {
        lemma_mul_same(s.drop_last(), a, b);
        lemma_same_shift(s.last(), a, b);
        lemma_same_add(fs_mul(s.drop_last(), a), fs_mul(s.drop_last(), b), fs_shift(s.last(), a), fs_shift(s.last(), b));
    }
}
proof fn lemma_lmul_same(r: Seq<Node>, a: Seq<Term>, b: Seq<Term>)
    requires fs_same(a, b)
    ensures fs_same(lmul(r, a), lmul(r, b))
    decreases r.len()
{ if r.len() > 0 { lemma_lmul_same(r.drop_last(), a, b); lemma_mul_same(sval(r.last()), lmul(r.drop_last(), a), lmul(r.drop_last(), b)); } }
proof fn lemma_apply_mul(g: spec_fn(Seq<int>) -> Seq<Term>, s: Seq<Scal>, a: Seq<Term>)
    ensures fs_same(fs_apply(g, fs_mul(s, a)), fs_mul(s, fs_apply(g, a)))
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        lemma_apply_mul(g, t, a);
        lemma_fs_apply_shift(g, s.last(), a);
        lemma_fs_apply_add(g, fs_mul(t, a), fs_shift(s.last(), a));
        lemma_same_add(fs_apply(g, fs_mul(t, a)), fs_mul(t, fs_apply(g, a)), fs_apply(g, fs_shift(s.last(), a)), fs_shift(s.last(), fs_apply(g, a)));
        lemma_same_trans(fs_apply(g, fs_mul(s, a)), fs_add(fs_apply(g, fs_mul(t, a)), fs_apply(g, fs_shift(s.last(), a))), fs_mul(s, fs_apply(g, a)));
    }
}
proof fn lemma_apply_lmul(g: spec_fn(Seq<int>) -> Seq<Term>, r: Seq<Node>, a: Seq<Term>)
    ensures fs_same(fs_apply(g, lmul(r, a)), lmul(r, fs_apply(g, a)))
    decreases r.len()
{
    if r.len() > 0 {
        let t = r.drop_last();
        let s = sval(r.last());
        lemma_apply_lmul(g, t, a);
        lemma_apply_mul(g, s, lmul(t, a));
        lemma_mul_same(s, fs_apply(g, lmul(t, a)), lmul(t, fs_apply(g, a)));
        lemma_same_trans(fs_apply(g, lmul(r, a)), fs_mul(s, fs_apply(g, lmul(t, a))), lmul(r, fs_apply(g, a)));
    }
}
proof fn lemma_mul_empty(s: Seq<Scal>)
    ensures fs_mul(s, fs_zero()) =~= fs_zero()
    decreases s.len()
{ if s.len() > 0 { lemma_mul_empty(s.drop_last()); assert(fs_shift(s.last(), fs_zero()) =~= fs_zero()); } }
proof fn lemma_lmul_empty(r: Seq<Node>)
    ensures lmul(r, fs_zero()) =~= fs_zero()
    decreases r.len()
{ if r.len() > 0 { lemma_lmul_empty(r.drop_last()); lemma_mul_empty(sval(r.last())); } }
// without classes nothing changes
proof fn lemma_subst_free(f: Fn1, e: Node)
    requires free(e)
    ensures subst(f, e) == e
    decreases e
{
    match e {
        Node::Cls(y) => { assert(occ(e, y)); }
        Node::Int(_) => {} Node::Atom(_) => {}
        _ => {
            let n = nargs(e).len() as int;
            lemma_slist(f, e, n);
            assert forall|i: int| 0 <= i < n implies slist(f, e, n)[i] == #[trigger] nargs(e)[i] by {
                assert forall|x: Seq<int>| !(#[trigger] occ(nargs(e)[i], x)) by { if occ(nargs(e)[i], x) { assert(occ(e, x)); } }
                lemma_subst_free(f, nargs(e)[i]);
            }
            assert(slist(f, e, n) =~= nargs(e));
        }
    }
}
proof fn lemma_zf_free(e: Node)
    requires zf(e)
    ensures free(e)
    decreases e
{
    if e is Sum {
        assert forall|x: Seq<int>| !(#[trigger] occ(e, x)) by {
            if occ(e, x) {
                let i = choose|i: int| 0 <= i < nargs(e).len() && occ(#[trigger] nargs(e)[i], x);
                lemma_zf_free(nargs(e)[i]);
            }
        }
    }
}
proof fn lemma_lin_free(e: Node)
    requires lin(e), free(e)
    ensures zf(e)
    decreases e
{
    if !zf(e) {
        match e {
            Node::Cls(y) => { assert(occ(e, y)); }
            Node::Sum(a) => {
                assert forall|i: int| 0 <= i < a.len() implies zf(#[trigger] a[i]) by {
                    assert forall|x: Seq<int>| !(#[trigger] occ(a[i], x)) by { if occ(a[i], x) { assert(occ(nargs(e)[i], x)); assert(occ(e, x)); } }
                    lemma_lin_free(a[i]);
                }
            }
            Node::Prod(a) => {
                let w = pick(a);
                let x = choose|x: Seq<int>| occ(a[w], x);
                assert(occ(nargs(e)[w], x));
                assert(occ(e, x));
            }
            _ => {}
        }
    }
}
proof fn lemma_only(a: Seq<Node>, w: int)
    requires only(a, w)
    ensures pick(a) == w, only(a, pick(a))
{ let p = pick(a); if p != w { assert(free(a[w])); } }
proof fn lemma_lsum_zero(e: Node, n: int)
    requires forall|i: int| 0 <= i < nargs(e).len() ==> zf(#[trigger] nargs(e)[i])
    ensures lsum(e, n) =~= fs_zero()
    decreases n
{ if n > 0 && n <= nargs(e).len() { lemma_lsum_zero(e, n - 1); assert(zf(nargs(e)[n - 1])); assert(lval(nargs(e)[n - 1]) == fs_zero()); assert(fs_zero() + fs_zero() =~= fs_zero()); } }
proof fn lemma_lin_sum(f: Fn1, e: Node, n: int)
    requires e is Sum, 0 <= n <= nargs(e).len(), forall|i: int| 0 <= i < nargs(e).len() ==> fs_same(#[trigger] lval(subst(f, nargs(e)[i])), fs_apply(lf(f), lval(nargs(e)[i])))
    ensures fs_same(lsum(subst(f, e), n), fs_apply(lf(f), lsum(e, n)))
    decreases n
{
    let a = nargs(e);
    let d = subst(f, e);
    lemma_slist(f, e, a.len() as int);
    if n > 0 {
        lemma_lin_sum(f, e, n - 1);
        assert(nargs(d)[n - 1] == subst(f, a[n - 1]));
        assert(fs_same(lval(subst(f, a[n - 1])), fs_apply(lf(f), lval(a[n - 1]))));
        lemma_fs_apply_add(lf(f), lsum(e, n - 1), lval(a[n - 1]));
        lemma_same_add(lsum(d, n - 1), fs_apply(lf(f), lsum(e, n - 1)), lval(nargs(d)[n - 1]), fs_apply(lf(f), lval(a[n - 1])));
        lemma_same_sym(fs_apply(lf(f), lsum(e, n)), fs_add(fs_apply(lf(f), lsum(e, n - 1)), fs_apply(lf(f), lval(a[n - 1]))));
        lemma_same_trans(lsum(d, n), fs_add(fs_apply(lf(f), lsum(e, n - 1)), fs_apply(lf(f), lval(a[n - 1]))), fs_apply(lf(f), lsum(e, n)));
    }
}
// substitution in a linear combination is the linear extension of f
pub proof fn lemma_lin(f: Fn1, e: Node)
    requires lin(e), lin_on(f, e)
    ensures lin(subst(f, e)), fs_same(lval(subst(f, e)), fs_apply(lf(f), lval(e)))
    decreases e
{
    let g = lf(f);
    let d = subst(f, e);
    if zf(e) {
        lemma_zf_free(e);
        lemma_subst_free(f, e);
    } else {
        match e {
            Node::Cls(x) => { assert(occ(e, x)); lemma_fs_apply_one(g, x); assert(g(x) == lval(d)); }
            Node::Sum(a) => {
                lemma_slist(f, e, a.len() as int);
                assert forall|i: int| 0 <= i < nargs(e).len() implies lin(subst(f, nargs(e)[i])) && fs_same(#[trigger] lval(subst(f, nargs(e)[i])), fs_apply(g, lval(nargs(e)[i]))) by {
                    assert(nargs(e)[i] == a[i]);
                    assert(lin(a[i]));
                    assert forall|x: Seq<int>| #[trigger] occ(a[i], x) implies lin(anode(f(x))) by { assert(occ(nargs(e)[i], x)); assert(occ(e, x)); }
                    lemma_lin(f, a[i]);
                }
                lemma_lin_sum(f, e, a.len() as int);
                assert forall|i: int| 0 <= i < nargs(d).len() implies lin(#[trigger] nargs(d)[i]) by { assert(nargs(d)[i] == subst(f, nargs(e)[i])); assert(fs_same(lval(subst(f, nargs(e)[i])), fs_apply(g, lval(nargs(e)[i])))); }
                assert(d is Sum);
                if zf(d) { lemma_lsum_zero(d, a.len() as int); }
            }
            Node::Prod(a) => {
                let w = pick(a);
                let b = slist(f, e, a.len() as int);
                lemma_slist(f, e, a.len() as int);
                assert(d == Node::Prod(b));
                assert forall|x: Seq<int>| #[trigger] occ(a[w], x) implies lin(anode(f(x))) by { assert(occ(nargs(e)[w], x)); assert(occ(e, x)); }
                lemma_lin(f, a[w]);
                assert(b[w] == subst(f, a[w]));
                assert forall|i: int| 0 <= i < a.len() && i != w implies b[i] == a[i] && free(#[trigger] b[i]) by { assert(free(a[i])); lemma_subst_free(f, a[i]); assert(b[i] == subst(f, nargs(e)[i])); }
                let r = rest(a, w);
                assert(rest(b, w) =~= r);
                let v = lval(a[w]);
                lemma_apply_lmul(g, r, v);
                lemma_lmul_same(r, lval(b[w]), fs_apply(g, v));
                lemma_same_sym(fs_apply(g, lmul(r, v)), lmul(r, fs_apply(g, v)));
                lemma_same_trans(lmul(r, lval(b[w])), lmul(r, fs_apply(g, v)), fs_apply(g, lmul(r, v)));
                if free(b[w]) {
                    lemma_lin_free(b[w]);
                    lemma_lmul_empty(r);
                    assert forall|x: Seq<int>| !(#[trigger] occ(d, x)) by {
                        if occ(d, x) { let i = choose|i: int| 0 <= i < nargs(d).len() && occ(#[trigger] nargs(d)[i], x); assert(nargs(d)[i] == b[i]); assert(free(b[i])); }
                    }
                    assert(zf(d));
                } else {
                    assert(only(b, w));
                    lemma_only(b, w);
                    if zf(d) { let x = choose|x: Seq<int>| occ(b[w], x); assert(occ(nargs(d)[w], x)); assert(occ(d, x)); }
                }
            }
            _ => {}
        }
    }
}
// C11: the result of apply / apply2 / apply_lc on a linear combination has the value of the linear extension of f
pub proof fn theorem_linear(f: Fn1, e: Node, r: Node)
    requires lin(e), lin_on(f, e), eqv(r, subst(f, e))
    ensures has_value(r, fs_apply(lf(f), lval(e)))
{ lemma_lin(f, e); assert(eqv(r, subst(f, e))); }
pub proof fn theorem_value(r: Node, v: Seq<Term>, w: Seq<Term>)
    requires has_value(r, v), has_value(r, w)
    ensures fs_same(v, w)
{
    let a = choose|b: Node| #[trigger] eqv(r, b) && lin(b) && fs_same(lval(b), v);
    let b = choose|b: Node| #[trigger] eqv(r, b) && lin(b) && fs_same(lval(b), w);
    axiom_eqv_sym(r, a);
    axiom_eqv_trans(a, r, b);
    axiom_eqv_lin(a, b);
    lemma_same_sym(lval(a), v);
    lemma_same_trans(v, lval(a), lval(b));
    lemma_same_trans(v, lval(b), w);
}

//# fn schubertpy/lc.py::LinearCombination.__init__(self_: LCO, expr: ARG) -> LCO
//# vars
//# raises
ensures
    (result is Exc) <==> !readable(expr),
    result is Exc ==> result->Exc_0 is ValueError,
    result is Val ==> result->Val_0 == read(expr),
//# end
//# fn schubertpy/lc.py::LinearCombination.apply.recursive_apply(_expr: EX, func: FN1) -> EX
//# looped
//# vars ret1_args arg x ret1 ret2 s res
//# types ret1_args: LEX
requires
    forall|x: Seq<int>| #[trigger] occ(_expr, x) ==> fdom1(func, x) && gives(func(x)),
ensures
    eqv(result, subst(func, _expr)),
decreases _expr
//# hint entry
broadcast use axiom_eqv_trans;
broadcast use axiom_eqv_refl;
broadcast use lemma_parse;
lemma_slist(func, _expr, nargs(_expr).len() as int);
if _expr is Cls { assert(occ(_expr, _expr->Cls_0)); }
let ghost subs = slist(func, _expr, nargs(_expr).len() as int);
//# loop 0
invariant
    ret1_args.len() == it0,
    forall|j: int| 0 <= j < it0 ==> eqv(#[trigger] ret1_args[j], subs[j]),
//# hint loop 0 head
assert(nargs(_expr)[it0 - 1] == arg);
assert forall|y: Seq<int>| #[trigger] occ(arg, y) implies occ(_expr, y) by { assert(occ(nargs(_expr)[it0 - 1], y)); }
//# hint after loop 0
axiom_eqv_cong(_expr, ret1_args, subs);
//# end
//# fn schubertpy/lc.py::LinearCombination.apply(self_: LCO, func: FN1) -> LCO
requires
    forall|x: Seq<int>| #[trigger] occ(self_, x) ==> fdom1(func, x) && gives(func(x)),
ensures
    eqv(result, subst(func, self_)),
//# hint entry
broadcast use axiom_eqv_trans;
broadcast use axiom_eqv_refl;
broadcast use lemma_parse;
//# end
//# fn schubertpy/lc.py::LinearCombination.apply2.recursive_apply(_expr: EX, func: FN1) -> EX
//# looped
//# vars ret1_args arg x ret1 ret2 s res
//# types ret1_args: LEX
requires
    forall|x: Seq<int>| #[trigger] occ(_expr, x) ==> fdom1(func, x) && readable(func(x)),
ensures
    eqv(result, subst(func, _expr)),
decreases _expr
//# hint entry
broadcast use axiom_eqv_trans;
broadcast use axiom_eqv_refl;
broadcast use lemma_parse;
lemma_slist(func, _expr, nargs(_expr).len() as int);
if _expr is Cls { assert(occ(_expr, _expr->Cls_0)); }
let ghost subs = slist(func, _expr, nargs(_expr).len() as int);
//# loop 0
invariant
    ret1_args.len() == it0,
    forall|j: int| 0 <= j < it0 ==> eqv(#[trigger] ret1_args[j], subs[j]),
//# hint loop 0 head
assert(nargs(_expr)[it0 - 1] == arg);
assert forall|y: Seq<int>| #[trigger] occ(arg, y) implies occ(_expr, y) by { assert(occ(nargs(_expr)[it0 - 1], y)); }
//# hint after loop 0
axiom_eqv_cong(_expr, ret1_args, subs);
//# end
//# fn schubertpy/lc.py::LinearCombination.apply2(self_: LCO, func: FN1) -> LCO
requires
    forall|x: Seq<int>| #[trigger] occ(self_, x) ==> fdom1(func, x) && readable(func(x)),
ensures
    eqv(result, subst(func, self_)),
//# hint entry
broadcast use axiom_eqv_trans;
broadcast use axiom_eqv_refl;
broadcast use lemma_parse;
//# end
//# fn schubertpy/qcalc.py::apply_lc(f: FN1, lc: ARG) -> LCO
requires
    readable(lc),
    forall|x: Seq<int>| #[trigger] occ(read(lc), x) ==> fdom1(f, x) && gives(f(x)),
ensures
    eqv(result, subst(f, read(lc))),
//# end

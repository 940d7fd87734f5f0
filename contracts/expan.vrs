//# unit expan
//# use lin
// ---- terms of an expansion: coefficient and partition
pub ghost enum Sx { One((Node, Seq<int>)), Many(Seq<(Node, Seq<int>)>) }
pub uninterp spec fn sy_prod(a: Seq<Node>) -> Node;
pub uninterp spec fn sy_sum(a: Seq<Node>) -> Node;
// sympy: sp.Mul(*a) and sp.Add(*a) have the value of the product and of the sum
#[verifier::external_body]
pub proof fn axiom_build(a: Seq<Node>)
    ensures eqv(sy_prod(a), Node::Prod(a)), eqv(sy_sum(a), Node::Sum(a))
{ }
// laws of sums and products
#[verifier::external_body]
pub proof fn axiom_eqv_insert(a: Seq<Node>, i: int, x: Node)
    requires 0 <= i <= a.len()
    ensures eqv(Node::Sum(a.insert(i, x)), Node::Sum(a.push(x)))
{ }
#[verifier::external_body]
pub proof fn axiom_eqv_push(a: Seq<Node>, b: Seq<Node>, x: Node, y: Node)
    requires eqv(Node::Sum(a), Node::Sum(b)), eqv(x, y)
    ensures eqv(Node::Sum(a.push(x)), Node::Sum(b.push(y)))
{ }
#[verifier::external_body]
pub proof fn axiom_eqv_pull(a: Seq<Node>, w: int)
    requires 0 <= w < a.len()
    ensures eqv(Node::Prod(seq![Node::Prod(rest(a, w)), a[w]]), Node::Prod(a))
{ }
#[verifier::external_body]
pub proof fn axiom_eqv_one(x: Node)
    ensures eqv(Node::Prod(seq![Node::Int(1), x]), x)
{ }
pub uninterp spec fn atomq(i: int) -> bool;
pub open spec fn hasq(e: Node) -> bool
    decreases e
{ match e { Node::Atom(i) => atomq(i), Node::Int(_) => false, Node::Cls(_) => false, _ => exists|i: int| 0 <= i < nargs(e).len() && hasq(#[trigger] nargs(e)[i]) } }
// the letter q is printed exactly for the quantum parameters
#[verifier::external_body]
pub proof fn axiom_q(e: Node)
    ensures haschar(sstr(e), 'q') == hasq(e)
{ }

pub open spec fn iscls(x: Node) -> bool { x is Cls }
pub open spec fn ncls(a: Seq<Node>) -> int { count_where(a, |x: Node| x is Cls) }
// sp.preorder_traversal(e): e and the parts of its arguments
pub open spec fn subtrees(e: Node) -> Seq<Node>
    decreases e, nargs(e).len() + 1
{ seq![e] + subn(e, nargs(e).len()) }
pub open spec fn subn(e: Node, n: nat) -> Seq<Node>
    decreases e, n
{ if n == 0 || n > nargs(e).len() { Seq::empty() } else { subn(e, (n - 1) as nat) + subtrees(nargs(e)[n - 1]) } }
// the number of classes that occur in an expression
pub open spec fn ncl(e: Node) -> int { ncls(subtrees(e)) }
proof fn lemma_ncls_add(a: Seq<Node>, b: Seq<Node>)
    ensures ncls(a + b) == ncls(a) + ncls(b), ncls(b) >= 0
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else { lemma_ncls_add(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); }
}
proof fn lemma_ncl_cls(e: Node)
    ensures e is Cls ==> ncl(e) == 1, ncl(e) >= 0
{
    lemma_ncls_add(Seq::empty(), subtrees(e));
    assert(Seq::<Node>::empty() + subtrees(e) =~= subtrees(e));
    if e is Cls { assert(subtrees(e) =~= seq![e]); assert(seq![e].drop_last() =~= Seq::empty()); assert(ncls(seq![e]) == 1); }
}
// counting factors, counting occurrences; all the other factors
proof fn lemma_subn(e: Node, n: nat)
    requires n <= nargs(e).len()
    ensures ncls(subn(e, n)) >= ncls(nargs(e).take(n as int)),
        forall|w: int| 0 <= w < n ==> ncls(subn(e, n)) >= ncl(#[trigger] nargs(e)[w]),
        forall|w: int, i: int| 0 <= w < n && 0 <= i < n && i != w ==> ncls(subn(e, n)) >= ncl(#[trigger] nargs(e)[w]) + ncl(#[trigger] nargs(e)[i])
    decreases n
{
    let a = nargs(e);
    if n == 0 { assert(a.take(0) =~= Seq::<Node>::empty()); }
    else {
        let m = (n - 1) as nat;
        lemma_subn(e, m);
        lemma_ncls_add(subn(e, m), subtrees(a[n - 1]));
        lemma_ncls_add(Seq::<Node>::empty(), subn(e, m));
        assert(Seq::<Node>::empty() + subn(e, m) =~= subn(e, m));
        assert(a.take(n as int).drop_last() =~= a.take(n - 1));
        lemma_ncl_cls(a[n - 1]);
    }
}
proof fn lemma_occur(e: Node)
    requires !(e is Cls)
    ensures ncl(e) >= ncls(nargs(e)), forall|w: int, i: int| 0 <= w < nargs(e).len() && 0 <= i < nargs(e).len() && i != w ==> ncl(e) >= ncl(#[trigger] nargs(e)[w]) + ncl(#[trigger] nargs(e)[i])
{
    let n = nargs(e).len();
    lemma_subn(e, n);
    lemma_ncls_add(seq![e], subn(e, n));
    assert(seq![e].drop_last() =~= Seq::<Node>::empty());
    assert(seq![e].last() == e && seq![e].len() == 1);
    assert(ncls(seq![e].drop_last()) == 0);
    assert(ncls(seq![e]) == 0);
    assert(nargs(e).take(n as int) =~= nargs(e));
}
// a number, a class, a product in which one class occurs, as a factor
pub open spec fn okterm(e: Node) -> bool { match e { Node::Int(_) => true, Node::Cls(_) => true, Node::Prod(a) => ncls(a) == 1 && ncl(e) == 1, _ => false } }
pub open spec fn termof(e: Node) -> (Node, Seq<int>) {
    match e { Node::Int(n) => (e, Seq::<int>::empty()), Node::Cls(p) => (Node::Int(1), p), Node::Prod(a) => (sy_prod(a.filter(|x: Node| !(x is Cls))), a.filter(|x: Node| x is Cls)[0]->Cls_0), _ => (e, Seq::<int>::empty()) }
}
pub open spec fn tval(t: (Node, Seq<int>)) -> Node { Node::Prod(seq![t.0, Node::Cls(t.1)]) }
// a number n stands for n times the class of the empty partition
pub open spec fn as_class(e: Node) -> Node { match e { Node::Int(n) => Node::Prod(seq![e, Node::Cls(Seq::<int>::empty())]), _ => e } }
// the terms that are listed
pub open spec fn keep(e: Node, q: bool) -> bool { q || !haschar(sstr(e), 'q') }
pub open spec fn kept(a: Seq<Node>, q: bool, n: int) -> Seq<Node>
    decreases n
{ if n <= 0 || n > a.len() { Seq::empty() } else if keep(a[n - 1], q) { kept(a, q, n - 1).push(a[n - 1]) } else { kept(a, q, n - 1) } }
pub open spec fn terms(a: Seq<Node>) -> Seq<(Node, Seq<int>)> { a.map_values(|e: Node| termof(e)) }
pub open spec fn vals(l: Seq<(Node, Seq<int>)>) -> Seq<Node> { l.map_values(|t: (Node, Seq<int>)| tval(t)) }
pub open spec fn classes(a: Seq<Node>) -> Seq<Node> { a.map_values(|e: Node| as_class(e)) }
// sorted(l, key = second component): stable insertion
pub open spec fn xpos(r: Seq<(Node, Seq<int>)>, x: (Node, Seq<int>)) -> int
    decreases r.len()
{ if r.len() == 0 || !llt(x.1, r.last().1) { r.len() as int } else { xpos(r.drop_last(), x) } }
pub open spec fn xsort(l: Seq<(Node, Seq<int>)>) -> Seq<(Node, Seq<int>)>
    decreases l.len()
{ if l.len() == 0 { l } else { let r = xsort(l.drop_last()); r.insert(xpos(r, l.last()), l.last()) } }
pub open spec fn xsorted(r: Seq<(Node, Seq<int>)>) -> bool { forall|i: int, j: int| 0 <= i < j < r.len() ==> !llt(#[trigger] r[j].1, #[trigger] r[i].1) }
proof fn lemma_xpos(r: Seq<(Node, Seq<int>)>, x: (Node, Seq<int>))
    requires xsorted(r)
    ensures ({ let p = xpos(r, x); 0 <= p <= r.len() && (forall|i: int| p <= i < r.len() ==> llt(x.1, #[trigger] r[i].1)) && (forall|i: int| 0 <= i < p ==> !llt(x.1, #[trigger] r[i].1)) })
    decreases r.len()
{
    if r.len() > 0 {
        let d = r.drop_last();
        if llt(x.1, r.last().1) {
            assert forall|i: int, j: int| 0 <= i < j < d.len() implies !llt(#[trigger] d[j].1, #[trigger] d[i].1) by { assert(!llt(r[j].1, r[i].1)); }
            lemma_xpos(d, x);
            let p = xpos(d, x);
            assert forall|i: int| p <= i < r.len() implies llt(x.1, #[trigger] r[i].1) by { if i < d.len() { assert(llt(x.1, d[i].1)); } }
            assert forall|i: int| 0 <= i < p implies !llt(x.1, #[trigger] r[i].1) by { assert(!llt(x.1, d[i].1)); }
        } else {
            assert forall|i: int| 0 <= i < r.len() implies !llt(x.1, #[trigger] r[i].1) by {
                if i < r.len() - 1 && llt(x.1, r[i].1) {
                    assert(!llt(r[r.len() - 1].1, r[i].1));
                    lemma_llt_total(x.1, r.last().1, 0);
                    if llt(r.last().1, x.1) { lemma_llt_trans(r.last().1, x.1, r[i].1); }
                }
            }
        }
    }
}
pub proof fn lemma_xsort(l: Seq<(Node, Seq<int>)>)
    ensures xsorted(xsort(l)), xsort(l).to_multiset() == l.to_multiset(), xsort(l).len() == l.len(), eqv(Node::Sum(vals(xsort(l))), Node::Sum(vals(l)))
    decreases l.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if l.len() == 0 {
        axiom_eqv_refl(Node::Sum(vals(l)));
    } else {
        let d = l.drop_last();
        let x = l.last();
        let r = xsort(d);
        let p = xpos(r, x);
        let s = r.insert(p, x);
        lemma_xsort(d);
        lemma_xpos(r, x);
        assert forall|i: int, j: int| 0 <= i < j < s.len() implies !llt(#[trigger] s[j].1, #[trigger] s[i].1) by {
            if i == p {
                assert(s[j] == r[j - 1]);
                assert(llt(x.1, r[j - 1].1));
                if llt(r[j - 1].1, x.1) { lemma_llt_trans(x.1, r[j - 1].1, x.1); lemma_llt_irr(x.1); }
            } else if j == p {
                assert(s[i] == r[i]);
                assert(!llt(x.1, r[i].1));
            } else {
                let a = if i < p { i } else { i - 1 };
                let b = if j < p { j } else { j - 1 };
                assert(s[i] == r[a] && s[j] == r[b]);
                assert(!llt(r[b].1, r[a].1));
            }
        }
        assert(l =~= d.push(x));
        lemma_insert_multiset(r, p, x);
        let v = vals(r);
        assert(vals(s) =~= v.insert(p, tval(x)));
        axiom_eqv_insert(v, p, tval(x));
        axiom_eqv_refl(tval(x));
        axiom_eqv_push(v, vals(d), tval(x), tval(x));
        assert(vals(l) =~= vals(d).push(tval(x)));
        axiom_eqv_trans(Node::Sum(vals(s)), Node::Sum(v.push(tval(x))), Node::Sum(vals(l)));
    }
}
proof fn lemma_insert_multiset<T>(r: Seq<T>, p: int, x: T)
    requires 0 <= p <= r.len()
    ensures r.insert(p, x).to_multiset() == r.push(x).to_multiset()
    decreases r.len() - p
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if p == r.len() { assert(r.insert(p, x) =~= r.push(x)); }
    else {
        let d = r.drop_last();
        assert(r =~= d.push(r.last()));
        lemma_insert_multiset(d, p, x);
        assert(r.insert(p, x) =~= d.insert(p, x).push(r.last()));
        assert(r.insert(p, x).to_multiset() =~= r.push(x).to_multiset());
    }
}
// the class among the factors of a product
proof fn lemma_none(a: Seq<Node>)
    ensures ncls(a) >= 0, a.filter(|x: Node| x is Cls).len() == ncls(a), ncls(a) == 0 ==> a.filter(|x: Node| !(x is Cls)) =~= a
    decreases a.len()
{
    reveal(Seq::filter);
    if a.len() > 0 {
        let d = a.drop_last();
        lemma_none(d);
        assert(a =~= d.push(a.last()));
    }
}
proof fn lemma_split(a: Seq<Node>) -> (w: int)
    requires ncls(a) == 1
    ensures 0 <= w < a.len(), a[w] is Cls, a.filter(|x: Node| x is Cls) =~= seq![a[w]], a.filter(|x: Node| !(x is Cls)) =~= rest(a, w)
    decreases a.len()
{
    reveal(Seq::filter);
    let d = a.drop_last();
    lemma_none(d);
    assert(a =~= d.push(a.last()));
    if a.last() is Cls {
        assert(rest(a, a.len() - 1) =~= d);
        assert(d.filter(|x: Node| x is Cls).len() == 0);
        a.len() - 1
    } else {
        let w = lemma_split(d);
        assert(rest(a, w) =~= rest(d, w).push(a.last()));
        w
    }
}
pub proof fn lemma_term(e: Node)
    requires okterm(e)
    ensures eqv(tval(termof(e)), as_class(e))
{
    match e {
        Node::Int(n) => { axiom_eqv_refl(as_class(e)); }
        Node::Cls(p) => { axiom_eqv_one(e); }
        Node::Prod(a) => {
            let w = lemma_split(a);
            let c = sy_prod(rest(a, w));
            axiom_build(rest(a, w));
            axiom_eqv_refl(a[w]);
            assert(a.filter(|x: Node| x is Cls)[0] == a[w]);
            let l = seq![c, a[w]];
            let r = seq![Node::Prod(rest(a, w)), a[w]];
            assert forall|i: int| 0 <= i < l.len() implies eqv(#[trigger] l[i], r[i]) by {}
            axiom_eqv_cong(Node::Prod(Seq::<Node>::empty()), l, r);
            axiom_eqv_pull(a, w);
            axiom_eqv_trans(Node::Prod(l), Node::Prod(r), e);
            assert(tval(termof(e)) == Node::Prod(l)) by { assert(seq![c, Node::Cls(a[w]->Cls_0)] =~= l); }
        }
        _ => {}
    }
}
proof fn lemma_vals(a: Seq<Node>)
    requires forall|i: int| 0 <= i < a.len() ==> okterm(#[trigger] a[i])
    ensures eqv(Node::Sum(vals(terms(a))), Node::Sum(classes(a)))
{
    let l = vals(terms(a));
    let r = classes(a);
    assert forall|i: int| 0 <= i < l.len() implies eqv(#[trigger] l[i], r[i]) by { assert(okterm(a[i])); lemma_term(a[i]); }
    axiom_eqv_cong(Node::Sum(Seq::<Node>::empty()), l, r);
}
// the coefficient of a listed term contains no class
pub proof fn theorem_coefficient(e: Node) -> (w: int)
    requires okterm(e), e is Prod
    ensures 0 <= w < nargs(e).len(), termof(e) == (sy_prod(rest(nargs(e), w)), nargs(e)[w]->Cls_0), nargs(e)[w] is Cls,
        forall|i: int| 0 <= i < rest(nargs(e), w).len() ==> ncl(#[trigger] rest(nargs(e), w)[i]) == 0
{
    let a = nargs(e);
    let w = lemma_split(a);
    lemma_occur(e);
    lemma_ncl_cls(a[w]);
    assert forall|i: int| 0 <= i < rest(a, w).len() implies ncl(#[trigger] rest(a, w)[i]) == 0 by {
        let j = if i < w { i } else { i + 1 };
        assert(rest(a, w)[i] == a[j]);
        lemma_ncl_cls(a[j]);
        assert(ncl(e) >= ncl(a[w]) + ncl(a[j]));
    }
    assert(a.filter(|x: Node| x is Cls)[0] == a[w]);
    w
}
// C21: a sum of terms: each kept term is listed once, sorted by partition, and the list adds up to the kept terms
pub proof fn theorem_expansion(e: Node, q: bool)
    requires e is Sum, forall|i: int| 0 <= i < nargs(e).len() && keep(nargs(e)[i], q) ==> okterm(#[trigger] nargs(e)[i])
    ensures ({ let k = kept(nargs(e), q, nargs(e).len() as int); let l = xsort(terms(k));
        xsorted(l) && l.to_multiset() == terms(k).to_multiset() && l.len() == k.len() && eqv(Node::Sum(vals(l)), Node::Sum(classes(k)))
        && (q ==> k =~= nargs(e)) })
{
    let a = nargs(e);
    let n = a.len() as int;
    let k = kept(a, q, n);
    lemma_kept(a, q, n);
    lemma_xsort(terms(k));
    assert forall|i: int| 0 <= i < k.len() implies okterm(#[trigger] k[i]) by { assert(from(a, q, n, k[i])); let j = choose|j: int| 0 <= j < n && keep(a[j], q) && #[trigger] a[j] == k[i]; assert(okterm(a[j])); }
    lemma_vals(k);
    axiom_eqv_trans(Node::Sum(vals(xsort(terms(k)))), Node::Sum(vals(terms(k))), Node::Sum(classes(k)));
}
pub proof fn lemma_kept(a: Seq<Node>, q: bool, n: int)
    requires 0 <= n <= a.len()
    ensures forall|i: int| 0 <= i < kept(a, q, n).len() ==> from(a, q, n, #[trigger] kept(a, q, n)[i]),
        forall|j: int| 0 <= j < n && keep(a[j], q) ==> kept(a, q, n).contains(#[trigger] a[j]),
        q ==> kept(a, q, n) =~= a.subrange(0, n)
    decreases n
{
    if n > 0 {
        lemma_kept(a, q, n - 1);
        let k = kept(a, q, n - 1);
        let m = kept(a, q, n);
        if keep(a[n - 1], q) {
            assert(m == k.push(a[n - 1]));
            assert forall|j: int| 0 <= j < n && keep(a[j], q) implies m.contains(#[trigger] a[j]) by {
                if j < n - 1 { assert(k.contains(a[j])); let i = choose|i: int| 0 <= i < k.len() && k[i] == a[j]; assert(m[i] == a[j]); } else { assert(m[k.len() as int] == a[j]); }
            }
            assert forall|i: int| 0 <= i < m.len() implies from(a, q, n, #[trigger] m[i]) by {
                if i < k.len() { assert(m[i] == k[i]); assert(from(a, q, n - 1, k[i])); let j = choose|j: int| 0 <= j < n - 1 && keep(a[j], q) && #[trigger] a[j] == k[i]; assert(a[j] == m[i]); } else { assert(a[n - 1] == m[i]); }
            }
        } else {
            assert(m == k);
            assert forall|i: int| 0 <= i < m.len() implies from(a, q, n, #[trigger] m[i]) by {
                assert(from(a, q, n - 1, k[i])); let j = choose|j: int| 0 <= j < n - 1 && keep(a[j], q) && #[trigger] a[j] == k[i]; assert(a[j] == m[i]);
            }
        }
    }
}
pub open spec fn from(a: Seq<Node>, q: bool, n: int, x: Node) -> bool { exists|j: int| 0 <= j < n && keep(a[j], q) && #[trigger] a[j] == x }
// leaving out q drops exactly the terms that contain a quantum parameter
pub proof fn theorem_dropped(e: Node)
    ensures keep(e, false) <==> !hasq(e)
{ axiom_q(e); }

pub open spec fn flat(e: Node) -> bool { e is Sum ==> forall|i: int| 0 <= i < nargs(e).len() ==> !(#[trigger] nargs(e)[i] is Sum) }
pub open spec fn bad(e: Node, q: bool) -> bool { if e is Sum { exists|i: int| 0 <= i < nargs(e).len() && keep(nargs(e)[i], q) && !okterm(#[trigger] nargs(e)[i]) } else { !okterm(e) } }
pub open spec fn listed(e: Node, q: bool) -> Sx { if e is Sum { Sx::Many(xsort(terms(kept(nargs(e), q, nargs(e).len() as int)))) } else { Sx::One(termof(e)) } }
//# fn schubertpy/lc.py::LinearCombination._count_Schur(self_: LCO, expr: EX) -> I
//# raises
ensures
    (result is Exc) <==> !(expr is Prod),
    result is Exc ==> result->Exc_0 is ValueError,
    result is Val ==> result->Val_0 == ncl(expr),
//# end
//# fn schubertpy/lc.py::LinearCombination._cutoff_Schur(self_: LCO, expr: EX) -> ST
//# raises
requires
    expr is Prod,
ensures
    (result is Exc) <==> ncls(nargs(expr)) == 0,
    result is Exc ==> result->Exc_0 is ValueError,
    result is Val && ncls(nargs(expr)) == 1 ==> result->Val_0 == termof(expr),
//# hint entry
lemma_none(nargs(expr));
if ncls(nargs(expr)) > 0 { lemma_first(nargs(expr)); }
//# end
proof fn lemma_first(a: Seq<Node>)
    ensures a.filter(|x: Node| x is Cls).len() > 0 ==> a.filter(|x: Node| x is Cls)[0] is Cls
    decreases a.len()
{ reveal(Seq::filter); if a.len() > 0 { lemma_first(a.drop_last()); } }
//# fn schubertpy/lc.py::LinearCombination._schur_expansion(self_: LCO, expr: EX, include_q: B) -> SX
//# vars res term sorted_array
//# types res: LST, sorted_array: LST
//# raises
requires
    flat(expr),
ensures
    (result is Exc) <==> bad(expr, include_q),
    result is Exc ==> result->Exc_0 is ValueError,
    result is Val ==> result->Val_0 == listed(expr, include_q),
decreases expr
//# hint entry
lemma_none(nargs(expr));
if !(expr is Cls) { lemma_occur(expr); }
//# loop 0
invariant
    forall|j: int| 0 <= j < it0 && keep(nargs(expr)[j], include_q) ==> okterm(#[trigger] nargs(expr)[j]),
    res =~= terms(kept(nargs(expr), include_q, it0)),
//# hint loop 0 head
assert(nargs(expr)[it0 - 1] == term);
//# end
//# fn schubertpy/lc.py::LinearCombination.schur_expansion(self_: LCO, include_q: B) -> SX
//# raises
requires
    flat(self_),
ensures
    !include_q && !(self_ is Sum) && haschar(sstr(self_), 'q') ==> result == Out::Val(Sx::Many(Seq::empty())),
    !(!include_q && !(self_ is Sum) && haschar(sstr(self_), 'q')) ==> ((result is Exc) <==> bad(self_, include_q)) && (result is Exc ==> result->Exc_0 is ValueError)
        && (result is Val ==> result->Val_0 == listed(self_, include_q)),
//# end

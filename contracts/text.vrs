//# unit text
//# use lin
// ---- classes as texts: a partition or index set, or a pair of partitions
pub ghost enum Pv { One(Seq<int>), Two(Seq<Seq<int>>) }
pub ghost enum PvI { N(int), R(Seq<int>) }
pub open spec fn pv_items(p: Pv) -> Seq<PvI> { match p { Pv::One(l) => l.map_values(|x: int| PvI::N(x)), Pv::Two(l) => l.map_values(|x: Seq<int>| PvI::R(x)) } }
pub open spec fn digit(d: int) -> char { if d == 0 { '0' } else if d == 1 { '1' } else if d == 2 { '2' } else if d == 3 { '3' } else if d == 4 { '4' } else if d == 5 { '5' } else if d == 6 { '6' } else if d == 7 { '7' } else if d == 8 { '8' } else { '9' } }
pub open spec fn numeral(n: int) -> Seq<char>
    decreases n
{ if n < 0 { seq!['-'] } else if n < 10 { seq![digit(n)] } else { numeral(n / 10).push(digit(n % 10)) } }
pub open spec fn joined(l: Seq<Seq<char>>) -> Seq<char>
    decreases l.len()
{ if l.len() == 0 { Seq::empty() } else if l.len() == 1 { l[0] } else { joined(l.drop_last()) + seq![',', ' '] + l.last() } }
pub open spec fn brackets(t: Seq<char>) -> Seq<char> { seq!['['] + t + seq![']'] }
pub open spec fn repr1(l: Seq<int>) -> Seq<char> { brackets(joined(l.map_values(|x: int| numeral(x)))) }
// str(p) of a list of numbers that are not negative, of a list of such lists
pub open spec fn pv_repr(p: Pv) -> Seq<char> { match p { Pv::One(l) => repr1(l), Pv::Two(l) => brackets(joined(l.map_values(|x: Seq<int>| repr1(x)))) } }
pub open spec fn nat1(l: Seq<int>) -> bool { forall|i: int| 0 <= i < l.len() ==> #[trigger] l[i] >= 0 }
pub open spec fn okp(p: Pv) -> bool { match p { Pv::One(l) => nat1(l), Pv::Two(l) => forall|i: int| 0 <= i < l.len() ==> nat1(#[trigger] l[i]) } }
pub open spec fn compact(p: Pv) -> Seq<char> { treplace(pv_repr(p), seq![' '], Seq::<char>::empty()) }
// the name of the symbol of a class
pub open spec fn cname(p: Pv) -> Seq<char> { ttr(seq!['[', ',', ']'], seq!['f', 'j', 'g'], seq!['S'] + compact(p)) }
pub open spec fn isdigit(c: char) -> bool { c == '0' || c == '1' || c == '2' || c == '3' || c == '4' || c == '5' || c == '6' || c == '7' || c == '8' || c == '9' }
pub open spec fn inname(c: char) -> bool { isdigit(c) || c == 'f' || c == 'j' || c == 'g' }
pub open spec fn classname(t: Seq<char>) -> bool { t.len() >= 3 && t[0] == 'S' && t[1] == 'f' && t.last() == 'g' && forall|i: int| 1 <= i < t.len() ==> inname(#[trigger] t[i]) }
pub open spec fn intext(c: char) -> bool { isdigit(c) || c == '[' || c == ',' || c == ']' || c == ' ' }
pub open spec fn all_in(t: Seq<char>) -> bool { forall|i: int| 0 <= i < t.len() ==> intext(#[trigger] t[i]) }
pub uninterp spec fn is_sym(e: Node) -> bool;
pub uninterp spec fn pv_literal(t: Seq<char>) -> Pv;
// sympy: a name of letters and digits that no other object of sympy has is read as the symbol with that name
#[verifier::external_body]
pub proof fn axiom_symbol(t: Seq<char>)
    requires classname(t)
    ensures is_sym(ptree(t)), sstr(ptree(t)) == t
{ }
// ast.literal_eval reads the text of a list back, with or without the blanks
#[verifier::external_body]
pub proof fn axiom_literal(p: Pv)
    requires okp(p)
    ensures pv_literal(compact(p)) == p
{ }
// sympy: the operators give expressions with the algebraic value
pub open spec fn plus(a: Node, b: Node) -> Node { Node::Sum(seq![a, b]) }
pub open spec fn times(a: Node, b: Node) -> Node { Node::Prod(seq![a, b]) }
pub open spec fn minus(a: Node, b: Node) -> Node { plus(a, times(Node::Int(-1), b)) }
pub open spec fn power(a: Node, b: Node) -> Node { Node::Power(seq![a, b]) }
pub uninterp spec fn sy_add(a: Node, b: Node) -> Node;
pub uninterp spec fn sy_sub(a: Node, b: Node) -> Node;
pub uninterp spec fn sy_mul(a: Node, b: Node) -> Node;
pub uninterp spec fn sy_pow(a: Node, b: Node) -> Node;
#[verifier::external_body]
pub proof fn axiom_ops(a: Node, b: Node)
    ensures eqv(sy_add(a, b), plus(a, b)), eqv(sy_sub(a, b), minus(a, b)), eqv(sy_mul(a, b), times(a, b)), eqv(sy_pow(a, b), power(a, b))
{ }
#[verifier::external_body]
pub proof fn axiom_eqv_comm(a: Node, b: Node)
    ensures eqv(plus(a, b), plus(b, a)), eqv(times(a, b), times(b, a))
{ }

proof fn lemma_numeral(n: int)
    requires n >= 0
    ensures forall|i: int| 0 <= i < numeral(n).len() ==> isdigit(#[trigger] numeral(n)[i])
    decreases n
{
    if n >= 10 {
        lemma_numeral(n / 10);
        let a = numeral(n / 10);
        assert forall|i: int| 0 <= i < numeral(n).len() implies isdigit(#[trigger] numeral(n)[i]) by { if i < a.len() { assert(numeral(n)[i] == a[i]); } else { assert(numeral(n)[i] == digit(n % 10)); } }
    }
}
proof fn lemma_joined(l: Seq<Seq<char>>)
    requires forall|i: int| 0 <= i < l.len() ==> all_in(#[trigger] l[i])
    ensures all_in(joined(l))
    decreases l.len()
{
    if l.len() == 1 { assert(all_in(l[0])); }
    if l.len() > 1 {
        assert forall|i: int| 0 <= i < l.drop_last().len() implies all_in(#[trigger] l.drop_last()[i]) by { assert(all_in(l[i])); }
        lemma_joined(l.drop_last());
        assert(all_in(l[l.len() - 1]));
        assert(all_in(l.last()));
    }
}
proof fn lemma_brackets(t: Seq<char>)
    requires all_in(t)
    ensures all_in(brackets(t)), brackets(t).len() >= 2, brackets(t)[0] == '[', brackets(t).last() == ']'
{ }
proof fn lemma_repr1(l: Seq<int>)
    requires nat1(l)
    ensures all_in(repr1(l)), repr1(l).len() >= 2, repr1(l)[0] == '[', repr1(l).last() == ']'
{
    let m = l.map_values(|x: int| numeral(x));
    assert forall|i: int| 0 <= i < m.len() implies all_in(#[trigger] m[i]) by { assert(l[i] >= 0); lemma_numeral(l[i]); }
    lemma_joined(m);
    lemma_brackets(joined(m));
}
proof fn lemma_repr(p: Pv)
    requires okp(p)
    ensures all_in(pv_repr(p)), pv_repr(p).len() >= 2, pv_repr(p)[0] == '[', pv_repr(p).last() == ']'
{
    match p {
        Pv::One(l) => { lemma_repr1(l); }
        Pv::Two(l) => {
            let m = l.map_values(|x: Seq<int>| repr1(x));
            assert forall|i: int| 0 <= i < m.len() implies all_in(#[trigger] m[i]) by { assert(nat1(l[i])); lemma_repr1(l[i]); }
            lemma_joined(m);
            lemma_brackets(joined(m));
        }
    }
}
// dropping the blanks
proof fn lemma_blanks(t: Seq<char>)
    ensures ({ let r = treplace(t, seq![' '], Seq::<char>::empty());
        &&& forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] != ' ' && t.contains(r[i])
        &&& t.len() >= 1 && t[0] != ' ' ==> r.len() >= 1 && r[0] == t[0]
        &&& t.len() >= 2 && t[0] != ' ' && t.last() != ' ' ==> r.len() >= 2
        &&& t.len() >= 1 && t.last() != ' ' ==> r.len() >= 1 && r.last() == t.last() })
    decreases t.len()
{
    let r = treplace(t, seq![' '], Seq::<char>::empty());
    if t.len() >= 1 {
        let u = t.subrange(1, t.len() as int);
        let v = treplace(u, seq![' '], Seq::<char>::empty());
        lemma_blanks(u);
        if t.len() >= 2 { assert(u.last() == t.last()); }
        assert(t.subrange(0, 1) =~= seq![t[0]]);
        if t[0] == ' ' {
            assert(r =~= v);
        } else {
            assert(seq![t[0]][0] != seq![' '][0]);
            assert(r =~= seq![t[0]] + v);
        }
        assert forall|i: int| 0 <= i < r.len() implies #[trigger] r[i] != ' ' && t.contains(r[i]) by {
            let j = if t[0] == ' ' { i } else { i - 1 };
            if j >= 0 {
                assert(r[i] == v[j]);
                assert(u.contains(v[j]));
                let k = choose|k: int| 0 <= k < u.len() && u[k] == v[j];
                assert(t[k + 1] == v[j]);
            } else { assert(t[0] == r[i]); }
        }
    }
}
proof fn lemma_compact(p: Pv)
    requires okp(p)
    ensures ({ let c = compact(p); c.len() >= 2 && c[0] == '[' && c.last() == ']' && all_in(c) && forall|i: int| 0 <= i < c.len() ==> #[trigger] c[i] != ' ' })
{
    let t = pv_repr(p);
    let c = compact(p);
    lemma_repr(p);
    lemma_blanks(t);
    assert forall|i: int| 0 <= i < c.len() implies intext(#[trigger] c[i]) by { assert(t.contains(c[i])); }
}
pub open spec fn fw(c: char) -> char { if c == '[' { 'f' } else if c == ',' { 'j' } else if c == ']' { 'g' } else { c } }
pub open spec fn bw(c: char) -> char { if c == 'f' { '[' } else if c == 'j' { ',' } else if c == 'g' { ']' } else { c } }
proof fn lemma_tables(t: Seq<char>)
    ensures ttr(seq!['[', ',', ']'], seq!['f', 'j', 'g'], t) =~= t.map_values(|c: char| fw(c)),
        ttr(seq!['f', 'j', 'g'], seq!['[', ',', ']'], t) =~= t.map_values(|c: char| bw(c))
{
    let a = seq!['[', ',', ']'];
    let b = seq!['f', 'j', 'g'];
    assert forall|c: char| #[trigger] tr1(a, b, 3, c) == fw(c) by { reveal_with_fuel(tr1, 5); }
    assert forall|c: char| #[trigger] tr1(b, a, 3, c) == bw(c) by { reveal_with_fuel(tr1, 5); }
}
proof fn lemma_cname(p: Pv)
    requires okp(p)
    ensures classname(cname(p)),
        ttr(seq!['f', 'j', 'g'], seq!['[', ',', ']'], cname(p)) =~= seq!['S'] + compact(p),
        treplace(seq!['S'] + compact(p), seq!['S'], Seq::<char>::empty()) =~= compact(p),
{
    lemma_compact(p);
    lemma_tables(seq!['S'] + compact(p));
    lemma_tables(cname(p));
    let c = compact(p);
    let s = seq!['S'] + c;
    let n = cname(p);
    assert forall|i: int| 1 <= i < n.len() implies inname(#[trigger] n[i]) by { assert(s[i] == c[i - 1]); assert(intext(c[i - 1])); assert(c[i - 1] != ' '); }
    assert(n[1] == fw(c[0]));
    assert(n.last() == fw(c.last()));
    assert forall|i: int| 0 <= i < s.len() implies bw(fw(#[trigger] s[i])) == s[i] by { if i > 0 { assert(s[i] == c[i - 1]); assert(intext(c[i - 1])); } }
    assert(s.subrange(0, 1) =~= seq!['S']);
    assert(s.subrange(1, s.len() as int) =~= c);
    assert forall|i: int| 0 <= i < c.len() implies #[trigger] c[i] != 'S' by { assert(intext(c[i])); }
    lemma_replace_none(c, 'S', Seq::<char>::empty());
}
// C12: the name of a class can be read back
pub proof fn theorem_names(p: Pv, r: Pv)
    requires okp(p), okp(r)
    ensures cname(p) == cname(r) <==> p == r
{ if cname(p) == cname(r) { lemma_cname(p); lemma_cname(r); axiom_literal(p); axiom_literal(r); } }
// '**' printed as '^' and back
proof fn lemma_stars(t: Seq<char>)
    requires forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] != '^'
    ensures treplace(treplace(t, seq!['*', '*'], seq!['^']), seq!['^'], seq!['*', '*']) =~= t
    decreases t.len()
{
    let r = treplace(t, seq!['*', '*'], seq!['^']);
    if t.len() < 2 {
        lemma_replace_none(t, '^', seq!['*', '*']);
    } else if t.subrange(0, 2) =~= seq!['*', '*'] {
        let u = t.subrange(2, t.len() as int);
        assert forall|i: int| 0 <= i < u.len() implies #[trigger] u[i] != '^' by { assert(u[i] == t[i + 2]); }
        lemma_stars(u);
        let v = treplace(u, seq!['*', '*'], seq!['^']);
        assert(r =~= seq!['^'] + v);
        assert(r.subrange(0, 1) =~= seq!['^']);
        assert(r.subrange(1, r.len() as int) =~= v);
        assert(t =~= seq!['*', '*'] + u) by { assert(t.subrange(0, 2)[0] == '*' && t.subrange(0, 2)[1] == '*'); }
    } else {
        let u = t.subrange(1, t.len() as int);
        assert forall|i: int| 0 <= i < u.len() implies #[trigger] u[i] != '^' by { assert(u[i] == t[i + 1]); }
        lemma_stars(u);
        let v = treplace(u, seq!['*', '*'], seq!['^']);
        assert(r =~= seq![t[0]] + v);
        assert(r.subrange(0, 1)[0] == t[0]);
        assert(!(r.subrange(0, 1) =~= seq!['^'])) by { if r.subrange(0, 1) =~= seq!['^'] { assert(r.subrange(0, 1)[0] == seq!['^'][0]); } }
        assert(r.subrange(1, r.len() as int) =~= v);
        assert(t =~= seq![t[0]] + u);
    }
}
// what LinearCombination prints for e
pub open spec fn printed(e: Node) -> Seq<char> { treplace(ttr(seq!['f', 'j', 'g'], seq!['[', ',', ']'], sstr(e)), seq!['*', '*'], seq!['^']) }
proof fn lemma_printed(e: Node)
    ensures untext(printed(e)) =~= sstr(e), eqv(ptree(untext(printed(e))), e)
{
    axiom_print(e);
    let t = sstr(e);
    let u = ttr(seq!['f', 'j', 'g'], seq!['[', ',', ']'], t);
    lemma_tables(t);
    lemma_tables(u);
    assert forall|i: int| 0 <= i < u.len() implies #[trigger] u[i] != '^' by { assert(t[i] != '^'); }
    lemma_stars(u);
    assert forall|i: int| 0 <= i < t.len() implies fw(bw(#[trigger] t[i])) == t[i] by { }
    assert(untext(printed(e)) =~= t);
}
// C12: parsing what is printed gives the same algebraic value
pub proof fn theorem_text(e: Node)
    ensures readable(Arg::Text(printed(e))), eqv(read(Arg::Text(printed(e))), e)
{ lemma_printed(e); }

//# fn schubertpy/schur.py::Schur.__init__^list(self_: SCO, p: PV) -> SCO
ensures result == p
//# end
//# fn schubertpy/schur.py::Schur.__init__^schur(self_: SCO, p: SCO) -> SCO
ensures result == p
//# end
//# fn schubertpy/schur.py::Schur.__str__(self_: SCO) -> TXT
requires okp(self_)
ensures result =~= seq!['S'] + compact(self_)
//# hint entry
lemma_compact(self_);
let ghost c = seq!['S'] + pv_repr(self_);
assert(c.subrange(0, 1) =~= seq!['S']);
assert(seq!['S'][0] != seq![' '][0]);
assert(c.subrange(1, c.len() as int) =~= pv_repr(self_));
//# end
//# fn schubertpy/schur.py::Schur.__repr__(self_: SCO) -> TXT
requires okp(self_)
ensures result =~= seq!['S'] + compact(self_)
//# end
//# fn schubertpy/schur.py::Schur.symbol(self_: SCO) -> EX
requires okp(self_)
ensures result == ptree(cname(self_)), is_sym(result), sstr(result) == cname(self_)
//# hint entry
lemma_cname(self_);
axiom_symbol(cname(self_));
//# end
//# fn schubertpy/schur.py::Schur.partition(self_: SCO) -> PV
ensures result == self_
//# end
//# fn schubertpy/schur.py::Schur.__eq__(self_: SCO, other: SCO) -> B
ensures result == (self_ == other)
//# end
//# fn schubertpy/schur.py::isSchur(expr: EX) -> B
ensures result == (is_sym(expr) && sstr(expr).len() > 0 && sstr(expr)[0] == 'S')
//# end
//# fn schubertpy/schur.py::translate_schur(sym: EX) -> TXT
ensures result =~= ttr(seq!['f', 'j', 'g'], seq!['[', ',', ']'], sstr(sym))
//# end
//# fn schubertpy/schur.py::toSchur(sym: EX) -> SCO
requires exists|p: Pv| okp(p) && #[trigger] cname(p) == sstr(sym)
ensures forall|p: Pv| okp(p) && #[trigger] cname(p) == sstr(sym) ==> result == p
//# hint entry
let ghost w = choose|p: Pv| okp(p) && #[trigger] cname(p) == sstr(sym);
lemma_cname(w);
axiom_literal(w);
assert forall|p: Pv| okp(p) && #[trigger] cname(p) == sstr(sym) implies p == w by { theorem_names(p, w); }
//# end
//# fn schubertpy/lc.py::LinearCombination.__str__(self_: LCO) -> TXT
ensures result =~= printed(self_)
//# end
//# fn schubertpy/lc.py::LinearCombination.__repr__(self_: LCO) -> TXT
ensures result =~= printed(self_)
//# end

// ---- arithmetic
pub open spec fn operand(a: Arg) -> bool { a is Lc || a is Int || a is Expr }
//# fn schubertpy/lc.py::LinearCombination.__add__(self_: LCO, other: ARG) -> LCO
//# vars
//# raises
ensures
    (result is Exc) <==> !operand(other),
    result is Val ==> eqv(result->Val_0, plus(self_, anode(other))),
//# hint entry
broadcast use axiom_eqv_trans;
broadcast use axiom_eqv_refl;
//# end
//# fn schubertpy/lc.py::LinearCombination.__mul__(self_: LCO, other: ARG) -> LCO
//# vars
//# raises
ensures
    (result is Exc) <==> !operand(other),
    result is Val ==> eqv(result->Val_0, times(self_, anode(other))),
//# hint entry
broadcast use axiom_eqv_trans;
broadcast use axiom_eqv_refl;
//# end
//# fn schubertpy/lc.py::LinearCombination.__pow__(self_: LCO, other: ARG) -> LCO
//# vars
//# raises
ensures
    (result is Exc) <==> !operand(other),
    result is Val ==> eqv(result->Val_0, power(self_, anode(other))),
//# hint entry
broadcast use axiom_eqv_trans;
broadcast use axiom_eqv_refl;
//# end
//# fn schubertpy/lc.py::LinearCombination.__sub__(self_: LCO, other: ARG) -> LCO
//# vars
//# raises
ensures
    (result is Exc) <==> !operand(other),
    result is Val ==> eqv(result->Val_0, minus(self_, anode(other))),
//# hint entry
broadcast use axiom_eqv_trans;
broadcast use axiom_eqv_refl;
//# end
//# fn schubertpy/lc.py::LinearCombination.__radd__(self_: LCO, other: ARG) -> LCO
//# vars
//# raises
ensures
    (result is Exc) <==> !operand(other),
    result is Val ==> eqv(result->Val_0, plus(anode(other), self_)),
//# hint entry
broadcast use axiom_eqv_trans;
broadcast use axiom_eqv_refl;
axiom_eqv_comm(anode(other), self_);
axiom_eqv_comm(self_, anode(other));
//# end
//# fn schubertpy/lc.py::LinearCombination.__rmul__(self_: LCO, other: ARG) -> LCO
//# vars
//# raises
ensures
    (result is Exc) <==> !operand(other),
    result is Val ==> eqv(result->Val_0, times(anode(other), self_)),
//# hint entry
broadcast use axiom_eqv_trans;
broadcast use axiom_eqv_refl;
axiom_eqv_comm(anode(other), self_);
axiom_eqv_comm(self_, anode(other));
//# end
//# fn schubertpy/lc.py::LinearCombination.__rsub__(self_: LCO, other: ARG) -> LCO
//# vars
//# raises
ensures
    (result is Exc) <==> !operand(other),
    result is Val ==> eqv(result->Val_0, minus(anode(other), self_)),
//# hint entry
broadcast use axiom_eqv_trans;
broadcast use axiom_eqv_refl;
//# end
//# fn schubertpy/schur.py::Schur.__add__^schur(self_: SCO, other: SCO) -> EX
requires okp(self_), okp(other)
ensures eqv(result, plus(ptree(cname(self_)), ptree(cname(other))))
//# hint entry
broadcast use axiom_eqv_trans;
broadcast use axiom_eqv_refl;
//# end
//# fn schubertpy/schur.py::Schur.__add__^expr(self_: SCO, other: EX) -> EX
requires okp(self_)
ensures eqv(result, plus(ptree(cname(self_)), other))
//# hint entry
broadcast use axiom_eqv_trans;
broadcast use axiom_eqv_refl;
//# end
//# fn schubertpy/schur.py::Schur.__add__^number(self_: SCO, other: I) -> EX
requires okp(self_)
ensures eqv(result, plus(ptree(cname(self_)), Node::Int(other)))
//# hint entry
broadcast use axiom_eqv_trans;
broadcast use axiom_eqv_refl;
//# end
//# fn schubertpy/schur.py::Schur.__add__^lc(self_: SCO, other: LCO) -> EX
requires okp(self_)
ensures eqv(result, plus(ptree(cname(self_)), other))
//# hint entry
broadcast use axiom_eqv_trans;
broadcast use axiom_eqv_refl;
//# end
//# fn schubertpy/schur.py::Schur.__mul__^schur(self_: SCO, other: SCO) -> EX
requires okp(self_), okp(other)
ensures eqv(result, times(ptree(cname(self_)), ptree(cname(other))))
//# hint entry
broadcast use axiom_eqv_trans;
broadcast use axiom_eqv_refl;
//# end
//# fn schubertpy/schur.py::Schur.__mul__^expr(self_: SCO, other: EX) -> EX
requires okp(self_)
ensures eqv(result, times(ptree(cname(self_)), other))
//# hint entry
broadcast use axiom_eqv_trans;
broadcast use axiom_eqv_refl;
//# end
//# fn schubertpy/schur.py::Schur.__mul__^number(self_: SCO, other: I) -> EX
requires okp(self_)
ensures eqv(result, times(ptree(cname(self_)), Node::Int(other)))
//# hint entry
broadcast use axiom_eqv_trans;
broadcast use axiom_eqv_refl;
//# end
//# fn schubertpy/schur.py::Schur.__mul__^lc(self_: SCO, other: LCO) -> EX
requires okp(self_)
ensures eqv(result, times(ptree(cname(self_)), other))
//# hint entry
broadcast use axiom_eqv_trans;
broadcast use axiom_eqv_refl;
//# end
//# fn schubertpy/schur.py::Schur.__pow__^schur(self_: SCO, other: SCO) -> EX
requires okp(self_), okp(other)
ensures eqv(result, power(ptree(cname(self_)), ptree(cname(other))))
//# hint entry
broadcast use axiom_eqv_trans;
broadcast use axiom_eqv_refl;
//# end
//# fn schubertpy/schur.py::Schur.__pow__^expr(self_: SCO, other: EX) -> EX
requires okp(self_)
ensures eqv(result, power(ptree(cname(self_)), other))
//# hint entry
broadcast use axiom_eqv_trans;
broadcast use axiom_eqv_refl;
//# end
//# fn schubertpy/schur.py::Schur.__pow__^number(self_: SCO, other: I) -> EX
requires okp(self_)
ensures eqv(result, power(ptree(cname(self_)), Node::Int(other)))
//# hint entry
broadcast use axiom_eqv_trans;
broadcast use axiom_eqv_refl;
//# end
//# fn schubertpy/schur.py::Schur.__pow__^lc(self_: SCO, other: LCO) -> EX
requires okp(self_)
ensures eqv(result, power(ptree(cname(self_)), other))
//# hint entry
broadcast use axiom_eqv_trans;
broadcast use axiom_eqv_refl;
//# end
//# fn schubertpy/schur.py::Schur.__radd__^expr(self_: SCO, other: EX) -> EX
requires okp(self_)
ensures eqv(result, plus(other, ptree(cname(self_))))
//# hint entry
broadcast use axiom_eqv_trans;
broadcast use axiom_eqv_refl;
axiom_eqv_comm(other, ptree(cname(self_)));
axiom_eqv_comm(ptree(cname(self_)), other);
//# end
//# fn schubertpy/schur.py::Schur.__radd__^number(self_: SCO, other: I) -> EX
requires okp(self_)
ensures eqv(result, plus(Node::Int(other), ptree(cname(self_))))
//# hint entry
broadcast use axiom_eqv_trans;
broadcast use axiom_eqv_refl;
axiom_eqv_comm(Node::Int(other), ptree(cname(self_)));
axiom_eqv_comm(ptree(cname(self_)), Node::Int(other));
//# end
//# fn schubertpy/schur.py::Schur.__radd__^lc(self_: SCO, other: LCO) -> EX
requires okp(self_)
ensures eqv(result, plus(other, ptree(cname(self_))))
//# hint entry
broadcast use axiom_eqv_trans;
broadcast use axiom_eqv_refl;
axiom_eqv_comm(other, ptree(cname(self_)));
axiom_eqv_comm(ptree(cname(self_)), other);
//# end
//# fn schubertpy/schur.py::Schur.__rmul__^expr(self_: SCO, other: EX) -> EX
requires okp(self_)
ensures eqv(result, times(other, ptree(cname(self_))))
//# hint entry
broadcast use axiom_eqv_trans;
broadcast use axiom_eqv_refl;
axiom_eqv_comm(other, ptree(cname(self_)));
axiom_eqv_comm(ptree(cname(self_)), other);
//# end
//# fn schubertpy/schur.py::Schur.__rmul__^number(self_: SCO, other: I) -> EX
requires okp(self_)
ensures eqv(result, times(Node::Int(other), ptree(cname(self_))))
//# hint entry
broadcast use axiom_eqv_trans;
broadcast use axiom_eqv_refl;
axiom_eqv_comm(Node::Int(other), ptree(cname(self_)));
axiom_eqv_comm(ptree(cname(self_)), Node::Int(other));
//# end
//# fn schubertpy/schur.py::Schur.__rmul__^lc(self_: SCO, other: LCO) -> EX
requires okp(self_)
ensures eqv(result, times(other, ptree(cname(self_))))
//# hint entry
broadcast use axiom_eqv_trans;
broadcast use axiom_eqv_refl;
axiom_eqv_comm(other, ptree(cname(self_)));
axiom_eqv_comm(ptree(cname(self_)), other);
//# end

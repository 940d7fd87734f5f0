//# unit spaces
// the spaces a constructor makes
pub open spec fn space_A(m: int, n: int) -> Space { Space { _type: str!"A", _k: n - m, _n: n, _pieri: str!"pieriA_inner", _qpieri: str!"qpieriA_inner" } }
pub open spec fn space_C(m: int, n: int) -> Space { Space { _type: str!"C", _k: n / 2 - m, _n: n / 2, _pieri: str!"pieriC_inner", _qpieri: str!"qpieriC_inner" } }
pub open spec fn space_O(m: int, n: int) -> Space {
    if n % 2 == 1 { Space { _type: str!"B", _k: (n - 1) / 2 - m, _n: (n - 1) / 2, _pieri: str!"pieriB_inner", _qpieri: str!"qpieriB_inner" } }
    else { Space { _type: str!"D", _k: n / 2 - m, _n: n / 2 - 1, _pieri: str!"pieriD_inner", _qpieri: str!"qpieriD_inner" } }
}
pub open spec fn ok_A(m: int, n: int) -> bool { 0 <= m <= n }
pub open spec fn ok_C(m: int, n: int) -> bool { 0 <= 2 * m <= n && n % 2 == 0 }
pub open spec fn ok_O(m: int, n: int) -> bool { 0 <= 2 * m <= n }

pub open spec fn is_A(s: Space) -> bool { s == space_A(s._n - s._k, s._n) && ok_A(s._n - s._k, s._n) }
pub open spec fn is_C(s: Space) -> bool { s == space_C(s._n - s._k, 2 * s._n) && ok_C(s._n - s._k, 2 * s._n) }
pub open spec fn is_B(s: Space) -> bool { s == space_O(s._n - s._k, 2 * s._n + 1) && ok_O(s._n - s._k, 2 * s._n + 1) }
pub open spec fn is_D(s: Space) -> bool { s == space_O(s._n + 1 - s._k, 2 * s._n + 2) && ok_O(s._n + 1 - s._k, 2 * s._n + 2) }

pub type Data = (int, int, int, int, int, int, int);
pub open spec fn deg_O(s: Space) -> int { if s._k == 0 { 2 * s._n } else { s._n + s._k } }
pub open spec fn data_A(s: Space) -> Data { (str!"A", s._k, s._n, str!"Gr", s._n - s._k, s._n, s._n) }
pub open spec fn data_C(s: Space) -> Data { (str!"C", s._k, s._n, str!"IG", s._n - s._k, 2 * s._n, s._n + 1 + s._k) }
pub open spec fn data_O(s: Space) -> Data {
    if s._type == str!"D" { (str!"D", s._k, s._n, str!"OG", s._n + 1 - s._k, 2 * s._n + 2, deg_O(s)) } else { (str!"B", s._k, s._n, str!"OG", s._n - s._k, 2 * s._n + 1, deg_O(s)) }
}
pub open spec fn text_of(d: Data) -> (int, int, int, int, int, int, int, int) { (str!"Type {} ;  (k,n) = ({},{}) ;  {}({},{}) ;  deg(q) = {}", d.0, d.1, d.2, d.3, d.4, d.5, d.6) }

// C16 over the contracts below: the data of a space name the m and N it was made from, and the degree of q
pub proof fn theorem_spaces(m: int, n: int)
    ensures
        ok_A(m, n) ==> is_A(space_A(m, n)) && data_A(space_A(m, n)) == (str!"A", n - m, n, str!"Gr", m, n, n),
        ok_C(m, n) ==> is_C(space_C(m, n)) && data_C(space_C(m, n)) == (str!"C", n / 2 - m, n / 2, str!"IG", m, n, n + 1 - m),
        ok_O(m, n) && n % 2 == 1 ==> is_B(space_O(m, n)) && data_O(space_O(m, n)) == (str!"B", (n - 1) / 2 - m, (n - 1) / 2, str!"OG", m, n, if 2 * m == n - 1 { n - 1 } else { n - 1 - m }),
        ok_O(m, n) && n % 2 == 0 ==> is_D(space_O(m, n)) && data_O(space_O(m, n)) == (str!"D", n / 2 - m, n / 2 - 1, str!"OG", m, n, if 2 * m == n { n - 2 } else { n - 1 - m }),
{
    let p = n / 2;
    assert(n % 2 == 0 ==> n == 2 * p);
    assert(n % 2 == 1 ==> n == 2 * p + 1 && (n - 1) / 2 == p);
    assert((2 * p) / 2 == p && (2 * p) % 2 == 0 && (2 * p + 1) % 2 == 1 && (2 * p + 1 - 1) / 2 == p);
    assert((2 * (p - 1) + 2) / 2 == p && (2 * (p - 1) + 2) % 2 == 0);
}

//# fn schubertpy/grassmannian.py::Grassmannian.__init__(self_: SPACE, m: OI, n: OI) -> SPACE
//# raises
ensures m.is_none() || n.is_none() ==> result == Out::<Space>::Exc(Ex::TypeError),
    m.is_some() && n.is_some() && !ok_A(m.unwrap(), n.unwrap()) ==> result == Out::<Space>::Exc(Ex::ValueError),
    m.is_some() && n.is_some() && ok_A(m.unwrap(), n.unwrap()) ==> result == Out::Val(space_A(m.unwrap(), n.unwrap()))
//# end
//# fn schubertpy/grassmannian.py::Grassmannian.degree_q(self_: SPACE) -> I
ensures result == self_._n
//# end
//# fn schubertpy/grassmannian.py::Grassmannian.get_type_data(self_: SPACE) -> (STR,I,I,STR,I,I,I)

ensures result == data_A(self_)
//# end
//# fn schubertpy/grassmannian.py::Grassmannian.__str__(self_: SPACE) -> (STR,STR,I,I,STR,I,I,I)
//# types td: (STR,I,I,STR,I,I,I)
ensures result == text_of(data_A(self_))
//# end

//# fn schubertpy/isotropic_grassmannian.py::IsotropicGrassmannian.__init__(self_: SPACE, m: OI, n: OI) -> SPACE
//# raises
ensures m.is_none() || n.is_none() ==> result == Out::<Space>::Exc(Ex::TypeError),
    m.is_some() && n.is_some() && !ok_C(m.unwrap(), n.unwrap()) ==> result == Out::<Space>::Exc(Ex::ValueError),
    m.is_some() && n.is_some() && ok_C(m.unwrap(), n.unwrap()) ==> result == Out::Val(space_C(m.unwrap(), n.unwrap()))
//# end
//# fn schubertpy/isotropic_grassmannian.py::IsotropicGrassmannian.degree_q(self_: SPACE) -> I
ensures result == self_._n + 1 + self_._k
//# end
//# fn schubertpy/isotropic_grassmannian.py::IsotropicGrassmannian.get_type_data(self_: SPACE) -> (STR,I,I,STR,I,I,I)

ensures result == data_C(self_)
//# end
//# fn schubertpy/isotropic_grassmannian.py::IsotropicGrassmannian.__str__(self_: SPACE) -> (STR,STR,I,I,STR,I,I,I)
//# types td: (STR,I,I,STR,I,I,I)
ensures result == text_of(data_C(self_))
//# end

//# fn schubertpy/orthogonal_grassmannian.py::OrthogonalGrassmannian.__init__(self_: SPACE, m: OI, n: OI) -> SPACE
//# raises
ensures m.is_none() || n.is_none() ==> result == Out::<Space>::Exc(Ex::TypeError),
    m.is_some() && n.is_some() && !ok_O(m.unwrap(), n.unwrap()) ==> result == Out::<Space>::Exc(Ex::ValueError),
    m.is_some() && n.is_some() && ok_O(m.unwrap(), n.unwrap()) ==> result == Out::Val(space_O(m.unwrap(), n.unwrap()))
//# end
//# fn schubertpy/orthogonal_grassmannian.py::OrthogonalGrassmannian.degree_q(self_: SPACE) -> I
ensures result == deg_O(self_)
//# end
//# fn schubertpy/orthogonal_grassmannian.py::OrthogonalGrassmannian.get_type_data(self_: SPACE) -> (STR,I,I,STR,I,I,I)
requires self_._type == str!"B" || self_._type == str!"D"
ensures result == data_O(self_)
//# end
//# fn schubertpy/orthogonal_grassmannian.py::OrthogonalGrassmannian.__str__(self_: SPACE) -> (STR,STR,I,I,STR,I,I,I)
//# types td: (STR,I,I,STR,I,I,I)
ensures result == text_of(data_O(self_))
//# end

//# fn schubertpy/abstract_grassmannian.py::AbstractGrassmannian.clone@Grassmannian(self_: SPACE) -> SPACE
requires is_A(self_)
ensures result == self_
//# end
//# fn schubertpy/abstract_grassmannian.py::AbstractGrassmannian.clone@IsotropicGrassmannian(self_: SPACE) -> SPACE
requires is_C(self_)
ensures result == self_
//# end
//# fn schubertpy/abstract_grassmannian.py::AbstractGrassmannian.clone@OrthogonalGrassmannian(self_: SPACE) -> SPACE
requires is_B(self_) || is_D(self_)
ensures result == self_
//# end

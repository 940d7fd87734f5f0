//# unit swaps
//# use pairs
// a class with the other type
pub open spec fn swap(l: Seq<int>, k: int) -> Seq<int> {
    if l.len() > 0 && l.last() == 0 { l.drop_last() } else if l.contains(k) { l.push(0) } else { l }
}
pub open spec fn nbig(l: Seq<int>, k: int) -> int { count_where(l, |x: int| x > k) }
pub open spec fn miami(l: Seq<int>, k: int) -> Seq<int> {
    if l.contains(k) && nbig(l, k) % 2 == 1 { swap(l, k) } else { l }
}
// 0: no part k; 1 and 2: the two classes with a part k
pub open spec fn class_type(l: Seq<int>, k: int) -> int {
    if !l.contains(k) { 0 } else if l.last() > 0 { 1 } else { 2 }
}

pub proof fn lemma_count_push<T>(l: Seq<T>, x: T, f: spec_fn(T) -> bool)
    ensures count_where(l.push(x), f) == count_where(l, f) + (if f(x) { 1int } else { 0int })
{ assert(l.push(x).drop_last() =~= l); }

pub proof fn lemma_swap(l: Seq<int>, k: int)
    requires is_class(l, k), k >= 1
    ensures is_class(swap(l, k), k), swap(swap(l, k), k) =~= l, sum_seq(swap(l, k)) == sum_seq(l),
        l.contains(k) <==> swap(l, k).contains(k),
        !l.contains(k) ==> swap(l, k) =~= l,
        l.contains(k) ==> class_type(swap(l, k), k) == 3 - class_type(l, k) && clip(swap(l, k)) =~= clip(l),
        class_type(swap(l, k), k) == 0 <==> class_type(l, k) == 0,
        nbig(swap(l, k), k) == nbig(l, k)
{
    let s = swap(l, k);
    if ends0(l) {
        let d = l.drop_last();
        let a = choose|a: int| 0 <= a < d.len() && d[a] == k;
        assert(l[a] == k);
        assert(l.contains(k));
        assert(d.last() > 0);
        assert(s.push(0) =~= l);
        assert(sum_seq(l) == sum_seq(d) + 0);
        assert(is_part(d)) by {
            assert forall|i: int, j: int| 0 <= i <= j < d.len() implies d[i] >= d[j] by { assert(l[i] >= l[j]); }
            assert forall|i: int| 0 <= i < d.len() implies d[i] >= 0 by { assert(l[i] >= 0); }
        }
        assert(clip(l) =~= clip(d));
        lemma_count_push(d, 0int, |x: int| x > k);
    } else if l.contains(k) {
        let a = choose|a: int| 0 <= a < l.len() && l[a] == k;
        assert(l.last() > 0) by { assert(l[l.len() - 1] >= 0); }
        assert(s.drop_last() =~= l);
        assert(s[a] == k);
        assert(s.last() == 0);
        assert(s.len() >= 2 && s[s.len() - 2] > 0);
        assert(is_part(s)) by {
            assert forall|i: int, j: int| 0 <= i <= j < s.len() implies s[i] >= s[j] by { if j < l.len() { assert(l[i] >= l[j]); } else if i < l.len() { assert(l[i] >= 0); } }
            assert forall|i: int| 0 <= i < s.len() implies s[i] >= 0 by { if i < l.len() { assert(l[i] >= 0); } }
        }
        assert(clip(s) =~= clip(l));
        lemma_count_push(l, 0int, |x: int| x > k);
    }
}

// C17 over the contracts below
pub proof fn theorem_swaps(l: Seq<int>, k: int)
    requires is_class(l, k), k >= 1
    ensures is_class(swap(l, k), k), swap(swap(l, k), k) =~= l, sum_seq(swap(l, k)) == sum_seq(l), (!l.contains(k) ==> swap(l, k) =~= l),
        l.contains(k) ==> class_type(l, k) + class_type(swap(l, k), k) == 3 && clip(swap(l, k)) =~= clip(l),
        class_type(l, k) == 0 <==> !l.contains(k),
        is_class(miami(l, k), k), miami(miami(l, k), k) =~= l, sum_seq(miami(l, k)) == sum_seq(l),
        miami(l, k) =~= (if nbig(l, k) % 2 == 1 { swap(l, k) } else { l }),
{
    lemma_swap(l, k);
    if l.contains(k) { let a = choose|a: int| 0 <= a < l.len() && l[a] == k; assert(l[l.len() - 1] >= 0); }
}

// the same for linear combinations of classes
pub proof fn theorem_swaps_linear(a: Seq<Term>, k: int, f: spec_fn(Seq<int>) -> Seq<Term>, g: spec_fn(Seq<int>) -> Seq<Term>)
    requires k >= 1, forall|i: int| 0 <= i < a.len() ==> is_class((#[trigger] a[i]).lam, k),
        forall|x: Seq<int>| #[trigger] f(x) == fs_one(swap(x, k)), forall|x: Seq<int>| #[trigger] g(x) == fs_one(miami(x, k))
    ensures fs_apply(f, fs_apply(f, a)) =~= a, fs_apply(g, fs_apply(g, a)) =~= a
{
    let s = |x: Seq<int>| swap(x, k);
    let m = |x: Seq<int>| miami(x, k);
    lemma_fs_apply_map(f, s, a);
    lemma_fs_apply_map(f, s, fs_map(s, a));
    lemma_fs_apply_map(g, m, a);
    lemma_fs_apply_map(g, m, fs_map(m, a));
    assert forall|i: int| 0 <= i < a.len() implies s(s((#[trigger] a[i]).lam)) =~= a[i].lam && m(m(a[i].lam)) =~= a[i].lam by { theorem_swaps(a[i].lam, k); }
    lemma_fs_map_inverse(s, s, a);
    lemma_fs_map_inverse(m, m, a);
}

//# fn schubertpy/qcalc.py::type_swap_inner(lam: L, k: I) -> L
//# spec swap
//# vars a
ensures result =~= swap(lam, k)
//# end

//# fn schubertpy/abstract_grassmannian.py::AbstractGrassmannian.static_miami_swap_inner(lam: L, k: I) -> FS
//# spec miami_fs
//# vars count a
ensures result =~~= fs_one(miami(lam, k))
//# end

pub open spec fn miami_fs(lam: Seq<int>, k: int) -> Seq<Term> { fs_one(miami(lam, k)) }

//# fn schubertpy/orthogonal_grassmannian.py::OrthogonalGrassmannian.type_swap(self_: SPACE, lc: FS, k: I) -> FS
ensures self_._type == str!"D" ==> result == fs_apply(|lam: Seq<int>| fs_one(swap(lam, self_._k)), lc), self_._type != str!"D" ==> result == lc
//# end
//# fn schubertpy/orthogonal_grassmannian.py::OrthogonalGrassmannian.type_swap^list(self_: SPACE, lc: L, k: I) -> FS
ensures self_._type == str!"D" ==> result =~= fs_one(swap(lc, self_._k)), self_._type != str!"D" ==> result =~= fs_one(lc)
//# hint return
lemma_fs_apply_map(|lam: Seq<int>| fs_one(swap(lam, self_._k)), |x: Seq<int>| swap(x, self_._k), fs_one(lc));
//# end
//# fn schubertpy/isotropic_grassmannian.py::IsotropicGrassmannian.type_swap(self_: SPACE, lc: FS, k: I) -> FS
ensures result =~= lc
//# end
//# fn schubertpy/isotropic_grassmannian.py::IsotropicGrassmannian.type_swap^list(self_: SPACE, lc: L, k: I) -> FS
ensures result =~= fs_one(lc)
//# end
//# fn schubertpy/grassmannian.py::Grassmannian.type_swap(self_: SPACE, lc: FS, k: I) -> FS
ensures result =~= lc
//# end
//# fn schubertpy/grassmannian.py::Grassmannian.type_swap^list(self_: SPACE, lc: L, k: I) -> FS
ensures result =~= fs_one(lc)
//# end
//# fn schubertpy/abstract_grassmannian.py::AbstractGrassmannian.miami_swap(self_: SPACE, lc: FS) -> FS
ensures self_._type == str!"D" ==> result == fs_apply(|lam: Seq<int>| miami_fs(lam, self_._k), lc), self_._type != str!"D" ==> result == lc
//# end
//# fn schubertpy/abstract_grassmannian.py::AbstractGrassmannian.miami_swap^list(self_: SPACE, lc: L) -> FS
ensures self_._type == str!"D" ==> result =~= fs_one(miami(lc, self_._k)), self_._type != str!"D" ==> result =~= fs_one(lc)
//# hint return
lemma_fs_apply_map(|lam: Seq<int>| fs_one(miami(lam, self_._k)), |x: Seq<int>| miami(x, self_._k), fs_one(lc));
//# end
//# fn schubertpy/orthogonal_grassmannian.py::OrthogonalGrassmannian.schub_type(self_: SPACE, lam: L) -> I
//# raises
ensures self_._type == str!"D" ==> result == Out::Val(class_type(lam, self_._k)), self_._type != str!"D" ==> result is Exc
//# end
//# fn schubertpy/isotropic_grassmannian.py::IsotropicGrassmannian.schub_type(self_: SPACE, lam: L) -> I
//# raises
ensures result is Exc
//# end
//# fn schubertpy/grassmannian.py::Grassmannian.schub_type(self_: SPACE, lam: L) -> I
//# raises
ensures result is Exc
//# end

//# unit classes
//# use index lex
// ---- Schur objects are compared as their lists
//# fn schubertpy/schur.py::Schur.__eq__(self_: SCH, other: SCH) -> B
ensures result == (self_ =~= other)
//# end
//# fn schubertpy/schur.py::Schur.__lt__(self_: SCH, other: SCH) -> B
ensures result == llt(self_, other)
//# end
//# fn schubertpy/schur.py::Schur.__hash__(self_: SCH) -> I
//# fun schur_hash
//# end
//# fn schubertpy/schur.py::unique_schur_list(schur_list: LL) -> LL
//# spec sset
//# hint return
lemma_sset(schur_list);
//# end

// ---- enumeration: all lists of n numbers with a property, in decreasing lexicographic order
pub open spec fn pdm(v: Seq<int>, n: int) -> Seq<int> { Seq::new(pylen(n), |j: int| row(v, j)) }
// every further x is above the next one
pub proof fn lemma_enum_step(x: Seq<int>, lam: Seq<int>, y: Seq<int>)
    requires x.len() == lam.len(), y.len() == lam.len(), lexgt(lam, y), lexgt(lam, x) ==> x =~= y || lexgt(y, x)
    ensures lexgt(x, y) <==> (lexgt(x, lam) || x =~= lam)
{
    if lexgt(x, y) {
        lemma_lex_total(x, lam);
        if lexgt(lam, x) {
            if x =~= y { lemma_lex_irr(x); } else { lemma_lex_trans(x, y, x); lemma_lex_irr(x); }
        }
    }
    if lexgt(x, lam) { lemma_lex_trans(x, lam, y); }
}
pub proof fn lemma_pdm_clip(x: Seq<int>)
    ensures pdm(clip(x), x.len() as int) =~= x, !ends0(clip(x)), clip(x).len() <= x.len()
{ lemma_is_clip(x); }
pub proof fn lemma_clip_pdm(v: Seq<int>, n: int)
    requires v.len() <= n, !ends0(v)
    ensures clip(pdm(v, n)) =~= v
{
    let x = pdm(v, n);
    assert(is_clip(x, v)) by { assert(x.subrange(0, v.len() as int) =~= v); }
    lemma_clip_unique(x, v);
}
// the largest element below all x with x < lam has the last non-zero entry one smaller
pub open spec fn lastv(lam: Seq<int>) -> int { lam[clip_len(lam) - 1] - 1 }
pub open spec fn pnext(lam: Seq<int>) -> Seq<int> { Seq::new(lam.len(), |j: int| if j < clip_len(lam) - 1 { lam[j] } else { lastv(lam) }) }

pub proof fn lemma_pnext(lam: Seq<int>)
    requires is_part(lam), clip_len(lam) > 0
    ensures is_part(pnext(lam)), lexgt(lam, pnext(lam)), forall|x: Seq<int>| is_part(x) && #[trigger] lexgt(lam, x) ==> x =~= pnext(lam) || lexgt(pnext(lam), x),
        forall|i: int| 0 <= i < lam.len() ==> pnext(lam)[i] <= lam[0]
{
    lemma_clip_len(lam);
    let c = clip_len(lam) - 1;
    let y = pnext(lam);
    assert(lam[c] >= 0);
    assert(lexat(lam, y, c));
    assert forall|i: int, j: int| 0 <= i <= j < y.len() implies y[i] >= y[j] by { assert(lam[imin(i, c)] >= lam[imin(j, c)]); }
    assert forall|i: int| 0 <= i < y.len() implies 0 <= #[trigger] y[i] <= lam[0] by { assert(lam[0] >= lam[imin(i, c)] && lam[i] >= 0); }
    assert forall|x: Seq<int>| is_part(x) && #[trigger] lexgt(lam, x) implies x =~= y || lexgt(y, x) by {
        let j = choose|j: int| lexat(lam, x, j);
        if j > c { assert(lam[j] == 0); assert(x[j] >= 0); assert(false); }
        if j < c {
            assert forall|i: int| 0 <= i < j implies #[trigger] y[i] == x[i] by { assert(lam[i] == x[i]); }
            assert(lexat(y, x, j));
        } else {
            assert forall|i: int| 0 <= i < c implies #[trigger] y[i] == x[i] by { assert(lam[i] == x[i]); }
            if x[c] < y[c] { assert(lexat(y, x, c)); } else {
                lemma_lex_total(y, x);
                if lexgt(x, y) { let h = choose|h: int| lexat(x, y, h); assert(h > c); assert(x[c] >= x[h]); assert(false); }
            }
        }
    }
}
//# fn schubertpy/qcalc.py::part_len(lambda_: L) -> I
ensures result == clip_len(lambda_)
//# hint return
lemma_is_clip(lambda_);
//# end
//# fn schubertpy/qcalc.py::part_itr(mu: L) -> OL
ensures result == (if clip_len(mu) == 0 { None::<Seq<int>> } else { Some(pnext(mu)) })
//# hint entry
lemma_is_clip(mu);
//# hint return
if clip_len(mu) > 0 { assert(result.unwrap() =~= pnext(mu)); }
//# end

// v is below or equal to lam
pub open spec fn le_lam(v: Seq<int>, lam: Seq<int>) -> bool { is_part(v) && !ends0(v) && v.len() <= lam.len() && !lexgt(pdm(v, lam.len() as int), lam) }
pub open spec fn done_to(v: Seq<int>, mu: Option<Seq<int>>, n: int) -> bool { mu.is_none() || lexgt(pdm(v, n), mu.unwrap()) }
pub open spec fn pmeas(mu: Option<Seq<int>>, c: int) -> int { match mu { Some(m) => lexval(m, c, m.len() as int) + 1, None => 0 } }
pub proof fn lemma_pdm_part(v: Seq<int>, n: int)
    requires is_part(v), v.len() <= n
    ensures is_part(pdm(v, n))
{
    let x = pdm(v, n);
    assert forall|i: int, j: int| 0 <= i <= j < n implies x[i] >= x[j] by { if j < v.len() { assert(v[i] >= v[j]); } else if i < v.len() { assert(v[i] >= 0); } }
}
// one step: clip(mu) was added
pub proof fn lemma_gen_step(lam: Seq<int>, mu: Seq<int>, next: Option<Seq<int>>, v: Seq<int>, was: bool)
    requires is_part(lam), is_part(mu), mu.len() == lam.len(), !lexgt(mu, lam), was == (le_lam(v, lam) && lexgt(pdm(v, lam.len() as int), mu)),
        next == (if clip_len(mu) == 0 { None::<Seq<int>> } else { Some(pnext(mu)) })
    ensures (was || v =~= clip(mu)) == (le_lam(v, lam) && done_to(v, next, lam.len() as int))
{
    let n = lam.len() as int;
    let x = pdm(v, n);
    lemma_clip_len(mu);
    lemma_pdm_clip(mu);
    lemma_clip_part(mu);
    if v =~= clip(mu) {
        assert(x =~= mu);
        if clip_len(mu) > 0 { lemma_pnext(mu); }
    }
    if le_lam(v, lam) {
        lemma_pdm_part(v, n);
        lemma_clip_pdm(v, n);
        if clip_len(mu) > 0 { lemma_pnext(mu); lemma_enum_step(x, mu, pnext(mu)); }
        else {
            lemma_lex_total(x, mu);
            if lexgt(mu, x) { let j = choose|j: int| lexat(mu, x, j); assert(x[j] >= 0); }
        }
        if x =~= mu { assert(v =~= clip(mu)); }
    }
}

//# fn schubertpy/qcalc.py::part_gen(lam: L) -> LL
//# vars mu ret pmu
//# types mu: OL, ret: LL
requires is_part(lam)
ensures forall|v: Seq<int>| #[trigger] result.contains(v) <==> le_lam(v, lam)
//# hint before loop 0
let n = lam.len() as int;
assert forall|v: Seq<int>| #[trigger] ret.contains(v) <==> (le_lam(v, lam) && done_to(v, mu, n)) by {}
assert(!lexgt(lam, lam)) by { lemma_lex_irr(lam); }
//# loop 0
invariant
    brk0 ==> lam.len() == 0 && forall|v: Seq<int>| #[trigger] ret.contains(v) <==> v.len() == 0,
    !brk0 && mu.is_some() ==> mu.unwrap().len() == lam.len() && is_part(mu.unwrap()) && !lexgt(mu.unwrap(), lam) && (forall|i: int| 0 <= i < lam.len() ==> #[trigger] mu.unwrap()[i] <= lam[0]),
    lam.len() == 0 && !brk0 ==> mu.is_some() && ret.len() == 0,
    lam.len() > 0 ==> !brk0 && forall|v: Seq<int>| #[trigger] ret.contains(v) <==> (le_lam(v, lam) && done_to(v, mu, lam.len() as int))
decreases pmeas(mu, if lam.len() > 0 { lam[0] + 1 } else { 1 }), (if brk0 { 0int } else { 1int })
//# hint loop 0 head
let ghost mu0 = mu.unwrap();
let ghost ret0 = ret;
//# hint loop 0 continue
let n = lam.len() as int;
let c = lam[0] + 1;
lemma_is_clip(mu0);
if clip_len(mu0) > 0 {
    lemma_pnext(mu0);
    lemma_is_clip(mu0);
    let y = pnext(mu0);
    let j = choose|j: int| lexat(mu0, y, j);
    lemma_lexval(mu0, y, j, c, n);
    if lexgt(y, lam) { lemma_lex_trans(mu0, y, lam); }
    assert forall|i: int| 0 <= i < n implies #[trigger] y[i] <= lam[0] by { assert(mu0[0] <= lam[0]); }
    lemma_lexval_nonneg(y, c, n);
} else { lemma_lexval_nonneg(mu0, c, n); }
assert forall|v: Seq<int>| #[trigger] ret.contains(v) <==> (le_lam(v, lam) && done_to(v, mu, n)) by {
    lemma_push_contains(ret0, clip(mu0), v);
    lemma_gen_step(lam, mu0, mu, v, ret0.contains(v));
}
//# hint loop 0 break
assert forall|v: Seq<int>| #[trigger] ret.contains(v) <==> v.len() == 0 by { lemma_push_contains(ret0, Seq::empty(), v); }
//# hint return
assert forall|v: Seq<int>| #[trigger] result.contains(v) <==> le_lam(v, lam) by {
    if lam.len() == 0 { if v.len() == 0 { assert(le_lam(v, lam)); } }
}
//# end

// ---- the k-strict partitions in a box
pub open spec fn kcap(v: int, k: int, d: int) -> int { if v <= k { v } else { imax(k, v - d) } }
pub open spec fn knext(lam: Seq<int>, k: int) -> Seq<int> { Seq::new(lam.len(), |j: int| if j < clip_len(lam) - 1 { lam[j] } else { kcap(lastv(lam), k, j - clip_len(lam) + 1) }) }
pub open spec fn kfirst(k: int, rows: int, cols: int) -> Seq<int> { Seq::new(pylen(rows), |j: int| imax(k, cols - j)) }
pub open spec fn kall(x: Seq<int>, k: int, n: int, w: int) -> bool { x.len() == n && kpart(x, k, n, w) }

// row h of a k-strict partition is bounded by row c before it
pub proof fn lemma_kcap(x: Seq<int>, k: int, n: int, w: int, c: int, h: int)
    requires kpart(x, k, n, w), 0 <= c <= h < n
    ensures x[h] <= kcap(x[c], k, h - c)
    decreases h - c
{
    if c < h { lemma_kcap(x, k, n, w, c, h - 1); assert(x[h - 1] >= x[h]); assert(x[c] >= x[h]); if x[h - 1] > k { assert(x[h - 1] > x[h]); } }
}
pub proof fn lemma_kfirst(k: int, rows: int, cols: int)
    requires k >= 0, rows >= 0, rows > 0 ==> k <= cols
    ensures kall(kfirst(k, rows, cols), k, rows, cols), forall|x: Seq<int>| kall(x, k, rows, cols) ==> !#[trigger] lexgt(x, kfirst(k, rows, cols))
{
    let f = kfirst(k, rows, cols);
    assert forall|x: Seq<int>| kall(x, k, rows, cols) implies !#[trigger] lexgt(x, f) by {
        if lexgt(x, f) { let j = choose|j: int| lexat(x, f, j); lemma_kcap(x, k, rows, cols, 0, j); }
    }
}
pub proof fn lemma_knext(lam: Seq<int>, k: int, n: int, w: int)
    requires kall(lam, k, n, w), clip_len(lam) > 0, k >= 0
    ensures kall(knext(lam, k), k, n, w), lexgt(lam, knext(lam, k)), forall|x: Seq<int>| kall(x, k, n, w) && #[trigger] lexgt(lam, x) ==> x =~= knext(lam, k) || lexgt(knext(lam, k), x)
{
    lemma_is_clip(lam);
    let c = clip_len(lam) - 1;
    let y = knext(lam, k);
    assert(lam[c] >= 0) by { assert(lam[c] >= lam[c]); }
    assert(lexat(lam, y, c));
    assert forall|i: int, j: int| 0 <= i <= j < n implies #[trigger] y[i] >= #[trigger] y[j] && y[j] >= 0 by { assert(lam[imin(i, c)] >= lam[imin(j, c)]); }
    assert forall|i: int, j: int| 0 <= i < j < n && #[trigger] y[i] > k implies y[i] > #[trigger] y[j] by { if i < c { assert(lam[i] > lam[imin(j, c)]); } }
    assert(y[0] <= w) by { assert(lam[0] >= lam[imin(0, c)]); }
    assert forall|x: Seq<int>| kall(x, k, n, w) && #[trigger] lexgt(lam, x) implies x =~= y || lexgt(y, x) by {
        let j = choose|j: int| lexat(lam, x, j);
        if j > c { assert(lam[j] == 0); assert(x[j] >= x[j]); assert(false); }
        if j < c {
            assert forall|i: int| 0 <= i < j implies #[trigger] y[i] == x[i] by { assert(lam[i] == x[i]); }
            assert(lexat(y, x, j));
        } else {
            assert forall|i: int| 0 <= i < c implies #[trigger] y[i] == x[i] by { assert(lam[i] == x[i]); }
            if x[c] < y[c] { assert(lexat(y, x, c)); } else {
                lemma_lex_total(y, x);
                if lexgt(x, y) { let h = choose|h: int| lexat(x, y, h); lemma_kcap(x, k, n, w, c, h); assert(false); }
            }
        }
    }
}
pub proof fn lemma_pdm_kall(v: Seq<int>, k: int, n: int, w: int)
    requires in_box(v, k, n, w), k >= 0, n >= 0, n > 0 ==> w >= 0
    ensures kall(pdm(v, n), k, n, w)
{
    let x = pdm(v, n);
    assert forall|i: int, j: int| 0 <= i <= j < n implies #[trigger] x[i] >= #[trigger] x[j] && x[j] >= 0 by { if j < v.len() { assert(v[i] >= v[j]); assert(v[j] >= 0); } else if i < v.len() { assert(v[i] >= 0); } }
    assert forall|i: int, j: int| 0 <= i < j < n && #[trigger] x[i] > k implies x[i] > #[trigger] x[j] by { if j < v.len() { assert(v[i] > v[j]); } }
}
pub open spec fn kdone(v: Seq<int>, lam: Seq<int>, n: int) -> bool { lexgt(pdm(v, n), lam) }
pub proof fn lemma_kgen_step(lam: Seq<int>, v: Seq<int>, k: int, n: int, w: int, was: bool)
    requires kall(lam, k, n, w), k >= 0, n >= 0, n > 0 ==> w >= 0, was == (in_box(v, k, n, w) && kdone(v, lam, n))
    ensures (was || v =~= clip(lam)) == (in_box(v, k, n, w) && (clip_len(lam) == 0 || kdone(v, knext(lam, k), n)))
{
    let x = pdm(v, n);
    lemma_pdm_clip(lam);
    lemma_clip_box(lam, k, n, w);
    lemma_is_clip(lam);
    if v =~= clip(lam) {
        assert(x =~= lam);
        if clip_len(lam) > 0 { lemma_knext(lam, k, n, w); }
    }
    if in_box(v, k, n, w) {
        lemma_pdm_kall(v, k, n, w);
        lemma_clip_pdm(v, n);
        if clip_len(lam) > 0 { lemma_knext(lam, k, n, w); lemma_enum_step(x, lam, knext(lam, k)); }
        else {
            lemma_lex_total(x, lam);
            if lexgt(lam, x) { let j = choose|j: int| lexat(lam, x, j); assert(x[j] >= x[j]); }
        }
        if x =~= lam { assert(v =~= clip(lam)); }
    }
}

pub proof fn lemma_kmeas(lam: Seq<int>, k: int, n: int, w: int)
    requires kall(lam, k, n, w), k >= 0, n >= 0, n > 0 ==> w >= 0
    ensures clip_len(lam) > 0 ==> kall(knext(lam, k), k, n, w) && 1 <= pmeas(Some(knext(lam, k)), w + 1) < pmeas(Some(lam), w + 1), pmeas(Some(lam), w + 1) >= 1, pmeas(Some(Seq::<int>::empty()), w + 1) == 1
{
    assert forall|i: int| 0 <= i < n implies 0 <= #[trigger] lam[i] < w + 1 by { assert(lam[0] >= lam[i]); }
    lemma_is_clip(lam);
    if n > 0 { lemma_lexval_nonneg(lam, w + 1, n); }
    if clip_len(lam) > 0 {
        lemma_knext(lam, k, n, w);
        let y = knext(lam, k);
        assert forall|i: int| 0 <= i < n implies 0 <= #[trigger] y[i] < w + 1 by { assert(y[0] >= y[i]); }
        let j = choose|j: int| lexat(lam, y, j);
        lemma_lexval(lam, y, j, w + 1, n);
        lemma_lexval_nonneg(y, w + 1, n);
    }
}
// res is res0 with clip(lam) added where it was missing
pub proof fn lemma_kgen_all(lam: Seq<int>, res0: Seq<Seq<int>>, res: Seq<Seq<int>>, k: int, n: int, w: int)
    requires kall(lam, k, n, w), k >= 0, n >= 0, n > 0 ==> w >= 0, res =~= res0.push(clip(lam)) || (res =~= res0 && res0.contains(clip(lam))),
        forall|v: Seq<int>| #[trigger] res0.contains(v) <==> (in_box(v, k, n, w) && kdone(v, lam, n))
    ensures forall|v: Seq<int>| #[trigger] res.contains(v) <==> (res0.contains(v) || v =~= clip(lam)),
        forall|v: Seq<int>| #[trigger] res.contains(v) <==> (in_box(v, k, n, w) && (clip_len(lam) == 0 || kdone(v, knext(lam, k), n)))
{
    assert forall|v: Seq<int>| #[trigger] res.contains(v) <==> (res0.contains(v) || v =~= clip(lam)) by { lemma_push_contains(res0, clip(lam), v); }
    assert forall|v: Seq<int>| #[trigger] res.contains(v) <==> (in_box(v, k, n, w) && (clip_len(lam) == 0 || kdone(v, knext(lam, k), n))) by { lemma_kgen_step(lam, v, k, n, w, res0.contains(v)); }
}
//# fn schubertpy/utils/kstrict.py::_first_kstrict(k: I, rows: I, cols: I) -> L
ensures result =~= kfirst(k, rows, cols)
//# end
//# fn schubertpy/utils/kstrict.py::_itr_kstrict(lambda_: L, k: I) -> OL
//# vars n clip_lambda i li
ensures result == Some(if clip_len(lambda_) == 0 { Seq::<int>::empty() } else { knext(lambda_, k) })
//# hint entry
lemma_is_clip(lambda_);
//# hint return
if clip_len(lambda_) > 0 { assert(result.unwrap() =~= knext(lambda_, k)); } else { assert(result.unwrap() =~= Seq::empty()); }
//# end
//# fn schubertpy/utils/kstrict.py::all_kstrict(k: I, rows: I, cols: I) -> LL
//# vars res seen lam clipped tpl
//# types res: LL, seen: SETL, lam: OL
requires k >= 0, rows >= 0, rows > 0 ==> k <= cols
ensures forall|v: Seq<int>| #[trigger] result.contains(v) <==> in_box(v, k, rows, cols)
//# hint before loop 0
lemma_kfirst(k, rows, cols);
assert forall|v: Seq<int>| #[trigger] res.contains(v) <==> (in_box(v, k, rows, cols) && kdone(v, lam.unwrap(), rows)) by {
    if in_box(v, k, rows, cols) { lemma_pdm_kall(v, k, rows, cols); }
}
//# loop 0
invariant
    forall|v: Seq<int>| #[trigger] seen.contains(v) <==> res.contains(v),
    brk0 ==> forall|v: Seq<int>| #[trigger] res.contains(v) <==> in_box(v, k, rows, cols),
    !brk0 ==> lam.is_some() && kall(lam.unwrap(), k, rows, cols),
    !brk0 ==> forall|v: Seq<int>| #[trigger] res.contains(v) <==> (in_box(v, k, rows, cols) && kdone(v, lam.unwrap(), rows))
decreases pmeas(lam, cols + 1), (if brk0 { 0int } else { 1int })
//# hint loop 0 head
let ghost lam0 = lam.unwrap();
let ghost res0 = res;
assert(lam == Some(lam0));
//# hint loop 0 break
lemma_kgen_all(lam0, res0, res, k, rows, cols);
lemma_kmeas(lam0, k, rows, cols);
lemma_is_clip(lam0);
assert(rows > 0 && clip_len(lam0) > 0 ==> knext(lam0, k).len() > 0);
//# hint loop 0 end
lemma_kgen_all(lam0, res0, res, k, rows, cols);
lemma_kmeas(lam0, k, rows, cols);
lemma_is_clip(lam0);
assert(clip_len(lam0) > 0);
assert(lam == Some(knext(lam0, k)));
assert(clip_len(lam0) > 0 ==> pmeas(lam, cols + 1) < pmeas(Some(lam0), cols + 1));
//# end

// ---- the lists of classes
pub open spec fn same_as(r: Seq<Seq<int>>, s: Space) -> bool { lstrict(r) && forall|v: Seq<int>| #[trigger] r.contains(v) <==> box_s(v, s) }
pub proof fn lemma_le_rect(v: Seq<int>, m: int, w: int)
    requires w >= 0, m >= 0
    ensures le_lam(v, rep(w, m)) == box_a(v, m, w)
{
    let c = rep(w, m);
    let x = pdm(v, m);
    if is_part(v) && !ends0(v) && v.len() <= m {
        if v.len() > 0 && v[0] > w { assert(lexat(x, c, 0)); }
        if lexgt(x, c) { let j = choose|j: int| lexat(x, c, j); if j < v.len() { assert(v[0] >= v[j]); } }
    }
}
//# fn schubertpy/grassmannian.py::Grassmannian.schub_classes(self_: SPACE) -> LL
//# vars mu partitions res
//# types partitions: LL, res: LL
requires is_A(self_)
ensures same_as(result, self_)
//# hint entry
lemma_kinds(self_);
//# hint call part_gen
assert($a0 =~= rep(self_._k, self_._n - self_._k));
lemma_lsort($r);
assert forall|v: Seq<int>| #[trigger] $r.contains(v) <==> box_s(v, self_) by { lemma_le_rect(v, self_._n - self_._k, self_._k); }
//# hint call unique_schur_list
lemma_sset($a0);
//# end
//# fn schubertpy/isotropic_grassmannian.py::IsotropicGrassmannian.schub_classes(self_: SPACE) -> LL
//# vars lam_list res
//# types lam_list: LL, res: LL
requires is_C(self_)
ensures same_as(result, self_)
//# hint entry
lemma_kinds(self_);
//# hint call unique_schur_list
lemma_sset($a0);
//# end
// the classes made from the list l: each member, and each member that contains k with a zero row added
pub open spec fn gen_d(v: Seq<int>, l: Seq<Seq<int>>, k: int) -> bool {
    l.contains(v) || (v.len() > 0 && v.last() == 0 && l.contains(v.drop_last()) && v.drop_last().contains(k))
}
pub proof fn lemma_gen_d(v: Seq<int>, l: Seq<Seq<int>>, mu: Seq<int>, k: int)
    ensures gen_d(v, l.push(mu), k) <==> (gen_d(v, l, k) || v =~= mu || (mu.contains(k) && v =~= mu.push(0)))
{
    lemma_push_contains(l, mu, v);
    if v.len() > 0 { lemma_push_contains(l, mu, v.drop_last()); assert(v =~= v.drop_last().push(v.last())); }
    assert(mu.push(0).drop_last() =~= mu);
}
pub proof fn lemma_gen_d_box(v: Seq<int>, l: Seq<Seq<int>>, k: int, m: int, w: int)
    requires k >= 0, forall|u: Seq<int>| #[trigger] l.contains(u) <==> in_box(u, k, m, w)
    ensures gen_d(v, l, k) <==> box_d(v, k, m, w)
{
    lemma_is_clip(v);
    if !ends0(v) { assert(clip(v) =~= v) by { assert(is_clip(v, v)) by { assert(v.subrange(0, v.len() as int) =~= v); } lemma_clip_unique(v, v); } }
    else {
        let u = v.drop_last();
        assert(v =~= u.push(0));
        if in_box(u, k, m, w) {
            assert(u + tail0(true) =~= v);
            lemma_append0(u, true);
            if u.contains(k) { let i = choose|i: int| 0 <= i < u.len() && u[i] == k; assert(u[i] >= u.last()); assert(k > 0); }
        }
        if box_d(v, k, m, w) { assert(clip(v) =~= u); }
        assert(!in_box(v, k, m, w));
    }
}
//# fn schubertpy/orthogonal_grassmannian.py::OrthogonalGrassmannian.schub_classes(self_: SPACE) -> LL
//# vars res mu_list mu lam_list
//# types lam_list: LL, res: LL, mu_list: LL
requires is_B(self_) || is_D(self_)
ensures same_as(result, self_)
//# hint entry
lemma_kinds(self_);
//# loop 0
invariant forall|v: Seq<int>| #[trigger] res.contains(v) <==> gen_d(v, mu_list.subrange(0, it0), self_._k)
//# hint loop 0 head
let ghost res0 = res;
//# hint loop 0 end
assert forall|v: Seq<int>| #[trigger] res.contains(v) <==> gen_d(v, mu_list.subrange(0, it0), self_._k) by {
    assert(mu_list.subrange(0, it0) =~= mu_list.subrange(0, it0 - 1).push(mu));
    lemma_gen_d(v, mu_list.subrange(0, it0 - 1), mu, self_._k);
    assert(res0.contains(v) <==> gen_d(v, mu_list.subrange(0, it0 - 1), self_._k));
    lemma_push_contains(res0, mu, v);
    lemma_push_contains(res0.push(mu), mu.push(0), v);
    assert(mu + seq![0int] =~= mu.push(0));
}
//# hint after loop 0
assert(mu_list.subrange(0, mu_list.len() as int) =~= mu_list);
assert forall|v: Seq<int>| #[trigger] res.contains(v) <==> box_s(v, self_) by { lemma_gen_d_box(v, mu_list, self_._k, self_._n + 1 - self_._k, self_._n + self_._k); }
//# hint call unique_schur_list
lemma_sset($a0);
//# end

// ---- generators: the special classes, by degree
pub open spec fn ones(a: int, b: int) -> Seq<Seq<int>> { Seq::new(pylen(b - a), |i: int| seq![a + i]) }
pub open spec fn gens(s: Space) -> Seq<Seq<int>> {
    if is_A(s) { if s._k == s._n { Seq::empty() } else { ones(1, s._k + 1) } }
    else if is_D(s) { if s._k > 0 { ones(1, s._k + 1).push(seq![s._k, 0]) + ones(s._k + 1, s._n + s._k + 1) } else { ones(1, s._n + s._k + 1) } }
    else { if s._k == s._n { Seq::empty() } else { ones(1, s._n + s._k + 1) } }
}
// the special classes of a space: one row, or the second class of degree k
pub open spec fn special(v: Seq<int>, s: Space) -> bool { box_s(v, s) && (v.len() == 1 || (v.len() == 2 && v[1] == 0)) }
pub open spec fn subdim(s: Space) -> int { if is_D(s) { s._n + 1 - s._k } else { s._n - s._k } }
pub proof fn lemma_ones(a: int, b: int, v: Seq<int>)
    ensures ones(a, b).contains(v) <==> v.len() == 1 && a <= v[0] < b
{
    if ones(a, b).contains(v) { let i = choose|i: int| 0 <= i < ones(a, b).len() && ones(a, b)[i] == v; }
    if v.len() == 1 && a <= v[0] < b { assert(ones(a, b)[v[0] - a] =~= v); }
}
pub proof fn lemma_single(x: int, k: int, m: int, w: int)
    requires m >= 1, k >= 0
    ensures in_box(seq![x], k, m, w) <==> 1 <= x <= w, box_a(seq![x], m, w) <==> 1 <= x <= w, clip(seq![x]) =~= (if x == 0 { Seq::empty() } else { seq![x] })
{
    let v = seq![x];
    if x != 0 { assert(is_clip(v, v)) by { assert(v.subrange(0, 1) =~= v); } lemma_clip_unique(v, v); }
    else { assert(is_clip(v, Seq::empty())) by { assert(v.subrange(0, 0) =~= Seq::empty()); } lemma_clip_unique(v, Seq::empty()); }
}
// C05: the generators are exactly the special classes, each once, and their degrees do not go down
pub proof fn theorem_generators(s: Space)
    requires is_space(s), subdim(s) >= 1
    ensures forall|v: Seq<int>| #[trigger] gens(s).contains(v) <==> special(v, s), gens(s).no_duplicates(),
        forall|i: int, j: int| 0 <= i <= j < gens(s).len() ==> sum_seq(#[trigger] gens(s)[i]) <= sum_seq(#[trigger] gens(s)[j])
{
    lemma_kinds(s);
    let k = s._k;
    let g = gens(s);
    let m = subdim(s);
    let w = if is_A(s) { k } else { s._n + k };
    assert forall|v: Seq<int>| #[trigger] g.contains(v) <==> special(v, s) by {
        lemma_ones(1, w + 1, v);
        if is_D(s) && k > 0 {
            lemma_ones(1, k + 1, v); lemma_ones(k + 1, w + 1, v);
            lemma_push_contains(ones(1, k + 1), seq![k, 0int], v);
            lemma_add_contains(ones(1, k + 1).push(seq![k, 0int]), ones(k + 1, w + 1), v);
        }
        if v.len() == 1 { assert(v =~= seq![v[0]]); lemma_single(v[0], k, m, w); assert(seq![v[0]].contains(0) ==> v[0] == 0); }
        if v.len() == 2 && v[1] == 0 {
            assert(ends0(v));
            lemma_is_clip(v);
            let u = seq![v[0]];
            lemma_single(v[0], k, m, w);
            assert(v =~= u.push(0));
            assert(u.contains(k) <==> v[0] == k) by { if v[0] == k { assert(u[0] == k); } }
            if v[0] != 0 { assert(u + tail0(true) =~= v); lemma_append0(u, true); }
            else { assert(is_clip(v, Seq::empty())) by { assert(v.subrange(0, 0) =~= Seq::empty()); } lemma_clip_unique(v, Seq::empty()); assert(!(v =~= Seq::<int>::empty().push(0))) by { assert(Seq::<int>::empty().push(0).len() == 1); } }
            if v[0] == k { assert(v =~= seq![k, 0int]); }
        }
    }
    assert forall|i: int| 0 <= i < g.len() implies sum_seq(#[trigger] g[i]) == (if is_D(s) && k > 0 && i >= k { i } else { i + 1 }) by { lemma_sum_first(g[i]); }
    assert forall|i: int, j: int| 0 <= i < j < g.len() implies g[i] != g[j] by {
        if is_D(s) && k > 0 && i == k - 1 && j == k { assert(g[i].len() == 1); assert(g[j].len() == 2); } else { assert(sum_seq(g[i]) != sum_seq(g[j])); }
    }
}
pub proof fn lemma_sum_first(v: Seq<int>)
    requires v.len() == 1 || (v.len() == 2 && v[1] == 0)
    ensures sum_seq(v) == v[0]
{
    if v.len() == 1 { assert(v =~= seq![v[0]]); lemma_sum_one(v[0]); }
    else { let u = seq![v[0]]; assert(v.drop_last() =~= u); lemma_sum_one(v[0]); assert(v =~= u.push(0)); lemma_sum_add(u, seq![0int]); assert(u + seq![0int] =~= v); lemma_sum_one(0); }
}
pub proof fn lemma_add_contains(a: Seq<Seq<int>>, b: Seq<Seq<int>>, v: Seq<int>)
    ensures (a + b).contains(v) <==> a.contains(v) || b.contains(v)
{
    let c = a + b;
    if a.contains(v) { let i = choose|i: int| 0 <= i < a.len() && a[i] == v; assert(c[i] == v); }
    if b.contains(v) { let i = choose|i: int| 0 <= i < b.len() && b[i] == v; assert(c[a.len() + i] == v); }
    if c.contains(v) { let i = choose|i: int| 0 <= i < c.len() && c[i] == v; if i < a.len() { assert(a[i] == v); } else { assert(b[i - a.len()] == v); } }
}
//# fn schubertpy/grassmannian.py::Grassmannian.generators(self_: SPACE) -> LL
//# vars gen_list
//# types gen_list: LL
requires is_A(self_)
ensures result =~= gens(self_)
//# hint entry
lemma_kinds(self_);
//# end
//# fn schubertpy/isotropic_grassmannian.py::IsotropicGrassmannian.generators(self_: SPACE) -> LL
//# vars gen_list
//# types gen_list: LL
requires is_C(self_)
ensures result =~= gens(self_)
//# hint entry
lemma_kinds(self_);
//# end
//# fn schubertpy/orthogonal_grassmannian.py::OrthogonalGrassmannian.generators(self_: SPACE) -> LL
//# vars gen_list
//# types gen_list: LL
requires is_B(self_) || is_D(self_)
ensures result =~= gens(self_)
//# hint entry
lemma_kinds(self_);
//# end

// ---- the point class
pub open spec fn stairs(a: int, r: int) -> Seq<int> { Seq::new(pylen(r), |i: int| a - i) }
pub open spec fn point(s: Space) -> Seq<int> {
    if is_A(s) { if s._k > 0 { rep(s._k, s._n - s._k) } else { Seq::empty() } }
    else if is_D(s) && s._k > 0 { stairs(s._n + s._k, s._n + 1 - s._k) }
    else { stairs(s._n + s._k, s._n - s._k) }
}
pub open spec fn dim2(s: Space) -> int {
    if is_A(s) { 2 * dim_a(s._n - s._k, s._k) } else if is_D(s) { dim2_d(s._n + 1 - s._k, s._k) } else { dim2_c(s._n - s._k, s._k) }
}
pub proof fn lemma_sum_stairs(a: int, r: int)
    requires r >= 0
    ensures 2 * sum_seq(stairs(a, r)) == r * (2 * a - r + 1)
    decreases r
{
    let x = stairs(a, r);
    if r > 0 {
        lemma_sum_stairs(a, r - 1);
        assert(x.drop_last() =~= stairs(a, r - 1));
        lemma_sum_last(x);
        assert(r * (2 * a - r + 1) == (r - 1) * (2 * a - (r - 1) + 1) + 2 * (a - (r - 1))) by (nonlinear_arith);
    } else { assert(r * (2 * a - r + 1) == 0) by (nonlinear_arith) requires r == 0; assert(x =~= Seq::empty()); lemma_sum_zero(x); }
}
pub proof fn lemma_sum_last(x: Seq<int>)
    requires x.len() > 0
    ensures sum_seq(x) == sum_seq(x.drop_last()) + x.last()
{ assert(x =~= x.drop_last() + seq![x.last()]); lemma_sum_add(x.drop_last(), seq![x.last()]); lemma_sum_one(x.last()); }
pub proof fn lemma_sum_rep(a: int, r: int)
    requires r >= 0
    ensures sum_seq(rep(a, r)) == r * a
    decreases r
{
    let x = rep(a, r);
    if r > 0 { lemma_sum_rep(a, r - 1); assert(x.drop_last() =~= rep(a, r - 1)); lemma_sum_last(x); assert(r * a == (r - 1) * a + a) by (nonlinear_arith); }
    else { assert(r * a == 0) by (nonlinear_arith) requires r == 0; assert(x =~= Seq::empty()); lemma_sum_zero(x); }
}
// row by row below p, and different: a smaller sum
pub proof fn lemma_below(v: Seq<int>, p: Seq<int>)
    requires v.len() <= p.len(), forall|j: int| 0 <= j < p.len() ==> row(v, j) <= #[trigger] p[j] && p[j] > 0, v.len() < p.len() || !(v =~= p)
    ensures sum_seq(v) < sum_seq(p)
    decreases p.len()
{
    if p.len() == 0 { assert(v =~= p); }
    else {
        let q = p.drop_last();
        lemma_sum_last(p);
        assert(row(v, p.len() - 1) <= p[p.len() - 1]);
        if v.len() == p.len() {
            let u = v.drop_last();
            lemma_sum_last(v);
            assert forall|j: int| 0 <= j < q.len() implies row(u, j) <= #[trigger] q[j] && q[j] > 0 by { assert(row(v, j) <= p[j]); }
            if u =~= q { assert(v.last() != p.last()) by { if v.last() == p.last() { assert(v =~= u.push(v.last())); assert(p =~= q.push(p.last())); } } } else { lemma_below(u, q); }
        } else {
            assert forall|j: int| 0 <= j < q.len() implies row(v, j) <= #[trigger] q[j] && q[j] > 0 by { assert(row(v, j) <= p[j]); }
            if v =~= q {} else { lemma_below(v, q); }
        }
    }
}
pub proof fn lemma_top_box(v: Seq<int>, k: int, m: int, w: int, r: int)
    requires in_box(v, k, m, w), k >= 0, m >= 1, 0 <= r <= m, w - r + 1 >= imax(k, 1), r == m || (r == m - 1 && k == 0 && w == m - 1)
    ensures v.len() <= r, !(v =~= stairs(w, r)) ==> sum_seq(v) < sum_seq(stairs(w, r))
{
    lemma_pdm_kall(v, k, m, w);
    let x = pdm(v, m);
    let p = stairs(w, r);
    assert forall|j: int| 0 <= j < m implies row(v, j) <= #[trigger] imax(k, w - j) by { lemma_kcap(x, k, m, w, 0, j); assert(x[j] == row(v, j)); assert(x[0] <= w); }
    assert(v.len() <= r) by { if v.len() == m && r == m - 1 { assert(row(v, m - 1) <= imax(k, w - (m - 1))); assert(v[m - 1] >= 0 && v.last() != 0); } }
    assert forall|j: int| 0 <= j < p.len() implies row(v, j) <= #[trigger] p[j] && p[j] > 0 by { assert(row(v, j) <= imax(k, w - j)); }
    if !(v =~= p) { lemma_below(v, p); }
}
pub proof fn lemma_stairs_box(k: int, m: int, w: int, r: int)
    requires k >= 0, m >= 1, r <= m, r >= 0, w - r + 1 > 0
    ensures in_box(stairs(w, r), k, m, w)
{}
pub proof fn lemma_point_top(v: Seq<int>, s: Space)
    requires is_space(s), !is_A(s), subdim(s) >= 1, box_s(v, s), !(v =~= point(s))
    ensures sum_seq(v) < sum_seq(point(s))
{
    lemma_kinds(s);
    let k = s._k;
    let m = subdim(s);
    let w = s._n + k;
    let p = point(s);
    let r = p.len() as int;
    if is_D(s) {
        lemma_is_clip(v);
        let u = clip(v);
        lemma_top_box(u, k, m, w, r);
        if ends0(v) {
            let i = choose|i: int| 0 <= i < u.len() && u[i] == k;
            if u =~= p { assert(p[i] >= 2 * k); }
            lemma_sum_last(v);
            assert(v.drop_last() =~= u);
        }
    } else { lemma_top_box(v, k, m, w, r); }
}
// C05: the point class is a class, its degree is the dimension, and every other class has a smaller degree
pub proof fn theorem_point(s: Space)
    requires is_space(s), subdim(s) >= 1
    ensures box_s(point(s), s), 2 * sum_seq(point(s)) == dim2(s), forall|v: Seq<int>| #[trigger] box_s(v, s) && !(v =~= point(s)) ==> sum_seq(v) < sum_seq(point(s))
{
    lemma_kinds(s);
    let k = s._k;
    let m = subdim(s);
    let p = point(s);
    if is_A(s) {
        lemma_sum_rep(k, m);
        if k == 0 { assert(m * k == 0) by (nonlinear_arith) requires k == 0; assert(p =~= Seq::empty()); lemma_sum_zero(p); }
        assert forall|v: Seq<int>| #[trigger] box_s(v, s) && !(v =~= p) implies sum_seq(v) < sum_seq(p) by {
            assert forall|j: int| 0 <= j < v.len() implies v[j] <= k && v[j] > 0 by { assert(v[0] >= v[j]); assert(v[j] >= v[v.len() - 1]); }
            if k == 0 { if v.len() > 0 { assert(v[0] <= k); } } else { lemma_below(v, p); }
        }
    } else {
        let w = s._n + k;
        let r = p.len() as int;
        lemma_sum_stairs(w, r);
        lemma_stairs_box(k, m, w, r);
        assert(r * (2 * w - r + 1) == dim2(s)) by {
            if !is_D(s) { assert(m * (2 * w - m + 1) == m * (4 * k + m + 1)) by (nonlinear_arith) requires w == m + 2 * k; }
            else if k > 0 { assert(m * (2 * w - m + 1) == m * (4 * k + m - 1)) by (nonlinear_arith) requires w == m - 1 + 2 * k; }
            else { assert((m - 1) * (2 * w - (m - 1) + 1) == m * (m - 1)) by (nonlinear_arith) requires w == m - 1; assert(m * (4 * k + m - 1) == m * (m - 1)) by (nonlinear_arith) requires k == 0; }
        }
        assert(box_s(p, s)) by { if is_D(s) { assert(!ends0(p)); lemma_is_clip(p); assert(clip(p) =~= p) by { assert(is_clip(p, p)) by { assert(p.subrange(0, r) =~= p); } lemma_clip_unique(p, p); } } }
        assert forall|v: Seq<int>| #[trigger] box_s(v, s) && !(v =~= p) implies sum_seq(v) < sum_seq(p) by { lemma_point_top(v, s); }
    }
}
//# fn schubertpy/grassmannian.py::Grassmannian.point_class(self_: SPACE) -> L
requires is_A(self_)
ensures result =~= point(self_)
//# hint entry
lemma_kinds(self_);
//# end
//# fn schubertpy/isotropic_grassmannian.py::IsotropicGrassmannian.point_class(self_: SPACE) -> L
//# vars delta result i
//# types result: L
requires is_C(self_)
ensures result =~= point(self_)
//# hint entry
lemma_kinds(self_);
//# loop 0
invariant delta == 1, result =~= stairs(self_._n + self_._k, it0)
//# end
//# fn schubertpy/orthogonal_grassmannian.py::OrthogonalGrassmannian.point_class(self_: SPACE) -> L
//# vars delta result i
//# types result: L
requires is_B(self_) || is_D(self_)
ensures result =~= point(self_)
//# hint entry
lemma_kinds(self_);
//# loop 0
invariant delta == (if self_._type == str!"D" && self_._k > 0 { 0int } else { 1int }), result =~= stairs(self_._n + self_._k, it0)
//# end

//# unit qpb
//# use qpc classes
// ---- C04: the partition without its first row and the ones at the end that the first row lacks
pub open spec fn tilde_ok(l: Seq<int>, rows: int, cols: int) -> bool {
    &&& clip_len(l) == rows && row(l, 0) <= cols && rows + row(l, 0) - cols >= 1
    &&& forall|i: int| rows + row(l, 0) - cols <= i < rows ==> #[trigger] row(l, i) == 1
}
pub open spec fn tilde(l: Seq<int>, rows: int, cols: int) -> Option<Seq<int>> {
    if tilde_ok(l, rows, cols) { Some(slice(l, 1, rows + row(l, 0) - cols) + tail0(ends0(l))) } else { None }
}
// the only partition that gives nu
pub open spec fn untilde(nu: Seq<int>, rows: int, cols: int) -> Seq<int> {
    let b = bare(nu);
    put(b.len() + 1 + cols - rows, b) + rep(1, rows - 1 - b.len()) + tail0(ends0(nu))
}
// the same for any list, with one entry looked at; lemma_tilde_ok: on partitions the entries after it are ones too
pub open spec fn tilde_raw(l: Seq<int>, rows: int, cols: int) -> Option<Seq<int>> {
    let r = rows + row(l, 0) - cols;
    if clip_len(l) == rows && row(l, 0) <= cols && r >= 1 && (r < rows ==> row(l, r) <= 1) { Some(slice(l, 1, r) + tail0(ends0(l))) } else { None }
}
pub open spec fn tilde_fs(l: Seq<int>, rows: int, cols: int) -> Seq<Term> { fs_opt(tilde_raw(l, rows, cols)) }
//# fn schubertpy/qcalc.py::_part_tilde(lam: L, rows: I, cols: I) -> FS
//# spec tilde_fs
//# vars r res
requires rows >= 1
ensures result == fs_opt(tilde_raw(lam, rows, cols))
//# hint entry
lemma_is_clip(lam);
//# hint return
let s0 = slice(lam, 1, rows + row(lam, 0) - cols);
assert(s0 + tail0(true) =~= s0.push(0));
assert(s0 + tail0(false) =~= s0);
//# end
pub proof fn lemma_tilde_ok(l: Seq<int>, rows: int, cols: int)
    requires is_part(l), rows >= 1
    ensures clip_len(l) == rows ==> l.len() >= rows, clip_len(l) == rows && l[0] <= cols && rows + l[0] - cols >= 1 ==> (tilde_ok(l, rows, cols) <==> rows + l[0] - cols >= rows || l[rows + l[0] - cols] <= 1),
        tilde_raw(l, rows, cols) == tilde(l, rows, cols)
{
    lemma_is_clip(l);
    if clip_len(l) == rows && l[0] <= cols && rows + l[0] - cols >= 1 {
        let r = rows + l[0] - cols;
        assert(l[0] >= 0);
        if r < rows { if tilde_ok(l, rows, cols) { assert(row(l, r) == 1); } }
        assert forall|i: int| r <= i < rows && l[r] <= 1 implies #[trigger] row(l, i) == 1 by { assert(l[r] >= l[i]); assert(l[i] >= l[rows - 1]); assert(l[rows - 1] != 0); assert(l[i] >= 0); }
    }
}

pub proof fn lemma_untilde(x: Seq<int>, nu: Seq<int>, rows: int, cols: int)
    requires is_part(x), is_part(clip(x)), ends0(x) ==> x =~= clip(x).push(0), rows >= 1
    ensures tilde(x, rows, cols).is_some() && tilde(x, rows, cols).unwrap() =~= nu <==> x =~= untilde(nu, rows, cols) && tilde(untilde(nu, rows, cols), rows, cols) == Some(nu)
{
    let y = untilde(nu, rows, cols);
    lemma_is_clip(x);
    if tilde(x, rows, cols).is_some() && tilde(x, rows, cols).unwrap() =~= nu {
        let r = rows + x[0] - cols;
        let z = tail0(ends0(x));
        let s = slice(x, 1, r);
        assert(x[0] >= 0);
        assert(s.len() == r - 1);
        assert(!ends0(s)) by { if s.len() > 0 { assert(s[s.len() - 1] == x[r - 1]); assert(x[r - 1] >= x[rows - 1]); } }
        assert(s + tail0(false) =~= s);
        assert(ends0(nu) <==> ends0(x));
        assert(bare(nu) =~= s) by { if ends0(nu) { assert(slice(nu, 0, nu.len() - 1) =~= s); } }
        assert forall|i: int| r <= i < rows implies #[trigger] x[i] == 1 by { assert(row(x, i) == 1); }
        assert(x.len() == rows + z.len());
        assert(x =~= y) by {
            assert(y.len() == x.len());
            assert forall|i: int| 0 <= i < x.len() implies x[i] == y[i] by { if 1 <= i < r { assert(s[i - 1] == x[i]); } }
        }
    }
}
// ---- C04, type B
pub open spec fn full_b(lam: Seq<int>, nu: Seq<int>, p: int, k: int, n: int) -> real { if lam.len() > 0 && lam[0] == n + k { coef_b(slice(lam, 1, lam.len() as int), put(n + k, nu), p, k, n) } else { 0real } }
pub open spec fn rim_b(lam: Seq<int>, nu: Seq<int>, p: int, k: int, n: int) -> real {
    let y = untilde(nu, n - k + 1, n + k);
    if tilde(y, n - k + 1, n + k) == Some(nu) { coef_b(lam, y, p, k, n + 1) } else { 0real }
}
pub open spec fn qcoef_b(lam: Seq<int>, nu: Seq<int>, e: Exp, p: int, k: int, n: int) -> real {
    if e == e0() { coef_b(lam, nu, p, k, n) }
    else if e == (1int, 0int, 0int) { if k == 0 { full_b(lam, nu, p, k, n) } else { rim_b(lam, nu, p, k, n) } }
    else if e == (2int, 0int, 0int) && k > 0 { full_b(lam, nu, p, k, n) }
    else { 0real }
}
pub proof fn lemma_scope_tail(lam: Seq<int>, k: int, m: int, w: int, d: int)
    requires in_scope(lam, k, m, w, d)
    ensures in_scope(slice(lam, 1, lam.len() as int), k, m, w, d), !lam.contains(0) ==> !slice(lam, 1, lam.len() as int).contains(0)
{
    let s = slice(lam, 1, lam.len() as int);
    if lam.len() > 0 {
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] == lam[i + 1] by {}
        assert(is_part(s));
        assert(kstrict(s, k));
        lemma_is_clip(s);
        lemma_is_clip(lam);
        if clip_len(s) > m { assert(s[clip_len(s) - 1] == lam[clip_len(s)]); }
        if s.len() > 0 { assert(lam[0] >= lam[1]); }
        if s.contains(0) { let i = choose|i: int| 0 <= i < s.len() && s[i] == 0; assert(lam[i + 1] == 0); }
    } else { assert(s =~= lam); }
}
pub proof fn lemma_tilde_terms(lam: Seq<int>, nu: Seq<int>, p: int, k: int, n: int, h: Seq<Term>, e: Exp, f: spec_fn(Seq<int>) -> Seq<Term>)
    requires forall|x: Seq<int>| #[trigger] f(x) == tilde_fs(x, n - k + 1, n + k), n - k >= 0,
        forall|x: Seq<int>, e1: Exp| #[trigger] fs_coef(h, x, e1) == (if e1 == e0() { coef_b(lam, x, p, k, n + 1) } else { 0real })
    ensures fs_coef(fs_apply(f, h), nu, e) == (if e == e0() { rim_b(lam, nu, p, k, n) } else { 0real })
{
    let rows = n - k + 1;
    let cols = n + k;
    let y = untilde(nu, rows, cols);
    let g = |x: Seq<int>| tilde_raw(x, rows, cols);
    let ps = |x: Seq<int>| in_box(x, k, n + 1 - k, n + 1 + k);
    assert forall|x: Seq<int>| #[trigger] ps(x) implies !ends0(x) && is_part(x) && clip(x) =~= x && tilde_raw(x, rows, cols) == tilde(x, rows, cols) by { lemma_is_clip(x); lemma_tilde_ok(x, rows, cols); }
    if tilde(y, rows, cols) == Some(nu) {
        assert forall|x: Seq<int>| #[trigger] ps(x) implies ((g(x).is_some() && g(x).unwrap() =~= nu) <==> x =~= y) by { lemma_untilde(x, nu, rows, cols); }
        lemma_fs_apply_on(f, g, h, ps, nu, y, e);
    } else {
        let c = fs_keep(h, ps);
        lemma_fs_keep(h, ps);
        assert(fs_same(h, c)) by { assert forall|x: Seq<int>, e1: Exp| #[trigger] fs_coef(h, x, e1) == fs_coef(c, x, e1) by {} }
        lemma_fs_apply_same(f, h, c);
        assert forall|i: int| 0 <= i < c.len() implies !((#[trigger] g(c[i].lam)).is_some() && g(c[i].lam).unwrap() =~= nu) by { assert(ps(c[i].lam)); lemma_tilde_ok(c[i].lam, rows, cols); lemma_untilde(c[i].lam, nu, rows, cols); }
        lemma_fs_apply_none(f, g, c, nu, e);
        assert(fs_coef(fs_apply(f, h), nu, e) == fs_coef(fs_apply(f, c), nu, e));
    }
}
pub proof fn lemma_box_less(k: int, m: int, w: int)
    ensures forall|x: Seq<int>| #[trigger] in_box(x, k, m - 1, w - 1) ==> in_box(x, k, m, w)
{}
pub proof fn lemma_tilde_in(y: Seq<int>, k: int, rows: int, w: int, cols: int)
    requires in_box(y, k, rows, w), cols - rows + 1 >= 0, tilde_raw(y, rows, cols).is_some(), rows >= 1
    ensures in_box(tilde_raw(y, rows, cols).unwrap(), k, rows - 1, cols)
{
    lemma_is_clip(y);
    assert(is_clip(y, y));
    lemma_clip_unique(y, y);
    assert(y.len() == rows);
    let r = rows + row(y, 0) - cols;
    let x = tilde_raw(y, rows, cols).unwrap();
    assert(x =~= slice(y, 1, r));
    assert(r <= rows);
    assert(x.len() == r - 1);
    assert forall|i: int| 0 <= i < x.len() implies #[trigger] x[i] == y[i + 1] by {}
    assert(is_part(x));
    assert(kstrict(x, k)) by { assert forall|i: int, j: int| 0 <= i < j < x.len() && x[i] > k implies x[i] > x[j] by { assert(y[i + 1] > y[j + 1]); } }
    if x.len() > 0 { assert(y[0] >= y[1]); assert(x.last() == y[r - 1]); assert(y[r - 1] >= y[rows - 1]); assert(y[rows - 1] >= 0); assert(y.last() != 0); }
}
pub proof fn lemma_tilde_box(h: Seq<Term>, f: spec_fn(Seq<int>) -> Seq<Term>, k: int, n: int)
    requires forall|x: Seq<int>| #[trigger] f(x) == tilde_fs(x, n - k + 1, n + k), forall|x: Seq<int>| #[trigger] fs_has(h, x) ==> in_box(x, k, n + 1 - k, n + 1 + k), n - k >= 0, k >= 0
    ensures forall|x: Seq<int>| #[trigger] fs_has(fs_apply(f, h), x) ==> in_box(x, k, n - k, n + k)
{
    broadcast use group_has;
    assert forall|x: Seq<int>| #[trigger] fs_has(fs_apply(f, h), x) implies in_box(x, k, n - k, n + k) by {
        let y = has_apply(f, h, x);
        assert(f(y) == tilde_fs(y, n - k + 1, n + k));
        assert(tilde_raw(y, n - k + 1, n + k).is_some() && x == tilde_raw(y, n - k + 1, n + k).unwrap());
        lemma_tilde_in(y, k, n - k + 1, n + 1 + k, n + k);
    }
}
// without a full last row there is no term with a longer column
pub proof fn lemma_rim_short(lam: Seq<int>, nu: Seq<int>, p: int, k: int, n: int)
    requires n - k >= 1, lam.len() < n - k || row(lam, n - k - 1) <= 0
    ensures rim_b(lam, nu, p, k, n) == 0real
{
    let y = untilde(nu, n - k + 1, n + k);
    if tilde(y, n - k + 1, n + k) == Some(nu) && term(lam, y, p, k, n + 1 - k, n + 1 + k, 0) {
        lemma_is_clip(y);
        assert(row(y, n - k) <= imin(row(lam, n - k - 1), row(y, n - k - 1)));
        assert(y[n - k] != 0);
    }
}

//# fn schubertpy/orthogonal_grassmannian.py::OrthogonalGrassmannian.qpieriB_inner(self_: SPACE, p: I, lam: L, k: I, n: I) -> FS
//# vars q res
//# types res: FS
//# fun qpieri_b
requires in_scope(lam, k, n - k, n + k, 0), n - k >= 1, lam.len() <= n - k
ensures forall|nu: Seq<int>, e: Exp| #[trigger] fs_coef(result, nu, e) == qcoef_b(lam, nu, e, p, k, n),
    forall|x: Seq<int>| #[trigger] fs_has(result, x) ==> in_box(x, k, n - k, n + k)
//# hint entry
hide(in_box);
broadcast use group_has;
lemma_scope_up(lam, k, n - k, n + k, 0);
lemma_scope_tail(lam, k, n - k, n + k, 0);
//# hint return
let h = pieri_b(self_, p, lam, k, n + 1);
let u = pieri_b(self_, p, slice(lam, 1, lam.len() as int), k, n);
axiom_pieri_b(self_, p, lam, k, n);
axiom_pieri_b(self_, p, lam, k, n + 1);
axiom_pieri_b(self_, p, slice(lam, 1, lam.len() as int), k, n);
let f = |x: Seq<int>| star_fs(x, n + k);
let t = |x: Seq<int>| tilde_fs(x, n - k + 1, n + k);
lemma_star_box(u, f, k, n - k, n + k);
lemma_box_less(k, n - k, n + k);
lemma_tilde_box(h, t, k, n);
assert forall|nu: Seq<int>, e: Exp| #[trigger] fs_coef(result, nu, e) == qcoef_b(lam, nu, e, p, k, n) by {
    lemma_star_pre(n + k, nu, u, (e.0 - 1, e.1, e.2), f);
    lemma_star_pre(n + k, nu, u, (e.0 - 2, e.1, e.2), f);
    lemma_tilde_terms(lam, nu, p, k, n, h, (e.0 - 1, e.1, e.2), t);
    if lam.len() < n - k || row(lam, n - k - 1) <= 0 { lemma_rim_short(lam, nu, p, k, n); }
    fs_coef_q(fs_apply(f, u), nu, e);
    fs_coef_q(fs_apply(t, h), nu, e);
    fs_coef_qq(fs_apply(f, u), nu, e);
}
//# end

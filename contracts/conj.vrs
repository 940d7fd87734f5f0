//# unit conj
//# use partition
// ---- conjugate partitions: cnt(l, i) is the number of rows longer than i (the height of column i)
pub open spec fn cnt(l: Seq<int>, i: int) -> int
    decreases l.len()
{ if l.len() == 0 { 0 } else if l.last() > i { l.len() as int } else { cnt(l.drop_last(), i) } }

pub open spec fn width(l: Seq<int>) -> int { if l.len() == 0 { 0 } else { l[0] } }
pub open spec fn conj(l: Seq<int>) -> Seq<int> { Seq::new(pylen(width(l)), |i: int| cnt(l, i)) }

pub proof fn lemma_cnt(l: Seq<int>, i: int)
    requires noninc(l)
    ensures 0 <= cnt(l, i) <= l.len(), forall|j: int| 0 <= j < l.len() ==> (#[trigger] l[j] > i <==> j < cnt(l, i))
    decreases l.len()
{
    if l.len() > 0 && l.last() <= i {
        let t = l.drop_last();
        assert(noninc(t)) by { assert forall|a: int, b: int| 0 <= a <= b < t.len() implies t[a] >= t[b] by { assert(l[a] >= l[b]); } }
        lemma_cnt(t, i);
        assert forall|j: int| 0 <= j < l.len() implies (#[trigger] l[j] > i <==> j < cnt(l, i)) by { if j < t.len() { assert(t[j] > i <==> j < cnt(t, i)); } }
    } else if l.len() > 0 {
        assert forall|j: int| 0 <= j < l.len() implies (#[trigger] l[j] > i <==> j < cnt(l, i)) by { assert(l[j] >= l[l.len() - 1]); }
    }
}

pub proof fn lemma_cnt_unique(l: Seq<int>, i: int, v: int)
    requires noninc(l), 0 <= v <= l.len(), v > 0 ==> l[v - 1] > i, v < l.len() ==> l[v] <= i
    ensures cnt(l, i) == v
{ lemma_cnt(l, i); }

pub proof fn lemma_clip_part(l: Seq<int>)
    requires is_part(l)
    ensures is_part(clip(l)), clip_len(l) == cnt(l, 0), width(clip(l)) == width(l)
{
    lemma_is_clip(l);
    lemma_cnt(l, 0);
    if cnt(l, 0) < clip_len(l) { assert(l[clip_len(l) - 1] <= 0); }
    if cnt(l, 0) > clip_len(l) { assert(l[clip_len(l)] > 0); }
}

pub proof fn lemma_conj_part(l: Seq<int>)
    requires is_part(l)
    ensures is_part(conj(l)), forall|i: int| 0 <= i < conj(l).len() ==> conj(l)[i] > 0, conj(l).len() == width(l),
        width(conj(l)) == clip_len(l), clip(conj(l)) =~= conj(l)
{
    let c = conj(l);
    assert forall|i: int, j: int| 0 <= i <= j < c.len() implies c[i] >= c[j] by {
        lemma_cnt(l, i); lemma_cnt(l, j);
        if c[j] > 0 { assert(l[c[j] - 1] > j); assert(c[j] - 1 < c[i]); }
    }
    assert forall|i: int| 0 <= i < c.len() implies c[i] > 0 by { lemma_cnt(l, i); assert(l[0] > i); }
    lemma_clip_part(l);
    lemma_cnt(l, 0);
    if l.len() > 0 { assert(l[0] >= 0); }
    assert(is_clip(c, c));
    lemma_clip_unique(c, c);
}

// the column heights of the conjugate are the rows
pub proof fn lemma_cnt_conj(l: Seq<int>, j: int)
    requires is_part(l), 0 <= j
    ensures cnt(conj(l), j) == (if j < l.len() { l[j] } else { 0 })
{
    let c = conj(l);
    lemma_conj_part(l);
    let v = if j < l.len() { l[j] } else { 0 };
    if v > 0 { lemma_cnt(l, v - 1); assert(l[j] > v - 1); assert(l[0] >= l[j]); }
    if v < c.len() { lemma_cnt(l, v); if j < l.len() { assert(!(l[j] > v)); } }
    if j < l.len() { assert(l[0] >= l[j]); }
    lemma_cnt_unique(c, j, v);
}

pub proof fn lemma_conj_conj(l: Seq<int>)
    requires is_part(l)
    ensures conj(conj(l)) =~= clip(l)
{
    lemma_conj_part(l);
    lemma_is_clip(l);
    let cc = conj(conj(l));
    assert forall|j: int| 0 <= j < cc.len() implies cc[j] == clip(l)[j] by { lemma_cnt_conj(l, j); }
}

pub open spec fn sum_cnt(l: Seq<int>, w: int) -> int
    decreases w
{ if w <= 0 { 0 } else { sum_cnt(l, w - 1) + cnt(l, w - 1) } }

pub proof fn lemma_sum_cnt_step(l: Seq<int>, w: int)
    requires is_part(l), l.len() > 0, 0 <= w
    ensures sum_cnt(l, w) == sum_cnt(l.drop_last(), w) + imin(w, l.last())
    decreases w
{
    let t = l.drop_last();
    if w > 0 {
        lemma_sum_cnt_step(l, w - 1);
        assert(noninc(t)) by { assert forall|a: int, b: int| 0 <= a <= b < t.len() implies t[a] >= t[b] by { assert(l[a] >= l[b]); } }
        lemma_cnt(t, w - 1);
        if l.last() > w - 1 {
            if t.len() > 0 { assert(t[t.len() - 1] == l[l.len() - 2]); assert(l[l.len() - 2] >= l[l.len() - 1]); assert(t[t.len() - 1] > w - 1); }
            assert(cnt(t, w - 1) == t.len());
        }
    } else {
        assert(l[l.len() - 1] >= 0);
    }
}

pub proof fn lemma_sum_cnt(l: Seq<int>, w: int)
    requires is_part(l), w >= width(l)
    ensures sum_cnt(l, w) == sum_seq(l)
    decreases l.len()
{
    if l.len() == 0 {
        lemma_sum_cnt_empty(l, w);
    } else {
        let t = l.drop_last();
        assert(l[l.len() - 1] >= 0);
        assert(l[0] >= l[l.len() - 1]);
        assert(is_part(t)) by { assert forall|a: int, b: int| 0 <= a <= b < t.len() implies t[a] >= t[b] by { assert(l[a] >= l[b]); }
            assert forall|a: int| 0 <= a < t.len() implies t[a] >= 0 by { assert(l[a] >= 0); } }
        lemma_sum_cnt(t, w);
        lemma_sum_cnt_step(l, w);
    }
}

pub proof fn lemma_sum_cnt_empty(l: Seq<int>, w: int)
    requires l.len() == 0
    ensures sum_cnt(l, w) == 0
    decreases w
{ if w > 0 { lemma_sum_cnt_empty(l, w - 1); } }

pub proof fn lemma_sum_cnt_seq(l: Seq<int>, w: int)
    requires 0 <= w
    ensures sum_cnt(l, w) == sum_seq(Seq::new(w as nat, |i: int| cnt(l, i)))
    decreases w
{
    let s = Seq::new(w as nat, |i: int| cnt(l, i));
    if w > 0 {
        lemma_sum_cnt_seq(l, w - 1);
        assert(s.drop_last() =~= Seq::new((w - 1) as nat, |i: int| cnt(l, i)));
    }
}

// conjugation preserves the size
pub proof fn lemma_conj_size(l: Seq<int>)
    requires is_part(l)
    ensures sum_seq(conj(l)) == sum_seq(l)
{
    if l.len() > 0 { assert(l[0] >= 0); }
    lemma_sum_cnt(l, width(l));
    lemma_sum_cnt_seq(l, width(l));
}

pub proof fn lemma_cnt_clip(l: Seq<int>, i: int)
    requires is_part(l), i >= 0
    ensures cnt(clip(l), i) == cnt(l, i)
{
    lemma_clip_part(l);
    lemma_is_clip(l);
    lemma_cnt(l, i);
    let c = clip(l);
    let v = cnt(l, i);
    if v > clip_len(l) { assert(l[v - 1] > i); }
    if v > 0 { assert(c[v - 1] == l[v - 1]); assert(l[v - 1] > i); }
    if v < c.len() { assert(c[v] == l[v]); assert(!(l[v] > i)); }
    lemma_cnt_unique(c, i, v);
}

pub proof fn lemma_conj_clip(l: Seq<int>)
    requires is_part(l)
    ensures conj(clip(l)) =~= conj(l)
{
    lemma_clip_part(l);
    assert forall|i: int| 0 <= i < conj(l).len() implies conj(clip(l))[i] == conj(l)[i] by { lemma_cnt_clip(l, i); }
}

//# fn schubertpy/qcalc.py::part_conj(lambda_: L) -> L
//# spec conj
//# vars n m lam res i
requires is_part(lambda_)
ensures result =~= conj(lambda_)
//# hint entry
lemma_clip_part(lambda_);
lemma_conj_clip(lambda_);
//# loop 0
invariant
    res.len() == m, m == lambda_[0], is_part(lambda_), lambda_.len() > 0, lambda_ =~= clip(old_lambda_),
    forall|j: int| 0 <= j < it0 ==> res[j] == cnt(lambda_, j),
    lam.len() == cnt(lambda_, it0), 0 <= cnt(lambda_, it0) <= lambda_.len(),
    forall|j: int| 0 <= j < lam.len() ==> lam[j] == lambda_[j] - it0
//# hint before loop 0
lemma_is_clip(old_lambda_);
lemma_cnt(lambda_, 0);
assert(lambda_.last() > 0);
assert(lambda_[lambda_.len() - 1] > 0);
//# hint loop 0 head
lemma_cnt(lambda_, i); lemma_cnt(lambda_, i + 1);
assert forall|j: int| 0 <= j < lam.len() implies lam[j] >= 1 by { assert(lambda_[j] > i); }
//# hint call part_clip
lemma_is_clip($a0);
//# hint call part_clip#2
let pre = Seq::new(cnt(lambda_, i) as nat, |j: int| lambda_[j] - i - 1);
assert($a0 =~= pre);
assert(is_clip(pre, pre.subrange(0, cnt(lambda_, i + 1)))) by {
    let c1 = cnt(lambda_, i + 1);
    if c1 > 0 { assert(lambda_[c1 - 1] > i + 1); assert(c1 - 1 < cnt(lambda_, i)); assert(pre.subrange(0, c1).last() == lambda_[c1 - 1] - i - 1); }
    assert forall|j: int| c1 <= j < pre.len() implies pre[j] == 0 by { assert(lambda_[j] > i); assert(!(lambda_[j] > i + 1)); }
}
lemma_clip_unique(pre, pre.subrange(0, cnt(lambda_, i + 1)));
assert(cnt(lambda_, i + 1) <= pre.len()) by { if cnt(lambda_, i + 1) > 0 { assert(lambda_[cnt(lambda_, i + 1) - 1] > i + 1); } }
assert(clip(pre).len() == cnt(lambda_, i + 1));
//# end

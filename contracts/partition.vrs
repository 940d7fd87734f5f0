//# unit partition
// ---- partitions of any length, with or without trailing zeros
pub open spec fn clip_len(l: Seq<int>) -> int
    decreases l.len()
{ if l.len() == 0 { 0 } else if l.last() != 0 { l.len() as int } else { clip_len(l.drop_last()) } }

// l without its trailing zeros
pub open spec fn clip(l: Seq<int>) -> Seq<int> { l.subrange(0, clip_len(l)) }

pub open spec fn is_clip(l: Seq<int>, r: Seq<int>) -> bool {
    &&& r.len() <= l.len()
    &&& r =~= l.subrange(0, r.len() as int)
    &&& (r.len() > 0 ==> r.last() != 0)
    &&& forall|j: int| r.len() <= j < l.len() ==> l[j] == 0
}

pub open spec fn noninc(l: Seq<int>) -> bool { forall|i: int, j: int| 0 <= i <= j < l.len() ==> l[i] >= l[j] }
pub open spec fn nonneg(l: Seq<int>) -> bool { forall|i: int| 0 <= i < l.len() ==> l[i] >= 0 }
pub open spec fn is_part(l: Seq<int>) -> bool { noninc(l) && nonneg(l) }
pub open spec fn noninc_adj(l: Seq<int>) -> bool { forall|i: int| 0 <= i < l.len() - 1 ==> l[i] >= #[trigger] l[i + 1] }

pub proof fn lemma_clip_len(l: Seq<int>)
    ensures 0 <= clip_len(l) <= l.len(), clip_len(l) > 0 ==> l[clip_len(l) - 1] != 0,
        forall|j: int| clip_len(l) <= j < l.len() ==> l[j] == 0
    decreases l.len()
{
    if l.len() > 0 && l.last() == 0 {
        lemma_clip_len(l.drop_last());
        let t = l.drop_last();
        assert forall|j: int| clip_len(l) <= j < l.len() implies l[j] == 0 by {
            if j < t.len() { assert(t[j] == 0); }
        }
        if clip_len(l) > 0 { assert(t[clip_len(l) - 1] != 0); }
    }
}

pub broadcast proof fn lemma_is_clip(l: Seq<int>)
    ensures is_clip(l, #[trigger] clip(l)), clip(l).len() == clip_len(l), 0 <= clip_len(l) <= l.len()
{ lemma_clip_len(l); }

pub proof fn lemma_clip_unique(l: Seq<int>, r: Seq<int>)
    requires is_clip(l, r)
    ensures r =~= clip(l)
{
    lemma_clip_len(l);
    if r.len() < clip_len(l) { assert(l[clip_len(l) - 1] == 0); }
    if r.len() > clip_len(l) { assert(l[r.len() - 1] == 0); }
}

pub proof fn lemma_noninc_adj(l: Seq<int>)
    requires noninc_adj(l)
    ensures noninc(l)
    decreases l.len()
{
    if l.len() > 0 {
        let t = l.drop_last();
        assert(noninc_adj(t));
        lemma_noninc_adj(t);
        assert forall|i: int, j: int| 0 <= i <= j < l.len() implies l[i] >= l[j] by {
            if j < t.len() { assert(t[i] >= t[j]); }
            else if i < j { assert(t[i] >= t[j - 1]); assert(l[j - 1] >= l[j - 1 + 1]); }
        }
    }
}

//# fn schubertpy/partition.py::part_clip(lambda_: L) -> L
//# spec clip
//# vars i
ensures result =~= clip(lambda_)
//# loop 0
invariant -1 <= i < lambda_.len(), forall|j: int| i < j < lambda_.len() ==> lambda_[j] == 0
decreases i + 1
//# hint return
lemma_clip_unique(lambda_, result);
//# end

//# fn schubertpy/partition.py::_is_non_increasing(part: L) -> B
//# vars i
ensures result == noninc(part)
//# loop 0
invariant forall|j: int| 0 <= j < it0 ==> part[j] >= #[trigger] part[j + 1]
//# hint return
if result { lemma_noninc_adj(part); }
//# end

//# fn schubertpy/partition.py::is_valid_part(part: L) -> B
ensures result == is_part(part)
//# end

//# fn schubertpy/partition.py::skew_partition_height(lambda_partition: L, mu_partition: L) -> I
//# raises
//# vars i height mu_i lambda_i
ensures
    (lambda_partition.len() <= mu_partition.len() && (forall|j: int| 0 <= j < lambda_partition.len() ==> lambda_partition[j] <= mu_partition[j])) ==> result is Val,
    (result is Val) ==> result->Val_0 == height_to(lambda_partition, mu_partition, mu_partition.len() as int),
    (result is Exc) ==> result->Exc_0 is ValueError
//# loop 0
invariant lambda_partition.len() >= it0, it0 <= mu_partition.len(), forall|j: int| 0 <= j < it0 ==> lambda_partition[j] <= mu_partition[j]
//# loop 1
invariant height == height_to(lambda_partition, mu_partition, it1)
//# end
pub open spec fn height_to(lam: Seq<int>, mu: Seq<int>, n: int) -> int
    decreases n
{ if n <= 0 { 0 } else { height_to(lam, mu, n - 1) + (if mu[n - 1] > (if n - 1 < lam.len() { lam[n - 1] } else { 0 }) { 1int } else { 0int }) } }

pub open spec fn ints(l: Seq<Option<int>>) -> Seq<int> { l.map_values(|x: Option<int>| x.unwrap()) }
pub open spec fn all_ints(l: Seq<Option<int>>) -> bool { forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).is_some() }
pub open spec fn in_range(l: Seq<int>, nrow: int, ncol: int) -> bool { l.len() <= nrow && (l.len() > 0 ==> l[0] <= ncol) }

// entries that may be something else than integers (None stands for them)
//# fn schubertpy/partition.py::is_valid_part^mixed(part: LX) -> B
ensures result == (all_ints(part) && is_part(ints(part)))
//# hint entry
assert(all_ints(part) ==> forall|i: int| #![trigger part[i]] 0 <= i < part.len() ==> ints(part)[i] == part[i].unwrap());
//# end
// anything that is not a list
//# fn schubertpy/partition.py::is_valid_part^other(part: X) -> B
ensures !result
//# end

//# fn schubertpy/partition.py::Partition.__init__(self_: PART, partition: L) -> PART
//# raises
ensures is_part(partition) ==> result == Out::<Seq<int>>::Val(partition), !is_part(partition) ==> result == Out::<Seq<int>>::Exc(Ex::ValueError)
//# end
//# fn schubertpy/partition.py::Partition.__init__^mixed(self_: PART, partition: LX) -> PART
//# raises
requires !all_ints(partition)
ensures result == Out::<Seq<int>>::Exc(Ex::ValueError)
//# end
//# fn schubertpy/partition.py::Partition.__init__^other(self_: PART, partition: X) -> PART
//# raises
ensures result == Out::<Seq<int>>::Exc(Ex::ValueError)
//# end
//# fn schubertpy/partition.py::Partition._max_rim_size(self_: PART) -> I
ensures result == sum_seq(self_) + self_.len() - 1
//# end
//# fn schubertpy/partition.py::Partition.is_in_range(self_: PART, nrow: I, ncol: I) -> B
//# raises
ensures nrow < 0 || ncol < 0 ==> result == Out::<bool>::Exc(Ex::ValueError), nrow >= 0 && ncol >= 0 ==> result == Out::<bool>::Val(in_range(self_, nrow, ncol))
//# end

//# unit tables
// a table lists f(a, b) for all pairs of labels, in the order of the labels
pub open spec fn lists(t: Table, l: Seq<Seq<int>>, f: spec_fn(Seq<int>, Seq<int>) -> Seq<Term>) -> bool {
    &&& t.index =~= l && t.columns =~= l
    &&& t.cells.len() == l.len()
    &&& forall|i: int| 0 <= i < l.len() ==> (#[trigger] t.cells[i]).len() == l.len()
    &&& forall|i: int, j: int| 0 <= i < l.len() && 0 <= j < l.len() ==> #[trigger] t.cells[i][j] == f(l[i], l[j])
}

//# fn schubertpy/abstract_grassmannian.py::AbstractGrassmannian.schub_classes(self_: SPACE) -> LL
//# extern
//# fun gr_classes
//# end
//# fn schubertpy/abstract_grassmannian.py::AbstractGrassmannian.mult(self_: SPACE, lc1: FS, lc2: FS) -> FS
//# extern
//# fun gr_mult
//# end
//# fn schubertpy/abstract_grassmannian.py::AbstractGrassmannian.qmult(self_: SPACE, lc1: FS, lc2: FS) -> FS
//# extern
//# fun gr_qmult
//# end

//# fn schubertpy/mult_table.py::MultTable.mult(self_: MTAB, a: L, b: L) -> FS
//# spec cell
//# end
//# fn schubertpy/mult_table.py::QMultTable.mult(self_: MTAB, a: L, b: L) -> FS
//# spec qcell
//# end
pub open spec fn cell(s: MTab, a: Seq<int>, b: Seq<int>) -> Seq<Term> { gr_mult(s.gr, fs_one(a), fs_one(b)) }
pub open spec fn qcell(s: MTab, a: Seq<int>, b: Seq<int>) -> Seq<Term> { gr_qmult(s.gr, fs_one(a), fs_one(b)) }

//# fn schubertpy/mult_table.py::AbstractMultTable.__init__@MultTable(self_: MTAB, gr: SPACE) -> MTAB
//# vars labels n table i j
//# types labels: LL, table: LLFS
ensures result.gr == gr, lists(result.df, gr_classes(gr), |a: Seq<int>, b: Seq<int>| gr_mult(gr, fs_one(a), fs_one(b)))
//# loop 0
invariant n == labels.len(), labels == gr_classes(gr), self_.gr == gr, table.len() == n,
    forall|a: int| 0 <= a < n ==> (#[trigger] table[a]).len() == n,
    forall|a: int, b: int| 0 <= a < it0 && 0 <= b < n ==> #[trigger] table[a][b] == gr_mult(gr, fs_one(labels[a]), fs_one(labels[b]))
//# loop 1
invariant n == labels.len(), labels == gr_classes(gr), self_.gr == gr, table.len() == n,
    forall|a: int| 0 <= a < n ==> (#[trigger] table[a]).len() == n,
    forall|a: int, b: int| 0 <= a < i && 0 <= b < n ==> #[trigger] table[a][b] == gr_mult(gr, fs_one(labels[a]), fs_one(labels[b])),
    forall|b: int| 0 <= b < it1 ==> #[trigger] table[i][b] == gr_mult(gr, fs_one(labels[i]), fs_one(labels[b]))
//# end
//# fn schubertpy/mult_table.py::AbstractMultTable.__init__@QMultTable(self_: MTAB, gr: SPACE) -> MTAB
//# vars labels n table i j
//# types labels: LL, table: LLFS
ensures result.gr == gr, lists(result.df, gr_classes(gr), |a: Seq<int>, b: Seq<int>| gr_qmult(gr, fs_one(a), fs_one(b)))
//# loop 0
invariant n == labels.len(), labels == gr_classes(gr), self_.gr == gr, table.len() == n,
    forall|a: int| 0 <= a < n ==> (#[trigger] table[a]).len() == n,
    forall|a: int, b: int| 0 <= a < it0 && 0 <= b < n ==> #[trigger] table[a][b] == gr_qmult(gr, fs_one(labels[a]), fs_one(labels[b]))
//# loop 1
invariant n == labels.len(), labels == gr_classes(gr), self_.gr == gr, table.len() == n,
    forall|a: int| 0 <= a < n ==> (#[trigger] table[a]).len() == n,
    forall|a: int, b: int| 0 <= a < i && 0 <= b < n ==> #[trigger] table[a][b] == gr_qmult(gr, fs_one(labels[a]), fs_one(labels[b])),
    forall|b: int| 0 <= b < it1 ==> #[trigger] table[i][b] == gr_qmult(gr, fs_one(labels[i]), fs_one(labels[b]))
//# end
//# fn schubertpy/mult_table.py::MultTable.__init__(self_: MTAB, gr: SPACE) -> MTAB
ensures result.gr == gr, lists(result.df, gr_classes(gr), |a: Seq<int>, b: Seq<int>| gr_mult(gr, fs_one(a), fs_one(b)))
//# end
//# fn schubertpy/mult_table.py::QMultTable.__init__(self_: MTAB, gr: SPACE) -> MTAB
ensures result.gr == gr, lists(result.df, gr_classes(gr), |a: Seq<int>, b: Seq<int>| gr_qmult(gr, fs_one(a), fs_one(b)))
//# end
//# fn schubertpy/mult_table.py::AbstractMultTable.to_matrix(self_: MTAB) -> LLFS
ensures result =~= self_.df.cells
//# end

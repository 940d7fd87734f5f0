//# unit pieriset
//# use arrow
// ---- enumeration of the terms: by column heights, then by rows, both in decreasing lexicographic order
pub open spec fn done_top(mu: Seq<int>, k: int, top: Option<Seq<int>>) -> bool { top.is_none() || lexgt(cols(mu, k), top.unwrap()) }
pub open spec fn done_bot(lam: Seq<int>, mu: Seq<int>, k: int, m: int, bot: Option<Seq<int>>) -> bool { bot.is_none() || lexgt(mu_rows(lam, mu, k, m), bot.unwrap()) }
pub open spec fn meas(x: Option<Seq<int>>, c: int) -> int { if x.is_some() { lexval(x.unwrap(), c, x.unwrap().len() as int) + 1 } else { 0 } }

pub proof fn lemma_no_pair(lam: Seq<int>, a: Seq<int>, p: int, k: int, m: int, w: int, d: int)
    requires kbox(lam, k, m, w), par(k, m, w, d), forall|x: Seq<int>| !#[trigger] good_pair(lam, a, x, p, k, m, w, d)
    ensures forall|mu: Seq<int>| !(#[trigger] term(lam, mu, p, k, m, w, d) && cols(mu, k) == a)
{
    assert forall|mu: Seq<int>| !(#[trigger] term(lam, mu, p, k, m, w, d) && cols(mu, k) == a) by {
        if term(lam, mu, p, k, m, w, d) && cols(mu, k) == a { lemma_term_in(lam, mu, p, k, m, w, d); assert(good_pair(lam, a, mu_rows(lam, mu, k, m), p, k, m, w, d)); }
    }
}
pub proof fn lemma_top_step(lam: Seq<int>, a: Seq<int>, next: Option<Seq<int>>, mu: Seq<int>, p: int, k: int, m: int, w: int, d: int)
    requires kbox(lam, k, m, w), par(k, m, w, d), win(a, tin(lam, k, d), tout(lam, k, m)), next.is_none() ==> wlast(a, tin(lam, k, d), tout(lam, k, m)),
        next.is_some() ==> wnext(next.unwrap(), a, tin(lam, k, d), tout(lam, k, m))
    ensures term(lam, mu, p, k, m, w, d) ==> (done_top(mu, k, next) <==> done_top(mu, k, Some(a)) || cols(mu, k) == a)
{
    if term(lam, mu, p, k, m, w, d) {
        let c = cols(mu, k);
        lemma_term_in(lam, mu, p, k, m, w, d);
        lemma_lex_total(c, a);
        if next.is_some() {
            let b = next.unwrap();
            if lexgt(c, a) { lemma_lex_trans(c, a, b); }
            if lexgt(c, b) && lexgt(a, c) { if c =~= b { lemma_lex_irr(c); } else { lemma_lex_trans(b, c, b); lemma_lex_irr(b); } }
        } else { if lexgt(a, c) { assert(false); } }
    }
}
pub proof fn lemma_top_first(lam: Seq<int>, mu: Seq<int>, p: int, k: int, m: int, w: int, d: int)
    requires kbox(lam, k, m, w), par(k, m, w, d)
    ensures win(tout(lam, k, m), tin(lam, k, d), tout(lam, k, m)), term(lam, mu, p, k, m, w, d) ==> !done_top(mu, k, Some(tout(lam, k, m)))
{
    lemma_inn(lam, k, d, m, w);
    let o = tout(lam, k, m);
    assert forall|i: int| 0 <= i < o.len() implies tin(lam, k, d)[i] <= #[trigger] o[i] <= o[i] by { assert(tin(lam, k, d)[i] <= tout(lam, k, m)[i]); }
    if term(lam, mu, p, k, m, w, d) {
        lemma_term_in(lam, mu, p, k, m, w, d);
        let c = cols(mu, k);
        if lexgt(c, o) { let j = choose|j: int| lexat(c, o, j); assert(c[j] <= o[j]); }
    }
}
pub proof fn lemma_seq_meas(x: Seq<int>, y: Seq<int>, c: int)
    requires lexgt(x, y), forall|i: int| 0 <= i < x.len() ==> 0 <= #[trigger] x[i] < c, forall|i: int| 0 <= i < y.len() ==> 0 <= #[trigger] y[i] < c
    ensures lexval(x, c, x.len() as int) > lexval(y, c, y.len() as int)
{
    let j = choose|j: int| lexat(x, y, j);
    lemma_lexval(x, y, j, c, x.len() as int);
}
pub proof fn lemma_win_bound(lam: Seq<int>, a: Seq<int>, k: int, m: int, w: int, d: int)
    requires kbox(lam, k, m, w), par(k, m, w, d), win(a, tin(lam, k, d), tout(lam, k, m))
    ensures a.len() == k, is_part(a), forall|i: int| 0 <= i < a.len() ==> 0 <= #[trigger] a[i] < m + 1, lexval(a, m + 1, a.len() as int) >= 0, k > 0 ==> cnt(lam, k) <= a[k - 1] <= m, cnt(lam, k) <= m, cnt(lam, k) <= room_rows(a, k, m)
{
    lemma_inn(lam, k, d, m, w);
    lemma_cnt(lam, k);
    assert forall|i: int| 0 <= i < a.len() implies 0 <= #[trigger] a[i] < m + 1 by { assert(tin(lam, k, d)[i] <= a[i] <= tout(lam, k, m)[i]); lemma_cnt(lam, i + 1); }
    lemma_lexval_nonneg(a, m + 1, a.len() as int);
    if k > 0 { lemma_cnt_mono(lam, k - 1 + 1, k); assert(tin(lam, k, d)[k - 1] <= a[k - 1]); assert(cnt(lam, k - 1 + 1) <= tin(lam, k, d)[k - 1]); }
}
pub proof fn lemma_rows_bound(lam: Seq<int>, a: Seq<int>, x: Seq<int>, k: int, m: int, w: int, d: int)
    requires kbox(lam, k, m, w), par(k, m, w, d), win(a, tin(lam, k, d), tout(lam, k, m)), rows_fit(lam, a, k, d, m, k), sin(x, bin(lam, a, k, d, m), bout(lam, a, k, d, m, w))
    ensures x.len() == blen(lam, a, k, m), forall|i: int| 0 <= i < x.len() ==> 0 <= #[trigger] x[i] < w + 1, lexval(x, w + 1, x.len() as int) >= 0, base_rows(lam, x, k, w)
{
    lemma_win_bound(lam, a, k, m, w, d);
    lemma_cnt(lam, k);
    lemma_ex(lam, k);
    lemma_pair_rows(lam, a, x, k, d, m, w);
    assert forall|i: int| 0 <= i < x.len() implies 0 <= #[trigger] x[i] < w + 1 by {
        assert(ex(lam, k, i) <= x[i] <= base(lam, k, w, i));
        if i > 0 && i - 1 < cnt(lam, k) { assert(ex(lam, k, i - 1) + (i - 1) <= ex(lam, k, 0) + 0); }
        assert(row(lam, 0) <= w);
    }
    lemma_lexval_nonneg(x, w + 1, x.len() as int);
}
// sums
pub open spec fn left(lam: Seq<int>, a: Seq<int>, p: int) -> int { sum_seq(lam) + p - sum_seq(a) }
pub proof fn lemma_no_rows(lam: Seq<int>, a: Seq<int>, p: int, k: int, m: int, w: int, d: int, s: int)
    requires kbox(lam, k, m, w), par(k, m, w, d), win(a, tin(lam, k, d), tout(lam, k, m)), s == psum(bots(lam, k, cnt(lam, k)), cnt(lam, k)), s > left(lam, a, p)
    ensures forall|x: Seq<int>| !#[trigger] good_pair(lam, a, x, p, k, m, w, d)
{
    assert forall|x: Seq<int>| !#[trigger] good_pair(lam, a, x, p, k, m, w, d) by {
        if good_pair(lam, a, x, p, k, m, w, d) {
            lemma_rows_bound(lam, a, x, k, m, w, d);
            lemma_win_bound(lam, a, k, m, w, d);
            let c = cnt(lam, k);
            let l = bots(lam, k, c);
            lemma_cnt(lam, k);
            assert forall|i: int| 0 <= i < c implies #[trigger] l[i] <= x[i] by { assert(ex(lam, k, i) <= x[i]); }
            lemma_psum_tail(l, x, 0, c);
            lemma_psum_nonneg(x, c, x.len() as int);
        }
    }
}
pub proof fn lemma_psum_nonneg(x: Seq<int>, r: int, t: int)
    requires 0 <= r <= t <= x.len(), forall|i: int| 0 <= i < x.len() ==> 0 <= #[trigger] x[i]
    ensures psum(x, t) >= psum(x, r)
    decreases t
{ if t > r { lemma_psum_nonneg(x, r, t - 1); assert(x[t - 1] >= 0); } }
pub proof fn lemma_no_rows_bounds(lam: Seq<int>, a: Seq<int>, p: int, k: int, m: int, w: int, d: int)
    requires kbox(lam, k, m, w), par(k, m, w, d), ({ let b = bin(lam, a, k, d, m); let o = bout(lam, a, k, d, m, w); psum(b, b.len() as int) > left(lam, a, p) || psum(o, o.len() as int) < left(lam, a, p) })
    ensures forall|x: Seq<int>| !#[trigger] good_pair(lam, a, x, p, k, m, w, d)
{
    let b = bin(lam, a, k, d, m);
    let o = bout(lam, a, k, d, m, w);
    assert forall|x: Seq<int>| !#[trigger] good_pair(lam, a, x, p, k, m, w, d) by {
        if good_pair(lam, a, x, p, k, m, w, d) {
            assert forall|i: int| 0 <= i < x.len() implies #[trigger] b[i] <= x[i] by { assert(b[i] <= x[i]); }
            assert forall|i: int| 0 <= i < x.len() implies #[trigger] x[i] <= o[i] by {}
            lemma_psum_tail(b, x, 0, x.len() as int);
            lemma_psum_tail(x, o, 0, x.len() as int);
        }
    }
}
// the first rows
pub proof fn lemma_rows_first(lam: Seq<int>, a: Seq<int>, r: Option<Seq<int>>, p: int, k: int, m: int, w: int, d: int, q: int)
    requires kbox(lam, k, m, w), par(k, m, w, d), win(a, tin(lam, k, d), tout(lam, k, m)), rows_fit(lam, a, k, d, m, k),
        q == left(lam, a, p) - psum(bin(lam, a, k, d, m), bin(lam, a, k, d, m).len() as int), q >= 0,
        psum(bout(lam, a, k, d, m, w), bout(lam, a, k, d, m, w).len() as int) >= left(lam, a, p),
        bin(lam, a, k, d, m).len() == 0 ==> r == Some(bin(lam, a, k, d, m)),
        bin(lam, a, k, d, m).len() > 0 && r.is_none() ==> too_small(bin(lam, a, k, d, m), bin(lam, a, k, d, m), bout(lam, a, k, d, m, w), 0, q),
        bin(lam, a, k, d, m).len() > 0 && r.is_some() ==> sfilled(r.unwrap(), bin(lam, a, k, d, m), bin(lam, a, k, d, m), bout(lam, a, k, d, m, w), 0, bin(lam, a, k, d, m).len() as int) && room(r.unwrap(), bin(lam, a, k, d, m), 0, bin(lam, a, k, d, m).len() as int) == q
    ensures r.is_some() ==> good_pair(lam, a, r.unwrap(), p, k, m, w, d),
        forall|mu: Seq<int>| #[trigger] term(lam, mu, p, k, m, w, d) && cols(mu, k) == a ==> r.is_some() && !done_bot(lam, mu, k, m, r)
{
    let b = bin(lam, a, k, d, m);
    let o = bout(lam, a, k, d, m, w);
    let n = b.len() as int;
    lemma_bounds_fit(lam, a, k, d, m, w);
    if n > 0 && r.is_some() {
        lemma_sfilled_in(r.unwrap(), b, b, o, 0);
    }
    if n == 0 { assert(o.len() == 0); }
    assert forall|mu: Seq<int>| #[trigger] term(lam, mu, p, k, m, w, d) && cols(mu, k) == a implies r.is_some() && !done_bot(lam, mu, k, m, r) by {
        lemma_term_in(lam, mu, p, k, m, w, d);
        let y = mu_rows(lam, mu, k, m);
        assert(good_pair(lam, a, y, p, k, m, w, d));
        assert(y.len() == n);
        assert(room(y, b, 0, n) == q);
        if n > 0 {
            if r.is_none() { assert(sin(y, b, o)); assert(false); }
            let x = r.unwrap();
            lemma_sgreedy_max(x, y, b, o, 0);
            if lexgt(y, x) { if y =~= x { lemma_lex_irr(x); } else { lemma_lex_trans(x, y, x); lemma_lex_irr(x); } }
        }
    }
}
pub proof fn lemma_rows_step(lam: Seq<int>, a: Seq<int>, x: Seq<int>, next: Option<Seq<int>>, p: int, k: int, m: int, w: int, d: int)
    requires kbox(lam, k, m, w), par(k, m, w, d), good_pair(lam, a, x, p, k, m, w, d),
        next.is_none() ==> x.len() == 0 || snone_from(x, bin(lam, a, k, d, m), bout(lam, a, k, d, m, w), -1),
        next.is_some() ==> x.len() > 0 && snext_below(next.unwrap(), x, bin(lam, a, k, d, m), bout(lam, a, k, d, m, w))
    ensures next.is_some() ==> good_pair(lam, a, next.unwrap(), p, k, m, w, d) && lexgt(x, next.unwrap()),
        forall|mu: Seq<int>| #[trigger] term(lam, mu, p, k, m, w, d) && cols(mu, k) == a ==> (done_bot(lam, mu, k, m, next) <==> done_bot(lam, mu, k, m, Some(x)) || mu == join(a, x))
{
    assert forall|mu: Seq<int>| #[trigger] term(lam, mu, p, k, m, w, d) && cols(mu, k) == a implies (done_bot(lam, mu, k, m, next) <==> done_bot(lam, mu, k, m, Some(x)) || mu == join(a, x)) by {
        lemma_term_in(lam, mu, p, k, m, w, d);
        lemma_term_out(lam, a, x, p, k, m, w, d);
        let y = mu_rows(lam, mu, k, m);
        assert(y.len() == x.len());
        lemma_lex_total(y, x);
        assert(mu == join(a, x) <==> y =~= x);
        if next.is_some() {
            let z = next.unwrap();
            if lexgt(y, x) { lemma_lex_trans(y, x, z); }
            if lexgt(y, z) && lexgt(x, y) { if y =~= z { lemma_lex_irr(y); } else { lemma_lex_trans(z, y, z); lemma_lex_irr(z); } }
        } else if lexgt(x, y) {
            let j = choose|j: int| lexat(x, y, j);
            assert(!lexat(x, y, j));
        }
    }
}

pub proof fn lemma_rev_contains(s: Seq<Seq<int>>, v: Seq<int>)
    ensures s.reverse().contains(v) <==> s.contains(v)
{
    let r = s.reverse();
    if s.contains(v) { let i = choose|i: int| 0 <= i < s.len() && s[i] == v; assert(r[s.len() - 1 - i] == v); }
    if r.contains(v) { let i = choose|i: int| 0 <= i < r.len() && r[i] == v; assert(s[s.len() - 1 - i] == v); }
}
//# fn schubertpy/qcalc.py::sort_part(tuples: LL) -> LL
ensures same_lists(result, tuples), tuples.no_duplicates() ==> result.no_duplicates()
//# hint return
lemma_lsort(tuples);
let s = lsort(tuples);
assert forall|v: Seq<int>| #[trigger] result.contains(v) <==> tuples.contains(v) by { assert(s.contains(v) <==> tuples.contains(v)); lemma_rev_contains(s, v); }
assert(tuples.no_duplicates() ==> result.no_duplicates()) by {
    if tuples.no_duplicates() { assert forall|i: int, j: int| 0 <= i < result.len() && 0 <= j < result.len() && i != j implies result[i] != result[j] by { assert(llt(s[imin(s.len() - 1 - i, s.len() - 1 - j)], s[imax(s.len() - 1 - i, s.len() - 1 - j)])); } }
}
//# end

// ---- the pointer to the first row that does not reach a diagonal
pub open spec fn bd(lam: Seq<int>, k: int, b: int, t: int) -> bool { forall|a: int| 0 <= a < b ==> #[trigger] ex(lam, k, a) + a >= t }
pub proof fn lemma_bd(lam: Seq<int>, k: int, d: int, b: int, i: int)
    requires is_part(lam), i >= 1, bd(lam, k, b, diag(lam, k, d, i - 1))
    ensures bd(lam, k, b, diag(lam, k, d, i))
{
    lemma_cnt_mono(lam, i - 1, i);
    assert forall|a: int| 0 <= a < b implies #[trigger] ex(lam, k, a) + a >= diag(lam, k, d, i) by { assert(ex(lam, k, a) + a >= diag(lam, k, d, i - 1)); }
}
// the pieces of lam
pub open spec fn split_of(lam: Seq<int>, k: int, top: Seq<int>, bot: Seq<int>, lbot: int) -> bool {
    top =~= cols(lam, k) && lbot == cnt(lam, k) && bot =~= bots(lam, k, lbot + 1) && bot.len() == lbot + 1
}
pub proof fn lemma_split(lam: Seq<int>, k: int, e: Seq<int>, c: Seq<int>, l: Seq<int>, m: int, w: int)
    requires kbox(lam, k, m, w), k >= 0, e =~= excess(lam, k), c =~= conj(mins(lam, k)), l =~= clip(e) + seq![0int]
    ensures split_of(lam, k, c + rep(0, k - c.len()), l, l.len() - 1)
{
    lemma_mins(lam, k);
    lemma_excess_len(lam, k);
    lemma_is_clip(e);
    lemma_cnt(lam, k);
    lemma_ex(lam, k);
    assert forall|i: int| 0 <= i < l.len() implies l[i] == bots(lam, k, cnt(lam, k) + 1)[i] by {
        if i < clip(e).len() { assert(l[i] == e[i]); } else { assert(ex(lam, k, i) == 0); }
    }
}
pub proof fn lemma_sum_bot(lam: Seq<int>, k: int, bot: Seq<int>, lbot: int)
    requires is_part(lam), k >= 0, lbot == cnt(lam, k), bot =~= bots(lam, k, lbot + 1), bot.len() == lbot + 1, kstrict(lam, k)
    ensures sum_seq(bot) == psum(bots(lam, k, lbot), lbot), sum_seq(lam) == sum_seq(cols(lam, k)) + sum_seq(bot)
{
    lemma_cnt(lam, k);
    lemma_pair_sum(lam, k, lbot);
    lemma_psum_sum(bot, lbot + 1);
    assert(bot.subrange(0, lbot + 1) =~= bot);
    lemma_ex(lam, k);
    assert(psum(bot, lbot + 1) == psum(bot, lbot) + bot[lbot]);
    lemma_psum_ext(bot, bots(lam, k, lbot), lbot);
}
pub proof fn lemma_value(a: Seq<int>, x: Seq<int>, k: int, m: int, v: Seq<int>)
    requires k >= 0, a.len() == k, is_part(a), sdec(x), nonneg(x), x.len() <= room_rows(a, k, m), k > 0 ==> a[0] <= m,
        k > 0 ==> ({ let c = conj(a); let j = imin(c.len() as int, x.len() as int); v =~= Seq::new(pylen(j), |i: int| c[i] + x[i]) + slice(c, j, c.len() as int) }),
        k == 0 ==> v =~= clip(x)
    ensures v =~= join(a, x)
{
    lemma_clip_pos(x);
    lemma_is_clip(x);
    if k > 0 {
        let c = conj(a);
        lemma_clip_part(a);
        lemma_cnt(a, 0);
        assert(noninc(a));
        assert(a[0] >= a[k - 1]);
        lemma_conj_len(a);
        assert forall|i: int| 0 <= i < c.len() implies v[i] == join(a, x)[i] by {
            if i < x.len() && i >= clip(x).len() { assert(x[i] == 0); }
        }
    }
}
pub proof fn lemma_conj_len(a: Seq<int>)
    requires is_part(a), a.len() > 0
    ensures conj(a).len() == a[0]
{}
pub proof fn lemma_psum_all(x: Seq<int>)
    ensures sum_seq(x) == psum(x, x.len() as int)
{ lemma_psum_sum(x, x.len() as int); assert(x.subrange(0, x.len() as int) =~= x); }

// ---- facts used in the body
pub open spec fn in_scope(lam: Seq<int>, k: int, m: int, w: int, d: int) -> bool { kbox(lam, k, m, w) && par(k, m, w, d) }
pub open spec fn none_with(lam: Seq<int>, a: Seq<int>, p: int, k: int, m: int, w: int, d: int) -> bool { forall|mu: Seq<int>| !(#[trigger] term(lam, mu, p, k, m, w, d) && cols(mu, k) == a) }
pub proof fn lemma_none_sum(lam: Seq<int>, a: Seq<int>, p: int, k: int, m: int, w: int, d: int, bot: Seq<int>)
    requires in_scope(lam, k, m, w, d), win(a, tin(lam, k, d), tout(lam, k, m)), split_of(lam, k, cols(lam, k), bot, bot.len() - 1)
    ensures sum_seq(bot) == psum(bots(lam, k, bot.len() - 1), bot.len() - 1), left(lam, a, p) == p + sum_seq(cols(lam, k)) - sum_seq(a) + sum_seq(bot),
        p + sum_seq(cols(lam, k)) - sum_seq(a) < 0 ==> none_with(lam, a, p, k, m, w, d)
{
    lemma_sum_bot(lam, k, bot, bot.len() - 1);
    if p + sum_seq(cols(lam, k)) - sum_seq(a) < 0 {
        lemma_no_rows(lam, a, p, k, m, w, d, sum_seq(bot));
        lemma_no_pair(lam, a, p, k, m, w, d);
    }
}
pub proof fn lemma_none_fit(lam: Seq<int>, a: Seq<int>, p: int, k: int, m: int, w: int, d: int)
    requires in_scope(lam, k, m, w, d), !rows_fit(lam, a, k, d, m, k)
    ensures none_with(lam, a, p, k, m, w, d)
{
    assert forall|x: Seq<int>| !#[trigger] good_pair(lam, a, x, p, k, m, w, d) by {}
    lemma_no_pair(lam, a, p, k, m, w, d);
}
pub proof fn lemma_none_bounds(lam: Seq<int>, a: Seq<int>, p: int, k: int, m: int, w: int, d: int)
    requires in_scope(lam, k, m, w, d)
    ensures sum_seq(bin(lam, a, k, d, m)) > left(lam, a, p) || sum_seq(bout(lam, a, k, d, m, w)) < left(lam, a, p) ==> none_with(lam, a, p, k, m, w, d)
{
    lemma_psum_all(bin(lam, a, k, d, m));
    lemma_psum_all(bout(lam, a, k, d, m, w));
    if sum_seq(bin(lam, a, k, d, m)) > left(lam, a, p) || sum_seq(bout(lam, a, k, d, m, w)) < left(lam, a, p) {
        lemma_no_rows_bounds(lam, a, p, k, m, w, d);
        lemma_no_pair(lam, a, p, k, m, w, d);
    }
}
pub open spec fn next_top(lam: Seq<int>, a: Seq<int>, next: Option<Seq<int>>, p: int, k: int, m: int, w: int, d: int) -> bool {
    forall|mu: Seq<int>| #[trigger] term(lam, mu, p, k, m, w, d) ==> (done_top(mu, k, next) <==> done_top(mu, k, Some(a)) || cols(mu, k) == a)
}
pub open spec fn got(res: Set<Seq<int>>, lam: Seq<int>, top: Option<Seq<int>>, p: int, k: int, m: int, w: int, d: int) -> bool {
    forall|mu: Seq<int>| #[trigger] res.contains(mu) <==> term(lam, mu, p, k, m, w, d) && done_top(mu, k, top)
}
pub open spec fn got_part(res: Set<Seq<int>>, res0: Set<Seq<int>>, lam: Seq<int>, a: Seq<int>, bot: Option<Seq<int>>, p: int, k: int, m: int, w: int, d: int) -> bool {
    forall|mu: Seq<int>| #[trigger] res.contains(mu) <==> res0.contains(mu) || (term(lam, mu, p, k, m, w, d) && cols(mu, k) == a && done_bot(lam, mu, k, m, bot))
}
pub proof fn lemma_skip(res: Set<Seq<int>>, lam: Seq<int>, a: Seq<int>, next: Option<Seq<int>>, p: int, k: int, m: int, w: int, d: int)
    requires next_top(lam, a, next, p, k, m, w, d), got(res, lam, Some(a), p, k, m, w, d)
    ensures none_with(lam, a, p, k, m, w, d) ==> got(res, lam, next, p, k, m, w, d)
{}
pub proof fn lemma_got_first(lam: Seq<int>, p: int, k: int, m: int, w: int, d: int)
    requires in_scope(lam, k, m, w, d)
    ensures win(tout(lam, k, m), tin(lam, k, d), tout(lam, k, m)), got(Set::empty(), lam, Some(tout(lam, k, m)), p, k, m, w, d)
{
    lemma_top_first(lam, lam, p, k, m, w, d);
    assert forall|mu: Seq<int>| #[trigger] term(lam, mu, p, k, m, w, d) implies !done_top(mu, k, Some(tout(lam, k, m))) by { lemma_top_first(lam, mu, p, k, m, w, d); }
}
pub proof fn lemma_got_part(res: Set<Seq<int>>, res0: Set<Seq<int>>, lam: Seq<int>, a: Seq<int>, next: Option<Seq<int>>, p: int, k: int, m: int, w: int, d: int)
    requires next_top(lam, a, next, p, k, m, w, d), got(res0, lam, Some(a), p, k, m, w, d), got_part(res, res0, lam, a, None, p, k, m, w, d)
    ensures got(res, lam, next, p, k, m, w, d)
{}
pub proof fn lemma_part_first(res: Set<Seq<int>>, lam: Seq<int>, a: Seq<int>, r: Option<Seq<int>>, p: int, k: int, m: int, w: int, d: int)
    requires forall|mu: Seq<int>| #[trigger] term(lam, mu, p, k, m, w, d) && cols(mu, k) == a ==> r.is_some() && !done_bot(lam, mu, k, m, r)
    ensures got_part(res, res, lam, a, r, p, k, m, w, d)
{}
pub proof fn lemma_part_next(res: Set<Seq<int>>, res0: Set<Seq<int>>, lam: Seq<int>, a: Seq<int>, x: Seq<int>, next: Option<Seq<int>>, p: int, k: int, m: int, w: int, d: int)
    requires got_part(res, res0, lam, a, Some(x), p, k, m, w, d), term(lam, join(a, x), p, k, m, w, d), cols(join(a, x), k) == a,
        forall|mu: Seq<int>| #[trigger] term(lam, mu, p, k, m, w, d) && cols(mu, k) == a ==> (done_bot(lam, mu, k, m, next) <==> done_bot(lam, mu, k, m, Some(x)) || mu == join(a, x))
    ensures got_part(res.insert(join(a, x)), res0, lam, a, next, p, k, m, w, d)
{
    let r = res.insert(join(a, x));
    assert forall|mu: Seq<int>| #[trigger] r.contains(mu) <==> res0.contains(mu) || (term(lam, mu, p, k, m, w, d) && cols(mu, k) == a && done_bot(lam, mu, k, m, next)) by {
        assert(r.contains(mu) <==> res.contains(mu) || mu == join(a, x));
    }
}
pub proof fn lemma_top_next(lam: Seq<int>, a: Seq<int>, next: Option<Seq<int>>, p: int, k: int, m: int, w: int, d: int)
    requires in_scope(lam, k, m, w, d), win(a, tin(lam, k, d), tout(lam, k, m)), next.is_none() ==> wlast(a, tin(lam, k, d), tout(lam, k, m)),
        next.is_some() ==> wnext(next.unwrap(), a, tin(lam, k, d), tout(lam, k, m))
    ensures next_top(lam, a, next, p, k, m, w, d),
        0 <= meas(next, m + 1) < meas(Some(a), m + 1), next.is_some() ==> win(next.unwrap(), tin(lam, k, d), tout(lam, k, m))
{
    assert forall|mu: Seq<int>| #[trigger] term(lam, mu, p, k, m, w, d) implies (done_top(mu, k, next) <==> done_top(mu, k, Some(a)) || cols(mu, k) == a) by { lemma_top_step(lam, a, next, mu, p, k, m, w, d); }
    lemma_win_bound(lam, a, k, m, w, d);
    if next.is_some() { lemma_win_bound(lam, next.unwrap(), k, m, w, d); lemma_seq_meas(a, next.unwrap(), m + 1); }
}
pub proof fn lemma_bot_next(lam: Seq<int>, a: Seq<int>, x: Seq<int>, next: Option<Seq<int>>, p: int, k: int, m: int, w: int, d: int)
    requires in_scope(lam, k, m, w, d), good_pair(lam, a, x, p, k, m, w, d),
        next.is_none() ==> x.len() == 0 || snone_from(x, bin(lam, a, k, d, m), bout(lam, a, k, d, m, w), -1),
        next.is_some() ==> x.len() > 0 && snext_below(next.unwrap(), x, bin(lam, a, k, d, m), bout(lam, a, k, d, m, w))
    ensures next.is_some() ==> good_pair(lam, a, next.unwrap(), p, k, m, w, d),
        forall|mu: Seq<int>| #[trigger] term(lam, mu, p, k, m, w, d) && cols(mu, k) == a ==> (done_bot(lam, mu, k, m, next) <==> done_bot(lam, mu, k, m, Some(x)) || mu == join(a, x)),
        0 <= meas(next, w + 1) < meas(Some(x), w + 1), term(lam, join(a, x), p, k, m, w, d), cols(join(a, x), k) == a
{
    lemma_rows_step(lam, a, x, next, p, k, m, w, d);
    lemma_rows_bound(lam, a, x, k, m, w, d);
    lemma_term_out(lam, a, x, p, k, m, w, d);
    if next.is_some() { lemma_rows_bound(lam, a, next.unwrap(), k, m, w, d); lemma_seq_meas(x, next.unwrap(), w + 1); }
}

pub proof fn lemma_got_all(res: Set<Seq<int>>, r: Seq<Seq<int>>, lam: Seq<int>, p: int, k: int, m: int, w: int, d: int)
    requires got(res, lam, None, p, k, m, w, d), same_lists(r, set_list(res)), res.finite()
    ensures forall|mu: Seq<int>| #[trigger] r.contains(mu) <==> term(lam, mu, p, k, m, w, d)
{
    axiom_set_list(res);
    assert forall|mu: Seq<int>| #[trigger] r.contains(mu) <==> term(lam, mu, p, k, m, w, d) by { assert(r.contains(mu) <==> set_list(res).contains(mu)); assert(set_list(res).contains(mu) <==> res.contains(mu)); }
}
pub proof fn lemma_after(lam: Seq<int>, k: int, t: int, b: int, c: int)
    requires is_part(lam), kstrict(lam, k), k >= 0, b == beta(lam, k, t), b <= c < cnt(lam, k)
    ensures ex(lam, k, c) + c < t
{ lemma_beta(lam, k, t); assert(ex(lam, k, c) + c < t); }
// the pointer moves
pub proof fn lemma_bd_step(lam: Seq<int>, k: int, t: int, b: int)
    ensures bd(lam, k, 0, t), 0 <= b && bd(lam, k, b, t) && ex(lam, k, b) + b >= t ==> bd(lam, k, b + 1, t)
{}
pub proof fn lemma_bd_end(lam: Seq<int>, k: int, t: int, b: int)
    requires is_part(lam), kstrict(lam, k), k >= 0, 0 <= b <= cnt(lam, k), bd(lam, k, b, t), b < cnt(lam, k) ==> ex(lam, k, b) + b < t
    ensures b == beta(lam, k, t)
{ lemma_beta_unique(lam, k, t, b); }
pub proof fn lemma_good(lam: Seq<int>, a: Seq<int>, x: Seq<int>, p: int, k: int, m: int, w: int, d: int)
    requires in_scope(lam, k, m, w, d), good_pair(lam, a, x, p, k, m, w, d)
    ensures sin(x, bin(lam, a, k, d, m), bout(lam, a, k, d, m, w)), nonneg(x), sdec(x), is_part(a), a.len() == k, x.len() <= room_rows(a, k, m), k > 0 ==> a[0] <= m, meas(Some(x), w + 1) >= 0
{
    lemma_term_out(lam, a, x, p, k, m, w, d);
    lemma_rows_bound(lam, a, x, k, m, w, d);
}
pub proof fn lemma_fit_step(lam: Seq<int>, a: Seq<int>, k: int, d: int, m: int, i: int)
    requires 0 <= i < k
    ensures !fits_row(lam, a, k, d, m, i) ==> !rows_fit(lam, a, k, d, m, k), rows_fit(lam, a, k, d, m, i) && fits_row(lam, a, k, d, m, i) ==> rows_fit(lam, a, k, d, m, i + 1),
        fits_row(lam, a, k, d, m, i) <==> (a[i] < cnt(lam, i) ==> beta(lam, k, diag(lam, k, d, i)) < blen(lam, a, k, m))
{}
pub proof fn lemma_scope(lam: Seq<int>, k: int, m: int, w: int, d: int)
    requires in_scope(lam, k, m, w, d)
    ensures kbox(lam, k, m, w), par(k, m, w, d), is_part(lam), kstrict(lam, k), is_part(mins(lam, k)), 0 <= cnt(lam, k) <= m, forall|b: int| #[trigger] ex(lam, k, b) >= 0, forall|b: int| b >= cnt(lam, k) ==> #[trigger] ex(lam, k, b) == 0,
        noninc(tin(lam, k, d)), noninc(tout(lam, k, m))
{
    lemma_mins(lam, k);
    lemma_ex(lam, k);
    lemma_inn(lam, k, d, m, w);
}
//# fn schubertpy/qcalc.py::pieri_set(p: I, lam: L, k: I, n: I, d: I) -> LL
//# vars rows cols top topk bot lbot outer inner b i res top_1 top1 p1 top1k inbot outbot _delta b1 j bot1 top1c value
//# types res: SETL, top_1: OL, top1: L, inbot: OL, bot1: OL
requires in_scope(lam, k, n + d - k, n + k, d)
ensures forall|mu: Seq<int>| #[trigger] result.contains(mu) <==> term(lam, mu, p, k, n + d - k, n + k, d), result.no_duplicates()
//# hint entry
hide(next_top);
hide(got);
hide(got_part);
hide(kbox);
hide(term);
hide(good_pair);
hide(win);
hide(wnext);
hide(wlast);
hide(snext_below);
hide(too_small);
hide(sfilled);
hide(snone_from);
hide(done_top);
hide(done_bot);
hide(is_beta);
hide(sfits);
hide(sin);
hide(is_part);
hide(cnt);
hide(noninc);
hide(base_rows);
hide(fits_row);
hide(bd);
hide(rows_fit);
hide(ex);
hide(sum_seq);
hide(psum);
hide(conj);
hide(kstrict);
hide(clip);
hide(meas);
hide(lexval);
hide(none_with);
hide(join);
hide(glue);
hide(within);
hide(beta);
let ghost m = n + d - k;
let ghost w = n + k;
lemma_scope(lam, k, m, w, d);
assert(lam.map_values(|item: int| imin(item, k)) =~= mins(lam, k));
//# hint call part_conj#1
assert($a0 =~= mins(lam, k));
//# hint call part_clip#1
assert($a0 =~= excess(lam, k));
lemma_split(lam, k, $a0, conj(mins(lam, k)), $r + seq![0int], m, w);
//# hint before loop 0
assert(split_of(lam, k, top, bot, lbot));
assert(outer =~= tout(lam, k, m));
assert forall|h: int| 0 <= h < k implies #[trigger] inner[h] == cnt(lam, h + 1) by { lemma_cnt_mono(lam, h + 1, k); }
//# loop 0
invariant split_of(lam, k, top, bot, lbot), inner.len() == k, outer =~= tout(lam, k, m),
    forall|h: int| 0 <= h < it0 ==> #[trigger] inner[h] == inn(lam, k, d, h), forall|h: int| it0 <= h < k ==> #[trigger] inner[h] == cnt(lam, h + 1),
    0 <= b <= lbot, it0 == 0 ==> b == 0, it0 > 0 ==> bd(lam, k, b, diag(lam, k, d, it0 - 1))
//# hint before loop 1
if i > 0 { lemma_bd(lam, k, d, b, i); } else { lemma_bd_step(lam, k, diag(lam, k, d, i), 0); }
//# loop 1
invariant 0 <= b <= lbot, bd(lam, k, b, diag(lam, k, d, i))
decreases lbot - b
//# hint loop 1 head
lemma_bd_step(lam, k, diag(lam, k, d, i), b);
//# hint after loop 1
lemma_bd_end(lam, k, diag(lam, k, d, i), b);
lemma_cnt_mono(lam, i, i + 1);
//# hint before loop 2
assert(inner =~= tin(lam, k, d));
lemma_got_first(lam, p, k, m, w, d);
lemma_win_bound(lam, outer, k, m, w, d);
//# loop 2
invariant split_of(lam, k, top, bot, lbot), inner =~= tin(lam, k, d), outer =~= tout(lam, k, m), res.finite(),
    top_1.is_some() ==> win(top_1.unwrap(), tin(lam, k, d), tout(lam, k, m)),
    got(res, lam, top_1, p, k, m, w, d)
decreases meas(top_1, m + 1)
//# hint loop 2 head
let ghost res0 = res;
//# hint call part_itr_between
let a = $a0;
lemma_top_next(lam, a, $r, p, k, m, w, d);
lemma_none_sum(lam, a, p, k, m, w, d, bot);
lemma_none_bounds(lam, a, p, k, m, w, d);
lemma_win_bound(lam, a, k, m, w, d);
lemma_skip(res0, lam, a, $r, p, k, m, w, d);
//# hint loop 2 end
lemma_got_part(res, res0, lam, top1, top_1, p, k, m, w, d);
//# hint loop 2 continue
assert(none_with(lam, top1, p, k, m, w, d));
//# hint before loop 3
assert(rows_fit(lam, top1, k, d, m, 0)) by { reveal(rows_fit); }
assert forall|h: int| 0 <= h < inbot.unwrap().len() implies #[trigger] inbot.unwrap()[h] == ex(lam, k, h) by {}
assert(inbot.unwrap().len() == blen(lam, top1, k, m));
assert(outbot.len() == blen(lam, top1, k, m));
assert forall|h: int| 0 <= h < outbot.len() implies #[trigger] outbot[h] == base(lam, k, w, h) by {}
//# loop 3
invariant inbot.is_none() ==> brk3,
    brk3 ==> inbot.is_none() && !rows_fit(lam, top1, k, d, m, k),
    !brk3 ==> inbot.unwrap().len() == blen(lam, top1, k, m) && outbot.len() == blen(lam, top1, k, m),
    !brk3 ==> rows_fit(lam, top1, k, d, m, it3),
    !brk3 ==> forall|h: int| 0 <= h < blen(lam, top1, k, m) ==> #[trigger] inbot.unwrap()[h] == lowb(lam, top1, k, d, h, it3),
    !brk3 ==> forall|h: int| 0 <= h < blen(lam, top1, k, m) ==> #[trigger] outbot[h] == upb(lam, top1, k, d, w, h, it3),
    0 <= b <= lbot, it3 == 0 ==> b == 0, it3 > 0 ==> bd(lam, k, b, diag(lam, k, d, it3 - 1))
//# hint before loop 4
if i > 0 { lemma_bd(lam, k, d, b, i); } else { lemma_bd_step(lam, k, diag(lam, k, d, i), 0); }
//# loop 4
invariant 0 <= b <= lbot, bd(lam, k, b, diag(lam, k, d, i))
decreases lbot - b
//# hint loop 4 head
lemma_bd_step(lam, k, diag(lam, k, d, i), b);
//# hint after loop 4
lemma_bd_end(lam, k, diag(lam, k, d, i), b);
//# hint loop 3 break
lemma_fit_step(lam, top1, k, d, m, i);
//# hint before loop 5
lemma_fit_step(lam, top1, k, d, m, i);
//# loop 5
invariant b <= b1, outbot.len() == blen(lam, top1, k, m),
    forall|h: int| 0 <= h < outbot.len() ==> #[trigger] outbot[h] == (if b < h <= b1 { upb(lam, top1, k, d, w, h, i + 1) } else { upb(lam, top1, k, d, w, h, i) })
decreases outbot.len() - b1
//# hint after loop 5
if b1 + 1 < outbot.len() { lemma_after(lam, k, diag(lam, k, d, i), b, b1); }
//# hint after loop 3
if inbot.is_none() { lemma_none_fit(lam, top1, p, k, m, w, d); }
else {
    assert(inbot.unwrap() =~= bin(lam, top1, k, d, m));
    assert(outbot =~= bout(lam, top1, k, d, m, w));
    lemma_bounds_fit(lam, top1, k, d, m, w);
}
//# hint call _pieri_fill
lemma_psum_all(bin(lam, top1, k, d, m));
lemma_psum_all(bout(lam, top1, k, d, m, w));
lemma_rows_first(lam, top1, $r, p, k, m, w, d, p1);
lemma_part_first(res0, lam, top1, $r, p, k, m, w, d);
if $r.is_some() { lemma_good(lam, top1, $r.unwrap(), p, k, m, w, d); }
//# loop 6
invariant res.finite(), bot1.is_some() ==> good_pair(lam, top1, bot1.unwrap(), p, k, m, w, d),
    got_part(res, res0, lam, top1, bot1, p, k, m, w, d)
decreases meas(bot1, w + 1)
//# hint loop 6 head
let ghost res1 = res;
let ghost x = bot1.unwrap();
lemma_good(lam, top1, x, p, k, m, w, d);
if k == 0 { lemma_value(top1, x, k, m, clip(x)); }
//# hint call _pieri_itr
if k > 0 { lemma_value(top1, x, k, m, value); }
assert(res =~= res1.insert(join(top1, x)));
lemma_bot_next(lam, top1, x, $r, p, k, m, w, d);
lemma_part_next(res1, res0, lam, top1, x, $r, p, k, m, w, d);
//# hint return
axiom_set_list(res);
lemma_got_all(res, result, lam, p, k, m, w, d);
//# end

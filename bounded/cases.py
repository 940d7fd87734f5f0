"""Bounded stand-ins: for each property, concrete inputs with the answer an independent oracle gives.

jobs(prop, tier, seed) lists jobs (function name, arguments); each job yields cases
    (setup, expr, expected)
`setup` and `expr` are Python source run against the real code (see real.py); the value of
`expr` must equal `expected`.  A case is also its own replay.
"""
import itertools, random
from oracle import *
from oracle import _index_table, _index


def P(lam):
    return 'S[' + ','.join(str(x) if not isinstance(x, (list, tuple)) else '[' + ','.join(map(str, x)) + ']' for x in lam) + ']'


def G(S):
    return f"g = {S!r}"


def one(lam):
    return {(tuple(lam), Q0): 1}


def rng(*a):
    return random.Random(repr(a))


def rand_part(r, rows, cols):
    return clip(sorted((r.randint(0, cols) for _ in range(rows)), reverse=True))


def rand_kstrict(r, k, rows, cols):
    while True:
        l = rand_part(r, rows, cols)
        if is_kstrict(l, k):
            return l


def rand_class(r, S):
    """a random class of a B, C or D space of any size; often with a full first row or a full first column"""
    k, rows, cols = S.k, S.m, S.n + S.k
    for _ in range(200):
        nb = r.randint(0, min(rows, cols - k))
        big = sorted(r.sample(range(k + 1, cols + 1), nb), reverse=True)
        if big and r.random() < .5:
            big[0] = cols
        mode = r.random()
        small = sorted((r.randint(1 if mode < .5 else 0, k) for _ in range(rows - nb)), reverse=True) if k else []
        l = clip(big + small)
        if S.T == 'D' and k and k in l and r.random() < .5:
            l = l + (0,)
        return l


def wide_space(r, lo, hi):
    T = r.choice('BCDD')
    N = r.randint(lo, hi) * 2 + (1 if T == 'B' else 0)
    top = (N - 1) // 2 if T != 'D' else N // 2
    m = r.choice([r.randint(1, top), max(1, top - 1), max(1, top - 2)])
    return Space(T, m, N)


QS = {'A': ['q'], 'B': ['q'], 'C': ['q'], 'D': ['q']}


def lin_text(r, terms):
    """terms: [(coef text, class)]"""
    s = ''
    for c, l in terms:
        s += ('+' if s else '') + f"({c})*{P(l)}"
    return s


def comb(d):
    return {k: v for k, v in d.items() if v}


# ------------------------------------------------------------------ C01
def c01_space(m, N):
    S = Space('A', m, N)
    for lam in S.classes():
        for p in range(0, S.k + 2):
            e = pieriA(p, lam, m, N)
            yield G(S), f"todict(g.pieri({p},{P(lam)!r}))", e
        p = (sum(lam) % (S.k + 1))
        e = pieriA(p, lam, m, N)
        yield G(S), f"todict(g.pieri({p},{list(lam)}))", e
        pad = list(lam) + [0] * (m - len(lam))
        yield G(S), f"todict(g.pieri({p},{P(pad)!r}))", e
        yield G(S), f"todict(g.pieri({p},Schur({list(lam)})))", e
        yield G(S), f"todict(g.pieri({p},LinearCombination({P(lam)!r})))", e


def c01_rand(seed, i):
    r = rng('c01', seed, i)
    for _ in range(60):
        m, k = r.randint(1, 7), r.randint(0, 8)
        S = Space('A', m, m + k)
        lam = rand_part(r, m, k)
        p = r.randint(0, k + 1)
        yield G(S), f"todict(g.pieri({p},{P(lam)!r}))", pieriA(p, lam, m, m + k)


# ------------------------------------------------------------------ C02
def c02_space(m, N):
    S = Space('A', m, N)
    for lam in S.classes():
        for p in range(1, S.k + 1):
            yield G(S), f"todict(g.qpieri({p},{P(lam)!r}))", qpieriA(p, lam, m, N)
        p = 1 + sum(lam) % S.k
        yield G(S), f"todict(g.qpieri({p},{list(lam)}))", qpieriA(p, lam, m, N)


def c02_rand(seed, i):
    r = rng('c02', seed, i)
    for _ in range(40):
        m, k = r.randint(1, 7), r.randint(1, 7)
        S = Space('A', m, m + k)
        lam = rand_part(r, m, k)
        if r.random() < .8:
            lam = tuple(max(1, row(lam, j)) for j in range(m))
        if r.random() < .5 and lam:
            lam = (k,) + lam[1:]
        p = r.randint(1, k)
        yield G(S), f"todict(g.qpieri({p},{P(lam)!r}))", qpieriA(p, lam, m, m + k)


# ------------------------------------------------------------------ C03 / C04
def c03_space(T, m, N, step=1, off=0):
    S = Space(T, m, N)
    cl = S.classes()
    for j, lam in enumerate(cl):
        if j % step != off:
            continue
        for p in S.special():
            yield G(S), f"todict(g.pieri({p},{P(lam)!r}))", pieri(S, p, lam)
    if 1 in S.special():
        yield G(S), f"todict(g.pieri(1,{list(cl[-1])}))", pieri(S, 1, cl[-1])


def c03_rand(seed, i, big):
    r = rng('c03', seed, i)
    for _ in range(12):
        T = r.choice('BCD')
        N = r.randint(4, big) * 2 + (1 if T == 'B' else 0)
        m = r.randint(1, (N - 1) // 2)
        S = Space(T, m, N)
        if len(S.classes()) > 3000:
            continue
        lam = r.choice(S.classes())
        p = r.choice(S.special())
        yield G(S), f"todict(g.pieri({p},{P(lam)!r}))", pieri(S, p, lam)


def c03_wide(seed, i):
    r = rng('c03w', seed, i)
    for _ in range(6):
        S = wide_space(r, 6, 13)
        lam = rand_class(r, S)
        sp = S.special()
        p = r.choice([x for x in sp if abs(x) <= 4] + [x for x in sp if abs(x) == S.k] + [r.choice(sp)])
        yield G(S), f"todict(g.pieri({p},{P(lam)!r}))", pieri(S, p, lam)


def c04_wide(seed, i):
    r = rng('c04w', seed, i)
    for _ in range(5):
        S = wide_space(r, 6, 12)
        lam = rand_class(r, S)
        sp = S.special()
        p = r.choice([x for x in sp if abs(x) <= 4] + [x for x in sp if abs(x) == S.k] + [r.choice(sp)])
        yield G(S), f"todict(g.qpieri({p},{P(lam)!r}))", qpieri(S, p, lam)


def c04_space(T, m, N, step=1, off=0):
    S = Space(T, m, N)
    cl = S.classes()
    for j, lam in enumerate(cl):
        if j % step != off:
            continue
        for p in S.special():
            yield G(S), f"todict(g.qpieri({p},{P(lam)!r}))", qpieri(S, p, lam)


def c04_rand(seed, i, big):
    r = rng('c04', seed, i)
    for _ in range(10):
        T = r.choice('BCDD')
        N = r.randint(4, big) * 2 + (1 if T == 'B' else 0)
        m = r.randint(1, (N - 1) // 2)
        S = Space(T, m, N)
        if len(S.classes()) > 1500:
            continue
        cl = [l for l in S.classes() if len(clip(l)) == m or (l and l[0] == S.n + S.k)] or S.classes()
        lam = r.choice(cl)
        p = r.choice(S.special())
        yield G(S), f"todict(g.qpieri({p},{P(lam)!r}))", qpieri(S, p, lam)


# ------------------------------------------------------------------ C05
def c05_space(T, m, N):
    S = Space(T, m, N)
    yield G(S), "[tuple(c.p) for c in g.schub_classes()]", S.classes()
    if m >= 1:
        yield G(S), "[tuple(c.p) for c in g.generators()]", S.generators()
    yield G(S), "tuple(g.point_class().p)", S.point()
    yield G(S), "sum(g.point_class().p)", S.dim()
    yield G(S), "all(isinstance(c, Schur) for c in g.schub_classes() + g.generators() + [g.point_class()])", True


# ------------------------------------------------------------------ C06
def c06_space(T, m, N):
    S = Space(T, m, N)
    tab = _index_table(T, m, N)
    inv = {v: k for k, v in tab.items()}
    for lam, idx in tab.items():
        yield G(S), f"todict(g.part2index({P(lam)!r}))", one(idx)
        yield G(S), f"todict(g.index2part({P(idx)!r}))", one(lam)
        if (sum(lam) + len(lam)) % 3 == 0:
            yield G(S), f"todict(g.part2index({list(lam)}))", one(idx)
            yield G(S), f"todict(g.index2part({list(idx)}))", one(lam)
    cl = S.classes()
    r = rng('c06', T, m, N)
    for _ in range(3):
        t = [(r.randint(-4, 4) or 1, r.choice(cl)) for _ in range(3)]
        a, b = {}, {}
        for c, l in t:
            add_into(a, {(tab[l], Q0): c})
            add_into(b, {(l, Q0): c})
        yield G(S), f"todict(g.part2index({lin_text(r, t)!r}))", a
        yield G(S), f"todict(g.index2part(g.part2index({lin_text(r, t)!r})))", b
    if m >= 1 and len(cl) < 3000:
        sets = sorted(index_sets(T, m, N))
        if T == 'D' and S.k == 0:
            par = {sum(1 for x in i if x > m) % 2 for i in tab.values()}
            sets = [i for i in sets if sum(1 for x in i if x > m) % 2 in par]
            yield '', repr(len(par)), 1
        yield '', repr(sorted(inv)), sets


def c06_rand(seed, i):
    r = rng('c06', seed, i)
    for _ in range(25):
        T = r.choice('ABCD')
        N = r.randint(9, 22)
        if T in 'CD':
            N -= N % 2
        elif T == 'B':
            N -= 1 - N % 2
        m = r.randint(1, N if T == 'A' else N // 2)
        S = Space(T, m, N)
        if T == 'A':
            lam = rand_part(r, m, N - m)
        else:
            lam = clip(sorted((r.randint(0, S.n + S.k) for _ in range(m)), reverse=True))
            lam = tuple(sorted({x for x in lam if x > S.k} | set(), reverse=True)) + tuple(x for x in lam if x <= S.k)
            if T == 'D' and S.k > 0 and S.k in lam and r.random() < .5:
                lam += (0,)
        idx = _index(S, lam)
        yield G(S), f"todict(g.part2index({P(lam)!r}))", one(idx)
        yield G(S), f"todict(g.index2part({P(idx)!r}))", one(lam)


# ------------------------------------------------------------------ C07
def c07_space(T, m, N):
    S = Space(T, m, N)
    for lam in S.classes():
        d = dual(S, lam)
        assert sum(d) + sum(lam) == S.dim()
        yield G(S), f"todict(g.dualize({P(lam)!r}))", one(d)
        yield G(S), f"todict(g.dualize(g.dualize(Schur({list(lam)}))))", one(lam)
    cl = S.classes()
    r = rng('c07', T, m, N)
    for _ in range(2):
        t = [(r.randint(-4, 4) or 1, r.choice(cl)) for _ in range(3)]
        a = {}
        for c, l in t:
            add_into(a, {(dual(S, l), Q0): c})
        yield G(S), f"todict(g.dualize({lin_text(r, t)!r}))", a


def c07_pairing(T, m, N, step=1, off=0):
    S = Space(T, m, N)
    cl = S.classes()
    pt = S.point()
    for j, a in enumerate(cl):
        if j % step != off:
            continue
        for b in cl:
            if sum(a) + sum(b) == S.dim():
                yield G(S), f"todict(g.mult({P(a)!r},{P(b)!r}))", (one(pt) if dual(S, a) == b else {})


# ------------------------------------------------------------------ C08
def c08_pairs(T, m, N):
    S = Space(T, m, N)
    for lam in S.classes():
        l = clip(lam)
        k = S.k
        top = conj([min(x, k) for x in l])
        top += (0,) * (k - len(top))
        bot = clip([max(x - k, 0) for x in l]) + ((0,) if lam and lam[-1] == 0 else ())
        pair = (top, bot)
        yield G(S), f"todict(g.part2pair({P(lam)!r}))", one(pair)
        yield G(S), f"todict(g.pair2part({P(pair)!r}))", one(lam)
        if sum(lam) % 2 == 0:
            yield G(S), f"todict(g.part2pair({list(lam)}))", one(pair)
            yield G(S), f"todict(g.pair2part([{list(top)},{list(bot)}]))", one(lam)
    r = rng('c08', T, m, N)
    cl = S.classes()
    t = [(r.randint(-4, 4) or 1, r.choice(cl)) for _ in range(3)]
    a = {}
    for c, l in t:
        add_into(a, {(tuple(l), Q0): c})
    yield G(S), f"todict(g.pair2part(g.part2pair({lin_text(r, t)!r})))", a


def c08_conj(rows, cols):
    for l in box_partitions(rows, cols):
        yield "from schubertpy.qcalc import part_conj", f"part_conj({list(l)})", list(conj(l))
        yield "from schubertpy.qcalc import part_conj", f"part_conj({list(l) + [0, 0]})", list(conj(l))
        yield "from schubertpy.qcalc import part_conj", f"part_conj(part_conj({list(l)}))", list(l)


# ------------------------------------------------------------------ C09, C10
_rings = {}


def ring(S, quantum):
    key = (S.T, S.m, S.N, quantum)
    if key not in _rings:
        _rings[key] = Ring(S, quantum)
    return _rings[key]


def c09_space(T, m, N, step=1, off=0):
    S = Space(T, m, N)
    cl = S.classes()
    gens = {P(x) for x in S.generators()}
    r = rng('c09', T, m, N, off)
    for j, lam in enumerate(cl):
        if j % step != off:
            continue
        yield G(S), f"todict(g.toS({P(lam)!r}))", one(lam)
        yield G(S), f"todict(g.qtoS({P(lam)!r}))", one(lam)
        yield G(S), f"[s for s in poly_symbols(g.giambelli({P(lam)!r})) if s not in {sorted(gens)!r}]", []
        yield G(S), f"[s for s in poly_symbols(g.qgiambelli({P(lam)!r})) if s not in {sorted(gens) + ['q', 'q1', 'q2']!r}]", []
        # the polynomial, evaluated with the oracle's Pieri operators
        yield G(S) + "\nfrom oracle import *", f"eval_special(Space({T!r},{m},{N}), False, g.giambelli({P(lam)!r}))", one(lam)
        yield G(S) + "\nfrom oracle import *", f"eval_special(Space({T!r},{m},{N}), True, g.qgiambelli({P(lam)!r}))", one(lam)
        b = r.choice(cl)
        yield G(S), f"todict(g.toS('{P(lam)}*{P(b)}'))", comb(ring(S, False).mul(lam, b))
        yield G(S), f"todict(g.qtoS('{P(lam)}*{P(b)}'))", comb(ring(S, True).mul(lam, b))
    t = [(r.randint(-4, 4) or 1, r.choice(cl)) for _ in range(3)]
    a = {}
    for c, l in t:
        add_into(a, {(tuple(l), Q0): c})
    yield G(S), f"todict(g.toS({lin_text(r, t)!r}))", a
    yield G(S), f"todict(g.qtoS({lin_text(r, t)!r}))", a


def dmul(R, x, y):
    res = {}
    for (a, qa), ca in x.items():
        for (b, qb), cb in y.items():
            for (l, q), c in R.mul(a, b).items():
                key = (l, tuple(u + v + w for u, v, w in zip(q, qa, qb)))
                res[key] = res.get(key, 0) + c * ca * cb
    return comb(res)


def c10_space(T, m, N, step=1, off=0):
    S = Space(T, m, N)
    cl = S.classes()
    r = rng('c10', T, m, N, off)
    Rc, Rq = ring(S, False), ring(S, True)
    for j, a in enumerate(cl):
        if j % step != off:
            continue
        bs = cl if len(cl) <= 12 else r.sample(cl, 8)
        for b in bs:
            yield G(S), f"todict(g.mult({P(a)!r},{P(b)!r}))", comb(Rc.mul(a, b))
            yield G(S), f"todict(g.qmult({P(a)!r},{P(b)!r}))", comb(Rq.mul(a, b))
        yield G(S), f"todict(g.qmult('S[]',{P(a)!r}))", one(a)
        yield G(S), f"todict(g.mult({P(a)!r},'S[]'))", one(a)
    for _ in range(3 if step == 1 or off < 4 else 1):
        a, b, c = r.choice(cl), r.choice(cl), r.choice(cl)
        x, y, z = one(a), one(b), one(c)
        yield G(S), f"todict(g.qmult({P(a)!r},g.qmult({P(b)!r},{P(c)!r})))", dmul(Rq, dmul(Rq, x, y), z)
        yield G(S), f"todict(g.mult(g.mult({P(a)!r},{P(b)!r}),{P(c)!r}))", dmul(Rc, x, dmul(Rc, y, z))
    t = [(r.randint(-4, 4) or 1, r.choice(cl)) for _ in range(2)]
    u = [(r.randint(-4, 4) or 1, r.choice(cl)) for _ in range(2)]
    da, db = {}, {}
    for c, l in t:
        add_into(da, {(tuple(l), Q0): c})
    for c, l in u:
        add_into(db, {(tuple(l), Q0): c})
    yield G(S), f"todict(g.qmult({lin_text(r, t)!r},{lin_text(r, u)!r}))", dmul(Rq, da, db)
    yield G(S), f"todict(g.mult({lin_text(r, t)!r},{lin_text(r, u)!r}))", dmul(Rc, da, db)
    sp = list(zip(S.special(), S.generators()))
    for p, gcl in r.sample(sp, min(4, len(sp))):
        b = r.choice(cl)
        yield G(S), f"todict(g.mult({P(gcl)!r},{P(b)!r}))", pieri(S, p, b)
        yield G(S), f"todict(g.qmult({P(gcl)!r},{P(b)!r}))", qpieri(S, p, b)
        yield G(S), f"todict(g.act({P(gcl)!r},{P(b)!r}))", pieri(S, p, b)
        yield G(S), f"todict(g.qact('2*q*{P(gcl)}+3',{P(b)!r}))", comb(_affine(qpieri(S, p, b), b))


# the Pieri operators of a space commute (a contract the proofs assume), on the real operators
def c10_comm(T, m, N, step=1, off=0):
    S = Space(T, m, N)
    sp = S.special()
    for j, x in enumerate(S.classes()):
        if j % step == off:
            for f in ('pieri', 'qpieri'):
                yield G(S) + f"\nbase = {{p: g.{f}(p,{P(x)!r}) for p in {sp}}}", f"[(i,j) for i in {sp} for j in {sp} if i < j and todict(g.{f}(i,base[j])) != todict(g.{f}(j,base[i]))]", []


def c10_comm_wide(seed, i):
    r = rng('c10w', seed, i)
    S = wide_space(r, 5, 8) if r.random() < .8 else Space('A', 4, 9)
    sp = S.special()
    for _ in range(3):
        x = rand_class(r, S) if S.T != 'A' else rand_part(r, 4, 5)
        a, b = r.choice(sp), r.choice(sp)
        f = r.choice(['pieri', 'qpieri'])
        yield G(S), f"todict(g.{f}({a},g.{f}({b},{P(x)!r}))) == todict(g.{f}({b},g.{f}({a},{P(x)!r})))", True


def small_class(r, S, size):
    """a class of few boxes in a space of any size"""
    while True:
        l = rand_part(r, min(3, S.m), min(size, S.n + (S.k if S.T != 'A' else 0)))
        if S.T == 'A':
            l = clip([min(x, S.k) for x in l])
        if sum(l) <= size and (S.T == 'A' or is_kstrict(l, S.k)):
            return l + (0,) if S.T == 'D' and S.k and S.k in l and r.random() < .5 else l


def c09_wide(seed, i):
    r = rng('c09w', seed, i)
    S = wide_space(r, 4, 8) if r.random() < .8 else Space('A', 4, 9)
    for _ in range(2):
        x = small_class(r, S, 6)
        yield G(S), f"todict(g.toS({P(x)!r}))", one(x)
        yield G(S), f"todict(g.qtoS({P(x)!r}))", one(x)


def c10_wide(seed, i):
    r = rng('c10v', seed, i)
    S = wide_space(r, 4, 7) if r.random() < .8 else Space('A', 4, 9)
    a, b = small_class(r, S, 4), rand_class(r, S) if S.T != 'A' else rand_part(r, 4, 5)
    for f in ('mult', 'qmult'):
        if sum(b) <= 8:
            yield G(S), f"todict(g.{f}({P(a)!r},{P(b)!r})) == todict(g.{f}({P(b)!r},{P(a)!r}))", True
        yield G(S), f"todict(g.{f}('S[]',{P(b)!r}))", one(b)
    p, gcl = r.choice(list(zip(S.special(), S.generators())))
    yield G(S), f"todict(g.mult({P(gcl)!r},{P(b)!r}))", pieri(S, p, b)
    yield G(S), f"todict(g.qmult({P(gcl)!r},{P(b)!r}))", qpieri(S, p, b)


def c20_wide(seed, i):
    r = rng('c20w', seed, i)
    for _ in range(12):
        S = wide_space(r, 4, 8) if r.random() < .8 else Space('A', 4, 9)
        b = rand_class(r, S) if S.T != 'A' else rand_part(r, 4, 5)
        p = r.choice(S.special())
        yield G(S), f"homog(g.pieri({p},{P(b)!r}), ({S.T!r},{S.m},{S.N}), g.degree_q(), {sum(b) + abs(p)})", True
        yield G(S), f"homog(g.qpieri({p},{P(b)!r}), ({S.T!r},{S.m},{S.N}), g.degree_q(), {sum(b) + abs(p)})", True
    a = small_class(r, S, 4)
    yield G(S), f"homog(g.qmult({P(a)!r},{P(b)!r}), ({S.T!r},{S.m},{S.N}), g.degree_q(), {sum(b) + sum(a)})", True


def _affine(d, b):
    res = {}
    add_into(res, {k: 2 * c for k, c in d.items()}, (1, 0, 0))
    add_into(res, {(tuple(b), Q0): 3})
    return res


# ------------------------------------------------------------------ C11
COEFS = ['1', '-1', '2', '-3', '7', '1/2', '-5/3', 'q', '-q', '2*q', 'q^2', '1+q', '3-2*q^2', 'q/2']


def coef_terms(c):
    return {'1': [(1, 0)], '-1': [(-1, 0)], '2': [(2, 0)], '-3': [(-3, 0)], '7': [(7, 0)], '1/2': [('1/2', 0)], '-5/3': [('-5/3', 0)],
            'q': [(1, 1)], '-q': [(-1, 1)], '2*q': [(2, 1)], 'q^2': [(1, 2)], '1+q': [(1, 0), (1, 1)], '3-2*q^2': [(3, 0), (-2, 2)], 'q/2': [('1/2', 1)]}[c]


def lin_of(f, t):
    from fractions import Fraction
    res = {}
    for c, l in t:
        for v, e in coef_terms(c):
            v = Fraction(v)
            add_into(res, {k: v * x for k, x in f(l).items()}, (e, 0, 0))
    return {k: (int(v) if Fraction(v).denominator == 1 else str(v)) for k, v in res.items()}


def c11_space(T, m, N, seed):
    S = Space(T, m, N)
    cl = S.classes()
    r = rng('c11', T, m, N, seed)
    tab = _index_table(T, m, N)
    for _ in range(6):
        t = [(r.choice(COEFS), r.choice(cl)) for _ in range(r.randint(1, 4))]
        if r.random() < .3:
            t.append(t[0])
        s = lin_text(r, t)
        p = r.choice(S.special() or [1])
        yield G(S), f"fr(todict(g.pieri({p},{s!r})))", lin_of(lambda l: pieri(S, p, l), t)
        yield G(S), f"fr(todict(g.qpieri({p},{s!r})))", lin_of(lambda l: qpieri(S, p, l), t)
        yield G(S), f"fr(todict(g.dualize({s!r})))", lin_of(lambda l: one(dual(S, l)), t)
        yield G(S), f"fr(todict(g.part2index({s!r})))", lin_of(lambda l: one(tab[l]), t)
        yield G(S), f"fr(todict(g.type_swap({s!r},{S.k})))", lin_of(lambda l: one(swapD(l, S.k) if T == 'D' and S.k > 0 else l), t)
        if T == 'D' or r.random() < .2:
            yield G(S), f"fr(todict(g.miami_swap({s!r})))", lin_of(lambda l: one(miami(S, l)), t)
        b = r.choice(cl)
        yield G(S), f"fr(todict(g.mult({s!r},{P(b)!r})))", lin_of(lambda l: ring(S, False).mul(l, b), t)
        yield G(S), f"fr(todict(g.act({P(S.generators()[0]) if S.generators() else '1'!r},{s!r})))" if S.generators() else "1", \
            lin_of(lambda l: pieri(S, S.special()[0], l), t) if S.generators() else 1
    # cancellation and terms that map to 0 or to the same class
    a = cl[len(cl) // 2]
    yield G(S), f"todict(g.dualize('{P(a)}-{P(a)}'))", {}
    yield "", f"fr(todict(LinearCombination('3*{P(a)}-2*{P(cl[0])}+q*{P(cl[-1])}').apply(lambda p: 0)))", {}
    z = lin_of(lambda l: one((1,)), [('3-2*q^2', a), ('q', cl[0])])
    yield "", f"fr(todict(LinearCombination('(3-2*q^2)*{P(a)}+q*{P(cl[0])}').apply(lambda p: Schur([1]))))", z if a != cl[0] else lin_of(lambda l: one((1,)), [('3-2*q^2', a), ('q', a)])
    yield "", f"fr(todict(LinearCombination('(3-2*q^2)*{P(a)}+q*{P(cl[0])}').apply2(lambda p: LinearCombination('S[1]'))))", z if a != cl[0] else lin_of(lambda l: one((1,)), [('3-2*q^2', a), ('q', a)])


def miami(S, l):
    if S.T != 'D' or S.k == 0 or S.k not in l or sum(1 for x in l if x > S.k) % 2 == 0:
        return l
    return swapD(l, S.k)


# ------------------------------------------------------------------ C12
def rand_expr(r, depth=0):
    x = r.random()
    if depth > 2 or x < .35:
        return P(rand_part(r, 3, 12 if r.random() < .2 else 4)) if r.random() < .7 else r.choice(['q', 'q1', 'q2', '2', '7', '11'])
    if x < .7:
        return f"({rand_expr(r, depth + 1)}{r.choice('+-')}{rand_expr(r, depth + 1)})"
    if x < .92:
        return f"({rand_expr(r, depth + 1)}*{rand_expr(r, depth + 1)})"
    return f"({rand_expr(r, depth + 1)})^{r.randint(0, 3)}"


def c12_rand(seed, i):
    r = rng('c12', seed, i)
    for _ in range(25):
        a, b = rand_expr(r), rand_expr(r)
        su = f"A = LinearCombination({a!r}); B = LinearCombination({b!r}); X = parse({a!r}); Y = parse({b!r})"
        num = r.choice(['3', '0', '-2', 'sp.Rational(2,3)', 'sp.Integer(5)', "sp.Symbol('q')"])
        yield su, "same(A, X) and same(B, Y)", True
        for op in '+-*':
            yield su, f"isinstance(A {op} B, LinearCombination) and same(A {op} B, X {op} Y)", True
            yield su, f"isinstance(A {op} Y, LinearCombination) and same(A {op} Y, X {op} Y)", True
            yield su, f"isinstance(X {op} B, LinearCombination) and same(X {op} B, X {op} Y)", True
            yield su, f"isinstance(A {op} {num}, LinearCombination) and same(A {op} {num}, X {op} {num})", True
            yield su, f"isinstance({num} {op} B, LinearCombination) and same({num} {op} B, {num} {op} Y)", True
        e = r.randint(0, 3)
        yield su, f"isinstance(A ** {e}, LinearCombination) and same(A ** {e}, X ** {e})", True
        yield su, f"isinstance(A ** LinearCombination({e}), LinearCombination) and same(A ** LinearCombination({e}), X ** {e})", True
        yield su, "same(LinearCombination(str(A)), X)", True
        yield su, "same(LinearCombination(str(A * B)), X * Y)", True
        yield su, "same(LinearCombination(A), X) and same(LinearCombination(X), X) and same(LinearCombination(str(LinearCombination(str(A - B)))), X - Y)", True


def c12_classes(mode):
    if mode == 0:
        objs = [list(l) for l in box_partitions(4, 3)] + [list(l) + [0] for l in box_partitions(3, 3)] + [[12, 10, 3], [100], [10, 0]]
    elif mode == 1:
        objs = [sorted(c) for n in range(0, 4) for c in itertools.combinations([1, 2, 9, 10, 11, 25], n)]
    else:
        objs = [[list(a), list(b)] for a in box_partitions(2, 3) for b in box_partitions(2, 2)] + [[[], []], [[10, 1], [12, 0]]]
    for o in objs:
        name = P(o)
        yield f"s = Schur({o})", "str(s)", name
        yield f"s = Schur({o})", "toSchur(s.symbol()).p", o
        yield f"s = Schur({o})", "Schur(s.symbol()).p == s.p and Schur(str(s.symbol())).p == s.p and Schur(s).p == s.p", True
        yield f"s = Schur({o})", "Schur(str(s)).p", o
        yield f"s = Schur({o})", "isSchur(s.symbol()) and str(LinearCombination(s))", name
        yield f"s = Schur({o})", "same(LinearCombination(str(s)), s.symbol()) and same(LinearCombination(s), s.symbol())", True
        yield f"s = Schur({o})", "sym_part(str(s.symbol()))", tuple(tuple(x) if isinstance(x, list) else x for x in o)
        yield f"s = Schur({o})", "str(LinearCombination(3*s.symbol()**2))", f"3*{name}^2"
        yield f"s = Schur({o}); t = Schur({o}); z = LinearCombination(0)", "s == t and hash(s) == hash(t) and same(s + t, 2*s.symbol()) and same(s * t, s.symbol()**2) and same(s * 3, 3*s.symbol()) and same(s + z, s.symbol()) and same(s * z, 0)", True
        if mode == 0:
            yield f"s = Schur({o})", f"same(LinearCombination({o}), s.symbol())", True


# ------------------------------------------------------------------ C14
def c14_space(m, N, step=1, off=0):
    S = Space('A', m, N)
    cl = S.classes()
    R = ring(S, True)
    for j, a in enumerate(cl):
        if j % step != off:
            continue
        for b in cl:
            yield G(S), f"todict(g.qmult_rh({P(a)!r},{P(b)!r}))", comb(R.mul(a, b))


def c14_rand(seed, i):
    r = rng('c14', seed, i)
    for _ in range(3):
        m = r.randint(2, 5)
        N = r.randint(m + 1, 7)
        S = Space('A', m, N)
        cl = S.classes()
        a, b = r.choice(cl), r.choice(cl)
        yield G(S), f"todict(g.qmult_rh({P(a)!r},{P(b)!r}))", comb(ring(S, True).mul(a, b))


def c14_hooks(seed, i):
    r = rng('c14h', seed, i)
    for _ in range(80):
        l = rand_part(r, r.randint(1, 7), r.randint(1, 12))
        rim = r.randint(1, 8)
        grid = (r.randint(0, 6), r.randint(0, 6))
        if not l or (len(l) <= grid[0] and l[0] <= grid[1]):
            continue
        yield "", f"hooks_ok({list(l)}, {rim}, {grid})", True


# ------------------------------------------------------------------ C15
def c15_size(size, n):
    for l in box_partitions(size, size):
        if sum(l) != size:
            continue
        yield "", f"poly_dict(SchurPol({n}, {list(l)}), {n})", schur_poly(l, n)
        yield "", f"text_dict(Schur({list(l)}).to_polinomial_str({n}), {n})", schur_poly(l, n)
        if size <= 3:
            yield "", f"poly_dict(SchurPol({n}, {list(l) + [0, 0]}), {n})", schur_poly(l, n)


def c15_bad(_):
    for n in range(-2, 1):
        yield "", f"exc(lambda: SchurPol({n}, [2,1]))", 'ValueError'
    yield "", "exc(lambda: SchurPol('2', [2,1]))", 'ValueError'
    yield "", "exc(lambda: SchurPol(1.5, [2,1]))", 'ValueError'
    for n in (1, 2, 3):
        for l in itertools.chain(*(itertools.product((-1, 0, 1, 2, 3), repeat=j) for j in range(1, 4))):
            l = list(l)
            c = clip(l)
            ok = all(x > 0 for x in c) and all(c[i] >= c[i + 1] for i in range(len(c) - 1))
            if not ok:
                yield "", f"exc(lambda: SchurPol({n}, {l}))", 'ValueError'
        yield "", f"exc(lambda: SchurPol({n}, [2, 1.0]))", 'ValueError'
        yield "", f"exc(lambda: SchurPol({n}, [2, 'a']))", 'ValueError'
        yield "", f"exc(lambda: Schur([1, 2]).to_polinomial_str({n}))", 'ValueError'


# ------------------------------------------------------------------ C16
def c16_pair(lo, hi):
    for m in range(lo, hi):
        for N in range(-3, 15):
            for cls in ('Grassmannian', 'IsotropicGrassmannian', 'OrthogonalGrassmannian'):
                T = {'G': 'A', 'I': 'C', 'O': 'D' if N % 2 == 0 else 'B'}[cls[0]]
                ok = m >= 0 and N >= 0 and (m <= N if T == 'A' else 2 * m <= N and (T != 'C' or N % 2 == 0))
                if not ok:
                    yield "", f"exc(lambda: {cls}({m},{N}))", 'ValueError'
                    continue
                yield "", f"exc(lambda: {cls}({m},{N}))", None
                S = Space(T, m, N)
                name = {'A': 'Gr', 'C': 'IG'}.get(T, 'OG')
                td = [T, S.k, S.n, name, m, N, S.degq()]
                st = f"Type {T} ;  (k,n) = ({S.k},{S.n}) ;  {name}({m},{N}) ;  deg(q) = {S.degq()}"
                yield G(S), "g.get_type_data()", td
                yield G(S), "str(g)", st
                yield G(S), "g.degree_q()", S.degq()
                yield G(S), "type(g.clone()).__name__, g.clone() is not g, g.clone().get_type_data(), str(g.clone())", (cls, True, td, st)
                if T != 'A' and m == 0:
                    continue
                yield G(S) + "\nc = g.clone()", "[tuple(x.p) for x in c.generators()] == [tuple(x.p) for x in g.generators()] and tuple(c.point_class().p)", S.point()
    for cls in ('Grassmannian', 'IsotropicGrassmannian', 'OrthogonalGrassmannian'):
        for a, b in ((2.0, 6), (2, 6.0), ('2', 6), (2, '6'), (None, 6), (2, None), ([2], 6), (2.5, 6), (-1.0, 6), ('a', 'b')):
            yield "", f"exc(lambda: {cls}({a!r},{b!r}))", 'TypeError'


# ------------------------------------------------------------------ C17
def c17_space(T, m, N):
    S = Space(T, m, N)
    r = rng('c17', T, m, N)
    for l in S.classes():
        sw = swapD(l, S.k) if T == 'D' and S.k > 0 else l
        mi = miami(S, l)
        yield G(S), f"todict(g.type_swap({P(l)!r},{S.k}))", one(sw)
        yield G(S), f"todict(g.type_swap(g.type_swap({P(l)!r},{S.k}),{S.k}))", one(l)
        yield G(S), f"todict(g.miami_swap({P(l)!r}))", one(mi)
        yield G(S), f"todict(g.miami_swap(g.miami_swap({P(l)!r})))", one(l)
        if len(l) % 2 == 0:
            yield G(S), f"todict(g.type_swap({list(l)},{S.k}))", one(sw)
            yield G(S), f"todict(g.miami_swap({list(l)}))", one(mi)
        if T == 'D' and S.k > 0:
            yield G(S), f"g.schub_type({list(l)}), g.schub_type(Schur({list(l)}))", (typD(l, S.k),) * 2
        elif T != 'D':
            yield G(S), f"exc(lambda: g.schub_type({list(l)}))", 'ValueError'


# ------------------------------------------------------------------ C18
def c18_space(T, m, N, quantum):
    S = Space(T, m, N)
    cl = S.classes()
    R = ring(S, quantum)
    M = 'QMultTable' if quantum else 'MultTable'
    su = G(S) + f"\nt = {M}(g)"
    yield su, "[tuple(x.p) for x in t.df.index], [tuple(x.p) for x in t.df.columns]", (cl, cl)
    yield su, "[[todict(x) for x in r] for r in t.to_matrix()]", [[comb(R.mul(a, b)) for b in cl] for a in cl]
    for a in cl[:6]:
        for b in cl[-6:]:
            yield su, f"todict(t.df.loc[Schur({list(a)}), Schur({list(b)})])", comb(R.mul(a, b))
    a, b = cl[0], cl[-1]
    yield su, f"todict(t.mult({P(a)!r},{P(b)!r}))", comb(R.mul(a, b))


# ------------------------------------------------------------------ C19
def c19_lists(length):
    su = "from schubertpy.partition import *\nfrom schubertpy.partition import is_valid_part, part_clip, skew_partition_height"
    for l in itertools.product((-1, 0, 1, 2, 3), repeat=length):
        l = list(l)
        ok = all(x >= 0 for x in l) and all(l[i] >= l[i + 1] for i in range(len(l) - 1))
        yield su, f"exc(lambda: Partition({l}))", None if ok else 'ValueError'
        yield su, f"is_valid_part({l})", ok
        yield su, f"part_clip({l})", list(clip(l))
        yield "from schubertpy.utils.kstrict import part_clip", f"part_clip({l})", list(clip(l))
        if ok:
            yield su, f"Partition({l}).partition", l
            for g in itertools.product(range(0, 5), repeat=2):
                yield su, f"Partition({l}).is_in_range{g}", (not l or (len(l) <= g[0] and l[0] <= g[1]))
            yield su, f"exc(lambda: Partition({l}).is_in_range(-1,2)), exc(lambda: Partition({l}).is_in_range(1,-2))", ('ValueError', 'ValueError')
    if length == 3:
        for bad in ("'ab'", "(2,1)", "[2,'a']", "[2,1.5]", "None", "[None]", "5", "[[1]]"):
            yield su, f"exc(lambda: Partition({bad}))", 'ValueError'
            yield su, f"is_valid_part({bad})", False


def c19_skew(rows, cols):
    su = "from schubertpy.partition import skew_partition_height"
    ps = list(box_partitions(rows, cols))
    for a in ps:
        for b in ps:
            if all(row(a, i) <= row(b, i) for i in range(max(len(a), len(b)))):
                yield su, f"skew_partition_height({list(a)},{list(b)})", sum(1 for i in range(len(b)) if b[i] > row(a, i))
            else:
                yield su, f"exc(lambda: skew_partition_height({list(a)},{list(b)}))", 'ValueError'


# ------------------------------------------------------------------ C20
def c20_space(T, m, N, step=1, off=0):
    S = Space(T, m, N)
    cl = S.classes()
    r = rng('c20', T, m, N, off)
    su = G(S) + "\nC = {tuple(c.p) for c in g.schub_classes()}\nd = g.degree_q()"
    for j, a in enumerate(cl):
        if j % step != off:
            continue
        for p in S.special():
            yield su, f"homog(g.pieri({p},{P(a)!r}), C, d, {sum(a) + abs(p)})", True
            yield su, f"homog(g.qpieri({p},{P(a)!r}), C, d, {sum(a) + abs(p)})", True
        for b in r.sample(cl, min(3, len(cl))):
            yield su, f"homog(g.qmult({P(a)!r},{P(b)!r}), C, d, {sum(a) + sum(b)})", True
            yield su, f"homog(g.mult({P(a)!r},{P(b)!r}), C, d, {sum(a) + sum(b)}, classical=True)", True


# ------------------------------------------------------------------ C21
def c21_rand(seed, i):
    r = rng('c21', seed, i)
    for _ in range(40):
        d = {}
        for _ in range(r.randint(1, 5)):
            l = rand_part(r, 3, r.choice([2, 4, 11]))
            if r.random() < .1:
                l = l + (0,)
            q = (0, 0, 0) if r.random() < .6 else r.choice([(1, 0, 0), (2, 0, 0), (0, 1, 0), (0, 0, 1), (0, 1, 1)])
            d[(l, q)] = r.choice([1, 1, 1, -1, 2, 3, -5, 12])
        s = ' + '.join(f"({c})*q^{q[0]}*q1^{q[1]}*q2^{q[2]}*{P(l)}" for (l, q), c in d.items())
        yield f"L = LinearCombination({s!r})", "expansion(L.schur_expansion())", (d, True)
        d0 = {k: c for k, c in d.items() if k[1] == Q0}
        yield f"L = LinearCombination({s!r})", "expansion(L.schur_expansion(include_q=False))", (d0, True)
        a, b = P(rand_part(r, 2, 3)), P(rand_part(r, 2, 3) + (5,) * 0)
        if a != b:
            yield "", f"exc(lambda: LinearCombination('2*{a}*{b}').schur_expansion())", 'ValueError'
            yield "", f"exc(lambda: LinearCombination('{a} + 2*{a}*{b}').schur_expansion())", 'ValueError'
            yield "", f"exc(lambda: LinearCombination('{a}^2*{b}').schur_expansion())", 'ValueError'
            yield "", f"exc(lambda: LinearCombination('3*q + q*{b}*({a} + 1)').schur_expansion())", 'ValueError'


# ------------------------------------------------------------------ C13
def c13_hist(T, m, N, seed):
    """a mixed history: every answer must be the oracle's, arguments and spaces stay unchanged"""
    S = Space(T, m, N)
    r = rng('c13', T, m, N, seed)
    others = [S] + [s for s in spaces('ABCD', 6) if len(s.classes()) > 1]
    setup = "hist = History()"
    exprs = []
    for step in range(14):
        X = S if r.random() < .5 else r.choice(others)
        cl = X.classes()
        a, b = r.choice(cl), r.choice(cl)
        p = r.choice(X.special() or [0])
        if p == 0:
            continue
        ops = ['pieri', 'qpieri', 'mult', 'qmult', 'dualize', 'toS', 'classes', 'index', 'swap', 'pierilist', 'conv']
        if X.T == 'A':
            ops += ['qmult_rh', 'qmult_rh']
        op = r.choice(ops)
        fresh = r.random() < .4
        h = f"hist.space({X.T!r},{X.m},{X.N},{fresh})"
        form = r.choice(['text', 'schur', 'lc'])
        A = {'text': repr(P(a)), 'schur': f"hist.arg(Schur({list(a)}))", 'lc': f"hist.arg(LinearCombination({P(a)!r}))"}[form]
        B = r.choice([repr(P(b)), f"hist.arg(Schur({list(b)}))", f"hist.arg({list(b)})" if op in ('qmult', 'mult') else repr(P(b))])
        if op == 'pieri':
            exprs.append((f"todict({h}.pieri({p},{A}))", pieri(X, p, a)))
        elif op == 'qpieri':
            exprs.append((f"todict({h}.qpieri({p},{A}))", qpieri(X, p, a)))
        elif op == 'mult':
            exprs.append((f"todict({h}.mult({A},{B}))", comb(ring(X, False).mul(a, b))))
        elif op == 'qmult':
            exprs.append((f"todict({h}.qmult({A},{B}))", comb(ring(X, True).mul(a, b))))
        elif op == 'qmult_rh':
            exprs.append((f"todict({h}.qmult_rh({A},{B}))", comb(ring(X, True).mul(a, b))))
        elif op == 'dualize':
            exprs.append((f"todict({h}.dualize({A}))", one(dual(X, a))))
        elif op == 'toS':
            exprs.append((f"todict({h}.qtoS({A}))", one(a)))
        elif op == 'classes':
            exprs.append((f"[tuple(c.p) for c in {h}.schub_classes()]", cl))
        elif op == 'index':
            exprs.append((f"todict({h}.index2part({h}.part2index({A})))", one(a)))
        elif op == 'swap':
            exprs.append((f"todict({h}.type_swap({A},{X.k}))", one(swapD(a, X.k) if X.T == 'D' and X.k > 0 else a)))
        elif op == 'pierilist':
            exprs.append((f"todict({h}.pieri({p},hist.arg({list(a)})))", pieri(X, p, a)))
        elif op == 'conv' and X.T != 'A':
            exprs.append((f"todict({h}.pair2part({h}.part2pair(hist.arg({list(a)})).symbol()))", one(a)))
    su = setup
    for e, exp in exprs:
        yield su, e, exp
        su = su + "\n" + e      # the history so far is part of the case
        yield su, "hist.unchanged()", True


LOW = [
    ("qcalc", "part_conj", "[[3,1,0]]"), ("qcalc", "part_gen", "[[2,2]]"), ("qcalc", "part_itr", "[[2,2,0]]"),
    ("qcalc", "part_itr_between", "[[2,1],[0,0],[2,1]]"), ("qcalc", "part_len", "[[2,1,0]]"), ("qcalc", "part2pair_inner", "[[3,2,1,0],2]"),
    ("qcalc", "pair2part_inner", "[[[2,1],[1,0]]]"), ("qcalc", "type_swap_inner", "[[3,2],2]"), ("qcalc", "type_swap_inner", "[[3,2,0],2]"),
    ("qcalc", "part2indexA_inner", "[[2,1],2,4]"), ("qcalc", "part2indexB_inner", "[[3,1],1,3]"), ("qcalc", "part2indexC_inner", "[[3,1],1,3]"),
    ("qcalc", "part2indexD_inner", "[[3,1,0],1,3]"), ("qcalc", "index2partA_inner", "[[2,4],2,4]"), ("qcalc", "index2partB_inner", "[[2,7],1,3]"),
    ("qcalc", "index2partC_inner", "[[2,6],1,3]"), ("qcalc", "index2partD_inner", "[[2,5,8],1,3]"), ("qcalc", "dualize_index_inner", "[[2,5,8],8,'D']"),
    ("qcalc", "_pieri_fillA", "[[2,1,0],[2,1,0],[3,2,1],0,2]"), ("qcalc", "_pieri_itrA", "[[3,2,0],[2,1,0],[3,2,1]]"),
    ("qcalc", "_pieri_fill", "[[2,1],[2,1],[4,2],1,1]"), ("qcalc", "_pieri_itr", "[[3,1],[2,1],[4,2]]"),
    ("qcalc", "pieri_set", "[2,[3,1],1,4,0]"), ("qcalc", "count_comps", "[[3,1],[4,2],False,1,0]"),
    ("qcalc", "_part_star", "[[3,2,1],3]"), ("qcalc", "_part_tilde", "[[3,1,1],3,4]"),
    ("partition", "part_clip", "[[2,0,0]]"), ("partition", "is_valid_part", "[[2,1,0]]"), ("partition", "skew_partition_height", "[[1],[2,1]]"),
    ("utils.kstrict", "all_kstrict", "[1,2,3]"), ("utils.kstrict", "_itr_kstrict", "[[3,2],1]"),
    ("utils.mix", "SchurPol", "[3,[2,1,0]]"), ("utils.mix", "padding_right", "[[2,1],0,2]"), ("utils.mix", "embed_partition", "[[2,1],3,3]"), ("utils.mix", "partition_to_ascii", "[[2,1]]"),
]


def c13_low(_):
    for mod, f, args in LOW:
        su = f"from schubertpy.{mod} import {f} as f\nimport copy\na = {args}\nb = copy.deepcopy(a)"
        yield su, "(f(*a), a)[1] == b and str(f(*a)) == str(f(*copy.deepcopy(b)))", True
    yield "from schubertpy.partition import Partition\na = [5,3,1]\np = Partition(a)", "(p.remove_rim_hooks(4,(2,2)), p.is_in_range(2,2), a, p.partition)[2:]", ([5, 3, 1], [5, 3, 1])
    yield "s = Schur([2,1,0])", "(s.to_polinomial_str(3), s.latex(), s.latex_standalone(), s.p)[3]", [2, 1, 0]
    yield "L = LinearCombination('S[2,1]+q*S[1]')\nx = L.expr", "(L + 1, L * 2, L - L, L ** 2, L.schur_expansion(), L.apply(lambda p: Schur(p)), str(L), L.is_valid(), L.expr == x)[-1]", True
    for deco in ('hashable_lru_cache', 'hashable_lru_cache_method'):
        for mx in (None, 2):
            su = f"from schubertpy.utils.hash import {deco}\n"
            if deco.endswith('method'):
                su += f"class K:\n    calls = 0\n    def __init__(s, t): s.t = t\n    @{deco}(maxsize={mx})\n    def f(s, a, b=0, c=None): return (s.t, tuple(a) if isinstance(a,(list,tuple)) else a, b, c)\nx = K(1); y = K(2)"
                call = "{}.f({})"
            else:
                su += f"@{deco}(maxsize={mx})\ndef h(a, b=0, c=None): return (0, tuple(a) if isinstance(a,(list,tuple)) else a, b, c)"
                call = "h({})"
            seq, exp = [], []
            r = rng('memo', deco, mx)
            for _ in range(40):
                a = r.choice([[1], [1, 2], (1, 2), [], 3, [2, 1], [2]])
                b = r.choice([0, 1, 2])
                c = r.choice([None, 1, 2])
                who = r.choice('xy') if deco.endswith('method') else ''
                args = r.choice([f"{a},{b},c={c}", f"{a},b={b},c={c}", f"{a},c={c},b={b}"])
                seq.append(call.format(who, args) if who else call.format(args))
                exp.append(({'x': 1, 'y': 2}.get(who, 0), tuple(a) if isinstance(a, (list, tuple)) else a, b, c))
            yield su, '[' + ', '.join(seq) + ']', exp


# ------------------------------------------------------------------ job lists
def split(fn, spcs, limit=30):
    out = []
    for S in spcs:
        n = len(S.classes())
        st = max(1, n // limit)
        for o in range(st):
            out.append((fn, (S.T, S.m, S.N, st, o)))
    return out


def jobs(prop, tier, seed):
    th = tier == 'thorough'
    sp = lambda types, mx, mn=1: [s for s in spaces(types, mx, mn)]
    J = []
    if prop == 'C01':
        J = [('c01_space', (S.m, S.N)) for S in sp('A', 10 if th else 8)] + [('c01_rand', (seed, i)) for i in range(60 if th else 12)]
    elif prop == 'C02':
        J = [('c02_space', (S.m, S.N)) for S in sp('A', 10 if th else 8) if S.m < S.N] + [('c02_rand', (seed, i)) for i in range(60 if th else 16)]
    elif prop == 'C03':
        J = split('c03_space', sp('BCD', 11 if th else 9)) + [('c03_rand', (seed, i, 6)) for i in range(120 if th else 24)] + [('c03_wide', (seed, i)) for i in range(200 if th else 30)]
    elif prop == 'C04':
        J = split('c04_space', sp('BCD', 10 if th else 8), 16) + [('c04_rand', (seed, i, 6 if th else 5)) for i in range(120 if th else 24)] + [('c04_wide', (seed, i)) for i in range(200 if th else 40)]
    elif prop == 'C05':
        J = [('c05_space', (S.T, S.m, S.N)) for S in sp('ABCD', 12 if th else 10, 0)]
    elif prop == 'C06':
        J = [('c06_space', (S.T, S.m, S.N)) for S in sp('ABCD', 10 if th else 8, 1)] + [('c06_rand', (seed, i)) for i in range(100 if th else 16)]
    elif prop == 'C07':
        J = [('c07_space', (S.T, S.m, S.N)) for S in sp('ABCD', 10 if th else 8, 1)] + split('c07_pairing', sp('ABCD', 8 if th else 7, 1), 8)
    elif prop == 'C08':
        J = [('c08_pairs', (S.T, S.m, S.N)) for S in sp('BCD', 11 if th else 9, 1)] + [('c08_conj', (r, c)) for r in range(0, 6) for c in range(0, 5)]
    elif prop == 'C09':
        J = split('c09_space', sp('ABCD', 8 if th else 7, 1), 6) + [('c09_wide', (seed, i)) for i in range(150 if th else 24)]
    elif prop == 'C10':
        J = split('c10_space', sp('ABCD', 8 if th else 7, 1), 6) + split('c10_comm', sp('ABCD', 8 if th else 7, 1), 12)
        J += [('c10_comm_wide', (seed, i)) for i in range(150 if th else 24)] + [('c10_wide', (seed, i)) for i in range(100 if th else 16)]
    elif prop == 'C11':
        J = [('c11_space', (S.T, S.m, S.N, s)) for S in sp('ABCD', 7, 1) for s in range(seed, seed + (4 if th else 1))]
    elif prop == 'C12':
        J = [('c12_rand', (seed, i)) for i in range(100 if th else 16)] + [('c12_classes', (i,)) for i in range(3)]
    elif prop == 'C13':
        J = [('c13_hist', (S.T, S.m, S.N, seed + s)) for S in sp('ABCD', 7, 1) if len(S.classes()) > 2 for s in range(6 if th else 2)] + [('c13_low', (0,))]
    elif prop == 'C14':
        J = [('c14_space', (S.m, S.N, max(1, len(S.classes()) // 3), o)) for S in sp('A', 6 if th else 5, 1) for o in range(max(1, len(S.classes()) // 3))]
        J += [('c14_rand', (seed, i)) for i in range(80 if th else 24)] + [('c14_hooks', (seed, i)) for i in range(60 if th else 12)]
        if not th:
            J += [('c14_space', (3, 6, 10, o)) for o in range(10)]
    elif prop == 'C15':
        J = [('c15_size', (s, n)) for s in range(0, 7 if th else 6) for n in range(1, 6 if th else 5)] + [('c15_bad', (0,))]
    elif prop == 'C16':
        J = [('c16_pair', (m, m + 1)) for m in range(-3, 15)]
    elif prop == 'C17':
        J = [('c17_space', (S.T, S.m, S.N)) for S in sp('D', 12 if th else 10, 1) + sp('ABC', 6, 1)]
    elif prop == 'C18':
        J = [('c18_space', (S.T, S.m, S.N, q)) for S in sp('ABCD', 7 if th else 6, 1) if len(S.classes()) <= (20 if th else 12) for q in (False, True)]
    elif prop == 'C19':
        J = [('c19_lists', (i,)) for i in range(0, 6 if th else 5)] + [('c19_skew', (3, 3)), ('c19_skew', (4, 2)), ('c19_skew', (2, 4))]
    elif prop == 'C20':
        J = split('c20_space', sp('ABCD', 9 if th else 8, 1), 12) + [('c20_wide', (seed, i)) for i in range(150 if th else 30)]
    elif prop == 'C21':
        J = [('c21_rand', (seed, i)) for i in range(100 if th else 16)]
    return J

"""Independent oracles for the bounded stand-ins.

Nothing here imports the code under test.  The definitions are the textbook ones:
horizontal strips (type A), Bertram's quantum Pieri rule, and the rules of
Buch, Kresch and Tamvakis ("Quantum Pieri rules for isotropic Grassmannians",
arXiv:0809.4966) for types B, C and D, phrased with related boxes.

An element of a (quantum) cohomology ring is a dict
    {(partition tuple, (deg q, deg q1, deg q2)): integer coefficient}.
Partitions in type D carry a trailing 0 when they have type 2.
"""
import itertools
from functools import lru_cache

Q0 = (0, 0, 0)


# ---------------------------------------------------------------- partitions
def clip(l):
    l = list(l)
    while l and l[-1] == 0:
        l.pop()
    return tuple(l)


def conj(l):
    l = clip(l)
    return tuple(sum(1 for x in l if x > j) for j in range(l[0])) if l else ()


def row(l, i):
    return l[i] if 0 <= i < len(l) else 0


def box_partitions(rows, cols):
    if rows < 0 or cols < 0:
        return
    for t in itertools.combinations_with_replacement(range(cols, -1, -1), rows):
        yield clip(t)


def is_kstrict(l, k):
    return all(not (l[i] > k and l[i] == l[i + 1]) for i in range(len(l) - 1))


@lru_cache(None)
def kstrict(k, rows, cols):
    return tuple(sorted(l for l in box_partitions(rows, cols) if is_kstrict(l, k)))


# ---------------------------------------------------------------- spaces
class Space:
    """type, m, N and the numbers derived from them."""

    def __init__(self, T, m, N):
        self.T, self.m, self.N = T, m, N
        if T == 'A':
            self.k, self.n = N - m, N
        elif T == 'C':
            self.k, self.n = N // 2 - m, N // 2
        elif T == 'B':
            self.k, self.n = (N - 1) // 2 - m, (N - 1) // 2
        else:
            self.k, self.n = N // 2 - m, N // 2 - 1

    def __repr__(self):
        return {'A': 'Grassmannian', 'C': 'IsotropicGrassmannian'}.get(self.T, 'OrthogonalGrassmannian') + f"({self.m},{self.N})"

    @property
    def cls(self):
        return repr(self).split('(')[0]

    def degq(self):
        if self.T == 'A':
            return self.N
        if self.T == 'C':
            return self.N + 1 - self.m
        if self.k == 0:
            return self.N - 1 if self.T == 'B' else self.N - 2
        return self.N - 1 - self.m

    def classes(self):
        k, m, N = self.k, self.m, self.N
        if self.T == 'A':
            return sorted(box_partitions(m, N - m))
        base = kstrict(k, m, self.n + k)
        if self.T != 'D' or k == 0:
            return list(base)
        return sorted(l + z for l in base for z in ((), (0,)) if not z or k in l)

    def generators(self):
        """the special classes, as partitions"""
        if self.T == 'A':
            return [(p,) for p in range(1, self.k + 1)]
        if self.m == 0:
            return []
        g = [(p,) for p in range(1, self.k + 1)]
        if self.T == 'D' and self.k > 0:
            g.append((self.k, 0))
        return g + [(p,) for p in range(self.k + 1, self.n + self.k + 1)]

    def special(self):
        """the same as Pieri arguments"""
        return [g[0] if len(g) == 1 else -g[0] for g in self.generators()]

    def dim(self):
        m, N = self.m, self.N
        if self.T == 'A':
            return m * (N - m)
        if self.T == 'C':
            return m * (N - m) - m * (m - 1) // 2
        return m * (N - m) - m * (m + 1) // 2

    def point(self):
        top = [c for c in self.classes() if sum(c) == self.dim()]
        assert len(top) == 1, (self, top)
        return top[0]


def spaces(types, maxN, minm=1):
    out = []
    for N in range(1, maxN + 1):
        if 'A' in types:
            out += [Space('A', m, N) for m in range(minm, N + 1)]
        if N % 2 == 0 and 'C' in types:
            out += [Space('C', m, N) for m in range(minm, N // 2 + 1)]
        if N % 2 == 0 and 'D' in types:
            out += [Space('D', m, N) for m in range(minm, N // 2 + 1) if N >= 2]
        if N % 2 == 1 and 'B' in types and N >= 3:
            out += [Space('B', m, N) for m in range(minm, (N - 1) // 2 + 1)]
    return out


# ---------------------------------------------------------------- type A Pieri
def pieriA(p, lam, m, N):
    """horizontal strips of size p inside the m x (N-m) rectangle"""
    k = N - m
    lam = clip(lam)
    res = {}

    def go(i, left, mu):
        if i == m:
            if left == 0:
                res[(clip(mu), Q0)] = 1
            return
        hi = k if i == 0 else row(lam, i - 1)
        lo = row(lam, i)
        for x in range(lo, min(hi, lo + left) + 1):
            go(i + 1, left - (x - lo), mu + [x])
    if p >= 0:
        go(0, p, [])
    return res


def qpieriA(p, lam, m, N):
    k = N - m
    res = dict(pieriA(p, lam, m, N))
    lam = clip(lam)
    if len(lam) == m and p >= 1:
        target = sum(lam) + p - N

        def go(i, mu):
            if i == m:
                if sum(mu) == target:
                    res[(clip(mu), (1, 0, 0))] = 1
                return
            hi = lam[i] - 1
            lo = max(row(lam, i + 1) - 1, 0)
            for x in range(lo, hi + 1):
                go(i + 1, mu + [x])
        go(0, [])
    return res


# ---------------------------------------------------------------- BKT rules
def related(b, c, k, d):
    """boxes b in the first k columns and c beyond, (row, col); d=0 in types B, C, d=1 in type D"""
    off = 2 * k + 2 if d == 0 else 2 * k + 1
    return abs(2 * b[1] - off) + 2 * b[0] == abs(2 * c[1] - off) + 2 * c[0]


def arrow(lam, mu, k, d):
    """lam -> mu: returns None, or the set A of boxes of mu/lam right of column k that are not mentioned"""
    lam, mu = clip(lam), clip(mu)
    R = max(len(lam), len(mu))
    for i in range(R):
        nu = min(row(lam, i), row(mu, i))
        if row(lam, i) - nu > 1 or (row(lam, i) != nu and row(lam, i) > k):
            return None                      # not a vertical strip in the first k columns
        if i + 1 < R and row(mu, i + 1) > nu:
            return None                      # not a horizontal strip
    cl, cm = conj(lam), conj(mu)
    diff = [(r + 1, c + 1) for r in range(R) for c in range(row(lam, r), row(mu, r))]
    mentioned = set()
    for c in range(1, k + 1):
        a, b = row(cl, c - 1), row(cm, c - 1)
        if a == b:
            rel = [x for x in diff if related((b, c), x, k, d)]
            if len(rel) > 1:
                return None
            mentioned.update(rel)
        elif b < a:
            rows = set()
            for r in range(b, a + 1):
                rel = [x for x in diff if related((r, c), x, k, d)]
                if len(rel) != 1:
                    return None
                mentioned.update(rel)
                rows.add(rel[0][0])
            if len(rows) != 1:
                return None
    return {x for x in diff if x[1] > k and x not in mentioned}


def comps(A):
    A = set(A)
    res = []
    while A:
        stack = [A.pop()]
        comp = set(stack)
        while stack:
            r, c = stack.pop()
            for y in itertools.product((r - 1, r, r + 1), (c - 1, c, c + 1)):
                if y in A:
                    A.discard(y)
                    comp.add(y)
                    stack.append(y)
        res.append(comp)
    return res


def grown(lam, size, k, rows, cols):
    """the k-strict partitions of the given size in the box that arise from lam by removing at most one box
    from each row that ends in the first k columns and adding a horizontal strip"""
    lam = clip(lam)

    def go(i, left, mu):
        if left == 0 and all(row(lam, j) <= (1 if row(lam, j) <= k else 0) for j in range(i, len(lam))):
            yield mu
        if left <= 0 or i >= rows or i > len(lam):
            return
        a = row(lam, i)
        hi = min(left, cols if i == 0 else min(mu[-1] if mu[-1] <= k else mu[-1] - 1, row(lam, i - 1)))
        lo = max(1, a - 1 if a <= k else a)
        for x in range(lo, hi + 1):
            yield from go(i + 1, left - x, mu + (x,))
    return go(0, size, ())


@lru_cache(None)
def pieriC(p, lam, k, n):
    out = {}
    for mu in grown(lam, sum(lam) + p, k, n - k, n + k):
        if True:
            A = arrow(lam, mu, k, 0)
            if A is not None:
                out[(mu, Q0)] = 2 ** sum(1 for c in comps(A) if all(b[1] != k + 1 for b in c))
    return out


@lru_cache(None)
def pieriB(p, lam, k, n):
    out = {}
    for mu in grown(lam, sum(lam) + p, k, n - k, n + k):
        if True:
            A = arrow(lam, mu, k, 0)
            if A is not None:
                out[(mu, Q0)] = 2 ** (len(comps(A)) - (0 if p <= k else 1))
    return out


def typD(lam, k):
    if k == 0 or k not in lam:
        return 0
    return 2 if lam[-1] == 0 else 1


@lru_cache(None)
def pieriD(p, lam, k, n):
    """p = -k stands for the second special class of degree k"""
    out = {}
    t = typD(lam, k)
    l = clip(lam)
    a = abs(p)
    for mu in grown(l, sum(l) + a, k, n + 1 - k, n + k):
        A = arrow(l, mu, k, 1)
        if A is None:
            continue
        N = len(comps(A))
        for typed in ([mu, mu + (0,)] if k > 0 and k in mu else [mu]):
            s = typD(typed, k)
            if t + s == 3:
                continue
            if a < k:
                c = 2 ** N
            elif a > k:
                c = 2 ** (N - 1)
            elif N > 0:
                c = 2 ** (N - 1)
            else:
                # columns among the first k that did not grow
                cl, cm = conj(l), conj(mu)
                g = sum(1 for j in range(k) if row(cm, j) <= row(cl, j))
                h = g + max(t, s)
                c = 1 if (h % 2 == 1) == (p > 0) else 0
            if c:
                out[(typed, Q0)] = c
    return out


def add_into(res, other, shift=Q0, f=lambda l: l):
    for (l, q), c in other.items():
        l2 = f(l)
        if l2 is None:
            continue
        key = (l2, tuple(x + y for x, y in zip(q, shift)))
        res[key] = res.get(key, 0) + c
        if res[key] == 0:
            del res[key]


def star(l, cols):
    """remove a full first row"""
    return l[1:] if l and l[0] == cols else None


def tilde(l, rows, cols):
    """remove the first column and the first row of a class of the larger space (rows x (cols+1) excess)"""
    if len(clip(l)) != rows or l[0] > cols:
        return None
    r = rows + l[0] - cols
    if r <= 0:
        return None
    if any(row(l, i) > 1 for i in range(r, rows)):
        return None
    return l[1:r] + ((0,) if l[-1] == 0 else ())


def swapD(l, k):
    if k not in l:
        return clip(l)
    return l[:-1] if l[-1] == 0 else l + (0,)


def qpieriC(p, lam, k, n):
    res = dict(pieriC(p, lam, k, n))
    for (l, q), c in pieriC(p, lam, k, n + 1).items():
        l2 = star(l, n + k + 1)
        if l2 is not None:
            assert c % 2 == 0
            key = (l2, (1, 0, 0))
            res[key] = res.get(key, 0) + c // 2
    return res


def qpieriB(p, lam, k, n):
    res = dict(pieriB(p, lam, k, n))
    full = bool(lam) and lam[0] == n + k
    if k == 0:
        if full:
            add_into(res, pieriB(p, lam[1:], k, n), (1, 0, 0), lambda l: star(l, n + k))
        return res
    if len(lam) == n - k:
        add_into(res, pieriB(p, lam, k, n + 1), (1, 0, 0), lambda l: tilde(l, n - k + 1, n + k))
    if full:
        add_into(res, pieriB(p, lam[1:], k, n), (2, 0, 0), lambda l: star(l, n + k))
    return res


def qpieriD(p, lam, k, n):
    res = dict(pieriD(p, lam, k, n))
    full = bool(lam) and lam[0] == n + k
    if k == 0:
        if full:
            add_into(res, pieriD(p, lam[1:], k, n), (1, 0, 0), lambda l: star(l, n + k))
    elif k == 1:
        if len(clip(lam)) == n:
            S = Space('D', n, 2 * n + 2)
            lb = clip([x - 1 for x in clip(lam)])
            prd = pieriD(abs(p) - 1, lb, 0, n) if abs(p) > 1 else {(lb, Q0): 1}
            t = typD(lam, 1)

            def build(zero):
                def f(mu):
                    rest = [x for x in range(n, 0, -1) if x not in mu]
                    l = tuple([x + 1 for x in rest] + [1] * (n - len(rest)))
                    return dual(S, l + ((0,) if zero and 1 in l else ()))
                return f
            if t != 2 and p > 0:
                add_into(res, prd, (0, 1, 0), build(False))
            if t != 1 and (p == -1 or p > 1):
                add_into(res, prd, (0, 0, 1), build(True))
        if full:
            add_into(res, pieriD(p, lam[1:], k, n), (0, 1, 1), lambda l: star(l, n + k))
    else:
        if len(clip(lam)) == n + 1 - k:
            add_into(res, pieriD(p, lam, k, n + 1), (1, 0, 0),
                     lambda l: None if tilde(l, n - k + 2, n + k) is None else swapD(tilde(l, n - k + 2, n + k), k))
        if full:
            add_into(res, pieriD(p, lam[1:], k, n), (2, 0, 0), lambda l: star(l, n + k))
    return res


def pieri(S, p, lam):
    lam = tuple(lam)
    if S.T == 'A':
        return pieriA(p, lam, S.m, S.N)
    return {'B': pieriB, 'C': pieriC, 'D': pieriD}[S.T](p, lam, S.k, S.n)


def qpieri(S, p, lam):
    lam = tuple(lam)
    if S.T == 'A':
        return qpieriA(p, lam, S.m, S.N)
    return {'B': qpieriB, 'C': qpieriC, 'D': qpieriD}[S.T](p, lam, S.k, S.n)


# ---------------------------------------------------------------- index sets and duality
@lru_cache(None)
def _index_table(T, m, N):
    """Schubert symbols: class -> index set, from the dimension of the intersection with the flag.

    Built from the definition of the bijection for Schubert symbols
    (BKT, Section 4): order-theoretic, by counting."""
    S = Space(T, m, N)
    tab = {}
    for l in S.classes():
        tab[l] = _index(S, l)
    return tab


def _index(S, lam):
    k, n, m = S.k, S.n, S.m
    la = [row(lam, j) for j in range(m)]
    out = []
    for j in range(m):
        if S.T == 'A':
            out.append(k + j + 1 - la[j])
        elif S.T == 'C':
            out.append(n + k + 1 - la[j] + sum(1 for i in range(j) if la[i] + la[j] <= 2 * k + j - i))
        elif S.T == 'B':
            if la[j] > k:
                out.append(n + k + 1 - la[j])
            else:
                out.append(n + k + 2 - la[j] + sum(1 for i in range(j) if la[i] + la[j] <= 2 * k + j - i))
        else:
            c = sum(1 for i in range(j) if la[i] + la[j] <= 2 * k - 1 + j - i)
            v = n + k - la[j] + c
            if la[j] > k:
                v += 1
            elif la[j] == k and (j == 0 or la[j - 1] > k) and ((n + 1 + (1 if typD(lam, k) == 2 else 0) + j) % 2 == 1):
                v += 1
            else:
                v += 2
            out.append(v)
    return tuple(out)


def index_sets(T, m, N):
    """all Schubert symbols: m-subsets of 1..N without two elements of sum N+1 (and without the middle in type B)"""
    for c in itertools.combinations(range(1, N + 1), m):
        if T != 'A':
            s = set(c)
            if any(N + 1 - x in s for x in c):
                continue
        yield c


def dual_index(T, N, idx):
    r = [N + 1 - x for x in reversed(idx)]
    if T == 'D' and (N // 2) % 2 == 1:
        h = N // 2
        r = [h + 1 if x == h else h if x == h + 1 else x for x in r]
    return tuple(sorted(r))


def dual(S, lam):
    tab = _index_table(S.T, S.m, S.N)
    inv = {v: k for k, v in tab.items()}
    return inv[dual_index(S.T, S.N, tab[tuple(lam)])]


# ---------------------------------------------------------------- the ring
class Ring:
    """Structure constants from the oracle's Pieri operators only."""

    def __init__(self, S, quantum):
        self.S, self.quantum = S, quantum
        self.op = {}
        self.giam = {}

    def pieri(self, p, lam):
        key = (p, lam)
        if key not in self.op:
            self.op[key] = (qpieri if self.quantum else pieri)(self.S, p, lam)
        return self.op[key]

    def apply_pieri(self, p, x):
        res = {}
        for (l, q), c in x.items():
            for (l2, q2), c2 in self.pieri(p, l).items():
                key = (l2, tuple(a + b for a, b in zip(q, q2)))
                res[key] = res.get(key, 0) + c * c2
        return {a: b for a, b in res.items() if b}

    def act(self, lam, x):
        """S[lam] * x"""
        lam = tuple(lam)
        if lam == ():
            return dict(x)
        k = self.S.k
        two = self.S.T == 'D' and lam[-1] == 0
        p = lam[0]
        if two and p == k:
            p = -k
        rest = clip(lam[1:])
        if two and rest and k in rest:
            rest = rest + (0,)
        stuff = dict(self.pieri(p, rest))
        assert stuff.get((lam, Q0)) == 1, (self.S, lam, p, rest, stuff)
        del stuff[(lam, Q0)]
        res = self.apply_pieri(p, self.act(rest, x))
        for (l, q), c in stuff.items():
            for (l2, q2), c2 in self.act(l, x).items():
                key = (l2, tuple(a + b for a, b in zip(q, q2)))
                res[key] = res.get(key, 0) - c * c2
        return {a: b for a, b in res.items() if b}

    def mul(self, a, b):
        key = ('*', tuple(a), tuple(b))
        if key not in self.giam:
            self.giam[key] = self.act(tuple(a), {(tuple(b), Q0): 1})
        return self.giam[key]


# ---------------------------------------------------------------- Schur polynomials
def schur_poly(lam, n):
    """{exponent vector: number of semistandard tableaux}, by listing fillings row by row"""
    lam = clip(lam)
    res = {}
    if len(lam) > n:
        return {}

    def fill(i, above, cnt):
        if i == len(lam):
            res[tuple(cnt)] = res.get(tuple(cnt), 0) + 1
            return

        def row_fill(j, prev, cur, cnt2):
            if j == lam[i]:
                fill(i + 1, cur, cnt2)
                return
            lo = max(prev, (above[j] + 1) if above else 1)
            for v in range(lo, n + 1):
                c3 = list(cnt2)
                c3[v - 1] += 1
                row_fill(j + 1, v, cur + [v], c3)
        row_fill(0, 1, [], cnt)
    fill(0, None, [0] * n)
    return res

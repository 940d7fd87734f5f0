"""Names available to the source of a case."""
from real import *
from schubertpy.schur import toSchur, isSchur
from schubertpy.utils.mix import SchurPol
from schubertpy.lc import LinearCombination
from fractions import Fraction
import copy
import oracle


def exc(f):
    try:
        f()
    except Exception as e:
        return type(e).__name__
    return None


def fr(d):
    out = {}
    for k, v in d.items():
        v = Fraction(int(v.p), int(v.q)) if hasattr(v, 'p') else Fraction(v)
        if v:
            out[k] = int(v) if v.denominator == 1 else str(v)
    return out


def parse(s):
    """own reading of an expression text"""
    s = s.replace('^', '**')
    out = ''
    names = {}
    i = 0
    while i < len(s):
        if s[i] == 'S':
            depth, j = 0, i + 1
            while True:
                depth += {'[': 1, ']': -1}.get(s[j], 0)
                j += 1
                if depth == 0:
                    break
            nm = s[i:j].replace('[', 'f').replace(',', 'j').replace(']', 'g')
            names[nm] = sp.Symbol(nm)
            out += nm
            i = j
        else:
            out += s[i]
            i += 1
    names.update({x: sp.Symbol(x) for x in ('q', 'q1', 'q2')})
    return sp.sympify(eval(out, {}, names))


def same(a, b):
    ea = a.expr if isinstance(a, LinearCombination) else a
    eb = b.expr if isinstance(b, LinearCombination) else b
    return sp.expand(sp.sympify(ea) - sp.sympify(eb)) == 0


def poly_symbols(lc):
    out = []
    for s in sorted(sp.expand(lc.expr).free_symbols, key=str):
        p = sym_part(str(s))
        out.append(txt(p) if p is not None else str(s))
    return out


def eval_special(S, quantum, lc):
    """evaluate a polynomial in special classes with the oracle's Pieri operators, on S[]"""
    R = oracle.Ring(S, quantum)
    x = sp.expand(lc.expr)
    res = {}
    for t in sp.Add.make_args(x):
        if t == 0:
            continue
        c, rest = t.as_coeff_mul()
        q = [0, 0, 0]
        cur = {((), (0, 0, 0)): int(c)}
        assert c.is_Integer
        for f in rest:
            b, e = f.as_base_exp()
            if b.name in ('q', 'q1', 'q2'):
                q[('q', 'q1', 'q2').index(b.name)] += int(e)
                continue
            part = sym_part(b.name)
            p = part[0] if len(part) == 1 else -part[0]
            for _ in range(int(e)):
                cur = R.apply_pieri(p, cur)
        oracle.add_into(res, cur, tuple(q))
    return {k: v for k, v in res.items() if v}


def is_class(T, m, N, l):
    S = oracle.Space(T, m, N)
    body = l[:-1] if T == 'D' and len(l) > 1 and l[-1] == 0 else l
    cols = S.k if T == 'A' else S.n + S.k
    return (len(body) <= S.m and all(0 < x <= cols for x in body) and list(body) == sorted(body, reverse=True)
            and (T == 'A' or oracle.is_kstrict(body, S.k)) and (body == l or (S.k > 0 and S.k in body)))


def homog(lc, classes, d, deg, classical=False):
    """every class known (a set of classes, or the space as a triple), every degree deg"""
    for (l, q), c in todict(lc).items():
        if (l not in classes if isinstance(classes, (set, frozenset)) else not is_class(*classes, tuple(l))) or sum(l) + d * sum(q) != deg or (classical and sum(q)):
            return (l, q, c)
    return True


def expansion(e):
    """the expansion as a dict, and whether it is sorted and without repetition"""
    if isinstance(e, tuple):
        e = [e]
    d = {}
    ok = True
    last = None
    for c, part in e:
        part = list(part)
        if last is not None and part < last:
            ok = False
        last = part
        for (k, q), v in todict(c if isinstance(c, LinearCombination) else LinearCombination(c), allow_const=True).items():
            if k != 'const':
                ok = False
            key = (tuple(part), q)
            if key in d:
                ok = False
            d[key] = d.get(key, 0) + v
    return d, ok


def poly_dict(p, n):
    xs = [sp.Symbol(f'x_{i}') for i in range(1, n + 1)]
    p = sp.Poly(p.as_expr(), *xs)
    return {tuple(m): int(c) for m, c in p.terms() if c}


def text_dict(s, n):
    xs = {f'x{i}': sp.Symbol(f'x_{i}') for i in range(1, n + 1)}
    return poly_dict(sp.Poly(eval(s.replace('^', '**'), {}, xs), *xs.values()), n)


def hooks_ok(l, rim, grid):
    """the answer of remove_rim_hooks is a partition in the grid, the right amount smaller, reached by removing rim hooks"""
    p = Partition(list(l))
    x, cnt, height = p.remove_rim_hooks(rim_size=rim, acceptable_grid=grid)
    if p.partition != list(l):
        return 'argument changed'
    if cnt == 0:
        # nothing removed: must really be impossible (no sequence of removals ends in the grid)
        part = tuple(x.partition) if x != 0 else ()
        todo, seen = [tuple(l)], set()
        while todo:
            y = todo.pop()
            for z in removals(y, rim):
                if z[0] not in seen:
                    seen.add(z[0])
                    if len(z[0]) <= grid[0] and (not z[0] or z[0][0] <= grid[1]):
                        return f'possible: {z[0]}'
                    todo.append(z[0])
        return True
    part = tuple(x.partition)
    if len(part) > grid[0] or (part and part[0] > grid[1]) or 0 in part or list(part) != sorted(part, reverse=True):
        return f'not in grid: {part}'
    if sum(part) != sum(l) - cnt * rim:
        return 'size'
    # reachable by cnt removals with that total height (up to the sign's parity)
    cur = {(tuple(l), 0)}
    for _ in range(cnt):
        cur = {(z, h + dh) for (y, h) in cur for z, dh in removals(y, rim)}
    return any(z == part and (h - height) % 2 == 0 for z, h in cur) or f'not reached: {part} {cnt} {height}'


def removals(l, rim):
    """all ways of removing one rim hook: (partition, number of rows)"""
    n = len(l)
    beads = [l[i] + n - 1 - i for i in range(n)]
    for b in beads:
        t = b - rim
        if t >= 0 and t not in beads:
            nb = sorted([x for x in beads if x != b] + [t], reverse=True)
            part = [nb[i] - (n - 1 - i) for i in range(n)]
            while part and part[-1] == 0:
                part.pop()
            yield tuple(part), 1 + sum(1 for x in beads if t < x < b)


class History:
    def __init__(self):
        self.spaces = {}
        self.args = []
        self.snap = {}

    def space(self, T, m, N, fresh):
        key = (T, m, N)
        if fresh or key not in self.spaces:
            g = CLS[T](m, N)
            self.spaces[key] = g
            self.snap.setdefault(key, []).append((g, (g._type, g._k, g._n, g.get_type_data())))
        return self.spaces[key]

    def arg(self, x):
        self.args.append((x, str(x), list(x.p) if isinstance(x, Schur) else x.expr if isinstance(x, LinearCombination) else list(x)))
        return x

    def unchanged(self):
        for x, s, v in self.args:
            now = list(x.p) if isinstance(x, Schur) else x.expr if isinstance(x, LinearCombination) else list(x)
            if str(x) != s or now != v:
                return f'argument changed: {s} -> {x}'
        for l in self.snap.values():
            for g, t in l:
                if (g._type, g._k, g._n, g.get_type_data()) != t:
                    return f'space changed: {t[3]} -> {g.get_type_data()}'
        return True

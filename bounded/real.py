"""Access to the real code in /repo, and reading its answers without its own parsers."""
import os, sys, ast
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
import sympy as sp
import schubertpy
assert os.path.realpath(os.path.dirname(schubertpy.__file__)) == os.path.realpath(os.path.join(REPO, 'schubertpy')), schubertpy.__file__
from schubertpy import (Grassmannian, IsotropicGrassmannian, OrthogonalGrassmannian, LinearCombination,
                        Schur, Partition, MultTable, QMultTable)

CLS = {'A': Grassmannian, 'B': OrthogonalGrassmannian, 'C': IsotropicGrassmannian, 'D': OrthogonalGrassmannian}


def make(S):
    return CLS[S.T](S.m, S.N)


def txt(lam):
    return 'S[' + ','.join(str(x) if not isinstance(x, (list, tuple)) else '[' + ','.join(map(str, x)) + ']' for x in lam) + ']'


def sym_part(name):
    """partition behind the name of a symbol, or None"""
    if not name.startswith('S'):
        return None
    s = name[1:].replace('f', '[').replace('j', ',').replace('g', ']')
    v = ast.literal_eval(s)
    return tuple(tuple(x) if isinstance(x, list) else x for x in v)


def todict(x, allow_const=False):
    """the linear combination as {(partition, (q,q1,q2)): coefficient}"""
    if isinstance(x, Schur):
        return {(tuple(tuple(y) if isinstance(y, list) else y for y in x.p), (0, 0, 0)): 1}
    if isinstance(x, LinearCombination):
        x = x.expr
    x = sp.expand(sp.sympify(x))
    res = {}
    for t in sp.Add.make_args(x):
        if t == 0:
            continue
        c, rest = t.as_coeff_mul()
        part = None
        q = [0, 0, 0]
        for f in rest:
            b, e = f.as_base_exp()
            if not (b.is_Symbol and e.is_Integer and e > 0):
                raise ValueError(f"not a linear combination: {t}")
            if b.name in ('q', 'q1', 'q2'):
                q[('q', 'q1', 'q2').index(b.name)] += int(e)
            else:
                p = sym_part(b.name)
                if p is None or part is not None or e != 1:
                    raise ValueError(f"not a linear combination: {t}")
                part = p
        if part is None:
            if not allow_const:
                raise ValueError(f"term without a class: {t}")
            part = 'const'
        key = (part, tuple(q))
        c = int(c) if c.is_Integer else c
        res[key] = res.get(key, 0) + c
    return res


def todict_poly(x):
    """any polynomial in classes and q's as {frozenset of (symbol, exponent): coefficient}"""
    if isinstance(x, LinearCombination):
        x = x.expr
    x = sp.expand(sp.sympify(x))
    res = {}
    for t in sp.Add.make_args(x):
        if t == 0:
            continue
        c, rest = t.as_coeff_mul()
        res[frozenset(f.as_base_exp() for f in rest)] = c
    return res


def show(d):
    return ' + '.join(f"{c}*q^{q}*{txt(l) if l != 'const' else 1}" for (l, q), c in sorted(d.items(), key=str)) or '0'

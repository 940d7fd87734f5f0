"""memo.py - contract of the memo wrappers (schubertpy/utils/hash.py), decided by Verus.

The decorator is applied, symbolically, to an arbitrary function `func`; the wrapper it returns is
called with arbitrary positional arguments `args` and keyword arguments `kwargs`.  The body that
runs is turned into Verus text (a proof function: the code is a pure expression over args and
kwargs) on every run, from the current source.

    requires  args[0] is no list, for the method wrapper (it is the object)
    ensures   result == ans(func, tupled(args), tupled(kwargs))

where tupled turns every list into the tuple of its entries.  The call of the lru_cache object is
replaced by its contract (assumed): its arguments are not lists (obligation: they are hashable), and
it returns ans(func, its arguments), the answer of func for these arguments.  That an answer belongs
to the arguments alone is what the frame obligations (frames.py) establish.
"""
import ast, os, json
import prove

PATH = 'schubertpy/utils/hash.py'


class No(Exception):
    pass


HEAD = '''use vstd::prelude::*;
verus! {
pub enum Val { List(Seq<Val>), Tup(Seq<Val>), Other(int) }
pub uninterp spec fn ans(f: int, a: Seq<Val>, k: Map<int, Val>) -> Val;
pub uninterp spec fn tuple_of(x: int) -> Seq<Val>;
pub open spec fn tupled(v: Val) -> Val { if v is List { Val::Tup(v->List_0) } else { v } }
pub open spec fn tupled_args(a: Seq<Val>) -> Seq<Val> { a.map_values(|v: Val| tupled(v)) }
pub open spec fn tupled_map(m: Map<int, Val>) -> Map<int, Val> { m.map_values(|v: Val| tupled(v)) }
pub open spec fn entries(v: Val) -> Seq<Val> { match v { Val::List(s) => s, Val::Tup(s) => s, Val::Other(x) => tuple_of(x) } }
pub open spec fn keyable(a: Seq<Val>, k: Map<int, Val>) -> bool {
    (forall|i: int| 0 <= i < a.len() ==> !(#[trigger] a[i] is List)) && (forall|x: int| k.contains_key(x) ==> !(#[trigger] k[x] is List))
}
// contract of the object functools.lru_cache(...)(f) (assumed)
#[verifier::external_body]
pub proof fn cached_call(f: int, a: Seq<Val>, k: Map<int, Val>) -> (r: Val)
    requires keyable(a, k)
    ensures r == ans(f, a, k)
{ unimplemented!() }
// a list and the equal tuple are treated alike: the answer depends on the tupled arguments only
pub proof fn lemma_alike(f: int, a: Seq<Val>, b: Seq<Val>, k: Map<int, Val>, i: int, s: Seq<Val>)
    requires 0 <= i < a.len(), a[i] == Val::List(s), b == a.update(i, Val::Tup(s))
    ensures ans(f, tupled_args(a), tupled_map(k)) == ans(f, tupled_args(b), tupled_map(k))
{
    assert(tupled_args(a) =~= tupled_args(b));
}
'''


class Closure:
    def __init__(self, node, env):
        self.node, self.env = node, env


class Ev:
    """values: ('val', text) ('seq', text) ('map', text) ('bool', text) ('int', text) ('ret', tree) ('fn', text)
    ('cached', fn) ('lru',) ('lru2',) ('none',) ('opaque',) or a Closure; a tree is ('if', c, a, b) | ('call', f, A, K) | ('val', text)"""

    def __init__(self, module):
        self.n = 0
        self.genv = {}
        for s in module.body:
            if isinstance(s, ast.FunctionDef):
                self.genv[s.name] = Closure(s, self.genv)
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    self.genv[a.asname or a.name] = ('lru',) if a.name == 'lru_cache' else ('wraps',) if a.name == 'wraps' else ('opaque',)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    self.genv[a.asname or a.name] = ('functools',) if a.name == 'functools' else ('opaque',)
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Constant):
                self.genv[s.targets[0].id] = ('opaque',)

    def fresh(self):
        self.n += 1
        return f'v{self.n}'

    # ---- functions
    def apply(self, f, args, kw):
        if isinstance(f, Closure):
            a = f.node.args
            env = {}
            if isinstance(args, tuple):        # (seq text, map text): a call f(*args, **kwargs)
                if a.args or not a.vararg or not a.kwarg:
                    names = [x.arg for x in a.args]
                    # def wrapper(self, *args, **kwargs): the first arguments have names
                    if not a.vararg or not a.kwarg:
                        raise No('a wrapper without *args, **kwargs')
                    for i, x in enumerate(names):
                        env[x] = ('val', f'{args[0]}[{i}]')
                    self.need = max(getattr(self, 'need', 0), len(names))
                    env[a.vararg.arg] = ('seq', f'{args[0]}.subrange({len(names)}, {args[0]}.len() as int)')
                else:
                    env[a.vararg.arg] = ('seq', args[0])
                env[a.kwarg.arg] = ('map', args[1])
            else:
                names = [x.arg for x in a.args]
                for x, d in zip(names[len(names) - len(a.defaults):], a.defaults):
                    env[x] = ('opaque',)
                for x, v in zip(names, args):
                    env[x] = v
                for k, v in kw.items():
                    if k not in names:
                        raise No(f'argument {k}')
                    env[k] = v
                if len(args) > len(names) or any(x not in env for x in names) or a.vararg or a.kwarg:
                    raise No('arguments of a helper')
            env['__up__'] = f.env
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, env)
            r = self.block(f.node.body, env)
            return r if r is not None else ('none',)
        if f == ('lru',):
            if set(kw) - {'maxsize', 'typed'} or len(args) > 2:
                raise No('arguments of lru_cache')
            if len(args) == 1 and args[0][0] == 'fn' if not isinstance(args[0] if args else None, Closure) else False:
                return ('cached', args[0][1])
            return ('lru2',)
        if f == ('lru2',):
            if len(args) == 1 and not isinstance(args[0], Closure) and args[0][0] == 'fn':
                return ('cached', args[0][1])
            raise No('lru_cache of something else than the decorated function')
        raise No(f'call of {f}')

    def look(self, n, env):
        while env is not None:
            if n in env:
                return env[n]
            env = env.get('__up__')
        if n in self.genv:
            return self.genv[n]
        if n in ('tuple', 'list', 'dict', 'isinstance', 'len', 'type', 'map', 'zip', 'bool', 'any', 'all'):
            return ('builtin', n)
        raise No(f'name {n}')

    # ---- statements: returns the value returned, or None when control goes on
    def block(self, body, env):
        for i, s in enumerate(body):
            if isinstance(s, (ast.Pass,)) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            if isinstance(s, ast.FunctionDef):
                for d in s.decorator_list:
                    f = d.func if isinstance(d, ast.Call) else d
                    if not (isinstance(f, ast.Name) and self.look(f.id, env) == ('wraps',) or isinstance(f, ast.Attribute) and f.attr == 'wraps'):
                        raise No(f'decorator {ast.unparse(d)}')
                env[s.name] = Closure(s, env)
                continue
            if isinstance(s, (ast.Assign, ast.AnnAssign)):
                t = s.targets if isinstance(s, ast.Assign) else [s.target]
                if s.value is None:
                    continue
                for x in t:
                    self.bind(x, self.ev(s.value, env), env)
                continue
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.op, ast.Add):
                env[s.target.id] = self.ev(ast.copy_location(ast.BinOp(ast.Name(s.target.id, ast.Load()), ast.Add(), s.value), s), env)
                continue
            if isinstance(s, ast.Expr):
                if self.append(s.value, env):
                    continue
                self.ev(s.value, env)
                continue
            if isinstance(s, ast.Return):
                return self.ev(s.value, env) if s.value else ('none',)
            if isinstance(s, ast.If):
                c = self.cond(s.test, env)
                a, b = dict(env), dict(env)
                rest = body[i + 1:]
                ra = self.block(list(s.body) + ([] if False else []), a)
                rb = self.block(s.orelse, b)
                if ra is None and rb is None:
                    for k in set(a) | set(b):
                        if k == '__up__':
                            continue
                        x, y = a.get(k), b.get(k)
                        if x is None or y is None:
                            env.pop(k, None)
                            continue
                        env[k] = self.merge(c, x, y)
                    continue
                if ra is None:
                    ra = self.block(rest, a)
                if rb is None:
                    rb = self.block(rest, b)
                return self.merge(c, ra or ('none',), rb or ('none',))
            if isinstance(s, ast.For):
                self.loop(s, env)
                continue
            raise No(f'line {s.lineno}: statement {type(s).__name__}')
        return None

    def append(self, e, env):
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'append' and isinstance(e.func.value, ast.Name) and len(e.args) == 1:
            n = e.func.value.id
            x = self.look(n, env)
            if x[0] == 'seq':
                env[n] = ('seq', f'{x[1]}.push({self.val(self.ev(e.args[0], env))})')
                return True
        return False

    def loop(self, s, env):
        """for v in SEQ: exactly one out.append(E) on every way  ->  out + SEQ.map(v -> E);
        for k, v in M.items(): out[k] = E -> out is M with E for v"""
        if s.orelse:
            raise No('for else')
        if isinstance(s.target, ast.Name):
            it = self.ev(s.iter, env)
            if it[0] != 'seq':
                raise No('loop over something else than the arguments')
            v = self.fresh()
            b = dict(env)
            b[s.target.id] = ('val', v)
            out = {k: x for k, x in env.items() if isinstance(x, tuple) and x[0] == 'seq'}
            mark = {}
            for k in out:
                b[k] = ('seq', f'@{k}@')
            if self.block(s.body, b) is not None:
                raise No('return in a loop')
            done = 0
            for k in out:
                if b[k] != ('seq', f'@{k}@'):
                    if done:
                        raise No('two lists are filled')
                    done = 1
                    env[k] = ('seq', f'({env[k][1]} + {it[1]}.map_values(|{v}: Val| {self.one(b[k][1], k)}))')
            return
        if isinstance(s.target, ast.Tuple) and len(s.target.elts) == 2 and all(isinstance(x, ast.Name) for x in s.target.elts) and \
                isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Attribute) and s.iter.func.attr == 'items':
            m = self.ev(s.iter.func.value, env)
            if m[0] != 'map':
                raise No('items of something else')
            kn, vn = (x.id for x in s.target.elts)
            v = self.fresh()
            b = dict(env)
            b[kn], b[vn] = ('key', kn), ('val', v)
            name, e = self.store(s.body, b, kn)
            if env.get(name) != ('map', 'Map::<int, Val>::empty()'):
                raise No('the dictionary that is filled is not empty before the loop')
            env[name] = ('map', f'{m[1]}.map_values(|{v}: Val| {e})')
            return
        raise No('loop')

    def store(self, body, env, kn):
        """the one out[k] = E that body does on every way: (out, text of E)"""
        for i, s in enumerate(body):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Subscript) and isinstance(s.targets[0].value, ast.Name) and \
                    isinstance(s.targets[0].slice, ast.Name) and s.targets[0].slice.id == kn and i == len(body) - 1:
                return s.targets[0].value.id, self.val(self.ev(s.value, env))
            if isinstance(s, ast.If) and i == len(body) - 1 and s.orelse:
                c = self.cond(s.test, env)
                (a, x), (b, y) = self.store(s.body, dict(env), kn), self.store(s.orelse, dict(env), kn)
                if a != b:
                    raise No('two dictionaries')
                return a, f'(if {c} {{ {x} }} else {{ {y} }})'
            if self.block([s], env) is not None:
                raise No('return in a loop')
        raise No('loop over items')

    def one(self, t, k):
        """text of the value appended, from the text of the list after one round"""
        t = t.strip()
        m = f'@{k}@.push('
        if t.startswith(m) and t.endswith(')') and f'@{k}@' not in t[len(m):]:
            return t[len(m):-1]
        if t.startswith('(if '):
            d = self.trees.get(t)
            if d:
                return f'(if {d[0]} {{ {self.one(d[1], k)} }} else {{ {self.one(d[2], k)} }})'
        raise No('loop body')

    trees = {}

    def merge(self, c, x, y):
        if x == y:
            return x
        if isinstance(x, Closure) or isinstance(y, Closure):
            raise No('a function chosen by a condition')
        if 'ret' in (x[0], y[0]):
            return ('ret', ('if', c, self.tree(x), self.tree(y)))
        if x[0] != y[0] or x[0] not in ('val', 'seq', 'map', 'bool', 'int'):
            raise No(f'{x[0]} or {y[0]}')
        t = f'(if {c} {{ {x[1]} }} else {{ {y[1]} }})'
        self.trees[t] = (c, x[1], y[1])
        return (x[0], t)

    def tree(self, v):
        if v[0] == 'ret':
            return v[1]
        if v[0] == 'val':
            return ('val', v[1])
        raise No(f'the wrapper returns {v[0]}')

    def bind(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, ast.Tuple) and v[0] == 'seq':
            n = len(t.elts)
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    if i != n - 1:
                        raise No('starred target')
                    self.bind(e.value, ('seq', f'{v[1]}.subrange({i}, {v[1]}.len() as int)'), env)
                else:
                    self.bind(e, ('val', f'{v[1]}[{i}]'), env)
        else:
            raise No('assignment target')

    # ---- expressions
    def val(self, v):
        if isinstance(v, tuple) and v[0] == 'val':
            return v[1]
        raise No(f'a value is expected, not {v[0] if isinstance(v, tuple) else "a function"}')

    def cond(self, e, env):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return f'!({self.cond(e.operand, env)})'
        if isinstance(e, ast.BoolOp):
            return '(' + (' && ' if isinstance(e.op, ast.And) else ' || ').join(f'({self.cond(x, env)})' for x in e.values) + ')'
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'isinstance' and len(e.args) == 2:
            x = self.val(self.ev(e.args[0], env))
            ts = e.args[1].elts if isinstance(e.args[1], ast.Tuple) else [e.args[1]]
            out = []
            for t in ts:
                if not isinstance(t, ast.Name) or t.id not in ('list', 'tuple'):
                    raise No(f'isinstance {ast.unparse(t)}')
                out.append(f'({x}) is {"List" if t.id == "list" else "Tup"}')
            return '(' + ' || '.join(out) + ')'
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            l, r = e.left, e.comparators[0]
            if isinstance(l, ast.Call) and isinstance(l.func, ast.Name) and l.func.id == 'type' and isinstance(r, ast.Name) and r.id in ('list', 'tuple') and isinstance(e.ops[0], (ast.Is, ast.Eq, ast.IsNot, ast.NotEq)):
                t = f'(({self.val(self.ev(l.args[0], env))}) is {"List" if r.id == "list" else "Tup"})'
                return t if isinstance(e.ops[0], (ast.Is, ast.Eq)) else '!' + t
            a, b = self.ev(l, env), self.ev(r, env)
            if a[0] == b[0] == 'int':
                op = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!='}.get(type(e.ops[0]))
                if op:
                    return f'({a[1]} {op} {b[1]})'
            raise No(f'comparison {ast.unparse(e)}')
        if isinstance(e, ast.Constant) and isinstance(e.value, bool):
            return 'true' if e.value else 'false'
        v = self.ev(e, env)
        if isinstance(v, tuple) and v[0] == 'seq':
            return f'({v[1]}.len() > 0)'
        if isinstance(v, tuple) and v[0] == 'map':
            return f'({v[1]} != Map::<int, Val>::empty())'
        if isinstance(v, tuple) and v[0] == 'bool':
            return v[1]
        raise No(f'condition {ast.unparse(e)}')

    def comp(self, e, env):
        if len(e.generators) != 1:
            raise No('comprehension')
        g = e.generators[0]
        if g.ifs:
            raise No('comprehension with a condition')
        if not isinstance(g.target, ast.Name):
            raise No('comprehension')
        it = self.ev(g.iter, env)
        if it[0] != 'seq':
            raise No('comprehension over something else than the arguments')
        v = self.fresh()
        b = dict(env)
        b[g.target.id] = ('val', v)
        return ('seq', f'{it[1]}.map_values(|{v}: Val| {self.val(self.ev(e.elt, b))})')

    def pairs(self, target, key, value, it, env):
        if not (isinstance(target, ast.Tuple) and len(target.elts) == 2 and isinstance(key, ast.Name) and isinstance(target.elts[0], ast.Name) and key.id == target.elts[0].id and isinstance(target.elts[1], ast.Name)):
            raise No('the keys are changed')
        if not (isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == 'items'):
            raise No('items')
        m = self.ev(it.func.value, env)
        if m[0] != 'map':
            raise No('items of something else')
        v = self.fresh()
        b = dict(env)
        b[target.elts[0].id], b[target.elts[1].id] = ('key', ''), ('val', v)
        return ('map', f'{m[1]}.map_values(|{v}: Val| {self.val(self.ev(value, b))})')

    def ev(self, e, env):
        if isinstance(e, ast.Name):
            return self.look(e.id, env)
        if isinstance(e, ast.Constant):
            if isinstance(e.value, int) and not isinstance(e.value, bool):
                return ('int', str(e.value))
            return ('none',) if e.value is None else ('opaque',)
        if isinstance(e, ast.Lambda):
            return Closure(e, env)
        if isinstance(e, (ast.GeneratorExp, ast.ListComp)):
            return self.comp(e, env)
        if isinstance(e, ast.DictComp):
            if len(e.generators) != 1 or e.generators[0].ifs:
                raise No('comprehension')
            return self.pairs(e.generators[0].target, e.key, e.value, e.generators[0].iter, env)
        if isinstance(e, ast.Dict) and not e.keys:
            return ('map', 'Map::<int, Val>::empty()')
        if isinstance(e, ast.Dict) and e.keys == [None]:
            return self.ev(e.values[0], env)
        if isinstance(e, (ast.Tuple, ast.List)):
            out = 'Seq::<Val>::empty()'
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    v = self.ev(x.value, env)
                    if v[0] != 'seq':
                        raise No('starred')
                    out = f'({out} + {v[1]})'
                else:
                    out = f'{out}.push({self.val(self.ev(x, env))})'
            return ('seq', out)
        if isinstance(e, ast.IfExp):
            return self.merge(self.cond(e.test, env), self.ev(e.body, env), self.ev(e.orelse, env))
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            a, b = self.ev(e.left, env), self.ev(e.right, env)
            if a[0] == b[0] == 'seq':
                return ('seq', f'({a[1]} + {b[1]})')
            raise No('sum')
        if isinstance(e, ast.Subscript):
            v = self.ev(e.value, env)
            if v[0] != 'seq':
                raise No(f'subscript {ast.unparse(e)}')
            if isinstance(e.slice, ast.Slice):
                if e.slice.step:
                    raise No('step')
                lo = self.num(e.slice.lower, env, '0')
                hi = self.num(e.slice.upper, env, f'{v[1]}.len() as int')
                if lo == '0':
                    return ('seq', f'{v[1]}.subrange(0, if {hi} < {v[1]}.len() {{ {hi} }} else {{ {v[1]}.len() as int }})')
                return ('seq', f'(if {lo} <= {v[1]}.len() {{ {v[1]}.subrange({lo}, {hi}) }} else {{ Seq::<Val>::empty() }})')
            return ('val', f'{v[1]}[{self.num(e.slice, env, "0")}]')
        if isinstance(e, ast.Attribute):
            v = self.ev(e.value, env)
            if v == ('functools',) and e.attr in ('lru_cache', 'wraps'):
                return ('lru',) if e.attr == 'lru_cache' else ('wraps',)
            raise No(f'attribute {ast.unparse(e)}')
        if isinstance(e, ast.Call):
            return self.call(e, env)
        raise No(f'expression {ast.unparse(e)}')

    def num(self, e, env, default):
        if e is None:
            return default
        v = self.ev(e, env)
        if v[0] != 'int':
            raise No('index')
        return v[1]

    def call(self, e, env):
        if isinstance(e.func, ast.Name):
            f = self.look(e.func.id, env)
        else:
            f = self.ev(e.func, env)
        if isinstance(f, tuple) and f[0] == 'builtin':
            n = f[1]
            if n in ('tuple', 'list') and len(e.args) <= 1 and not e.keywords:
                if not e.args:
                    return ('seq', 'Seq::<Val>::empty()')
                v = self.ev(e.args[0], env)
                if v[0] == 'seq':
                    return v
                return ('val', f'Val::{"Tup" if n == "tuple" else "List"}(entries({self.val(v)}))')
            if n == 'dict' and len(e.args) == 1 and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)) and isinstance(e.args[0].elt, ast.Tuple) and len(e.args[0].elt.elts) == 2 and not e.args[0].generators[0].ifs:
                g = e.args[0]
                return self.pairs(g.generators[0].target, g.elt.elts[0], g.elt.elts[1], g.generators[0].iter, env)
            if n == 'dict' and not e.args and not e.keywords:
                return ('map', 'Map::<int, Val>::empty()')
            if n == 'dict' and len(e.args) == 1:
                v = self.ev(e.args[0], env)
                if v[0] == 'map':
                    return v
            if n == 'len' and len(e.args) == 1:
                v = self.ev(e.args[0], env)
                if v[0] == 'seq':
                    return ('int', f'({v[1]}.len() as int)')
            if n == 'map' and len(e.args) == 2:
                g, it = self.ev(e.args[0], env), self.ev(e.args[1], env)
                if isinstance(g, Closure) and it[0] == 'seq':
                    v = self.fresh()
                    return ('seq', f'{it[1]}.map_values(|{v}: Val| {self.val(self.apply(g, [("val", v)], {}))})')
            if n in ('isinstance', 'bool'):
                return ('bool', self.cond(e if n == 'isinstance' else e.args[0], env))
            raise No(f'call {ast.unparse(e)}')
        stars = [a for a in e.args if isinstance(a, ast.Starred)]
        dstar = [k for k in e.keywords if k.arg is None]
        if isinstance(f, tuple) and f[0] in ('cached', 'fn') or isinstance(f, Closure) and (stars or dstar):
            if any(k.arg is not None for k in e.keywords) or len(dstar) > 1:
                raise No('keywords of the cached call')
            A = self.ev(ast.Tuple(e.args, ast.Load()), env)[1]
            K = self.ev(dstar[0].value, env) if dstar else ('map', 'Map::<int, Val>::empty()')
            if K[0] != 'map':
                raise No('keywords of the cached call')
            if isinstance(f, Closure):
                return self.apply(f, (A, K[1]), {})
            return ('ret', ('call' if f[0] == 'cached' else 'direct', f[1], A, K[1]))
        args = [self.ev(a, env) for a in e.args]
        return self.apply(f, args, {k.arg: self.ev(k.value, env) for k in e.keywords})

    def emit(self, t, ind='    '):
        if t[0] == 'if':
            return f'{ind}if {t[1]} {{\n{self.emit(t[2], ind + "    ")}\n{ind}}} else {{\n{self.emit(t[3], ind + "    ")}\n{ind}}}'
        if t[0] == 'call':
            return (f'{ind}let a_: Seq<Val> = {t[2]};\n{ind}let k_: Map<int, Val> = {t[3]};\n{ind}assert(a_ =~= tupled_args(args));\n{ind}assert(k_ =~= tupled_map(kwargs));\n'
                    f'{ind}assert forall|i: int| 0 <= i < a_.len() implies !(#[trigger] a_[i] is List) by {{ assert(a_[i] == tupled(args[i])); }}\n'
                    f'{ind}assert forall|x: int| k_.contains_key(x) implies !(#[trigger] k_[x] is List) by {{ assert(k_[x] == tupled(kwargs[x])); }}\n'
                    f'{ind}cached_call({t[1]}, a_, k_)')
        if t[0] == 'direct':
            return f'{ind}let a_: Seq<Val> = {t[2]};\n{ind}let k_: Map<int, Val> = {t[3]};\n{ind}assert(a_ =~= tupled_args(args));\n{ind}assert(k_ =~= tupled_map(kwargs));\n{ind}ans({t[1]}, a_, k_)'
        return f'{ind}{t[1]}'


NAMES = ('hashable_lru_cache', 'hashable_lru_cache_method')
OBL = ['the cached call gets the tupled arguments in order', 'the cached call gets the tupled keyword arguments', 'no list reaches the key (hashable)', 'the result is the answer for the tupled arguments']


def prove_memo(repo, workdir):
    """-> result dictionary like prove.prove"""
    os.makedirs(workdir, exist_ok=True)
    f = os.path.join(workdir, 'memo.rs')
    failures, text, notes = [], HEAD, {}
    try:
        module = ast.parse(open(os.path.join(repo, PATH)).read())
    except (OSError, SyntaxError) as e:
        module = None
        failures.append(dict(function=PATH, obligation='the memo wrappers can be read', detail=str(e), line=''))
    done = []
    for n in NAMES if module else ():
        key = f'{PATH}::{n}'
        try:
            ev = Ev(module)
            c = ev.genv.get(n)
            if not isinstance(c, Closure):
                raise No('no such function')
            d = ev.apply(c, [], {'maxsize': ('opaque',), 'typed': ('opaque',)}) if {'maxsize', 'typed'} <= {x.arg for x in c.node.args.args} else ev.apply(c, [], {})
            w = ev.apply(d, [('fn', 'func')], {})
            if isinstance(w, Closure):
                r = ev.apply(w, ('args', 'kwargs'), {})
            elif w[0] == 'cached':
                r = ('ret', ('call', w[1], 'args', 'kwargs'))
            else:
                raise No('the decorator returns no function')
            tree = ev.tree(r)
        except No as e:
            failures.append(dict(function=key, obligation=f'{key}: the body is within the verified subset', detail=f'outside the subset: {e}', line=''))
            continue
        req = ['args.len() > 0 ==> !(args[0] is List)'] if n.endswith('_method') else []
        if getattr(ev, 'need', 0):
            req.append(f'args.len() >= {ev.need}')
        start = text.count('\n') + 1
        text += f'// {key}: the wrapper, applied to an arbitrary func and arguments\npub proof fn py_{n}(func: int, args: Seq<Val>, kwargs: Map<int, Val>) -> (r: Val)\n' + \
            (f'    requires {", ".join(req)}\n' if req else '') + '    ensures r == ans(func, tupled_args(args), tupled_map(kwargs))\n{\n' + ev.emit(tree) + '\n}\n'
        done.append((key, f'py_{n}', start, text.count('\n') + 1))
    text += '} // verus!\nfn main() {}\n'
    open(f, 'w').write(text)
    res, errs, dt, raw, cmd = prove.run_verus(f, timeout=200)
    vr = (res or {}).get('verification-results')
    infra = None
    if vr is None or vr.get('encountered-vir-error') is not False or errs and not (vr.get('verified', 0) + vr.get('errors', 0)):
        infra = 'verus gave no result: ' + '; '.join(e['message'] for e in errs[:3])
    tl = text.splitlines()
    for e in errs:
        if e['message'].startswith('aborting due'):
            continue
        line = next((s['line_start'] for s in e.get('spans', []) if s.get('is_primary')), 0)
        key = next((k for k, _, a, b in done if a <= line <= b), None)
        if key is None:
            key = next((k for k, _, a, b in done if any(a <= s['line_start'] <= b for s in e.get('spans', []))), '?')
        lt = tl[line - 1].strip() if line else ''
        o = OBL[0] if 'tupled_args(args));' in lt and 'ensures' not in lt else OBL[1] if 'tupled_map(kwargs));' in lt else OBL[3] if 'postcondition' in e['message'] else OBL[2]
        failures.append(dict(function=key, obligation=f'{key}: {o}', detail=e['message'], line=lt[:300], rendered=e.get('rendered', '')[:1500]))
    fd = {}
    try:
        for mod in res['times-ms']['smt']['smt-run-module-times']:
            for fb in mod.get('function-breakdown', []):
                fd[fb['function'].split('::')[-1]] = fb
    except (KeyError, TypeError):
        pass
    funcs, n, ok = [], 0, 0
    for key, py, _, _ in done:
        good = not any(x['function'] in (key, '?') for x in failures) and not infra
        b = len({x['obligation'] for x in failures if x['function'] == key})
        n += len(OBL)
        ok += len(OBL) if good else max(0, len(OBL) - max(1, b))
        funcs.append(dict(function=key, unit='memo', obligations=len(OBL), verified=good, time_ms=fd.get(py, {}).get('time-micros', 0) / 1000.0, rlimit=fd.get(py, {}).get('rlimit', 0)))
    n += len(NAMES) - len(done)
    lem = 1
    return {'units': ['memo'], 'functions': funcs, 'lemmas': lem, 'lemmas_verified': 0 if infra else lem, 'obligations': n + lem, 'discharged': ok + (0 if infra else lem), 'failures': failures, 'infra': infra,
            'solver_s': round(sum(v.get('time-micros', 0) for v in fd.values()) / 1e6, 3), 'wall_s': round(dt, 2), 'cmd': ' '.join(cmd[:1] + ['<memo wrappers extracted from /repo>.rs'] + cmd[2:]),
            'verus': ((res or {}).get('verus') or {}).get('version'), 'vacuity': None, 'obligation_names': {k: [f'{k}: {o}' for o in OBL] for k, *_ in done}}


if __name__ == '__main__':
    r = prove_memo(os.environ.get('VERIF_REPO', '/repo'), '/tmp/w/memo')
    print(json.dumps({k: r[k] for k in ('functions', 'obligations', 'discharged', 'failures', 'infra', 'wall_s')}, indent=1)[:3000])

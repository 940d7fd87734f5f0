"""frames.py - frame obligations of every function of the package (property C13).

Contract of a function f of /repo/schubertpy (contracts/frames.txt lists them):
    modifies nothing        f writes to no object that existed before the call: not to its
                            arguments, not to anything reachable from them, not to the space it is
                            a method of, not to module or class state, not to a memoised answer
                            (a constructor may write the attributes of the object it makes);
    reads no hidden state   the only globals it reads are functions, classes, modules and constants
                            that nothing in the package writes; no clock, random numbers, object
                            addresses or environment.
A function that is not listed (a new helper) gets the frame its body has, and its callers answer
for it: a helper may fill a list its caller made.

The obligation is discharged by an abstract interpretation of the function's current source,
modular (a call is judged by the callee's frame: which parameters it writes, what its result may
alias), flow-sensitive in the local names, with one abstract object per allocation site.  It holds
for all inputs and all iterations.  What is not understood is a failed obligation.
"""
import ast, os, sys, builtins

MUT = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'update', 'add', 'discard', 'setdefault', 'popitem', 'appendleft',
       'popleft', 'extendleft', 'rotate', 'difference_update', 'intersection_update', 'symmetric_difference_update', 'fill', 'resize', 'partition_',
       'put', 'itemset', 'setfield', 'setflags', 'byteswap', '__setitem__', '__delitem__', '__setattr__', '__delattr__', '__iadd__', '__imul__',
       'move_to_end', 'cache_clear'}
IMMCALL = {'len', 'int', 'str', 'bool', 'float', 'abs', 'any', 'all', 'isinstance', 'issubclass', 'range', 'print', 'repr', 'hash', 'round', 'divmod', 'pow',
           'ord', 'chr', 'hasattr', 'callable', 'format', 'bin', 'hex', 'complex', 'frozenset_'}
COPY = {'list', 'tuple', 'set', 'sorted', 'dict', 'frozenset', 'reversed', 'enumerate', 'zip', 'filter', 'iter', 'sum', 'defaultdict', 'deque', 'Counter', 'OrderedDict',
        'copy', 'deepcopy', 'array', 'chain', 'product', 'permutations', 'combinations', 'accumulate', 'islice', 'groupby', 'starmap', 'zip_longest', 'combinations_with_replacement'}
NOTLIST = {'int', 'str', 'bool', 'float', 'None', 'Schur', 'LinearCombination', 'Expr', 'Symbol', 'Number', 'Partition', 'AbstractGrassmannian', 'Callable'}
HIDDEN = {'random', 'time', 'uuid', 'secrets', 'datetime', 'threading', 'multiprocessing', 'socket', 'gc', 'weakref'}
HIDDEN_CALL = {'id', 'input', 'globals', 'exec', 'eval', 'compile', '__import__', 'setattr_'}
DECOS = {'staticmethod', 'classmethod', 'property', 'abstractmethod', 'wraps', 'hashable_lru_cache', 'hashable_lru_cache_method'}
MEMO = {'hashable_lru_cache', 'hashable_lru_cache_method'}
WRITE0 = {'setattr', 'delattr', 'shuffle', 'heappush', 'heappop', 'heapify', 'heapreplace', 'insort', 'insort_left', 'insort_right', 'iadd', 'imul', 'setitem', 'delitem', 'copyto', 'fill_diagonal', 'putmask', 'place'}


class Undecided(Exception):
    pass


class V:
    """abstract value: the abstract objects it may be; ml: it may be a list (or other container); fn: known callee"""
    __slots__ = ('locs', 'ml', 'fn')

    def __init__(self, locs=frozenset(), ml=False, fn=None):
        self.locs = frozenset(locs)
        self.ml = ml
        self.fn = fn

    def __or__(self, o):
        return V(self.locs | o.locs, self.ml or o.ml, self.fn if self.fn == o.fn else None)

    def __eq__(self, o):
        return isinstance(o, V) and (self.locs, self.ml, self.fn) == (o.locs, o.ml, o.fn)

    def __ne__(self, o):
        return not self == o

    __hash__ = None


IMM = V()


class Fn:
    def __init__(self, pkg, path, qual, node, cls, outer=None):
        self.pkg, self.path, self.qual, self.node, self.cls, self.outer = pkg, path, qual, node, cls, outer
        self.id = f'{path}::{qual}'
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.star = a.vararg.arg if a.vararg else None
        self.dstar = a.kwarg.arg if a.kwarg else None
        self.all = self.params + self.kwonly + ([self.star] if self.star else []) + ([self.dstar] if self.dstar else [])
        self.decos = [deco(d) for d in getattr(node, 'decorator_list', [])]
        self.static = 'staticmethod' in self.decos
        self.method = cls is not None and outer is None
        self.memo = any(d in MEMO for d in self.decos)
        self.init = self.method and node.name == '__init__' if hasattr(node, 'name') else False
        # summary
        self.mut = {}           # loc ('P'|'R', id, i) or ('G', name) or ('M',) ... -> (line, what)
        self.ret = V()
        self.retreach = frozenset()
        self.stores = {}        # ('P', id, i) -> locs stored into it
        self.hidden = {}
        self.nested = {}

    def anno(self, name):
        a = self.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.arg == name:
                return x.annotation
        return None


def deco(d):
    if isinstance(d, ast.Call):
        d = d.func
    return d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else '?'


def anno_names(a):
    if a is None:
        return None
    if isinstance(a, ast.Constant) and isinstance(a.value, str):
        try:
            a = ast.parse(a.value, mode='eval').body
        except SyntaxError:
            return None
    if isinstance(a, ast.Constant) and a.value is None:
        return {'None'}
    if isinstance(a, ast.Name):
        return {a.id}
    if isinstance(a, ast.Attribute):
        return {a.attr}
    if isinstance(a, ast.BinOp) and isinstance(a.op, ast.BitOr):
        l, r = anno_names(a.left), anno_names(a.right)
        return None if l is None or r is None else l | r
    if isinstance(a, ast.Subscript):
        h = anno_names(a.value)
        el = a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]
        if h and h & {'Union', 'Optional'}:
            out = set()
            for e in el:
                x = anno_names(e)
                if x is None:
                    return None
                out |= x
            return out
        return h
    return None


def int_list(a):
    """the annotation says: a list or tuple of ints"""
    return isinstance(a, ast.Subscript) and anno_names(a.value) and anno_names(a.value) <= {'List', 'list', 'Tuple', 'tuple', 'Sequence', 'Iterable'} and \
        all(isinstance(e, ast.Name) and e.id in ('int', 'str', 'bool') or isinstance(e, ast.Constant) for e in (a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]))


class Package:
    def __init__(self, root):
        self.root = root
        self.mods = {}
        self.fns = {}
        self.classes = {}        # name -> (path, node, bases)
        self.bad = []            # (where, what)
        top = os.path.join(root, 'schubertpy')
        for d, sub, files in os.walk(top):
            sub[:] = sorted(x for x in sub if x not in ('testcases', '__pycache__'))
            for f in sorted(files):
                if f.endswith('.py'):
                    p = os.path.join(d, f)
                    self.mods[os.path.relpath(p, root)] = ast.parse(open(p).read(), p)
        for path, m in self.mods.items():
            self.collect(path, m.body, [], None)
        self.modnames = {}
        for path, m in self.mods.items():
            t = {}
            for s in ast.walk(m):
                if isinstance(s, (ast.Import, ast.ImportFrom)):
                    for a in s.names:
                        t[(a.asname or a.name).split('.')[0]] = ('import', a.name)
            for s in self.top(m.body):
                if isinstance(s, ast.FunctionDef):
                    t[s.name] = ('fn', f'{path}::{s.name}')
                elif isinstance(s, ast.ClassDef):
                    t[s.name] = ('class', s.name)
                elif isinstance(s, (ast.Assign, ast.AnnAssign)):
                    for x in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                        if isinstance(x, ast.Name):
                            v = s.value
                            if isinstance(v, ast.Name) and t.get(v.id, ('',))[0] in ('fn', 'class', 'import'):
                                t[x.id] = t[v.id]
                            else:
                                t[x.id] = ('const', v)
            self.modnames[path] = t

    @staticmethod
    def top(body):
        for s in body:
            yield s
            if isinstance(s, (ast.If, ast.Try)):
                yield from Package.top(s.body)
                yield from Package.top(s.orelse)

    def collect(self, path, body, q, cls):
        for s in self.top(body):
            if isinstance(s, ast.FunctionDef):
                f = Fn(self, path, '.'.join(q + [s.name]), s, cls)
                self.fns[f.id] = f
                for d in f.decos:
                    if d not in DECOS and not (d in ('setter',)):
                        self.bad.append((f.id, f'decorator {d} is not known to keep results a function of the arguments'))
            elif isinstance(s, (ast.AsyncFunctionDef,)):
                self.bad.append((path + '::' + s.name, 'async function'))
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = (path, s, [deco(b) for b in s.bases])
                for d in s.decorator_list:
                    if deco(d) not in ('total_ordering',):
                        self.bad.append((path + '::' + s.name, f'class decorator {deco(d)}'))
                self.collect(path, s.body, q + [s.name], s.name)

    def mro(self, cls):
        out, todo = [], [cls]
        while todo:
            c = todo.pop(0)
            if c in self.classes and c not in out:
                out.append(c)
                todo += self.classes[c][2]
        return out

    def subs(self, cls):
        return [c for c in self.classes if cls in self.mro(c)]

    def find_method(self, cls, name):
        for c in self.mro(cls):
            f = self.fns.get(f'{self.classes[c][0]}::{c}.{name}')
            if f:
                return f
        return None

    def methods(self, name):
        return [f for f in self.fns.values() if f.method and f.node.name == name]

    def resolve(self, path, name, seen=()):
        t = self.modnames[path].get(name)
        if t is None:
            for s in self.mods[path].body:          # from .x import *
                if isinstance(s, ast.ImportFrom) and any(a.name == '*' for a in s.names) and s.level:
                    p2 = self.modpath(path, s)
                    if p2 and (p2, name) not in seen:
                        r = self.resolve(p2, name, seen + ((p2, name),))
                        if r:
                            return r
            return None
        if t[0] == 'import':
            for s in ast.walk(self.mods[path]):
                if isinstance(s, ast.ImportFrom) and any((a.asname or a.name) == name for a in s.names):
                    p2 = self.modpath(path, s)
                    real = next(a.name for a in s.names if (a.asname or a.name) == name)
                    if p2 and (p2, real) not in seen:
                        r = self.resolve(p2, real, seen + ((p2, real),))
                        if r:
                            return r
        return t

    def modpath(self, path, s):
        if s.level:
            d = os.path.dirname(path)
            for _ in range(s.level - 1):
                d = os.path.dirname(d)
            base = os.path.join(d, *(s.module.split('.') if s.module else []))
        else:
            base = os.path.join(*(s.module or '').split('.')) if s.module else ''
        for c in (base + '.py', os.path.join(base, '__init__.py')):
            if c in self.mods:
                return c
        return None

    def analyse(self):
        for _ in range(12):
            changed = False
            for f in self.fns.values():
                changed |= Analysis(f).run()
            if not changed:
                return
        self.bad.append(('schubertpy', 'the frames do not reach a fixpoint'))


class Analysis:
    def __init__(self, f, parent=None):
        self.f, self.pkg = f, f.pkg
        self.parent = parent
        self.cont = parent.cont if parent else {}       # contents of abstract objects
        self.every = {}                                  # variable -> join of every value it gets
        self.flow = set()                                # names changed by nested functions: no strong update
        self.touched = parent.touched if parent else set()
        self.locals = assigned(f.node) | set(f.all)
        self.changed = False

    # ---------------------------------------------------------------- heap
    def site(self, node, contents=frozenset(), ml=True):
        l = ('S', self.f.id, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), type(node).__name__)
        self.put(l, contents)
        return V({l}, ml)

    def put(self, l, contents):
        c = self.cont.setdefault(l, frozenset())
        if not contents <= c:
            self.cont[l] = c | contents
            self.changed = True

    def inside(self, v):
        out = set()
        for l in v.locs:
            out |= self.cont.get(l, frozenset())
            if l[0] == 'P' and l not in self.cont.get('imm', ()):
                out.add(('R',) + l[1:])
            elif l[0] in ('R', 'G', 'M'):
                out.add(l)
        return frozenset(out)

    def reach(self, locs):
        seen, todo = set(), list(locs)
        while todo:
            l = todo.pop()
            if l in seen:
                continue
            seen.add(l)
            todo += [x for x in self.inside(V({l})) if x not in seen]
        return frozenset(seen)

    def write(self, locs, node, what, stored=frozenset()):
        for l in locs:
            if l[0] == 'S':
                self.put(l, stored)
                if what.startswith('attribute') and l in self.touched:
                    self.record(('stale',) + l, node, what + ' of an object whose methods were already used (a memo table may hold answers for its former state)')
                continue
            if l[0] == 'P' and l[1] == self.f.id:
                s = self.f.stores.setdefault(l, frozenset())
                if not stored <= s:
                    self.f.stores[l] = s | stored
                    self.changed = True
                self.put(l, stored)
            self.record(l, node, what)

    def record(self, l, node, what):
        a = self
        # a nested function's write to an object of the enclosing function counts there
        while a.parent and l[0] in ('P', 'R', 'S', 'stale') and l[1] != a.f.id:
            a = a.parent
        if l not in a.f.mut:
            a.f.mut[l] = (getattr(node, 'lineno', 0), what)
            self.changed = True
            a.changed = True

    # ---------------------------------------------------------------- run
    def run(self):
        f = self.f
        state = {}
        imm = set(self.cont.get('imm', ()))
        for i, p in enumerate(f.all):
            l = ('P', f.id, i)
            names = anno_names(f.anno(p))
            if names and names <= {'int', 'str', 'bool', 'float', 'None'}:
                state[p] = V()
                continue
            if int_list(f.anno(p)) or p == f.star:
                imm.add(l) if p != f.star else None
            ml = not (names and names <= NOTLIST) and not (f.method and not f.static and i == 0)
            state[p] = V({l}, ml)
        self.cont['imm'] = frozenset(imm)
        before = (dict(f.mut), f.ret, f.retreach, dict(f.stores), dict(f.hidden))
        body = f.node.body if isinstance(f.node.body, list) else [ast.Return(f.node.body)]
        for _ in range(10):
            self.changed = False
            if not self.parent:
                self.touched.clear()
            for k, v in state.items():
                self.every[k] = self.every.get(k, IMM) | v if k in self.every else v
            self.block(body, dict(state))
            if not self.changed:
                break
        else:
            raise Undecided('no fixpoint')
        return before != (f.mut, f.ret, f.retreach, f.stores, f.hidden)

    def block(self, body, st):
        for s in body:
            st = self.stmt(s, st)
        return st

    @staticmethod
    def join(a, b):
        out = dict(a)
        for k, v in b.items():
            out[k] = out[k] | v if k in out else v
        return out

    def bind(self, t, v, st, node):
        if isinstance(t, ast.Name):
            if t.id in self.globals_:
                self.record(('G', t.id), node, f'global {t.id} is assigned')
                return
            a = self
            if t.id in self.nonlocals_:
                a = self.parent
                while a and t.id not in a.locals:
                    a = a.parent
                if a:
                    a.flow.add(t.id)
            if a is not self and a is not None or t.id in self.flow:
                a = a or self
                old = a.every.get(t.id, v)
                new = old | v
                if a.every.get(t.id) != new:
                    a.every[t.id] = new
                    self.changed = a.changed = True
                st[t.id] = new
                return
            st[t.id] = v
            old = self.every.get(t.id)
            new = v if old is None else old | v
            if old != new:
                self.every[t.id] = new
                self.changed = True
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                e2 = e.value if isinstance(e, ast.Starred) else e
                self.bind(e2, V(self.inside(v), bool(self.inside(v))) if not isinstance(e, ast.Starred) else self.site(e, self.inside(v)), st, node)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st)
            self.ev(t.slice, st)
            self.write(o.locs, node, f'element of `{ast.unparse(t.value)}` is assigned', v.locs)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            if o.fn and o.fn[0] in ('class', 'module', 'fn'):
                self.record(('G', ast.unparse(t)), node, f'`{ast.unparse(t)}` is assigned')
            self.write(o.locs, node, f'attribute `{ast.unparse(t)}` is assigned', v.locs)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, self.site(t, self.inside(v)), st, node)
        else:
            raise Undecided(f'line {node.lineno}: assignment target {type(t).__name__}')

    globals_ = nonlocals_ = frozenset()

    def stmt(self, s, st):
        if isinstance(s, ast.Assign):
            if len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Tuple) and len(s.targets[0].elts) == len(s.value.elts) and \
                    not any(isinstance(e, ast.Starred) for e in s.targets[0].elts + s.value.elts):
                vs = [self.ev(e, st) for e in s.value.elts]
                for t, v in zip(s.targets[0].elts, vs):
                    self.bind(t, v, st, s)
                return st
            v = self.ev(s.value, st)
            for t in s.targets:
                self.bind(t, v, st, s)
            return st
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.bind(s.target, self.ev(s.value, st), st, s)
            return st
        if isinstance(s, ast.AugAssign):
            v = self.ev(s.value, st)
            if isinstance(s.target, ast.Name):
                x = self.name(s.target, st)
                inplace = x.ml and (v.ml or isinstance(s.op, (ast.Mult, ast.BitOr, ast.BitAnd, ast.BitXor)))
                if isinstance(s.op, (ast.Sub, ast.Pow, ast.FloorDiv, ast.Mod, ast.Div)) and not v.ml:
                    inplace = False
                if isinstance(s.op, ast.Mult) and not v.ml and not self.maybe_list_only(x):
                    inplace = False
                meth = {ast.Add: '__iadd__', ast.Mult: '__imul__', ast.Sub: '__isub__', ast.Pow: '__ipow__'}.get(type(s.op))
                if meth and self.pkg.methods(meth):
                    self.call_fns(self.pkg.methods(meth), [x, v], {}, s, x)
                if inplace:
                    self.write(x.locs, s, f'`{s.target.id}` is changed in place ({type(s.op).__name__})', self.inside(v))
                    new = x | self.site(s, self.inside(v) | self.inside(x), True)
                else:
                    new = self.site(s, self.inside(v) | self.inside(x), x.ml and v.ml) if (x.locs or v.locs) else V((), x.ml and v.ml)
                self.bind(s.target, new, st, s)
            else:
                o = self.ev(s.target.value, st)
                if isinstance(s.target, ast.Attribute) and o.fn and o.fn[0] in ('class', 'module', 'fn'):
                    self.record(('G', ast.unparse(s.target)), s, f'`{ast.unparse(s.target)}` is changed')
                what = ('attribute ' if isinstance(s.target, ast.Attribute) else 'element of ') + f'`{ast.unparse(s.target)}` is changed in place'
                self.write(o.locs, s, what, v.locs | self.inside(v))
                if v.ml:
                    self.write(self.inside(o), s, what, self.inside(v))
            return st
        if isinstance(s, ast.Expr):
            self.ev(s.value, st)
            return st
        if isinstance(s, ast.Return):
            v = self.ev(s.value, st) if s.value else IMM
            f = self.f
            ml = v.ml
            new = f.ret | V(v.locs, ml, v.fn)
            rr = f.retreach | self.reach(v.locs)
            if new != f.ret or rr != f.retreach:
                f.ret, f.retreach = V(new.locs, new.ml), rr
                self.changed = True
            return st
        if isinstance(s, (ast.If,)):
            self.ev(s.test, st)
            a = self.block(s.body, dict(st))
            b = self.block(s.orelse, dict(st))
            return self.join(a, b)
        if isinstance(s, (ast.While, ast.For)):
            if isinstance(s, ast.For):
                it = self.ev(s.iter, st)
            for _ in range(20):
                if isinstance(s, ast.While):
                    self.ev(s.test, st)
                b = dict(st)
                if isinstance(s, ast.For):
                    ins = self.inside(it)
                    self.bind(s.target, V(ins, bool(ins)), b, s)
                b = self.block(s.body, b)
                n = self.join(st, b)
                if n == st:
                    break
                st = n
            return self.block(s.orelse, st)
        if isinstance(s, (ast.Pass, ast.Break, ast.Continue, ast.Import, ast.ImportFrom)):
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                for a in s.names:
                    n = (a.asname or a.name).split('.')[0]
                    st.pop(n, None)
                    st[n] = V((), False, ('module', a.name)) if isinstance(s, ast.Import) else V((), False, ('ext', a.name))
                    if (isinstance(s, ast.Import) and n in HIDDEN) or (isinstance(s, ast.ImportFrom) and (s.module or '').split('.')[0] in HIDDEN):
                        self.hide(s, f'import of {n}')
                    if isinstance(s, ast.ImportFrom):
                        p2 = self.pkg.modpath(self.f.path, s)
                        r = self.pkg.resolve(p2, a.name) if p2 else None
                        if r and r[0] in ('fn', 'class'):
                            st[n] = V((), False, r)
                    self.every[n] = st[n]
            return st
        if isinstance(s, ast.Raise):
            for e in (s.exc, s.cause):
                if e is not None:
                    self.ev(e, st)
            return st
        if isinstance(s, ast.Assert):
            self.ev(s.test, st)
            if s.msg:
                self.ev(s.msg, st)
            return st
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, (ast.Subscript, ast.Attribute)):
                    self.write(self.ev(t.value, st).locs, s, f'`{ast.unparse(t)}` is deleted')
                elif isinstance(t, ast.Name) and t.id in self.globals_:
                    self.record(('G', t.id), s, f'global {t.id} is deleted')
            return st
        if isinstance(s, ast.With):
            for w in s.items:
                v = self.ev(w.context_expr, st)
                if w.optional_vars is not None:
                    self.bind(w.optional_vars, v, st, s)
            return self.block(s.body, st)
        if isinstance(s, ast.Try):
            a = self.block(s.body, dict(st))
            st = self.join(st, a)
            out = self.block(s.orelse, dict(st))
            for h in s.handlers:
                b = dict(st)
                if h.name:
                    b[h.name] = IMM
                out = self.join(out, self.block(h.body, b))
            return self.block(s.finalbody, out)
        if isinstance(s, ast.Global):
            self.globals_ = self.globals_ | set(s.names)
            return st
        if isinstance(s, ast.Nonlocal):
            self.nonlocals_ = self.nonlocals_ | set(s.names)
            return st
        if isinstance(s, ast.FunctionDef):
            g = self.f.nested.get(s)
            if g is None:
                g = self.f.nested[s] = Fn(self.pkg, self.f.path, self.f.qual + '.' + s.name, s, None, self.f)
                for d in g.decos:
                    if d not in DECOS - MEMO:
                        self.pkg.bad.append((g.id, f'decorator {d} is not known to keep results a function of the arguments'))
            for d in s.args.defaults + [x for x in s.args.kw_defaults if x]:
                self.ev(d, st)
            a = Analysis(g, self)
            if a.run():
                self.changed = True
            self.absorb(g, s)
            v = V(self.site(s, self.captured(a)).locs, False, ('nested', g))
            self.bind(ast.Name(s.name, ast.Store()), v, st, s)
            st[s.name] = v
            return st
        if isinstance(s, ast.Match):
            v = self.ev(s.subject, st)
            out = dict(st)
            for c in s.cases:
                b = dict(st)
                for n in ast.walk(c.pattern):
                    nm = getattr(n, 'name', None) if isinstance(n, (ast.MatchAs, ast.MatchStar)) else None
                    if nm:
                        self.bind(ast.Name(nm, ast.Store()), V(self.reach(v.locs), True), b, s)
                if c.guard:
                    self.ev(c.guard, b)
                out = self.join(out, self.block(c.body, b))
            return out
        raise Undecided(f'line {s.lineno}: statement {type(s).__name__}')

    def captured(self, a):
        out = set()
        for n in ast.walk(a.f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in a.locals:
                b = self
                while b:
                    if n.id in b.locals:
                        out |= b.every.get(n.id, IMM).locs
                        break
                    b = b.parent
        return frozenset(out)

    def absorb(self, g, s):
        """writes of a nested function to globals, memoised answers and enclosing objects count for the enclosing function"""
        for l, (line, what) in g.mut.items():
            if l[0] in ('G', 'M'):
                self.record(l, ast.copy_location(ast.Pass(), s), f'line {line}: {what}')
        for k, v in g.hidden.items():
            if k not in self.f.hidden:
                self.f.hidden[k] = v
                self.changed = True

    def maybe_list_only(self, x):
        return any(l[0] == 'S' and l[4] in ('List', 'ListComp') for l in x.locs) or any(l[0] in ('P', 'R', 'G', 'M') for l in x.locs) and x.ml

    def hide(self, node, what):
        k = (getattr(node, 'lineno', 0), what)
        if k not in self.f.hidden:
            self.f.hidden[k] = what
            self.changed = True

    # ---------------------------------------------------------------- expressions
    def name(self, e, st):
        n = e.id
        if n in st:
            if n in self.flow:
                return self.every[n]
            return st[n]
        if n in self.locals and n not in self.globals_ and n not in self.nonlocals_:
            return self.every.get(n, IMM)
        a = self.parent
        while a:
            if n in a.locals:
                v = a.every.get(n)
                return v if v is not None else IMM
            a = a.parent
        r = self.pkg.resolve(self.f.path, n)
        if r is None:
            if hasattr(builtins, n):
                return V((), False, ('builtin', n))
            return V({('G', n)}, True)
        if r[0] == 'const':
            v = r[1]
            if isinstance(v, ast.Constant) or v is None:
                return IMM
            return V({('G', n)}, True)
        if r[0] == 'import':
            if n in HIDDEN or r[1].split('.')[0] in HIDDEN:
                self.hide(e, f'use of {n}')
            return V((), False, ('ext' if any(isinstance(s, ast.ImportFrom) and any((a.asname or a.name) == n for a in s.names) for s in ast.walk(self.pkg.mods[self.f.path])) else 'module', r[1]))
        return V((), False, r)

    def evs(self, es, st):
        return [self.ev(e, st) for e in es]

    def ev(self, e, st):
        if e is None or isinstance(e, (ast.Constant,)):
            return IMM
        if isinstance(e, ast.Name):
            return self.name(e, st)
        if isinstance(e, ast.JoinedStr):
            for x in ast.walk(e):
                if isinstance(x, ast.FormattedValue):
                    self.ev(x.value, st)
            return IMM
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            c = set()
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    c |= self.inside(self.ev(x.value, st))
                else:
                    c |= self.ev(x, st).locs
            return self.site(e, frozenset(c), True)
        if isinstance(e, ast.Dict):
            c = set()
            for k, x in zip(e.keys, e.values):
                v = self.ev(x, st)
                if k is None:
                    c |= self.inside(v)
                else:
                    c |= v.locs | self.ev(k, st).locs
                    if v.fn and v.fn[0] == 'nested':
                        c |= v.locs
            return self.site(e, frozenset(c), True)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            b = dict(st)
            for g in e.generators:
                it = self.ev(g.iter, b)
                ins = self.inside(it)
                self.bind(g.target, V(ins, bool(ins)), b, e)
                for c in g.ifs:
                    self.ev(c, b)
            if isinstance(e, ast.DictComp):
                v = V(self.ev(e.key, b).locs | self.ev(e.value, b).locs)
            else:
                v = self.ev(e.elt, b)
            return self.site(e, v.locs, True)
        if isinstance(e, ast.IfExp):
            self.ev(e.test, st)
            return self.ev(e.body, st) | self.ev(e.orelse, st)
        if isinstance(e, ast.BoolOp):
            out = self.ev(e.values[0], st)
            for x in e.values[1:]:
                out = out | self.ev(x, st)
            return out
        if isinstance(e, ast.UnaryOp):
            v = self.ev(e.operand, st)
            return IMM if isinstance(e.op, ast.Not) or not v.locs else self.site(e, self.inside(v), False)
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left, st), self.ev(e.right, st)
            if isinstance(e.op, ast.Add):
                ml = a.ml and b.ml
            elif isinstance(e.op, ast.Mult):
                ml = (a.ml and self.maybe_list_only(a)) or (b.ml and self.maybe_list_only(b))
            elif isinstance(e.op, (ast.Sub, ast.BitOr, ast.BitAnd, ast.BitXor)):
                ml = a.ml and b.ml
            else:
                ml = False
            if not a.locs and not b.locs and not ml:
                return IMM
            return self.site(e, self.inside(a) | self.inside(b), ml)
        if isinstance(e, ast.Compare):
            self.evs([e.left] + e.comparators, st)
            return IMM
        if isinstance(e, ast.Subscript):
            v = self.ev(e.value, st)
            if isinstance(e.slice, ast.Slice):
                self.evs([x for x in (e.slice.lower, e.slice.upper, e.slice.step) if x], st)
                return self.site(e, self.inside(v), True)
            self.ev(e.slice, st)
            ins = self.inside(v)
            return V(ins, bool(ins))
        if isinstance(e, ast.Slice):
            self.evs([x for x in (e.lower, e.upper, e.step) if x], st)
            return IMM
        if isinstance(e, ast.Attribute):
            v = self.ev(e.value, st)
            if v.fn and v.fn[0] == 'module':
                if v.fn[1].split('.')[0] == 'os' and e.attr in ('environ', 'getenv', 'getpid', 'urandom'):
                    self.hide(e, f'use of os.{e.attr}')
                return V((), False, ('ext', e.attr))
            if v.fn and v.fn[0] == 'class':
                m = self.pkg.find_method(v.fn[1], e.attr)
                if m:
                    return V((), False, ('fn', m.id))
                return V({('G', ast.unparse(e))}, True)
            if e.attr == '__class__':
                return V((), False, ('classof', v.locs))
            if e.attr == '__dict__':
                return V(v.locs, True)
            if e.attr in MUT and v.locs and isinstance(e.ctx, ast.Load) and not getattr(e, 'called', False) and not self.pkg.methods(e.attr):
                self.write(v.locs, e, f'`{ast.unparse(e)}` is passed on')
            ins = self.inside(v)
            return V(ins, bool(ins))
        if isinstance(e, ast.Lambda):
            g = self.f.nested.get(e)
            if g is None:
                g = self.f.nested[e] = Fn(self.pkg, self.f.path, self.f.qual + f'.<lambda:{e.lineno}:{e.col_offset}>', e, None, self.f)
            a = Analysis(g, self)
            if a.run():
                self.changed = True
            self.absorb(g, e)
            return V(self.site(e, self.captured(a) | frozenset(l for l in g.retreach if not (l[0] in 'PR' and l[1] == g.id))).locs, False, ('nested', g))
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value, st)
            self.bind(e.target, v, st, e)
            return v
        if isinstance(e, ast.Starred):
            return self.ev(e.value, st)
        if isinstance(e, ast.Call):
            return self.call(e, st)
        if isinstance(e, (ast.Yield, ast.YieldFrom)):
            v = self.ev(e.value, st) if e.value else IMM
            self.f.ret = self.f.ret | V(self.site(e, v.locs | self.inside(v)).locs, True)
            self.f.retreach = self.f.retreach | self.reach(v.locs)
            return IMM
        raise Undecided(f'line {getattr(e, "lineno", 0)}: expression {type(e).__name__}')

    def call(self, e, st):
        args, star = [], False
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                ins = self.inside(v)
                args.append(V(ins, bool(ins)))
                star = True
            else:
                args.append(self.ev(a, st))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                star = True
                v = V(self.inside(v), True)
            kw[k.arg] = v
        allv = args + list(kw.values())
        for a, v in zip(e.args + [k.value for k in e.keywords], allv):
            self.escape(v, e)
        f = e.func
        # super().m(...)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super':
            cls = self.f.cls or (self.f.outer.cls if self.f.outer else None)
            me = self.every.get(self.f.params[0], IMM) if self.f.params else IMM
            for c in self.pkg.mro(cls)[1:] if cls else []:
                m = self.pkg.fns.get(f'{self.pkg.classes[c][0]}::{c}.{f.attr}')
                if m:
                    return self.call_fns([m], ([] if m.static else [me]) + args, kw, e, me, star)
            if f.attr in MUT:
                self.write(me.locs, e, f'super().{f.attr}()')
            return self.unknown(e, [me] + allv)
        if isinstance(f, ast.Attribute) and f.attr != '__class__':
            f.called = True
            o = self.ev(f.value, st)
            if o.fn and o.fn[0] == 'module':
                return self.ext(f.attr, e, args, kw, o.fn[1])
            if o.fn and o.fn[0] == 'class':
                m = self.pkg.find_method(o.fn[1], f.attr)
                if m:
                    return self.call_fns([m], args, kw, e, IMM, star)
                return self.ext(f.attr, e, args, kw, '')
            if o.fn and o.fn[0] == 'builtin' and f.attr in MUT and args:       # list.append(x, ...)
                self.write(args[0].locs, e, f'`{ast.unparse(e)}`', self.locs_of(args[1:]))
                return V(self.inside(args[0]), True)
            ms = self.pkg.methods(f.attr)
            if isinstance(f.value, ast.Name) and f.value.id == 'self' and (self.f.cls or self.f.outer):
                c = self.f
                while c.outer:
                    c = c.outer
                if c.cls:
                    mine = {m.id: m for k in self.pkg.subs(c.cls) for m in [self.pkg.find_method(k, f.attr)] if m}
                    if mine:
                        ms = list(mine.values())
            out = None
            if f.attr in MUT and o.locs and not (ms and isinstance(f.value, ast.Name) and f.value.id == 'self'):
                put = self.locs_of(allv[1:] if f.attr == 'setdefault' and len(args) > 1 and args == allv[:len(args)] else allv)     # a key is hashable, and not what setdefault returns
                self.write(o.locs, e, f'`{ast.unparse(f.value)}.{f.attr}(...)`', put)
                ins = self.inside(o)
                out = V(ins | put, bool(ins))
            if ms:
                for m in ms:
                    self.touched |= {l for l in o.locs if l[0] == 'S'} if not m.init else set()
                r = self.call_fns(ms, [o] + args, kw, e, o, star)
                return r if out is None else r | out
            if out is not None:
                return out
            if f.attr in ('copy', '__copy__', 'tolist', 'items', 'values', 'keys', 'split', 'expand', 'simplify', '__deepcopy__'):
                s = self.site(e, self.inside(o), True)
                return V(s.locs, True)
            if f.attr in ('index', 'count', 'join', 'replace', 'translate', 'startswith', 'endswith', 'strip', 'lstrip', 'rstrip', 'upper', 'lower', 'format', 'find', '__contains__', '__len__', 'title', 'isdigit'):
                return IMM
            ins = self.inside(o)          # a callable attribute, or a method of a library object
            return self.unknown(e, [V(ins), o] + allv)
        v = self.ev(f, st)
        if v.fn:
            k = v.fn[0]
            if k == 'fn':
                m = self.pkg.fns.get(v.fn[1])
                return self.call_fns([m], args, kw, e, IMM, star) if m else self.unknown(e, allv)
            if k == 'nested':
                return self.call_fns([v.fn[1]], args, kw, e, v, star)
            if k == 'class':
                return self.construct([v.fn[1]], args, kw, e, star)
            if k == 'classof':
                cls = None
                c = self.f
                while c.outer:
                    c = c.outer
                return self.construct(self.pkg.subs(c.cls) if c.cls else list(self.pkg.classes), args, kw, e, star)
            if k == 'builtin':
                n = v.fn[1]
                if n in HIDDEN_CALL:
                    self.hide(e, f'use of {n}()')
                if n == 'type' and len(args) == 1:
                    return V((), False, ('classof', args[0].locs))
                if n == 'vars':
                    return V(args[0].locs if args else {('G', 'vars')}, True)
                if n in ('getattr',):
                    ins = self.inside(args[0])
                    return V(ins, bool(ins))
                if n in WRITE0 and args:
                    self.write(args[0].locs, e, ('attribute set by ' if n == 'setattr' else '') + f'`{ast.unparse(e)}`', self.locs_of(args[1:]))
                    return IMM
                if n in ('min', 'max', 'next'):
                    out = V()
                    for a in allv:
                        out = out | V(a.locs | self.inside(a), a.ml)
                    return out
                if n == 'map':
                    for a in args[1:]:
                        self.unknown(e, [a])
                    if args and args[0].fn and args[0].fn[0] in ('fn', 'nested', 'class'):
                        el = [V(self.inside(a), True) for a in args[1:]]
                        r = self.construct([args[0].fn[1]], el, {}, e, False) if args[0].fn[0] == 'class' else \
                            self.call_fns([self.pkg.fns[args[0].fn[1]] if args[0].fn[0] == 'fn' else args[0].fn[1]], el, {}, e, IMM)
                        return V(self.site(f, r.locs | self.reach(r.locs)).locs, True)
                    return self.copyof(e, allv)
                if n in IMMCALL:
                    return IMM
                if n in COPY:
                    return self.copyof(e, allv)
                return self.ext(n, e, args, kw, 'builtins')
            if k == 'ext':
                return self.ext(v.fn[1], e, args, kw, '')
        # a callable value: whatever it may be was captured or passed in
        return self.unknown(e, [v] + allv)

    def escape(self, v, e):
        """a function passed on must not write its parameters"""
        if v.fn and v.fn[0] in ('nested', 'fn'):
            g = v.fn[1] if v.fn[0] == 'nested' else self.pkg.fns.get(v.fn[1])
            if g:
                for l, (line, what) in list(g.mut.items()):
                    if l[0] in ('P', 'R') and l[1] == g.id:
                        self.record(('G', f'{g.qual} passed on'), e, f'{g.qual} writes its parameter (line {line}: {what}) and is passed on')

    def locs_of(self, vs):
        out = set()
        for v in vs:
            out |= v.locs
        return frozenset(out)

    def copyof(self, e, vs):
        c = set()
        for v in vs:
            c |= self.inside(v)
        s = self.site(e, frozenset(c), True)
        if isinstance(e.func, ast.Name) and e.func.id in ('enumerate', 'zip', 'filter', 'map', 'dict'):
            self.put(next(iter(s.locs)), s.locs | frozenset(c))
        return s

    def unknown(self, e, vs):
        """a call of something outside the package, or of a callable value: it writes nothing of ours (assumption), and its
        result may be any of the objects it was given or that they lead to"""
        c = self.reach(self.locs_of(vs))
        s = self.site(e, c, True)
        return V(s.locs | c, True)

    def ext(self, n, e, args, kw, mod):
        if mod.split('.')[0] in HIDDEN:
            self.hide(e, f'use of {mod}.{n}')
        if n in WRITE0 and args:
            self.write(args[0].locs, e, f'`{ast.unparse(e)}`', self.locs_of(args[1:]))
        vs = args + list(kw.values())
        if n in COPY and n not in ('sum',):
            return self.copyof(e, vs)
        if n == 'reduce':
            return self.unknown(e, vs)
        out = kw.get('out')
        if out is not None:
            self.write(out.locs, e, f'`{ast.unparse(e)}` writes out=')
        if mod in ('sympy', 'sp') or n in ('Symbol', 'expand', 'parse_expr', 'sympify', 'symbols', 'Add', 'Mul', 'Integer'):
            return V((), False)
        return self.unknown(e, vs)

    def construct(self, classes, args, kw, e, star):
        s = self.site(e, frozenset(), False)
        self.touched -= s.locs
        for c in classes:
            m = self.pkg.find_method(c, '__init__')
            if m:
                self.call_fns([m], [s] + args, kw, e, s, star)
            elif args or kw:
                self.put(next(iter(s.locs)), self.locs_of(args + list(kw.values())))
            n = self.pkg.find_method(c, '__new__')
            if n:
                raise Undecided(f'{c}.__new__')
        return V(s.locs, False)

    def call_fns(self, fns, args, kw, e, recv, star=False):
        res = None
        for g in fns:
            a = args
            if g.method and g.static and recv.locs and a and a[0] is recv:
                a = a[1:]
            m = {}
            if star:
                everything = V()
                for x in a + list(kw.values()):
                    everything = everything | x
                everything = V(self.reach(everything.locs), True)
                m = {i: everything for i in range(len(g.all))}
                if g.method and not g.static and a and a[0] is recv:
                    m[0] = recv
            else:
                npos = len(g.params)
                for i, x in enumerate(a):
                    if i < npos:
                        m[i] = x
                    elif g.star:
                        j = g.all.index(g.star)
                        m[j] = V(self.site(e.func if hasattr(e, 'func') else e, x.locs | (self.inside(m[j]) if j in m else frozenset())).locs, True)
                for k, x in kw.items():
                    if k in g.all:
                        m[g.all.index(k)] = x
                    elif g.dstar:
                        j = g.all.index(g.dstar)
                        m[j] = V(self.site(e, x.locs).locs, True)
            # written parameters
            for l, (line, what) in list(g.mut.items()):
                if l[0] in ('P', 'R') and l[1] == g.id:
                    x = m.get(l[2])
                    stored = self.subst(g.stores.get(l, frozenset()), g, m)
                    if x is None:
                        self.record(('G', f'default value of {g.all[l[2]]} in {g.qual}'), e, f'the default value of parameter {g.all[l[2]]} of {g.qual} is written (line {line}: {what})')
                        continue
                    self.write(x.locs if l[0] == 'P' else self.reach(x.locs) if not g.init else self.inside(x), e, f'`{ast.unparse(e) if not isinstance(e, ast.AugAssign) else ast.unparse(e)}`: {g.qual} writes its parameter {g.all[l[2]]} (line {line}: {what})', stored)
                elif l[0] in ('G', 'M'):
                    pass         # reported for g itself
            if g.memo:
                r = V({('M', g.qual)} if g.ret.ml or any(True for _ in g.ret.locs) else (), g.ret.ml)
            else:
                direct = self.subst(g.ret.locs, g, m)
                inner = self.subst(g.retreach, g, m)
                fresh = any(l[0] == 'S' for l in g.ret.locs)
                loc = set(l for l in direct)
                if fresh:
                    s = self.site(e, inner | frozenset(loc), g.ret.ml)
                    self.touched -= s.locs
                    loc |= s.locs
                    # what is inside a fresh object may be fresh too
                    if any(l[0] == 'S' for l in g.retreach - g.ret.locs):
                        self.put(next(iter(s.locs)), s.locs)
                r = V(loc, g.ret.ml)
            if isinstance(g.node, ast.FunctionDef) and self.annotated_notlist(g):
                r = V(r.locs, False)
            res = r if res is None else res | r
        return res if res is not None else IMM

    def annotated_notlist(self, g):
        n = anno_names(g.node.returns)
        return bool(n) and n <= NOTLIST

    def subst(self, locs, g, m):
        """objects of g's parameters seen from here"""
        out = set()
        for l in locs:
            if l[0] in ('P', 'R') and l[1] == g.id:
                x = m.get(l[2])
                if x is not None:
                    out |= x.locs if l[0] == 'P' else (self.reach(x.locs) - x.locs) | self.inside(x)
            elif l[0] == 'S' and l[1] == g.id:
                continue
            elif l[0] == 'S':
                a = self
                while a:
                    if a.f.id == l[1]:
                        out.add(l)
                    a = a.parent
            elif l[0] in ('P', 'R'):
                a = self
                while a:
                    if a.f.id == l[1]:
                        out.add(l)
                    a = a.parent
            else:
                out.add(l)
        return frozenset(out)


def assigned(node):
    out = set()
    body = node.body if isinstance(node.body, list) else []

    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                out.add(c.name)
                continue
            if isinstance(c, ast.Lambda):
                continue
            if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                out.add(c.id)
            if isinstance(c, (ast.Import, ast.ImportFrom)):
                for a in c.names:
                    out.add((a.asname or a.name).split('.')[0])
            if isinstance(c, (ast.Nonlocal, ast.Global)):
                out.difference_update(c.names)
            walk(c)
    for s in body:
        walk(ast.Module([s], []))
    for n in ast.walk(ast.Module(body, [])):
        if isinstance(n, (ast.Nonlocal, ast.Global)) :
            pass
    no = set()
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, (ast.Nonlocal, ast.Global)):
                no |= set(n.names)
    # a name declared nonlocal in this very function is not its own
    own = set()

    def own_decl(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(c, (ast.Nonlocal, ast.Global)):
                own.update(c.names)
            own_decl(c)
    own_decl(ast.Module(body, []))
    return out - own


def check(root, listed=None):
    """-> (obligations: [(function, obligation, problem or None)])"""
    out = []
    try:
        pkg = Package(root)
    except SyntaxError as e:
        return [('schubertpy', 'the package parses', str(e))], None
    try:
        pkg.analyse()
    except (Undecided, RecursionError) as e:
        # find the function that is not understood
        for f in pkg.fns.values():
            try:
                Analysis(f).run()
            except Undecided as x:
                out.append((f.id, 'frame', f'not understood: {x}'))
        return out or [('schubertpy', 'frame', f'not understood: {e}')], pkg
    for f in sorted(pkg.fns.values(), key=lambda f: f.id):
        probs = []
        for l, (line, what) in f.mut.items():
            if l[0] in ('P', 'R'):
                if f.init and l[0] == 'P' and l[2] == 0:
                    continue
                if listed is not None and f.id not in listed and not (f.node.args.defaults and f.all[l[2]] in defaulted(f)):
                    continue          # a helper: its callers answer for it
                if f.method and f.node.name.startswith('__') and f.node.name.endswith('__') is False and listed is None:
                    continue
                probs.append(f'line {line}: writes {"its argument" if not (f.method and not f.static and l[2] == 0) else "the object it is called on"} {f.all[l[2]]}: {what}')
            else:
                probs.append(f'line {line}: {what}' + (' (a memoised answer)' if l[0] == 'M' else ''))
        out.append((f.id, 'modifies nothing that existed before the call', '; '.join(sorted(set(probs))) or None))
        out.append((f.id, 'reads no state but its arguments', '; '.join(f'line {k[0]}: {v}' for k, v in f.hidden.items()) or None))
        if f.memo:
            out.append((f.id, 'memoised answers cannot be changed by who gets them', 'a memoised function may return a list' if f.ret.ml and not Analysis.annotated_notlist(None, f) else None))
            out.append((f.id, 'a list and the equal tuple are treated alike', '; '.join(alike(f)) or None))
            if f.method:
                probs = []
                for c in pkg.subs(f.cls):
                    for k in pkg.mro(c):
                        for n in ('__eq__', '__hash__'):
                            if f'{pkg.classes[k][0]}::{k}.{n}' in pkg.fns:
                                probs.append(f'{k} defines {n}: memo tables of different spaces may be shared')
                out.append((f.id, 'memo tables tell spaces apart', '; '.join(sorted(set(probs))) or None))
    for w, what in sorted(set(pkg.bad)):
        out.append((w, 'no unknown wrapper', what))
    return out, pkg


def alike(f):
    """a memoised function gets tuples for lists: before it makes a list of such a parameter it may only count, index, traverse or copy it"""
    out = []
    for p in f.all[1 if f.method and not f.static else 0:]:
        n = anno_names(f.anno(p))
        if n is not None and not n & {'List', 'list', 'Tuple', 'tuple', 'Sequence', 'Any', 'Iterable'}:
            continue
        body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        free = True
        for s in body:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == p and isinstance(s.value, ast.Call) and \
                    isinstance(s.value.func, ast.Name) and s.value.func.id in ('list', 'sorted') and bool(s.value.args) and isinstance(s.value.args[0], ast.Name) and s.value.args[0].id == p:
                break
            up = {c: x for x in ast.walk(s) for c in ast.iter_child_nodes(x)}
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and x.id == p and isinstance(x.ctx, ast.Load):
                    u = up.get(x)
                    if isinstance(u, ast.Call) and isinstance(u.func, ast.Name) and u.func.id in ('list', 'tuple', 'len', 'sorted', 'sum', 'max', 'min', 'set', 'enumerate', 'reversed', 'zip', 'map', 'any', 'all', 'bool', 'range', 'iter') and x in u.args:
                        continue
                    if isinstance(u, ast.Subscript) and u.value is x and not isinstance(u.slice, ast.Slice) and isinstance(u.ctx, ast.Load):
                        continue
                    if isinstance(u, (ast.For, ast.comprehension)) and u.iter is x:
                        continue
                    if isinstance(u, ast.Compare) and x in u.comparators and all(isinstance(o, (ast.In, ast.NotIn)) for o in u.ops):
                        continue
                    if isinstance(u, (ast.UnaryOp, ast.BoolOp, ast.If, ast.While, ast.IfExp)) and (getattr(u, 'test', x) is x):
                        continue
                    if isinstance(u, ast.Starred):
                        continue
                    if n is None and not (isinstance(u, ast.Call) and isinstance(u.func, ast.Name) and u.func.id in ('isinstance', 'type', 'str', 'repr', 'Schur') or
                                          isinstance(u, (ast.BinOp, ast.Compare)) and any(isinstance(y, (ast.List, ast.Tuple, ast.ListComp)) for y in ast.iter_child_nodes(u)) or
                                          isinstance(u, ast.Subscript) and isinstance(u.slice, ast.Slice) or isinstance(u, ast.FormattedValue)):
                        continue
                    out.append(f'line {x.lineno}: parameter {p} is used as {ast.unparse(u)[:80] if u is not None else p}, which is not the same for a list and a tuple')
    return out


def defaulted(f):
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    return set(pos[len(pos) - len(a.defaults):]) | {x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}


LIST = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts', 'frames.txt')


def listed():
    return {l.split()[0] for l in open(LIST) if l.strip() and not l.startswith('#')} if os.path.exists(LIST) else None


def result(root):
    """like prove.prove"""
    import time
    t = time.time()
    obs, pkg = check(root, listed())
    per, failures = {}, []
    for f, o, bad in obs:
        x = per.setdefault(f, dict(function=f, unit='frames', obligations=0, verified=True, backend='frames.py'))
        x['obligations'] += 1
        if bad:
            x['verified'] = False
            failures.append(dict(function=f, obligation=f'{f}: {o}', detail=bad, line=''))
    w = round(time.time() - t, 2)
    return {'units': ['frames'], 'functions': list(per.values()), 'lemmas': 0, 'lemmas_verified': 0, 'obligations': len(obs), 'discharged': sum(1 for o in obs if not o[2]), 'failures': failures,
            'infra': None, 'solver_s': 0, 'wall_s': w, 'cmd': 'pyvc/frames.py (frame obligations, abstract interpretation of the current source)', 'verus': None, 'vacuity': None, 'obligation_names': {}}


if __name__ == '__main__':
    obs, pkg = check(os.environ.get('VERIF_REPO', '/repo'), listed())
    bad = [o for o in obs if o[2]]
    for o in bad:
        print('FAIL', *o, sep=' | ')
    print(len(obs), 'obligations,', len(bad), 'fail')

"""Mechanical extraction of Python functions of /repo into Verus.

Every function under contract is read from /repo's current source, and its body is
translated statement by statement into a Verus `fn` over mathematical values:
    int -> int, list of int -> Seq<int>, None/list -> Option<Seq<int>>, tuple -> tuple,
    linear combination -> Seq<Term> (a formal sum).
Control flow stays control flow; every operation that Python may refuse (index out of
range, unpacking None, negative exponent, division) becomes an assertion; a call of a function
under contract is seen through its contract only.  Contracts and loop invariants come from the
sidecar files in /verif/contracts.  Whatever is outside the subset raises Unsupported, which
the driver reports as an undischarged obligation of that function.

What the extraction drops: the decorators of `Source.DECORATORS` (memo tables; see C13; any other is refused), type hints, docstrings,
comments, print calls, the Schur(...) and LinearCombination(...) wrappers around values
(see prelude.rs), and the identity of lists (value semantics, justified by the ownership
check in `Owner` below: a list that is changed in place is fresh and has one name).
"""
import ast, re, os, copy


class Unsupported(Exception):
    pass


ABBR = {'F': 'int', 'LF': 'Seq<int>', 'FN': 'int', 'I': 'int', 'B': 'bool', 'L': 'Seq<int>', 'LL': 'Seq<Seq<int>>', 'OL': 'Option<Seq<int>>', 'FS': 'Seq<Term>',
        'OI': 'Option<int>', 'LX': 'Seq<Option<int>>', 'X': '()', 'LFS': 'Seq<Seq<Term>>', 'LLFS': 'Seq<Seq<Seq<Term>>>', 'TABLE': 'Table', 'MTAB': 'MTab', 'R': 'real', 'SET': 'Set<int>', 'SETL': 'Set<Seq<int>>', 'SPACE': 'Space', 'SCAL': 'Seq<Scal>', 'U': '()',
        # expression trees
        'EX': 'Node', 'LEX': 'Seq<Node>', 'TXT': 'Seq<char>', 'PV': 'Pv', 'ST': '(Node, Seq<int>)', 'LST': 'Seq<(Node, Seq<int>)>', 'SX': 'Sx', 'PVI': 'PvI', 'SCO': 'Pv', 'LCO': 'Node', 'ARG': 'Arg', 'SCN': 'Seq<int>', 'FN1': 'spec_fn(Seq<int>) -> Arg'}


def vt(t):
    """Verus type of a type tag"""
    if t in ABBR:
        return ABBR[t]
    if t.startswith('('):
        return '(' + ', '.join(vt(x) for x in split_types(t[1:-1])) + ')'
    return t


def split_types(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '(<':
            d += 1
        if ch in ')>':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


# ---------------------------------------------------------------- sidecar files
class FnSpec:
    def __init__(self, path, qual, params, ret):
        self.path, self.params, self.ret = path, params, ret
        self.label = qual
        m = re.match(r'([\w.]+)(?:@(\w+))?(?:\^(\w+))?$', qual)
        self.qual, self.dyn, self.variant = m.group(1), m.group(2), m.group(3)
        self.vars = None          # names of the locals in order of first binding
        self.types = {}           # declared local types
        self.contract = ''        # requires/ensures/decreases
        self.loops = {}           # ordinal -> text
        self.hints = {}           # anchor -> text
        self.spec = None          # name of a spec fn equal to the result
        self.fun = None           # name of an uninterpreted spec fn for the result (a verified function is a function of its arguments)
        self.exc = False
        self.extern = False       # assumed: only that the result is a function of the arguments
        self.unit = None
        self.attrs = ''
        self.fresh = True
        self.inline = []
        self.drops = set()        # hints and invariants that do not fit the present code
        self.owns = []            # parameters changed in place: callers pass an object of their own
        self.looped = False       # comprehensions become loops

    @property
    def name(self):
        return 'py_' + re.sub(r'\W', '_', self.label)

    @property
    def key(self):
        return (self.path, self.qual + ('@' + self.dyn if self.dyn else ''))


class Table(dict):
    """(path, qualified name) -> contract; several contracts of one function differ in argument types"""

    def __init__(self):
        super().__init__()
        self.variants = {}

    def put(self, fn):
        self.setdefault(fn.key, fn)
        self.variants.setdefault(fn.key, []).append(fn)


class Unit:
    def __init__(self, name):
        self.name, self.uses, self.raw, self.fns, self.order = name, [], '', [], []


def read_units(folder):
    units = {}
    for f in sorted(os.listdir(folder)):
        if not f.endswith('.vrs'):
            continue
        unit, fn, sec, buf = None, None, None, []

        def flush():
            text = '\n'.join(buf)
            buf.clear()
            if unit is None:
                return
            if sec == 'raw':
                unit.raw += text + '\n'
                unit.order.append(('raw', text))
            elif sec == 'contract':
                fn.contract = text
            elif sec and sec.startswith('loop '):
                fn.loops[int(sec.split()[1])] = text
            elif sec and sec.startswith('hint '):
                fn.hints[sec[5:].strip()] = text
        for line in open(os.path.join(folder, f)):
            line = line.rstrip('\n')
            if not line.startswith('//#'):
                buf.append(line)
                continue
            flush()
            cmd = line[3:].strip()
            w = cmd.split(None, 1)
            if w[0] == 'unit':
                unit = Unit(w[1])
                units[unit.name] = unit
                sec = 'raw'
            elif w[0] == 'use':
                unit.uses += w[1].split()
                sec = 'raw'
            elif w[0] == 'fn':
                m = re.match(r'(\S+?)::([\w.@^]+)\((.*)\)\s*->\s*(.*)$', w[1])
                params = []
                for p in split_types(m.group(3)):
                    a, b = p.split(':', 1)
                    params.append((a.strip(), b.strip()))
                fn = FnSpec(m.group(1), m.group(2), params, m.group(4).strip())
                fn.unit = unit.name
                unit.fns.append(fn)
                unit.order.append(('fn', fn))
                sec = 'contract'
            elif w[0] == 'vars':
                fn.vars = w[1].split() if len(w) > 1 else []
                sec = 'contract'
            elif w[0] == 'types':
                for p in split_types(w[1]):
                    a, b = p.split(':', 1)
                    fn.types[a.strip()] = b.strip()
                sec = 'contract'
            elif w[0] == 'spec':
                fn.spec = w[1].strip()
                sec = 'contract'
            elif w[0] == 'fun':
                fn.fun = w[1].strip()
                sec = 'contract'
            elif w[0] == 'attr':
                fn.attrs += w[1] + '\n'
                sec = 'contract'
            elif w[0] == 'owns':
                fn.owns += w[1].split()
                sec = 'contract'
            elif w[0] == 'looped':
                fn.looped = True
                sec = 'contract'
            elif w[0] == 'extern':
                fn.extern = True
                sec = 'contract'
            elif w[0] == 'raises':
                fn.exc = True
                sec = 'contract'
            elif w[0] in ('loop', 'hint'):
                sec = cmd
            elif w[0] == 'end':
                sec = 'raw'
            else:
                raise ValueError(f + ': ' + line)
        flush()
    return units


# ---------------------------------------------------------------- source access
class Source:
    def __init__(self, repo):
        self.repo = repo
        self.trees = {}

    def tree(self, path):
        if path not in self.trees:
            tree = ast.parse(open(os.path.join(self.repo, path)).read())
            self.bindings(tree, path)
            self.trees[path] = tree
        return self.trees[path]

    # decorators that leave the function as it is, or only remember its values (the memo and frame obligations of
    # pyvc/memo.py and pyvc/frames.py); any other decorator can change what a call does
    DECORATORS = ('staticmethod', 'abstractmethod', 'wraps', 'hashable_lru_cache', 'hashable_lru_cache_method')

    def bindings(self, tree, path):
        """the text of a function or method is what its name means: one binding of the name in its module or class,
        no unknown decorator, and nothing sets an attribute of a class or module"""
        imported, classes = set(), {n.name for n in ast.walk(tree) if isinstance(n, ast.ClassDef)}
        for n in ast.walk(tree):
            if isinstance(n, ast.Import):
                imported |= {(a.asname or a.name).split('.')[0] for a in n.names}
            elif isinstance(n, ast.ImportFrom):
                imported |= {a.asname or a.name for a in n.names}
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                for d in n.decorator_list:
                    d = d.func if isinstance(d, ast.Call) else d
                    nm = d.attr if isinstance(d, ast.Attribute) else getattr(d, 'id', '')
                    if nm not in self.DECORATORS and not path.endswith('utils/hash.py'):
                        raise Unsupported(f'{path}:{n.lineno} {n.name}: decorator {nm}')
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                v = n.value
                if isinstance(v, ast.Name) and v.id in imported | classes or isinstance(v, ast.Attribute) and v.attr == '__class__' or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('type', 'super'):
                    raise Unsupported(f'{path}:{n.lineno} sets an attribute of a class or module')
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'vars' or isinstance(n, ast.Name) and n.id in ('setattr', 'delattr', 'globals', 'exec', 'eval', '__builtins__') or isinstance(n, ast.Attribute) and n.attr in ('__dict__', '__setattr__', '__builtins__'):
                raise Unsupported(f'{path}:{n.lineno} {ast.unparse(n)}')
        self.once(tree.body, path)
        for n in ast.walk(tree):
            if isinstance(n, ast.ClassDef):
                self.once(n.body, path)

    def once(self, body, path):
        seen, funs = [], {n.name for n in body if isinstance(n, (ast.FunctionDef, ast.ClassDef))}
        def binds(ss):
            for n in ss:
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    yield n.name, n.lineno
                    continue
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    for a in n.names:
                        yield (a.asname or a.name).split('.')[0], n.lineno
                    continue
                for m in ast.walk(n):
                    if isinstance(m, ast.Name) and isinstance(m.ctx, (ast.Store, ast.Del)):
                        yield m.id, n.lineno
                    elif isinstance(m, (ast.FunctionDef, ast.ClassDef)):
                        yield m.name, n.lineno
                    elif isinstance(m, (ast.Import, ast.ImportFrom)):
                        for a in m.names:
                            yield (a.asname or a.name).split('.')[0], n.lineno
        for nm, line in binds(body):
            if nm in seen and nm in funs:
                raise Unsupported(f'{path}:{line} {nm} is bound a second time')
            seen.append(nm)
        # a nested function that declares the name global
        for n in body:
            for m in ast.walk(n):
                if isinstance(m, ast.Global) and set(m.names) & funs:
                    raise Unsupported(f'{path}:{m.lineno} global {m.names}')

    def function(self, path, qual):
        body = self.tree(path).body
        parts = qual.split('.')
        for cls in parts[:-1]:
            c = [n for n in body if isinstance(n, ast.ClassDef) and n.name == cls]
            if not c:
                raise Unsupported(f'no class {cls} in {path}')
            body = c[-1].body
        f = [n for n in body if isinstance(n, ast.FunctionDef) and n.name == parts[-1]]
        if not f:
            # a second name of a function:  b = a
            same = [n for n in body if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id == parts[-1] and isinstance(n.value, ast.Name)]
            if same and same[-1].value.id != parts[-1]:
                return self.function(path, '.'.join(parts[:-1] + [same[-1].value.id]))
            raise Unsupported(f'no function {qual} in {path}')
        return f[-1]

    def outer_of(self, path, qual):
        """the contract name of the enclosing function when qual names a function defined inside a function"""
        if '.' not in qual:
            return None
        try:
            self.function(path, qual.rsplit('.', 1)[0])
        except Unsupported:
            return None
        return qual.rsplit('.', 1)[0]

    def nested(self, path, qual, known=()):
        """-> (function defined inside a function, names it takes from there in order of first use); names that are set
        once to an expression of the parameters, and that the contract does not name, are set inside instead"""
        outer = self.function(path, qual.rsplit('.', 1)[0])
        nm = qual.rsplit('.', 1)[1]
        inner = [n for n in outer.body if isinstance(n, ast.FunctionDef)]
        f = [n for n in inner if n.name == nm] or (inner if len(inner) == 1 else [])
        if not f:
            raise Unsupported(f'no function {qual} in {path}')
        f = f[-1]
        own = {a.arg for a in f.args.args} | {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        avail = {a.arg for a in outer.args.args} | set(binding_order(outer))
        stores = [n.id for n in ast.walk(outer) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)]
        caps = []
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in avail and n.id not in own and n.id not in caps:
                if stores.count(n.id) + (n.id in {a.arg for a in outer.args.args}) != 1:
                    raise Unsupported(f'{qual}: {n.id} is changed in the enclosing function')
                caps.append(n.id)
        params = [a.arg for a in outer.args.args]
        once = {a.targets[0].id: a for a in outer.body if isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and stores.count(a.targets[0].id) == 1 and a.targets[0].id not in params}
        plain = (ast.Name, ast.Attribute, ast.BinOp, ast.UnaryOp, ast.Constant, ast.Tuple, ast.operator, ast.unaryop, ast.Load)

        def fixed(x, seen=()):
            """the assignments that give x its value, or None"""
            if x in params:
                return [] if stores.count(x) == 0 else None
            if x not in once or x in seen or not all(isinstance(e, plain) for e in ast.walk(once[x].value)):
                return None
            out = []
            for e in ast.walk(once[x].value):
                if isinstance(e, ast.Name):
                    r = fixed(e.id, seen + (x,))
                    if r is None:
                        return None
                    out += [a for a in r if a not in out]
            return out + [once[x]]
        pre = []
        if known:
            for c in list(caps):
                r = fixed(c) if c not in known and c not in params else None
                if r:
                    pre += [a for a in r if a not in pre]
                    caps.remove(c)
            for a in pre:
                for e in ast.walk(a.value):
                    if isinstance(e, ast.Name) and e.id in params and e.id not in caps:
                        caps.append(e.id)
        if pre:
            f = copy.deepcopy(f)
            f.body = [copy.deepcopy(a) for a in pre] + f.body
        return f, caps

    def find_class(self, name):
        d = os.path.join(self.repo, 'schubertpy')
        for f in sorted(os.listdir(d)):
            if f.endswith('.py'):
                for n in self.tree('schubertpy/' + f).body:
                    if isinstance(n, ast.ClassDef) and n.name == name:
                        return 'schubertpy/' + f, n
        return None

    def mro(self, name):
        out = []
        while name:
            c = self.find_class(name)
            if c is None:
                break
            out.append((c[0], name))
            b = [x.id for x in c[1].bases if isinstance(x, ast.Name)]
            name = b[0] if b else None
        return out

    def maketrans(self, path, name):
        """NAME = str.maketrans('from', 'to') of the repository -> ('from', 'to')"""
        r = self.resolve(path, name)
        if r is None:
            return None
        vals = [n.value for n in self.tree(r[0]).body if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == r[1] for t in n.targets)]
        if len(vals) == 1 and isinstance(vals[0], ast.Call) and ast.unparse(vals[0].func) == 'str.maketrans' and len(vals[0].args) == 2 and not vals[0].keywords and \
                all(isinstance(a, ast.Constant) and isinstance(a.value, str) for a in vals[0].args) and len(vals[0].args[0].value) == len(vals[0].args[1].value):
            return vals[0].args[0].value, vals[0].args[1].value
        return None

    def resolve(self, path, name):
        """where a global name used in `path` is defined: (path, name) or None"""
        seen = set()
        while (path, name) not in seen:
            seen.add((path, name))
            t = self.tree(path)
            nxt = None
            for n in t.body:
                if isinstance(n, ast.FunctionDef) and n.name == name:
                    nxt = 'here'
                elif isinstance(n, ast.ClassDef) and n.name == name:
                    nxt = 'here'
                elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id == name:
                    nxt = (path, n.value.id) if isinstance(n.value, ast.Name) else 'here'
                elif isinstance(n, ast.ImportFrom):
                    for a in n.names:
                        if (a.asname or a.name) == name and (n.level or (n.module or '').startswith('schubertpy')):
                            base = os.path.dirname(path)
                            if n.level:
                                for _ in range(n.level - 1):
                                    base = os.path.dirname(base)
                                mod = (n.module or '').replace('.', '/')
                                nxt = (os.path.join(base, mod + '.py'), a.name)
                            else:
                                nxt = (n.module.replace('.', '/') + '.py', a.name)
            if nxt is None:
                return None
            if nxt == 'here':
                return (path, name)
            path, name = nxt
        return None


def binding_order(fn):
    """local names (not parameters) in order of first binding, outside comprehensions"""
    params = {a.arg for a in fn.args.args}
    out = []

    def tgt(t):
        if isinstance(t, ast.Name):
            if t.id not in out and t.id not in params:
                out.append(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                tgt(x)

    def walk(b):
        for s in b:
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    tgt(t)
            elif isinstance(s, (ast.AugAssign, ast.AnnAssign)):
                tgt(s.target)
            elif isinstance(s, ast.For):
                tgt(s.target)
                walk(s.body)
                walk(s.orelse)
            elif isinstance(s, (ast.While, ast.If)):
                walk(s.body)
                walk(s.orelse)
    walk(fn.body)
    return out


class Rename(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit_Name(self, n):
        if n.id in self.m:
            return ast.copy_location(ast.Name(self.m[n.id], n.ctx), n)
        return n


def names_in(node):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name)}


def pure_const(e):
    return all(isinstance(n, (ast.Constant, ast.Name, ast.Load, ast.Tuple, ast.List, ast.UnaryOp, ast.USub, ast.Not)) for n in ast.walk(e))


def split_sets(fn, names):
    """a set that is rebound to a list by a statement of the function's own block: from there on the list is
    another variable (name_l)"""
    for v in names:
        bound = False
        for i, st in enumerate(fn.body):
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and st.targets[0].id == v:
                if bound and not (isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Name) and st.value.func.id == 'set'):
                    st.targets[0] = ast.copy_location(ast.Name(v + '_l', ast.Store()), st.targets[0])
                    fn.body[i + 1:] = [Rename({v: v + '_l'}).visit(x) for x in fn.body[i + 1:]]
                    break
                bound = True


def simultaneous(pairs):
    """let names = values, the values read before any of the names is bound"""
    return ' '.join(f'let {p}__v = {x};' for p, x in pairs) + ' ' + ' '.join(f'let {p} = {p}__v;' for p, x in pairs)


def mentions(node, v):
    return any(isinstance(n, ast.Name) and n.id == v for n in ast.walk(node))


def sets_first(b, v):
    """the block b assigns v on every path before any use of it"""
    for st in b:
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and st.targets[0].id == v:
            return not mentions(st.value, v)
        if isinstance(st, ast.If) and not mentions(st.test, v) and mentions(st, v):
            return sets_first(st.body, v) and sets_first(st.orelse, v)
        if mentions(st, v) or isinstance(st, (ast.Return, ast.Raise, ast.Break, ast.Continue)):
            return False
    return False


def drop_none(b):
    """drop `x = None` where x is assigned again before any use"""
    out = []
    for i, st in enumerate(b):
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and isinstance(st.value, ast.Constant) \
                and st.value.value is None and sets_first(b[i + 1:], st.targets[0].id):
            continue
        for f in ('body', 'orelse'):
            if isinstance(st, (ast.If, ast.For, ast.While)) and getattr(st, f):
                setattr(st, f, drop_none(getattr(st, f)))
        out.append(st)
    return out


class Cleaner(ast.NodeTransformer):
    """drop statements that do nothing: docstrings, constants, pass, print, dead assignments of constants, `if False`"""

    def __init__(self, fn):
        loads = {}
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                loads[n.id] = loads.get(n.id, 0) + 1
        self.loads = loads

    def block(self, b):
        out = []
        for s in b:
            s = self.stmt(s)
            if s is None:
                continue
            if isinstance(s, list):
                out += s
            else:
                out.append(s)
        return out

    def stmt(self, s):
        if isinstance(s, ast.Pass):
            return None
        if isinstance(s, ast.Expr):
            if pure_const(s.value):
                return None
            if isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id == 'print':
                return None
        if isinstance(s, ast.Assert) and isinstance(s.test, ast.Constant) and s.test.value:
            return None
        if isinstance(s, ast.Assign) and all(isinstance(t, ast.Name) and not self.loads.get(t.id) for t in s.targets) and \
                not any(isinstance(n, (ast.Call, ast.Subscript, ast.BinOp)) for n in ast.walk(s.value)):
            return None
        if isinstance(s, ast.AnnAssign) and s.value is not None:
            s = ast.copy_location(ast.Assign([s.target], s.value), s)
        if isinstance(s, ast.AnnAssign):
            return None
        if isinstance(s, ast.If):
            s.body, s.orelse = self.block(s.body), self.block(s.orelse)
            if isinstance(s.test, ast.Constant):
                return s.body if s.test.value else s.orelse
            if not s.body and not s.orelse and pure_const(s.test):
                return None
        if isinstance(s, (ast.For, ast.While)):
            s.body = self.block(s.body)
            s.orelse = self.block(s.orelse)
            if isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and not s.test.value:
                return None
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return None
        return s


# ---------------------------------------------------------------- loops that build a list
def conj(tests):
    return tests[0] if len(tests) == 1 else ast.BoolOp(ast.And(), tests)


def collected(body):
    """the body of a loop that only appends to a list / adds to a number, under conditions: (conditions, statement)"""
    if len(body) == 1 and isinstance(body[0], ast.If) and not body[0].orelse:
        r = collected(body[0].body)
        return r and ([body[0].test] + r[0], r[1])
    if len(body) == 2 and isinstance(body[0], ast.If) and not body[0].orelse and len(body[0].body) == 1 and isinstance(body[0].body[0], ast.Continue):
        r = collected(body[1:])
        return r and ([ast.UnaryOp(ast.Not(), body[0].test)] + r[0], r[1])
    if len(body) == 1 and isinstance(body[0], (ast.Expr, ast.AugAssign)):
        return [], body[0]
    return None


def as_comprehension(a, f, used_later):
    """x = []; for v in it: if c: x.append(e)  ->  x = [e for v in it if c];  x = 0; ... x += e  ->  x = sum(...)"""
    if not (isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and isinstance(f, ast.For) and not f.orelse and isinstance(f.target, ast.Name)):
        return None
    x, v = a.targets[0].id, f.target.id
    r = collected(f.body)
    if r is None or v in used_later or x == v:
        return None
    ifs, st = r
    if isinstance(st, ast.Expr):
        c = st.value
        if not (isinstance(a.value, ast.List) and not a.value.elts and isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'append'
                and isinstance(c.func.value, ast.Name) and c.func.value.id == x and len(c.args) == 1 and not c.keywords):
            return None
        elt, wrap = c.args[0], None
    else:
        if not (isinstance(a.value, ast.Constant) and a.value.value == 0 and type(a.value.value) is int and isinstance(st.op, ast.Add) and isinstance(st.target, ast.Name) and st.target.id == x):
            return None
        elt, wrap = st.value, 'sum'
    if any(mentions(e, x) for e in [elt, f.iter] + ifs):
        return None
    g = [ast.comprehension(f.target, f.iter, [conj(ifs)] if ifs else [], 0)]
    val = ast.ListComp(elt, g) if wrap is None else ast.Call(ast.Name('sum', ast.Load()), [ast.GeneratorExp(elt, g)], [])
    return x, ast.copy_location(ast.Assign(a.targets, val), f)


def fold_loops(fn, spec):
    """loops the contract does not know, in code where it knows fewer loops than there are"""
    total = sum(isinstance(n, (ast.For, ast.While)) for n in ast.walk(fn))
    ks = [int(k) for k in spec.loops] + [int(m.group(1)) for a in spec.hints for m in [re.search(r'loop (\d+)', a)] if m]
    extra = total - (max(ks) + 1 if ks else 0)
    if extra <= 0:
        return

    def names(n, skip):
        """the names in n without those a comprehension or a lambda binds itself"""
        if n is skip:
            return set()
        if isinstance(n, ast.Name):
            return {n.id}
        out = set()
        for c in ast.iter_child_nodes(n):
            out |= names(c, skip)
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            first = names(n.generators[0].iter, skip)
            out = (out - {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}) | first
        return out

    def later(blocks, skip):
        return {x for b in blocks for st in b for x in names(st, skip)}

    def block(b, after):
        nonlocal extra
        i = 0
        while i < len(b):
            st = b[i]
            for fld in ('body', 'orelse'):
                if isinstance(st, (ast.If, ast.For, ast.While)) and getattr(st, fld):
                    block(getattr(st, fld), after + [b[i + 1:]] + ([b] if isinstance(st, (ast.For, ast.While)) else []))
            if extra > 0 and i + 1 < len(b):
                r = as_comprehension(st, b[i + 1], later([b[i + 2:]] + after, b[i + 1]))
                if r and not (spec.types.get(r[0], '').startswith('SET')):
                    b[i:i + 2] = [r[1]]
                    extra -= 1
            i += 1
    block(fn.body, [])
    ast.fix_missing_locations(fn)


# ---------------------------------------------------------------- inlining of helpers without contract
class Inliner:
    """calls of repository functions that have no contract are expanded in place, as statements,
    when they have a single return at the end (this is what an extracted helper looks like)"""

    def __init__(self, tr):
        self.tr = tr
        self.n = 0

    def candidate(self, call):
        if not isinstance(call, ast.Call) or call.keywords or any(isinstance(a, ast.Starred) for a in call.args):
            return None
        tr = self.tr
        if isinstance(call.func, ast.Name):
            if call.func.id in tr.localdefs:
                return tr.localdefs[call.func.id], call.args
            r = tr.src.resolve(tr.path, call.func.id)
            if r is None or r in tr.table or not r[0].startswith('schubertpy/'):
                return None
            try:
                f = tr.src.function(*r)
            except Unsupported:
                return None
            if r[0] != tr.path:
                return None
            return f, call.args
        if isinstance(call.func, ast.Attribute) and isinstance(call.func.value, ast.Name) and call.func.value.id in ('self', 'self_') and tr.cls:
            found = tr.method_of(call.func.attr)
            if found is None or isinstance(found, FnSpec):
                return None
            f = found
            static = any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in f.decorator_list)
            return f, (list(call.args) if static else [ast.Name('self_', ast.Load())] + list(call.args))
        return None

    def expand(self, body, depth=0):
        out = []
        for s in body:
            if isinstance(s, (ast.If, ast.While, ast.For)):
                pre = []
                if isinstance(s, ast.If):
                    pre = self.hoist(s, 'test', depth)
                elif isinstance(s, ast.For):
                    pre = self.hoist(s, 'iter', depth)
                s.body = self.expand(s.body, depth)
                s.orelse = self.expand(s.orelse, depth)
                out += pre + [s]
                continue
            pre = []
            for field in ('value', 'test', 'exc'):
                if getattr(s, field, None) is not None and isinstance(getattr(s, field), ast.AST):
                    pre += self.hoist(s, field, depth)
            out += pre + [s]
        return out

    def hoist(self, s, field, depth):
        if depth > 4:
            return []
        pre = []
        me = self

        class H(ast.NodeTransformer):
            def visit_Lambda(self, n):
                return n
            visit_ListComp = visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_IfExp = visit_BoolOp = visit_Lambda

            def visit_Call(self, n):
                self.generic_visit(n)
                c = me.candidate(n)
                if c is None:
                    return n
                r = me.body(c[0], c[1], depth)
                if r is None:
                    return n
                pre.extend(r[0])
                return r[1]
        setattr(s, field, H().visit(getattr(s, field)))
        return pre

    def body(self, f, args, depth):
        params = [a.arg for a in f.args.args]
        nd = len(f.args.defaults)
        if len(args) < len(params) - nd or len(args) > len(params) or f.args.vararg or f.args.kwarg:
            return None
        args = list(args) + [copy.deepcopy(x) for x in f.args.defaults[nd - (len(params) - len(args)):]] if len(args) < len(params) else list(args)
        f = copy.deepcopy(f)
        b = Cleaner(f).block(f.body)
        if not b or not isinstance(b[-1], ast.Return) or b[-1].value is None:
            return None
        if any(isinstance(n, ast.Return) for s in b[:-1] for n in ast.walk(s)):
            return None
        self.n += 1
        caller = self.tr.allnames
        assigned = set(binding_order(f))
        mp = {}
        for nm in assigned:
            if nm in caller:
                mp[nm] = f'{nm}_h{self.n}'
            else:
                caller.add(nm)
            if nm not in params:
                self.tr.inlined.add(mp.get(nm, nm))
        pre = []
        assigned_params = {t.id for n in ast.walk(f) for t in ([n] if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) else []) if t.id in params}
        mutated = {n.func.value.id for n in ast.walk(f) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name)} | \
                  {n.value.id for n in ast.walk(f) if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name)}
        for p, a in zip(params, args):
            if p == 'self':
                mp['self'] = 'self_'
                continue
            if isinstance(a, ast.Name) and p not in assigned_params:
                mp[p] = a.id
                continue
            v = p if p not in caller else f'{p}_h{self.n}'
            caller.add(v)
            mp[p] = v
            pre.append(ast.Assign([ast.Name(v, ast.Store())], a))
        ren = Rename(mp)
        b = [ren.visit(s) for s in b]
        pre += self.expand(b[:-1], depth + 1)
        last = b[-1]
        pre += self.hoist(last, 'value', depth + 1)
        for s in pre:
            ast.fix_missing_locations(s)
        return pre, last.value


# ---------------------------------------------------------------- translation
COERCIBLE = {('L', 'EMPTY'), ('L', 'OL'), ('OL', 'L'), ('OL', 'NONE'), ('FS', 'L'), ('FS', 'I'), ('FS', 'OL'), ('OI', 'I'), ('I', 'OI'), ('FS', 'SCAL'), ('LL', 'EMPTY'), ('FS', 'EMPTY'), ('I', 'B')}
SPACE_FIELDS = {'_type': 'STR', '_k': 'I', '_n': 'I', '_pieri': 'STR', '_qpieri': 'STR'}
BUILTIN_PURE = {'len', 'min', 'max', 'sum', 'abs', 'list', 'tuple', 'int', 'range', 'sorted', 'reversed', 'set', 'isinstance', 'all', 'any', 'enumerate', 'str', 'Schur', 'LinearCombination', 'bool', 'zip', 'hash'}
WRAP = {'Schur', 'LinearCombination'}


def in_order(caps, spec):
    """the names taken from the enclosing function, as the contract lists them"""
    names = [p for p, t in spec.params]
    last = names[len(names) - len(caps):] if caps else []
    return last if set(last) == set(caps) else caps


class Retype(Exception):
    """a list that starts empty holds elements of another type than assumed"""

    def __init__(self, name, t):
        self.name, self.t = name, t


def translate(src, table, spec, strings):
    retyped = {}
    for _ in range(8):
        tr = Tr(src, table, spec, strings)
        tr.retyped = retyped
        try:
            return tr, tr.function()
        except Retype as e:
            if e.name in retyped:
                raise Unsupported(f'{spec.label}: elements of {e.name}')
            retyped[e.name] = e.t
    raise Unsupported(f'{spec.label}: types of lists')


class Tr:
    retyped = {}

    def __init__(self, src, table, spec, strings):
        self.src, self.table, self.spec, self.strings = src, table, spec, strings
        self.path = spec.path
        self.cls = spec.qual.rsplit('.', 1)[0] if '.' in spec.qual else None
        self.lines = []       # (text, note)
        self.ind = 1
        self.tmp = 0
        self.loopno = 0
        self.obl = []
        self.types = {}
        self.localdefs = {}
        self.inlined = set()
        self.binders = []
        self.loopstack = []
        self.dead = False
        self.whole = set()
        self.guessed = set()
        self.callno = {}
        self.nested_names = {}
        self.nested_caps = {}
        self.labels = set()

    # ---- output
    def emit(self, text, note=None):
        self.lines.append(('    ' * self.ind + text, note))

    capture = None

    def oblige(self, cond, what, node):
        if self.capture is not None:
            self.capture.append(cond)       # the precondition of a function value
            return
        note = f"{self.spec.path}:{getattr(node, 'lineno', 0)} {self.spec.label}: {what}"
        self.obl.append(note)
        if self.binders:
            vs = ', '.join(f'{v}: {vt(t)}' for v, t, g in self.binders)
            gs = ' && '.join(f'({g})' for v, t, g in self.binders)
            tg = ', '.join(f'tg({v})' for v, t, g in self.binders)
            self.emit(f'assert forall|{vs}| #![trigger {tg}] {gs} implies ({cond}) by {{}}', note)
        else:
            self.emit(f'assert({cond});', note)

    def fresh(self, p='t'):
        self.tmp += 1
        return f'{p}__{self.tmp}'

    def fail(self, node, msg):
        raise Unsupported(f"{self.spec.path}:{getattr(node, 'lineno', 0)} {self.spec.label}: {msg}: {ast.unparse(node)[:120]}")

    # ---- types
    def coerce(self, code, t, want, node):
        if want is None or t == want:
            return code
        if want == 'OL':
            if t == 'L':
                return f'Some({code})'
            if t == 'NONE' or code in ('0int', 'false'):
                return 'None::<Seq<int>>'
        if want == 'L' and t == 'OL':
            self.oblige(f'({code}).is_some()', 'value is a list (not None)', node)
            return f'({code}).unwrap()'
        if t == 'X':
            self.oblige('false', 'a value of this kind is not used', node)
            return 'arbitrary()'
        if want == 'L' and t == 'LX':
            i = self.fresh('i')
            self.oblige(f'forall|{i}: int| 0 <= {i} < {code}.len() ==> (#[trigger] {code}[{i}]).is_some()', 'all entries are integers', node)
            return f'{code}.map_values(|x: Option<int>| x.unwrap())'
        if want == 'I' and t == 'OI':
            self.oblige(f'({code}).is_some()', 'value is an integer', node)
            return f'({code}).unwrap()'
        if want == 'OI' and t in ('I', 'B'):
            return f'Some({self.coerce(code, t, "I", node)})'
        if want == 'L' and t in ('EMPTY', 'SETE'):
            return 'Seq::<int>::empty()'
        if want == 'LL' and t == 'L' and code in self.labels:
            return f'unlabel({code})'       # a class whose list is a pair of lists
        if want == 'LL' and t == 'EMPTY':
            return 'Seq::<Seq<int>>::empty()'
        if want == 'LLFS' and t == 'EMPTY':
            return 'Seq::<Seq<Seq<Term>>>::empty()'
        if want == 'LFS' and t == 'EMPTY':
            return 'Seq::<Seq<Term>>::empty()'
        if want == 'LFS' and t == 'L':
            return f'{code}.map_values(|x: int| fs_const(x))'
        if want == 'LLFS' and t == 'LL':
            return f'{code}.map_values(|r: Seq<int>| r.map_values(|x: int| fs_const(x)))'
        if want == 'OL' and t == 'EMPTY':
            return 'Some(Seq::<int>::empty())'
        if want == 'SET' and t == 'SETE':
            return 'Set::<int>::empty()'
        if want == 'SETL' and t == 'SETE':
            return 'Set::<Seq<int>>::empty()'
        if want == 'FS':
            if t == 'I':
                return f'fs_const({code})'
            if t == 'L':
                return f'fs_one({code})'
            if t == 'OL':
                return f'fs_opt({code})'
            if t == 'LL':
                return f'fs_one(label({code}))'
            if t == 'SCAL':
                return f'fs_scal({code})'
            if t == 'EMPTY':
                return f'fs_one(Seq::<int>::empty())'
        if want == 'P' and t == 'I':
            return f'fs_const({code})'
        if want in ('ST', 'SX') and t.startswith('(') and len(split_types(t[1:-1])) == 2:
            t1, t2 = split_types(t[1:-1])
            v = f'({self.coerce(f"({code}).0", t1, "EX", node)}, {self.coerce(f"({code}).1", t2, "L", node)})'
            return v if want == 'ST' else f'Sx::One({v})'
        if want == 'SX' and t == 'ST':
            return f'Sx::One({code})'
        if want == 'OPART' and t == 'PART':
            return f'Some({code})'
        if want == 'OPART' and code == '0int':
            return 'None::<Seq<int>>'
        if want == 'PART' and t == 'OPART':
            self.oblige(f'({code}).is_some()', 'value is a partition', node)
            return f'({code}).unwrap()'
        if want == 'RIM' and t.startswith('(') and len(split_types(t[1:-1])) == 3:
            m = re.fullmatch(r'\((.*)\)', code, re.S)
            parts = split_top(m.group(1)) if m else []
            if len(parts) == 3:
                ts = split_types(t[1:-1])
                return '(' + ', '.join(self.coerce(c.strip(), ty, w, node) for c, ty, w in zip(parts, ts, ('OPART', 'I', 'I'))) + ')'
        if want == 'L' and t.startswith('(') and set(split_types(t[1:-1])) == {'I'}:
            n_ = len(split_types(t[1:-1]))
            return f'seq![{", ".join(f"({code}).{i}" for i in range(n_))}]'
        if want == 'OPX' and t == 'PX':
            return f'Some({code})'
        if want == 'PX' and t == 'OPX':
            self.oblige(f'{code}.is_some()', 'a polynomial', node)
            return f'{code}.unwrap()'
        if want == 'PX' and t == 'VX':
            return f'px_pow({code}, 1)'
        if want == 'SX' and t in ('LST', 'EMPTY'):
            return f'Sx::Many({self.coerce(code, t, "LST", node)})'
        if want == 'LST' and t == 'EMPTY':
            return 'Seq::<(Node, Seq<int>)>::empty()'
        if want == 'ST' and t == 'SX':
            self.oblige(f'({code}) is One', 'a single term', node)
            return f'({code})->One_0'
        if want == 'EX' and t == 'LCO':
            return code
        if want == 'ARG' and t in ('EX', 'LCO', 'TXT', 'L', 'SCN', 'I'):
            return f'Arg::{dict(EX="Expr", LCO="Lc", TXT="Text", L="Lst", SCN="Sch", I="Int")[t]}({code})'
        if want == 'LCO' and t == 'ARG':
            self.oblige(f'({code}) is Lc', 'a LinearCombination', node)
            return f'({code})->Lc_0'
        if t == 'ARG' and want == 'EX':
            self.oblige(f'({code}) is Expr || ({code}) is Int', 'an expression or a number', node)
            return f'anode({code})'
        if t == 'ARG' and want == 'L':
            self.oblige(f'({code}) is Lst', 'a list', node)
            return f'({code})->Lst_0'
        if want == 'LEX' and t == 'EMPTY':
            return 'Seq::<Node>::empty()'
        if want == 'EX' and t == 'I':
            return f'Node::Int({code})'
        if want == 'SC' and t in ('SYM', 'SCH'):
            return f'SC {{ l: {code}, sym: {"true" if t == "SYM" else "false"} }}'
        if want == 'SCH' and t in ('L', 'SCHUR'):
            return code
        if want == 'F' and t in ('I', 'B'):
            return self.coerce(code, t, 'I', node)
        if want == 'LF' and t in ('L', 'EMPTY'):
            return self.coerce(code, t, 'L', node)
        if want == 'I' and t == 'B':
            return f'(if {code} {{ 1int }} else {{ 0int }})'
        if want.startswith('(') and t.startswith('('):
            ws, ts = split_types(want[1:-1]), split_types(t[1:-1])
            if len(ws) == len(ts):
                if code.startswith('(') and False:
                    pass
                v = self.fresh('tp')
                self.emit(f'let ghost {v}: {vt_any(t)} = {code};')
                return '(' + ', '.join(self.coerce(f'{v}.{i}', a, b, node) for i, (a, b) in enumerate(zip(ts, ws))) + ')'
        self.fail(node, f'cannot use a {t} where a {want} is expected')

    def typ(self, want, node, code_t):
        return self.coerce(code_t[0], code_t[1], want, node)

    # ---- expressions
    def truth(self, node):
        c, t = self.ex(node)
        return self.truth_of(c, t, node)

    def truth_of(self, c, t, node):
        if t == 'B':
            return c
        if t in ('L', 'LL', 'FS', 'LF', 'LFS', 'LLFS', 'LEX', 'LST', 'LSYM'):
            return f'({c}.len() > 0)'
        if t == 'OL':
            return f'({c}.is_some() && {c}.unwrap().len() > 0)'
        if t == 'I':
            return f'({c} != 0)'
        if t in ('NONE', 'EMPTY'):
            return 'false'
        self.fail(node, f'truth value of {t}')

    def list_of(self, node):
        c, t = self.ex(node)
        if t == 'OL':
            return self.coerce(c, t, 'L', node), 'L'
        if t == 'EMPTY':
            return 'Seq::<int>::empty()', 'L'
        return c, t

    def num(self, node):
        c, t = self.ex(node)
        if t not in ('I', 'B', 'OI'):
            self.fail(node, f'number expected, got {t}')
        return self.coerce(c, t, 'I', node)

    def guarded(self, guard, fn):
        """run fn() emitting its obligations only under `guard` (short circuit evaluation)"""
        save, self.lines = self.lines, []
        r = fn()
        new, self.lines = self.lines, save
        if new:
            if guard == 'true':
                self.lines += new
            elif all(x[0].strip().startswith('assert') for x in new):
                for text, note in new:
                    tx = text.strip()
                    m = re.match(r'assert\((.*)\);$', tx, re.S)
                    if m:
                        self.lines.append((f'{"    " * self.ind}assert(({guard}) ==> ({m.group(1)}));', note))
                    else:
                        self.lines.append((f'{"    " * self.ind}if_ghost({guard});', None)) if False else None
                        m = re.match(r'assert forall\|(.*?)\| (#!\[trigger .*?\]) (.*) implies (.*) by \{\}$', tx, re.S)
                        self.lines.append((f'{"    " * self.ind}assert forall|{m.group(1)}| {m.group(2)} ({guard}) && {m.group(3)} implies {m.group(4)} by {{}}', note))
            else:
                return None, new, r
        return r, None, None

    def ex(self, node):
        m = getattr(self, 'ex_' + type(node).__name__, None)
        if m is None:
            self.fail(node, f'expression {type(node).__name__}')
        return m(node)

    def ex_Constant(self, n):
        v = n.value
        if v is None:
            return 'None::<Seq<int>>', 'NONE'
        if v is True or v is False:
            return ('true' if v else 'false'), 'B'
        if isinstance(v, int):
            return (f'{v}int' if v >= 0 else f'(-{-v}int)'), 'I'
        if isinstance(v, str):
            return self.strconst(v), 'STR'
        self.fail(n, 'constant')

    def chars(self, text):
        if any(ord(c) < 32 or ord(c) > 126 for c in text):
            raise Unsupported(f'{self.spec.label}: text {text!r}')
        return 'seq![' + ', '.join("'" + ('\\' if c in "'\\" else '') + c + "'" for c in text) + ']' if text else 'Seq::<char>::empty()'

    def ex_JoinedStr(self, n):
        parts = [v.value if isinstance(v, ast.FormattedValue) else None for v in n.values]
        if any(p is not None and self.peek(p) in ('PV', 'TXT') for p in parts) and all(not isinstance(v, ast.FormattedValue) or (v.conversion == -1 and v.format_spec is None) for v in n.values):
            out = []
            for v in n.values:
                if isinstance(v, ast.Constant):
                    out.append(self.chars(v.value))
                    continue
                c, t = self.ex(v.value)
                if t not in ('PV', 'TXT'):
                    self.fail(n, f'formatted {t}')
                out.append(c if t == 'TXT' else f'pv_repr({c})')
            return '(' + ' + '.join(out) + ')', 'TXT'
        # a formatted text: its template and the values put in
        tmpl, vals = '', []
        for v in n.values:
            if isinstance(v, ast.Constant):
                tmpl += v.value
            else:
                if v.conversion != -1 or v.format_spec is not None:
                    self.fail(n, 'format')
                tmpl += '{}'
                c, t = self.ex(v.value)
                if t not in ('I', 'STR'):
                    self.fail(n, f'formatted {t}')
                vals.append((c, t))
        return '(' + ', '.join([self.strconst(tmpl)] + [c for c, t in vals]) + ')', '(' + ','.join(['STR'] + [t for c, t in vals]) + ')'

    def strconst(self, v):
        if v not in self.strings:
            self.strings[v] = len(self.strings) + 1
        return f'{self.strings[v]}int'

    def ex_Name(self, n):
        if n.id in self.whole and self.types.get(n.id) == 'LF':
            return n.id, 'L'
        if n.id not in self.types:
            r = self.src.resolve(self.path, n.id)
            if r is not None and r in self.table:
                return self.strconst('fn ' + r[0] + '::' + r[1]), 'FN'
        if n.id in self.types:
            return n.id, self.types[n.id]
        if n.id in ('True', 'False'):
            return n.id.lower(), 'B'
        self.fail(n, 'unknown name')

    def ex_List(self, n):
        if not n.elts:
            return 'Seq::<int>::empty()', 'EMPTY'
        es = [self.ex(e) for e in n.elts]
        ts = {t for c, t in es}
        if ts <= {'I', 'B'}:
            return 'seq![' + ', '.join(self.coerce(c, t, 'I', n) for c, t in es) + ']', 'L'
        if ts == {'I', 'STR'}:
            return '(' + ', '.join(c for c, t in es) + ')', '(' + ','.join(t for c, t in es) + ')'
        if ts <= {'L', 'EMPTY', 'OL'}:
            return 'seq![' + ', '.join(self.coerce(c, t, 'L', n) for c, t in es) + ']', 'LL'
        self.fail(n, f'list of {ts}')

    def ex_Tuple(self, n):
        es = [self.ex(e) for e in n.elts]
        return '(' + ', '.join(c for c, t in es) + (',' if len(es) == 1 else '') + ')', '(' + ','.join(t for c, t in es) + ')'

    def ex_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            c = self.truth(n.operand)
            if c in ('true', 'false'):
                return ('false' if c == 'true' else 'true'), 'B'
            return f'!({c})', 'B'
        if isinstance(n.op, ast.USub):
            if isinstance(n.operand, ast.Constant) and isinstance(n.operand.value, int):
                return f'(-{n.operand.value}int)', 'I'
            c, t = self.ex(n.operand)
            if t == 'FS':
                return f'fs_scale(-1real, {c})', 'FS'
            return f'(-{self.num(n.operand)})', 'I'
        self.fail(n, 'operator')

    def ex_BoolOp(self, n):
        # short circuit: the obligations of later operands hold under the earlier ones
        is_and = isinstance(n.op, ast.And)
        codes = []
        for v in n.values:
            if codes and codes[-1] == ('false' if is_and else 'true'):
                return codes[-1], 'B'
            codes = [c for c in codes if c != ('true' if is_and else 'false')]
            g = ' && '.join(codes) if is_and else ' && '.join(f'!({c})' for c in codes)
            r, new, val = self.guarded(g or 'true', lambda: self.truth(v))
            if new is not None:
                # a call inside: make it a real branch
                b = self.fresh('b')
                self.emit(f'let ghost mut {b}: bool = {"true" if not is_and else "false"};') if False else None
                self.emit(f'let ghost mut {b}: bool = {"false" if is_and else "true"};')
                cv = self.fresh('g')
                self.emit(f'let ghost {cv}: bool = {g}; let {cv}x = test(Ghost({cv}));')
                self.emit(f'if {cv}x {{')
                for text, note in new:
                    self.lines.append(('    ' + text, note))
                self.emit(f'    proof {{ {b} = {val}; }}')
                self.emit('}')
                codes.append(b)
            else:
                codes.append(r)
        op = ' && ' if is_and else ' || '
        if codes and codes[-1] == ('false' if is_and else 'true'):
            return codes[-1], 'B'
        codes = [c for c in codes if c != ('true' if is_and else 'false')]
        if not codes:
            return ('true' if is_and else 'false'), 'B'
        return '(' + op.join(f'({c})' for c in codes) + ')', 'B'

    def ex_IfExp(self, n):
        if ast.unparse(n.test) == f'int({ast.unparse(n.orelse)}) == {ast.unparse(n.orelse)}' and ast.unparse(n.body) == f'int({ast.unparse(n.orelse)})':
            c, t = self.ex(n.orelse)
            if t in ('I', 'F'):
                # a whole number
                return c, 'I'
        c = self.truth(n.test)
        if c in ('true', 'false'):
            return self.ex(n.body if c == 'true' else n.orelse)
        a, na, va = self.guarded(c, lambda: self.ex(n.body))
        b, nb, vb = self.guarded(f'!({c})', lambda: self.ex(n.orelse))
        if na is not None or nb is not None:
            va = va if na is not None else a
            vb = vb if nb is not None else b
            t = self.join(va[1], vb[1], n)
            v, g = self.fresh('v'), self.fresh('g')
            self.emit(f'let ghost mut {v}: {vt(t)} = arbitrary();')
            self.emit(f'let ghost {g}: bool = {c}; let {g}x = test(Ghost({g}));')
            self.emit(f'if {g}x {{')
            for x in (na or []):
                self.lines.append(('    ' + x[0], x[1]))
            self.emit(f'    proof {{ {v} = {self.coerce(va[0], va[1], t, n)}; }}')
            self.emit('} else {')
            for x in (nb or []):
                self.lines.append(('    ' + x[0], x[1]))
            self.emit(f'    proof {{ {v} = {self.coerce(vb[0], vb[1], t, n)}; }}')
            self.emit('}')
            return v, t
        t = self.join(a[1], b[1], n)
        return f'(if {c} {{ {self.coerce(a[0], a[1], t, n)} }} else {{ {self.coerce(b[0], b[1], t, n)} }})', t

    def join(self, a, b, node):
        if a == b:
            return a
        s = {a, b}
        if s == {'L', 'EMPTY'}:
            return 'L'
        if s <= {'L', 'EMPTY', 'NONE', 'OL'}:
            return 'OL'
        if s == {'I', 'B'}:
            return 'I'
        if 'FS' in s:
            return 'FS'
        if s == {'LL', 'EMPTY'}:
            return 'LL'
        self.fail(node, f'types {a} and {b} do not join')

    def ex_Compare(self, n):
        parts = []
        left = n.left
        lc = self.ex(left)
        for op, r in zip(n.ops, n.comparators):
            if isinstance(op, (ast.In, ast.NotIn)) and isinstance(left, ast.Constant) and isinstance(left.value, str) and len(left.value) == 1 and self.peek(r) == 'TXT':
                x = f'haschar({self.ex(r)[0]}, {self.chars(left.value)[5:-1]})'
                parts.append(x if isinstance(op, ast.In) else f'!({x})')
                continue
            if isinstance(op, (ast.In, ast.NotIn)):
                c, t = self.ex(r)
                if t == 'L':
                    x = f'{c}.contains({self.coerce(lc[0], lc[1], "I", n)})'
                elif t == 'EMPTY':
                    x = 'false'
                elif t == 'SET':
                    x = f'{c}.contains({self.coerce(lc[0], lc[1], "I", n)})'
                elif t == 'SETL':
                    x = f'{c}.contains({self.coerce(lc[0], lc[1], "L", n)})'
                elif t == 'LL':
                    x = f'{c}.contains({self.coerce(lc[0], lc[1], "L", n)})'
                elif t.startswith('(') and set(split_types(t[1:-1])) <= {'STR', 'I'}:
                    x = '(' + ' || '.join(f'{lc[0]} == {c}.{i}' for i in range(len(split_types(t[1:-1])))) + ')'
                else:
                    self.fail(n, f'membership in {t}')
                parts.append(x if isinstance(op, ast.In) else f'!({x})')
                continue
            rc = self.ex(r)
            parts.append(self.cmp(lc, op, rc, n))
            lc = rc
        return ('(' + ' && '.join(parts) + ')' if len(parts) > 1 else parts[0]), 'B'

    def cmp(self, l, op, r, n):
        (a, ta), (b, tb) = l, r
        eq = isinstance(op, (ast.Eq, ast.Is))
        ne = isinstance(op, (ast.NotEq, ast.IsNot))
        if eq or ne:
            neg = '!' if ne else ''
            if 'OPART' in (ta, tb) and '0int' in (a, b):
                return f'{neg}({a if ta == "OPART" else b}.is_none())'
            if 'NONE' in (ta, tb) or (('OL' in (ta, tb)) and (a == 'false' or b == 'false')):
                x, tx = (b, tb) if ta == 'NONE' or a == 'false' else (a, ta)
                if tx in ('OL', 'OPX'):
                    return f'{neg}({x}.is_none())'
                if tx == 'NONE':
                    return 'false' if neg else 'true'
                return 'true' if neg else 'false'
            if 'EMPTY' in (ta, tb):
                x, tx = (b, tb) if ta == 'EMPTY' else (a, ta)
                if tx == 'OL':
                    return f'{neg}({x}.is_some() && {x}.unwrap().len() == 0)'
                return f'{neg}({x}.len() == 0)' if tx != 'EMPTY' else f'{neg}(true)'
            if ta == tb and ta in ('L', 'LL'):
                return f'{neg}({a} =~= {b})'
            if ta == tb and ta in ('PV', 'TXT'):
                return f'{neg}({a} =~~= {b})'
            if {ta, tb} == {'L', 'OL'}:
                (o, l_) = (a, b) if ta == 'OL' else (b, a)
                return f'{neg}({o}.is_some() && {o}.unwrap() =~= {l_})'
            if {ta, tb} <= {'I', 'F'}:
                return f'({a} {"==" if eq else "!="} {b})'
            if {ta, tb} <= {'I', 'B'} and ta != tb:
                return f'{neg}({self.coerce(a, ta, "I", n)} == {self.coerce(b, tb, "I", n)})'
            if ta == tb and ta in ('I', 'B', 'STR'):
                return f'({a} {"==" if eq else "!="} {b})'
            if 'STR' in (ta, tb) and 'I' in (ta, tb):
                return 'false' if eq else 'true'
            self.fail(n, f'equality of {ta} and {tb}')
        o = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}.get(type(op))
        if o is None:
            self.fail(n, 'comparison')
        if {ta, tb} <= {'I', 'F'}:
            return f'({a} {o} {b})'
        if {ta, tb} <= {'L', 'EMPTY'}:
            a, b = self.coerce(a, ta, 'L', n), self.coerce(b, tb, 'L', n)
            return {'<': f'llt({a}, {b})', '>': f'llt({b}, {a})', '<=': f'!llt({b}, {a})', '>=': f'!llt({a}, {b})'}[o]
        return f'({self.coerce(a, ta, "I", n)} {o} {self.coerce(b, tb, "I", n)})'

    def ex_BinOp(self, n):
        a, ta = self.ex(n.left)
        b, tb = self.ex(n.right)
        op = type(n.op)
        if ta == 'OI':
            a, ta = self.coerce(a, ta, 'I', n), 'I'
        if tb == 'OI':
            b, tb = self.coerce(b, tb, 'I', n), 'I'
        if ta == 'NA' and tb == 'I' and op is ast.Add:
            k = self.fresh('k')
            return f'Seq::new({a}.len(), |{k}: int| {a}[{k}] + {b})', 'NA'
        if ta == 'NA' and tb == 'NA' and op is ast.Mult:
            self.oblige(f'{a}.len() == {b}.len()', 'arrays of the same length', n)
            k = self.fresh('k')
            return f'Seq::new({a}.len(), |{k}: int| {a}[{k}] * {b}[{k}])', 'NA'
        if 'OPX' in (ta, tb):
            a, ta = (self.coerce(a, ta, 'PX', n), 'PX') if ta == 'OPX' else (a, ta)
            b, tb = (self.coerce(b, tb, 'PX', n), 'PX') if tb == 'OPX' else (b, tb)
        if ta == 'PX' and tb == 'PX' and op is ast.Add:
            return f'px_add({a}, {b})', 'PX'
        if {ta, tb} == {'PX', 'VX'} and op is ast.Mult:
            return (f'px_shift({a}, {b})' if ta == 'VX' else f'px_shift({b}, {a})'), 'PX'
        if ta == 'VX' and tb == 'I' and op is ast.Pow:
            self.oblige(f'{b} >= 0', 'exponent is not negative', n)
            return f'px_pow({a}, {b})', 'PX'
        num = {'I', 'B'}
        if ta in num and tb in num:
            a, b = self.coerce(a, ta, 'I', n), self.coerce(b, tb, 'I', n)
            if op in (ast.Add, ast.Sub, ast.Mult):
                return f'({a} {"+-*"[(ast.Add, ast.Sub, ast.Mult).index(op)]} {b})', 'I'
            if op is ast.FloorDiv:
                self.oblige(f'{b} > 0', 'divisor is positive', n)
                return f'({a} / {b})', 'I'
            if op is ast.Mod:
                self.oblige(f'{b} > 0', 'modulus is positive', n)
                return f'({a} % {b})', 'I'
            if op is ast.Div:
                # a float; only quotients that are whole numbers are in the subset
                self.oblige(f'{b} > 0 && {a} % {b} == 0', 'true division is exact', n)
                return f'({a} / {b})', 'F'
            if op is ast.Pow:
                if a == '2int':
                    self.oblige(f'{b} >= 0', 'exponent is not negative', n)
                    return f'pow2r({b})', 'R'
                self.oblige(f'{b} >= 0', 'exponent is not negative', n)
                return f'powi({a}, {b})', 'I'
        if {ta, tb} <= {'I', 'F'}:
            if op in (ast.Add, ast.Sub, ast.Mult):
                return f'({a} {"+-*"[(ast.Add, ast.Sub, ast.Mult).index(op)]} {b})', 'F'
            if op is ast.Mod:
                self.oblige(f'{b} > 0', 'modulus is positive', n)
                return f'({a} % {b})', 'F'
        if op is ast.Add and ta in ('L', 'EMPTY', 'OL', 'LL') and tb in ('L', 'EMPTY', 'OL', 'LL'):
            t = 'LL' if 'LL' in (ta, tb) else 'L'
            return f'({self.coerce(a, ta, t, n)} + {self.coerce(b, tb, t, n)})', t
        if op is ast.Mult and ta == 'L' and tb in num and isinstance(n.left, ast.List) and len(n.left.elts) == 1:
            e = self.num(n.left.elts[0])
            return f'rep({e}, {self.coerce(b, tb, "I", n)})', 'L'
        if op is ast.Sub and ta == tb == 'SET':
            return f'({a}).difference({b})', 'SET'
        # polynomials in the special classes
        if ta == tb == 'P' and op in (ast.Add, ast.Sub):
            return (f'fs_add({a}, {b})' if op is ast.Add else f'fs_sub({a}, {b})'), 'P'
        if ta == 'P' and tb == 'SYM' and op is ast.Div:
            self.oblige(f'forall|m: Seq<int>| #[trigger] fs_nonzero({a}, m) ==> m.contains(spnum({b}))', 'every term is divisible by the symbol', n)
            return f'p_over({a}, {b})', 'P'
        if op is ast.Mult and {ta, tb} == {'P', 'FS'}:
            p, x = (a, b) if ta == 'P' else (b, a)
            self.oblige(f'forall|m: Seq<int>| #[trigger] fs_nonzero({p}, m) ==> m.len() == 0', 'a scalar, without classes', n)
            return f'p_scaled({p}, {x})', 'FS'
        if op is ast.Mult and 'P' in (ta, tb) and {ta, tb} & {'SCH', 'SCHUR', 'SYM'}:
            p, x = (a, b) if ta == 'P' else (b, a)
            self.oblige(f'speclist({x})', 'a special class', n)
            return f'p_times({x}, {p})', 'P'
        if op is ast.Sub and ta == 'LSYM' and tb == 'QSET':
            return a, 'LSYM'
        # expressions
        if ta in ('EX', 'ARG') and tb in ('EX', 'ARG', 'I') or tb in ('EX', 'ARG') and ta == 'I':
            nm = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Pow: 'pow'}.get(op)
            if nm:
                a, b = self.coerce(a, ta, 'EX', n), self.coerce(b, tb, 'EX', n)
                self.emit(f'proof {{ axiom_ops({a}, {b}); }}')
                return f'sy_{nm}({a}, {b})', 'EX'
        # formal sums
        if op in (ast.Add, ast.Sub) and ('FS' in (ta, tb) or {ta, tb} & {'SCHUR'}):
            x, y = self.coerce(a, self.fsty(ta), 'FS', n), self.coerce(b, self.fsty(tb), 'FS', n)
            return (f'fs_add({x}, {y})' if op is ast.Add else f'fs_sub({x}, {y})'), 'FS'
        if op is ast.Mult and 'SCAL' in (ta, tb) and ta != tb:
            s, x, tx = (a, b, tb) if ta == 'SCAL' else (b, a, ta)
            if tx in num:
                return f'sc_scale(ir({self.coerce(x, tx, "I", n)}), {s})', 'SCAL'
            return f'fs_mul({s}, {self.coerce(x, self.fsty(tx), "FS", n)})', 'FS'
        if op is ast.Mult and ta == tb == 'SCAL':
            return f'sc_mul({a}, {b})', 'SCAL'
        if op is ast.Pow and ta == 'SCAL' and tb in num:
            if not isinstance(n.right, ast.Constant):
                self.oblige(f'{b} >= 0', 'exponent is not negative', n)
            return f'sc_pow({a}, {b})', 'SCAL'
        if op is ast.Div and ta == 'SCAL' and b == '2int':
            return f'sc_half({a})', 'SCAL'
        if op is ast.Mult and {ta, tb} & {'I', 'B', 'R'} and {ta, tb} & {'FS', 'SCHUR'}:
            c, tc, x, tx = (a, ta, b, tb) if ta in ('I', 'B', 'R') else (b, tb, a, ta)
            c = c if tc == 'R' else f'ir({self.coerce(c, tc, "I", n)})'
            return f'fs_scale({c}, {self.coerce(x, self.fsty(tx), "FS", n)})', 'FS'
        self.fail(n, f'operator on {ta} and {tb}')

    def fsty(self, t):
        return 'L' if t == 'SCHUR' else t

    def index(self, l, inode, node):
        """normalised index with its obligation"""
        if isinstance(inode, ast.UnaryOp) and isinstance(inode.op, ast.USub) and isinstance(inode.operand, ast.Constant):
            k = inode.operand.value
            self.oblige(f'{l}.len() >= {k}', 'index in range', node)
            return f'({l}.len() - {k})'
        i = self.num(inode)
        if re.fullmatch(r'\d+int', i):
            self.oblige(f'{l}.len() > {i}', 'index in range', node)
            return i
        self.oblige(f'-{l}.len() <= {i} && {i} < {l}.len()', 'index in range', node)
        v = inode.left if isinstance(inode, ast.BinOp) and isinstance(inode.op, ast.Add) and isinstance(inode.right, ast.Constant) else inode
        if isinstance(v, ast.Name) and v.id in self.from_zero and any(b[0] == v.id for b in self.binders):
            return i        # a bound variable that is never negative
        return f'nidx({l}.len() as int, {i})'

    def cell_of(self, c, idx, n):
        if not (isinstance(idx, ast.Tuple) and len(idx.elts) == 2):
            self.fail(n, 'index of a table')
        i, j = self.num(idx.elts[0]), self.num(idx.elts[1])
        self.oblige(f'0 <= {i} < {c}.rows && 0 <= {j} < {c}.cols', 'index in range', n)
        return i, j

    def ex_Subscript(self, n):
        if isinstance(n.slice, ast.Slice):
            l, t = self.list_of(n.value)
            if t not in ('L', 'LL', 'NA'):
                self.fail(n, f'slice of {t}')
            lo, hi, st = n.slice.lower, n.slice.upper, n.slice.step
            if st is not None:
                if isinstance(st, ast.UnaryOp) and ast.unparse(st) == '-1' and lo is None and hi is None:
                    return f'{l}.reverse()', t
                self.fail(n, 'slice step')
            a = self.num(lo) if lo is not None else '0int'
            b = self.num(hi) if hi is not None else f'({l}.len() as int)'
            return f'slice({l}, {a}, {b})', t
        c, t = self.ex(n.value)
        if t == 'OL':
            c, t = self.coerce(c, t, 'L', n), 'L'
        if t == 'TBL':
            i, j = self.cell_of(c, n.slice, n)
            return f'({c}.cell)({i}, {j})', 'OPX'
        if t in ('L', 'LF', 'LFS', 'LLFS', 'LSYM', 'LEX', 'NA', 'LVX', 'LSYN'):
            return f'{c}[{self.index(c, n.slice, n)}]', {'NA': 'I', 'LVX': 'VX', 'LSYN': 'SYN', 'LEX': 'EX', 'L': 'I', 'LF': 'F', 'LFS': 'FS', 'LLFS': 'LFS', 'LSYM': 'SYM'}[t]
        if t == 'LL':
            return f'{c}[{self.index(c, n.slice, n)}]', 'L'
        if t.startswith('('):
            ts = split_types(t[1:-1])
            if isinstance(n.slice, ast.Constant):
                return f'{c}.{n.slice.value}', ts[n.slice.value]
        self.fail(n, f'subscript of {t}')

    def ex_Attribute(self, n):
        c, t = self.ex(n.value)
        if t == 'P' and n.attr == 'expr':
            return c, t
        if t == 'LCO' and n.attr == 'expr':
            return c, 'EX'
        if t == 'ARG' and n.attr == 'expr':
            self.oblige(f'{c} is Lc', 'a LinearCombination', n)
            return f'{c}->Lc_0', 'EX'
        if t == 'EX' and n.attr in ('is_Add', 'is_Mul', 'is_Pow'):
            return f'({c} is {dict(is_Add="Sum", is_Mul="Prod", is_Pow="Power")[n.attr]})', 'B'
        if t == 'EX' and n.attr == 'args':
            return f'nargs({c})', 'LEX'
        if t in ('SCN', 'SCH') and n.attr == 'p':
            return c, 'L'
        if t == 'SCO' and n.attr == 'p':
            return c, 'PV'
        if t == 'EX' and n.attr == 'is_Symbol':
            return f'is_sym({c})', 'B'
        if t == 'P' and n.attr == 'free_symbols':
            return f'psyms({c})', 'LSYM'
        if t == 'SC' and n.attr == 'p':
            self.oblige(f'!{c}.sym', 'a Schur object', n)
            return f'{c}.l', 'L'
        if t == 'SPACE' and n.attr in ('_k', '_n'):
            return f'{c}.{n.attr}', 'I'
        if t == 'SPACE' and n.attr == '_type':
            return f'{c}._type', 'STR'
        if t == 'SPACE' and n.attr in ('_pieri', '_qpieri'):
            return f'{c}.{n.attr}', 'STR'
        if t == 'SPACE' and n.attr.endswith('_inner') and '_inner' in n.attr:
            return self.strconst(n.attr), 'STR'
        if t == 'MTAB' and n.attr in ('gr', 'df'):
            return f'{c}.{n.attr}', {'gr': 'SPACE', 'df': 'TABLE'}[n.attr]
        if t == 'TABLE' and n.attr in ('values', 'index', 'columns'):
            return f'{c}.{"cells" if n.attr == "values" else n.attr}', 'LLFS' if n.attr == 'values' else 'LL'
        if n.attr == 'expr' and t == 'FS':
            return c, t
        if n.attr == 'p' and t in ('L', 'SCH'):
            return c, 'L'
        if t == 'PART' and n.attr == 'partition':
            return c, 'L'
        if t == 'OPART' and n.attr == 'partition':
            return self.coerce(c, t, 'PART', n), 'L'
        self.fail(n, 'attribute')

    # comprehension: [e for x in S if c]
    def seq_of_iter(self, it, node):
        """an iterable as (Seq code, element type)"""
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'range':
            a, b, st = self.range_args(it)
            if st != 1:
                self.fail(node, 'range step')
            return f'rangeseq({a}, {b})', 'I'
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'reversed':
            s, t = self.seq_of_iter(it.args[0], node)
            return f'{s}.reverse()', t
        c, t = self.list_of(it)
        if t == 'L':
            return c, 'I'
        if t == 'LL':
            return c, 'L'
        if t == 'SETL':
            return self.set_list(c), 'L'
        if t == 'LF':
            return c, 'F'
        if t == 'LX':
            return c, 'OI'
        if t == 'LFS':
            return c, 'FS'
        if t in ('LEX', 'LSYN', 'LVX'):
            return c, t[1:]
        if t == 'NA':
            return c, 'I'
        if t == 'PV':
            return f'pv_items({c})', 'PVI'
        self.fail(node, f'iteration over {t}')

    def range_args(self, it):
        a = it.args
        if len(a) == 1:
            return '0int', self.num(a[0]), 1
        if len(a) == 2:
            return self.num(a[0]), self.num(a[1]), 1
        st = ast.unparse(a[2])
        if st not in ('-1', '1'):
            self.fail(it, 'range step')
        return self.num(a[0]), self.num(a[1]), int(st)

    def comp(self, n):
        if len(n.generators) != 1 or n.generators[0].is_async:
            self.fail(n, 'comprehension')
        g = n.generators[0]
        isrange = isinstance(g.iter, ast.Call) and isinstance(g.iter.func, ast.Name) and g.iter.func.id == 'range'
        idx = None
        if isinstance(g.iter, ast.Call) and isinstance(g.iter.func, ast.Name) and g.iter.func.id == 'enumerate' and isinstance(g.target, ast.Tuple):
            s, t = self.seq_of_iter(g.iter.args[0], n)
            i, x = g.target.elts[0].id, g.target.elts[1].id
            if g.ifs:
                self.fail(n, 'enumerate with filter')
            old = {k: self.types.get(k) for k in (i, x)}
            xx = self.fresh(x)
            self.types[i], self.types[x] = 'I', t
            self.binders.append((i, 'I', f'0 <= {i} < {s}.len()'))
            sub = ast.parse(ast.unparse(n.elt), mode='eval').body
            marker = f'({s}[{i}])'
            node2 = SubstName(x, xx).visit(sub)
            self.types[xx] = t
            # bind x through a let in the element code
            c, ct = self.ex(ast.fix_missing_locations(node2))
            self.binders.pop()
            for k, v in old.items():
                if v is None:
                    self.types.pop(k, None)
                else:
                    self.types[k] = v
            return f'Seq::new({s}.len(), |{i}: int| {{ let {xx} = {s}[{i}]; {c} }})', ct, None
        if not isinstance(g.target, ast.Name):
            self.fail(n, 'comprehension target')
        if g.target.id == '_':
            g.target.id = self.fresh('u')
        x = g.target.id
        if isrange and not g.ifs:
            a, b, st = self.range_args(g.iter)
            if st != 1:
                self.fail(n, 'range step')
            old = self.types.get(x)
            self.types[x] = 'I'
            y = x
            self.binders.append((x, 'I', f'{a} <= {x} && {x} < {b}'))
            c, ct = self.ex(n.elt)
            self.binders.pop()
            if old is None:
                self.types.pop(x)
            else:
                self.types[x] = old
            if a == '0int':
                return f'Seq::new(pylen({b}), |{x}: int| {c})', ct, None
            return f'Seq::new(pylen({b} - {a}), |{x}__o: int| {{ let {x} = {x}__o + {a}; {c} }})', ct, None
        s, t = self.seq_of_iter(g.iter, n)
        old = self.types.get(x)
        self.types[x] = t
        self.binders.append((x, t, f'{s}.contains({x})'))
        cond = None
        if g.ifs:
            cond = ' && '.join(f'({self.truth(c)})' for c in g.ifs)
            self.binders[-1] = (x, t, f'{s}.contains({x}) && {cond}')
        c, ct = self.ex(n.elt)
        self.binders.pop()
        if old is None:
            self.types.pop(x)
        else:
            self.types[x] = old
        if cond:
            s = f'{s}.filter(|{x}: {vt(t)}| {cond})'
            if c == x:
                return s, ct, None
        if c == x:
            return s, ct, None
        return f'{s}.map_values(|{x}: {vt(t)}| {c})', ct, None

    def ex_ListComp(self, n):
        c, t, _ = self.comp(n)
        if t in ('I', 'B'):
            return c, 'L'
        if t in ('L',):
            return c, 'LL'
        if t in ('FS', 'LFS', 'EX', 'SYN', 'VX'):
            return c, 'L' + t
        self.fail(n, f'list of {t}')

    ex_GeneratorExp = ex_ListComp

    # ---- calls
    def ex_Call(self, n):
        f = n.func
        if isinstance(f, ast.Name):
            if self.types.get(f.id) == 'FN':
                return self.call_value(f.id, n)
            if self.types.get(f.id) == 'FN2' and len(n.args) == 2 and not n.keywords:
                i, x = self.typ('I', n.args[0], self.ex(n.args[0])), self.typ('L', n.args[1], self.ex(n.args[1]))
                self.oblige(f'fdom({f.id}, {i}, {x})', 'the function may be called with these arguments', n)
                return f'{f.id}({i}, {x})', 'FS'
            if self.types.get(f.id) == 'FN1' and len(n.args) == 1 and not n.keywords:
                x = self.typ('L', n.args[0], self.ex(n.args[0]))
                self.oblige(f'fdom1({f.id}, {x})', 'the function may be called with this class', n)
                return f'{f.id}({x})', 'ARG'
            if f.id in self.nested_names:
                sp = self.nested_names[f.id]
                own = len(sp.params) - len(n.args)
                caps = self.nested_caps.get(f.id) or [p for p, t in sp.params[len(n.args):]]
                if len(caps) != own or n.keywords:
                    self.fail(n, 'arguments')
                return self.call_contract([sp], n, list(n.args) + [ast.Name(c, ast.Load()) for c in caps])
            if f.id in self.types:
                self.fail(n, 'call of a value')
            r = self.src.resolve(self.path, f.id)
            if r is not None and r in self.table:
                return self.call_contract(self.table.variants[r], n, n.args)
            if r is not None and (r[0], r[1] + '.__init__') in self.table:
                return self.call_contract(self.table.variants[(r[0], r[1] + '.__init__')], n, [None] + list(n.args))
            if f.id == 'apply_lc':
                return self.apply_lc(n)
            if f.id in ('isSchur', 'toSchur') and r == ('schubertpy/schur.py', f.id) and len(n.args) == 1 and not n.keywords:
                arg = n.args[0]
                if isinstance(arg, ast.Call) and isinstance(arg.func, ast.Name) and arg.func.id == 'str' and len(arg.args) == 1 and not arg.keywords and self.peek(arg.args[0]) == 'EX':
                    arg = arg.args[0]       # toSchur(str(e)) is toSchur(e)
                c, t = self.ex(arg)
                if t == 'EX':
                    if f.id == 'isSchur':
                        return f'({c} is Cls)', 'B'
                    self.oblige(f'{c} is Cls', 'a single class', n)
                    return f'{c}->Cls_0', 'SCN'
                if t == 'SC' and f.id == 'toSchur':
                    self.oblige(f'{c}.sym', 'a symbol', n)
                    return f'SC {{ l: {c}.l, sym: false }}', 'SC'
                if t == 'FS':
                    if f.id == 'isSchur':
                        return f'is_schur({c})', 'B'
                    self.oblige(f'is_schur({c})', 'a single class', n)
                    if not self.binders:
                        self.emit(f'proof {{ axiom_schur({c}); }}')
                    return f'schur_of({c})', 'L'
            if f.id in ('Poly', 'symbols') and r is None:
                return self.polys(f.id, n)
            if f.id == 'map' and r is None and len(n.args) == 2 and isinstance(n.args[0], ast.Lambda) and len(n.args[0].args.args) == 1:
                self.once(n)
                lc = ast.ListComp(n.args[0].body, [ast.comprehension(ast.Name(n.args[0].args.args[0].arg, ast.Store()), n.args[1], [], 0)])
                c, t, _ = self.comp(ast.fix_missing_locations(ast.copy_location(lc, n)))
                if t == 'B':
                    return c, 'LB'
                self.fail(n, 'map')
            if f.id in WRAP or (r is None and f.id in BUILTIN_PURE):
                if f.id == 'all' and len(n.args) == 1 and isinstance(n.args[0], ast.Name) and self.types.get(n.args[0].id) == 'LB':
                    return f'(forall|b__i: int| 0 <= b__i < {n.args[0].id}.len() ==> #[trigger] {n.args[0].id}[b__i])', 'B'
                return self.builtin(f.id, n)
            self.fail(n, 'call of a function without contract')
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Name) and f.value.id in ('self', 'self_') and self.cls:
                if f.attr == '__class__':
                    for path, c in self.src.mro(self.spec.dyn or self.cls):
                        if (path, c + '.__init__') in self.table:
                            return self.call_contract(self.table.variants[(path, c + '.__init__')], n, [None] + list(n.args))
                    self.fail(n, 'no contract of the constructor')
                sp = self.method_of(f.attr)
                if f.attr in ('_pieri', '_qpieri') and self.spec.types.get(f.attr):
                    m = self.spec.types[f.attr]
                    sp = self.method_of(m)
                    self.oblige(f'self_.{f.attr} == {self.strconst(m)}', f'{f.attr} is {m}', n)
                if isinstance(sp, FnSpec):
                    args = n.args if not (sp.params and sp.params[0][0] == 'self_') else [f.value] + list(n.args)
                    return self.call_contract(self.table.variants[sp.key], n, args)
            if isinstance(f.value, ast.Attribute) and f.value.attr == 'gr' and isinstance(f.value.value, ast.Name) and self.types.get(f.value.value.id) == 'MTAB':
                sp = self.method_of(f.attr, 'AbstractGrassmannian')
                if isinstance(sp, FnSpec):
                    return self.call_contract(self.table.variants[sp.key], n, [f.value] + list(n.args))
            if isinstance(f.value, ast.Name) and f.value.id == 'pd' and f.attr == 'DataFrame' and 'pd' not in self.types:
                return self.dataframe(n)
            if ast.unparse(f) == 'ast.literal_eval' and 'ast' not in self.types and len(n.args) == 1 and not n.keywords:
                c, t = self.ex(n.args[0])
                if t == 'TXT':
                    return f'pv_literal({c})', 'PV'
            if isinstance(f.value, ast.Name) and f.value.id == 'sp' and 'sp' not in self.types:
                return self.sympy(f.attr, n)
            if isinstance(f.value, ast.Name) and f.value.id == 'np' and 'np' not in self.types:
                return self.numpy(f.attr, n)
            c = self.method_contract(n)
            if c is not None:
                return c
            return self.method(n)
        self.fail(n, 'call')

    def call_value(self, v, n):
        """a call of a local variable that holds one of several functions under contract"""
        cands = []
        for a in ast.walk(self.fn):
            if isinstance(a, ast.Assign) and any(isinstance(t, ast.Name) and t.id == v for t in a.targets):
                for m in ([a.value.body, a.value.orelse] if isinstance(a.value, ast.IfExp) else [a.value]):
                    r = self.src.resolve(self.path, m.id) if isinstance(m, ast.Name) else None
                    if r is None or r not in self.table:
                        self.fail(n, 'call of a value')
                    if r not in cands:
                        cands.append(r)
        rets = {self.table[r].ret for r in cands}
        if len(rets) != 1 or n.keywords or any(self.table[r].exc or not self.table[r].spec or len(self.table[r].params) != len(n.args) for r in cands):
            self.fail(n, 'call of a value')
        ids = {r: self.strconst('fn ' + r[0] + '::' + r[1]) for r in cands}
        self.oblige(' || '.join(f'{v} == {ids[r]}' for r in cands), 'one of the known functions', n)
        out = ''
        for i, r in enumerate(cands):
            sp = self.table[r]
            vals = [self.typ(t, a, self.ex(a)) for a, (p, t) in zip(n.args, sp.params)]
            for rq in split_contract(sp.contract)[0]:
                lets = simultaneous([(p, x) for x, (p, t) in zip(vals, sp.params)])
                self.oblige(f'({v} == {ids[r]}) ==> {{ {lets} {rq} }}', f'precondition of {sp.qual}', n)
            call = f'{sp.spec}({", ".join(vals)})'
            out += (f'if {v} == {ids[r]} {{ {call} }} else ' if i < len(cands) - 1 else f'{{ {call} }}')
        return f'({out})', rets.pop()

    def method_contract(self, n):
        """a method of another object: a Partition, or a space of a known class"""
        f = n.func
        if not isinstance(f.value, ast.Name) or f.value.id not in self.types:
            return None
        t = self.types[f.value.id]
        cls = {'PART': 'Partition', 'SCO': 'Schur', 'LCO': 'LinearCombination', 'ARG': 'LinearCombination', 'SPACE': self.spec.types.get('class_of_' + f.value.id)}.get(t)
        if cls is None and t == 'SPACE' and self.cls:
            cls = self.spec.dyn or self.cls     # the contract asks for the kind of the space
        if cls is None:
            return None
        sp = self.method_of(f.attr, cls)
        if isinstance(sp, FnSpec):
            return self.call_contract(self.table.variants[sp.key], n, [f.value] + list(n.args))
        return None

    def method_of(self, attr, cls=None):
        """the contract (or, without contract, the source) of self.attr for the class the contract is about"""
        dyn = cls or self.spec.dyn or self.cls
        for path, c in self.src.mro(dyn):
            try:
                fn = self.src.function(path, c + '.' + attr)
            except Unsupported:
                continue
            for key in ((path, c + '.' + attr + '@' + dyn), (path, c + '.' + attr)):
                if key in self.table:
                    return self.table[key]
            return fn
        return None

    def dataframe(self, n):
        kw = {k.arg: k.value for k in n.keywords}
        if len(n.args) != 1 or set(kw) != {'index', 'columns'}:
            self.fail(n, 'table')
        cells = self.typ('LLFS', n.args[0], self.ex(n.args[0]))
        ix, co = (self.typ('LL', kw[k], self.ex(kw[k])) for k in ('index', 'columns'))
        self.oblige(f'{cells}.len() == {ix}.len() && forall|i: int| 0 <= i < {cells}.len() ==> (#[trigger] {cells}[i]).len() == {co}.len()', 'the table has a row for every label', n)
        return f'Table {{ cells: {cells}, index: {ix}, columns: {co} }}', 'TABLE'

    def once(self, n):
        """the value of n is an iterator: it is bound to a name that is read once"""
        for a in ast.walk(self.fn):
            if isinstance(a, ast.Assign) and a.value is n and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name):
                v = a.targets[0].id
                if sum(isinstance(x, ast.Name) and x.id == v for x in ast.walk(self.fn)) == 2:
                    return
        self.fail(n, 'iterator')

    def numpy(self, attr, n):
        kw = {k.arg: ast.unparse(k.value) for k in n.keywords}
        if attr in ('array', 'asarray') and len(n.args) == 1 and kw in ({}, {'dtype': 'int'}):
            c, t = self.list_of(n.args[0])
            if t in ('L', 'NA'):
                return c, 'NA'
        if attr in ('prod', 'sum') and len(n.args) == 1 and not kw:
            c, t = self.ex(n.args[0])
            if t == 'NA':
                return f'{attr}_seq({c})', 'I'
        if attr == 'full' and len(n.args) == 2 and not kw and isinstance(n.args[0], ast.Tuple) and len(n.args[0].elts) == 2 and ast.unparse(n.args[1]) == 'None':
            r, c = self.num(n.args[0].elts[0]), self.num(n.args[0].elts[1])
            self.oblige(f'{r} >= 0 && {c} >= 0', 'sizes of a table', n)
            return f'tbl_none({r}, {c})', 'TBL'
        self.fail(n, f'np.{attr}')

    def polys(self, name, n):
        if name == 'symbols':
            a = n.args[0] if len(n.args) == 1 and not n.keywords else None
            if isinstance(a, ast.JoinedStr) and len(a.values) == 2 and isinstance(a.values[0], ast.Constant) and a.values[0].value == 'x_' and isinstance(a.values[1], ast.FormattedValue) \
                    and a.values[1].conversion == -1 and a.values[1].format_spec is None:
                return self.num(a.values[1].value), 'SYN'
            self.fail(n, 'symbols')
        if not (len(n.args) == 2 and isinstance(n.args[1], ast.Starred) and [(k.arg, ast.unparse(k.value)) for k in n.keywords] == [('domain', "'ZZ'")]):
            self.fail(n, 'Poly')
        g, gt = self.ex(n.args[1].value)
        if gt != 'LSYN':
            self.fail(n, 'Poly')
        self.oblige(f'{g} =~= vars_to({g}.len() as int)', 'the variables are x_1, ..., x_n', n)
        c, t = self.ex(n.args[0])
        if t == 'SYN':
            self.oblige(f'1 <= {c} <= {g}.len()', 'a variable', n)
            return c, 'VX'
        if t == 'I':
            return f'px_const({c})', 'PX'
        self.fail(n, 'Poly')

    def sympy(self, attr, n):
        if attr == 'parse_expr' and len(n.args) == 1 and not n.keywords:
            c, t = self.ex(n.args[0])
            if t == 'ARG':
                self.oblige(f'{c} is Text', 'a text', n)
                c, t = f'{c}->Text_0', 'TXT'
            if t == 'TXT':
                return f'ptree({c})', 'EX'
        if attr in ('Mul', 'Add') and len(n.args) == 1 and isinstance(n.args[0], ast.Starred) and not n.keywords:
            a = self.typ('LEX', n, self.ex(n.args[0].value))
            self.emit(f'proof {{ axiom_build({a}); }}')
            return f'sy_{"prod" if attr == "Mul" else "sum"}({a})', 'EX'
        if attr == 'preorder_traversal' and len(n.args) == 1 and not n.keywords:
            return f"subtrees({self.typ('EX', n, self.ex(n.args[0]))})", 'LEX'
        if attr == 'expand' and len(n.args) == 1:
            c, t = self.ex(n.args[0])
            if t == 'EX':
                self.emit(f'proof {{ axiom_expand({c}); }}')
                return f'expanded({c})', 'EX'
            return (f'fs_norm({c})', t) if t == 'P' else (c, t)
        if attr in ('Integer', 'sympify'):
            c, t = self.ex(n.args[0])
            if t == 'ARG':
                self.oblige(f'{c} is Int', 'a number', n)
                return f'Node::Int({c}->Int_0)', 'EX'
            return c, t
        if attr == 'Symbol' and isinstance(n.args[0], ast.Constant) and n.args[0].value in ('q', 'q1', 'q2'):
            return 'sc_' + n.args[0].value + '()', 'SCAL'
        if attr == 'symbols' and isinstance(n.args[0], ast.Constant):
            names = n.args[0].value.replace(',', ' ').split()
            if all(x in ('q', 'q1', 'q2') for x in names):
                if len(names) == 1:
                    return f'sc_{names[0]}()', 'SCAL'
                return '(' + ', '.join(f'sc_{x}()' for x in names) + ')', '(' + ','.join('SCAL' for x in names) + ')'
        self.fail(n, 'sympy call')

    def call_contract(self, sps, n, args):
        sp = sps[0]
        done = None
        if len(sps) > 1:
            # by the types of the arguments
            done = {id(a): self.ex(a) for a in args if a is not None}
            best = None
            for x in sps:
                sc = 0
                for a, (p, t) in zip(args, x.params):
                    if a is None:
                        continue
                    ty = done[id(a)][1]
                    sc += 0 if ty == t else 1 if (t, ty) in COERCIBLE else 100
                if sc >= 100:
                    continue
                sc -= 0.5 if x.variant == self.spec.variant else 0
                if best is None or sc < best:
                    best, sp = sc, x
        ps = list(sp.params)
        kw = {k.arg: k.value for k in n.keywords}
        if len(args) + len(kw) != len(ps) or any(isinstance(a, ast.Starred) for a in args):
            # defaults
            fn = self.src.function(sp.path, sp.qual)
            names = [a.arg for a in fn.args.args]
            nd = len(fn.args.defaults)
            for i, d in enumerate(fn.args.defaults):
                nm = names[len(names) - nd + i]
                pos = [p for p, _ in ps].index(nm) if nm in [p for p, _ in ps] else None
                if pos is not None and pos >= len(args) and nm not in kw:
                    kw[nm] = d
        full = []
        for i, (p, t) in enumerate(ps):
            if i < len(args):
                full.append((args[i], t))
            elif p in kw:
                full.append((kw[p], t))
            else:
                self.fail(n, f'argument {p} missing')
        if len(args) + len([k for k in kw if k in [p for p, _ in ps][len(args):]]) != len(ps):
            self.fail(n, 'arguments')
        for (p, t), (a, _) in zip(ps, full):
            if p in sp.owns and not (isinstance(a, (ast.List, ast.ListComp)) or isinstance(a, ast.Call) and (
                    isinstance(a.func, ast.Attribute) and a.func.attr == 'copy' and not a.args or isinstance(a.func, ast.Name) and a.func.id in ('list', 'sorted') and self.src.resolve(self.path, a.func.id) is None)):
                self.fail(n, f'{sp.qual} may change {ast.unparse(a)} in place')
        vals = ['arbitrary()' if a is None else self.typ(t, a, (done or {}).get(id(a)) or self.ex(a)) for a, t in full]
        if self.binders:
            if not (sp.spec or sp.fun) or sp.exc:
                self.fail(n, 'call under a binder needs a spec function')
            for rq in split_contract(sp.contract)[0]:
                lets = simultaneous([(p, v) for v, (p, t) in zip(vals, ps)])
                self.oblige(f'{{ {lets} {rq} }}', f'precondition of {sp.qual}', n)
            return f'{sp.spec or sp.fun}({", ".join(vals)})', sp.ret
        names = []
        for v, (p, t) in zip(vals, ps):
            a = self.fresh('a')
            self.emit(f'let ghost {a}: {vt(t)} = {v};')
            names.append(a)
        r = self.fresh('r')
        note = f"{self.spec.path}:{n.lineno} {self.spec.label}: precondition of {sp.qual}"
        self.obl.append(note)
        self.emit(f'let {r}x = {sp.name}({", ".join(f"Ghost({a})" for a in names)}); let ghost {r}: {vt(sp.ret) if not sp.exc else "Out<" + vt(sp.ret) + ">"} = {r}x@;', note)
        if sp.fun:
            self.emit(f'proof {{ assume({r} == {sp.fun}({", ".join(names)})); }}')
        self.callno[sp.qual] = self.callno.get(sp.qual, 0) + 1
        for h in self.hooks(f'call {sp.qual}') + self.hooks(f'call {sp.qual}#{self.callno[sp.qual]}'):
            self.emit_hint(h.replace('$r', r).replace('$a0', names[0] if names else '').replace('$a1', names[1] if len(names) > 1 else '').replace('$a2', names[2] if len(names) > 2 else '').replace('$a3', names[3] if len(names) > 3 else ''), f'hint after call {sp.qual}')
        if sp.exc and self.spec.exc:
            # the exception goes on to the caller
            g = self.fresh('x')
            self.emit(f'let ghost {g}: bool = {r} is Exc; let {g}x = test(Ghost({g})); if {g}x {{ return Ghost(Out::Exc({r}->Exc_0)); }}', f"{self.spec.path}:{n.lineno} {self.spec.label}: an exception of {sp.qual} only when allowed")
            return f'{r}->Val_0', sp.ret
        if sp.exc:
            self.oblige(f'{r} is Val', f'{sp.qual} does not raise', n)
            return f'{r}->Val_0', sp.ret
        return r, sp.ret

    def hooks(self, anchor):
        return [self.spec.hints[anchor]] if anchor in self.spec.hints else []

    def apply_lc(self, n):
        if len(n.args) != 2 or n.keywords or not isinstance(n.args[0], (ast.Lambda, ast.Name)):
            self.fail(n, 'apply_lc')
        lam = n.args[0]
        if isinstance(lam, ast.Name):
            if lam.id in self.types or (lam.id not in self.nested_names and self.src.resolve(self.path, lam.id) not in self.table):
                self.fail(n, 'apply_lc')
            lam = ast.Lambda(ast.arguments([], [ast.arg('label_')], None, [], [], None, []), ast.Call(lam, [ast.Name('label_', ast.Load())], []))
            for x in ast.walk(lam):
                ast.copy_location(x, n)
        x = lam.args.args[0].arg
        lc = self.typ('FS', n.args[1], self.ex(n.args[1]))
        old = self.types.get(x)
        self.types[x] = 'L'
        self.binders.append((x, 'L', f'fs_has({lc}, {x})'))
        self.labels = {x}
        c, t = self.ex(lam.body)
        self.labels = set()
        rt = 'P' if t == 'P' else 'FS'
        body = self.coerce(c, t, rt, n)
        self.binders.pop()
        if old is None:
            self.types.pop(x)
        else:
            self.types[x] = old
        return f'fs_apply(|{x}: Seq<int>| {body}, {lc})', rt

    def ex_Lambda(self, n):
        """a function of a number and a class: its value as a spec function, its precondition as fdom"""
        ps = [a.arg for a in n.args.args]
        if len(ps) != 2 or self.binders or n.args.defaults:
            self.fail(n, 'lambda')
        old = {p: self.types.get(p) for p in ps}
        self.types[ps[0]], self.types[ps[1]] = 'I', 'L'
        self.binders += [(ps[0], 'I', 'true'), (ps[1], 'L', 'true')]
        self.capture = []
        try:
            c, t = self.ex(n.body)
            body = self.coerce(c, t, 'FS', n)
        finally:
            pre, self.capture = self.capture, None
            self.binders = self.binders[:-2]
            for p in ps:
                self.types.pop(p) if old[p] is None else self.types.__setitem__(p, old[p])
        f = self.fresh('f')
        i, x = ps
        self.emit(f'let ghost {f}: Op = |{i}: int, {x}: Seq<int>| {body};')
        self.emit(f'proof {{ assume(forall|{i}: int, {x}: Seq<int>| ({" && ".join("(" + q + ")" for q in pre) or "true"}) ==> #[trigger] fdom({f}, {i}, {x})); }}')
        for h in self.hooks('lambda'):
            self.emit_hint(h.replace('$r', f), 'hint lambda')
        return f, 'FN2'

    def method(self, n):
        f = n.func
        c, t = self.ex(f.value)
        if f.attr == 'apply2' and t == 'FS' and len(n.args) == 1 and not n.keywords:
            return self.apply_lc(ast.copy_location(ast.Call(f, [n.args[0], f.value], []), n))
        if f.attr == 'copy' and t in ('NA', 'TBL') and not n.args and not n.keywords:
            return c, t
        if f.attr in ('copy',) and t in ('L', 'LL', 'OL') and not n.args:
            return (self.coerce(c, t, 'L', n), 'L') if t == 'OL' else (c, t)
        if f.attr == 'func' and t == 'EX' and len(n.args) == 1 and isinstance(n.args[0], ast.Starred) and not n.keywords:
            a = self.typ('LEX', n, self.ex(n.args[0].value))
            self.oblige(f'{c} is Sum || {c} is Prod || {c} is Power', 'a sum, product or power', n)
            self.emit(f'proof {{ axiom_rebuild({c}, {a}); }}')
            return f'rebuild({c}, {a})', 'EX'
        if f.attr == 'symbol' and t == 'SCN' and not n.args:
            return f'Node::Cls({c})', 'EX'
        if f.attr == 'partition' and t == 'SCN' and not n.args:
            return c, 'L'
        if f.attr == 'symbol' and t == 'ARG' and not n.args:
            self.oblige(f'{c} is Sch', 'a Schur object', n)
            return f'Node::Cls({c}->Sch_0)', 'EX'
        if f.attr in ('replace', 'translate') and t in ('ARG', 'TXT'):
            if t == 'ARG':
                self.oblige(f'{c} is Text', 'a text', n)
                c = f'{c}->Text_0'
            if n.keywords:
                self.fail(n, 'text')
            if f.attr == 'translate' and len(n.args) == 1 and isinstance(n.args[0], ast.Name):
                pair = self.src.maketrans(self.path, n.args[0].id)
                if pair is None:
                    self.fail(n, 'translation table')
                return f'ttr({self.chars(pair[0])}, {self.chars(pair[1])}, {c})', 'TXT'
            if f.attr == 'replace' and len(n.args) == 2 and all(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in n.args) and n.args[0].value:
                return f'treplace({c}, {self.chars(n.args[0].value)}, {self.chars(n.args[1].value)})', 'TXT'
            self.fail(n, 'text')
        if f.attr == '__contains__' and t == 'TXT' and len(n.args) == 1 and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str) and len(n.args[0].value) == 1:
            return f'haschar({c}, {self.chars(n.args[0].value)[5:-1]})', 'B'
        if f.attr in ('startswith', 'endswith') and t == 'TXT' and len(n.args) == 1 and not n.keywords and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str):
            v = n.args[0].value
            at = lambda i: f'{c}[{i}]' if f.attr == 'startswith' else f'{c}[{c}.len() - {len(v) - i}]'
            return '(' + ' && '.join([f'{c}.len() >= {len(v)}'] + [f'{at(i)} == {self.chars(x)[5:-1]}' for i, x in enumerate(v)]) + ')', 'B'
        if t == 'SCO' and not n.keywords:
            r = self.src.resolve(self.path, 'Schur')
            if r and (r[0], r[1] + '.' + f.attr) in self.table:
                return self.call_contract(self.table.variants[(r[0], r[1] + '.' + f.attr)], n, [f.value] + list(n.args))
        if f.attr == 'symbol' and t in ('L', 'SCHUR', 'SCH'):
            return f'fs_one({c})', 'FS'
        if f.attr == 'symbol' and t == 'FS':
            return c, 'FS'
        if f.attr == 'subs' and t == 'P' and len(n.args) == 2 and not n.keywords and isinstance(n.args[1], ast.Constant) and n.args[1].value == 0:
            v, tv = self.ex(n.args[0])
            if tv == 'SYM':
                return f'p_without({c}, {v})', 'P'
        if f.attr == 'partition' and t == 'L':
            return c, t
        if f.attr == 'tolist' and t in ('LLFS', 'LL', 'L') and not n.args:
            return c, t
        if f.attr == 'count' and t == 'L':
            return f'count_in({c}, {self.num(n.args[0])})', 'I'
        self.fail(n, f'method {f.attr} of {t}')

    def builtin(self, name, n):
        a = n.args
        if n.keywords and name not in ('max', 'min', 'sorted'):
            self.fail(n, 'keyword')
        if name == 'len':
            c, t = self.ex(a[0])
            if t == 'OL':
                c, t = self.coerce(c, t, 'L', n), 'L'
            if t == 'EMPTY':
                return '0int', 'I'
            if t in ('L', 'LL', 'SET', 'SETL', 'LF', 'LFS', 'LLFS', 'LSYM', 'LEX', 'LST', 'TXT', 'NA', 'LVX', 'LSYN', 'LB'):
                return f'({c}.len() as int)', 'I'
            self.fail(n, f'len of {t}')
        if name in ('min', 'max'):
            if len(a) == 1:
                if isinstance(a[0], (ast.GeneratorExp, ast.ListComp)):
                    c, t = self.ex(a[0])
                else:
                    c, t = self.list_of(a[0])
                if t != 'L':
                    self.fail(n, f'{name} of {t}')
                if n.keywords:
                    d = self.num(n.keywords[0].value)
                    return f'(if {c}.len() == 0 {{ {d} }} else {{ seq_{name}({c}) }})', 'I'
                self.oblige(f'{c}.len() > 0', f'{name} of a non-empty list', n)
                if not self.binders:
                    self.emit(f'assert({c}.len() > 0 ==> ({c}.contains(seq_{name}({c})) && forall|i: int| #![trigger {c}[i]] 0 <= i < {c}.len() ==> seq_{name}({c}) {"<=" if name == "min" else ">="} {c}[i])) by {{ if {c}.len() > 0 {{ lemma_seq_{name}({c}); }} }}')
                return f'seq_{name}({c})', 'I'
            cs = [self.num(x) for x in a]
            r = cs[0]
            for x in cs[1:]:
                r = f'i{name}({r}, {x})'
            return r, 'I'
        if name == 'abs':
            return f'iabs({self.num(a[0])})', 'I'
        if name == 'sum' and isinstance(a[0], (ast.GeneratorExp, ast.ListComp)) and isinstance(a[0].elt, ast.Constant) and a[0].elt.value == 1 and \
                len(a[0].generators) == 1 and a[0].generators[0].ifs and isinstance(a[0].generators[0].target, ast.Name):
            g = a[0].generators[0]
            x = g.target.id
            s_, t_ = self.seq_of_iter(g.iter, n)
            old = self.types.get(x)
            self.types[x] = t_
            self.binders.append((x, t_, f'{s_}.contains({x})'))
            cond = ' && '.join(f'({self.truth(c)})' for c in g.ifs)
            self.binders.pop()
            self.types.pop(x) if old is None else self.types.__setitem__(x, old)
            return f'count_where({s_}, |{x}: {vt(t_)}| {cond})', 'I'
        if name == 'sum':
            c, t = self.ex(a[0])
            if t == 'EMPTY':
                return '0int', 'I'
            if t == 'OL':
                c, t = self.coerce(c, t, 'L', n), 'L'
            if t != 'L':
                self.fail(n, f'sum of {t}')
            return f'sum_seq({c})', 'I'
        if name in ('all', 'any'):
            g = a[0]
            if not isinstance(g, (ast.GeneratorExp, ast.ListComp)) or len(g.generators) != 1:
                self.fail(n, name)
            gen = g.generators[0]
            x = gen.target.id
            ranged = isinstance(gen.iter, ast.Call) and isinstance(gen.iter.func, ast.Name) and gen.iter.func.id == 'range'
            if ranged:
                lo, hi, st = self.range_args(gen.iter)
                t, dom = 'I', f'{lo} <= {x} && {x} < {hi}'
                if re.fullmatch(r'\d+int', lo):
                    self.from_zero.add(x)
            else:
                s, t = self.seq_of_iter(gen.iter, n)
                dom = f'{s}.contains({x})'
            old = self.types.get(x)
            self.types[x] = t
            if isinstance(g.elt, ast.Call) and isinstance(g.elt.func, ast.Name) and g.elt.func.id == 'isinstance':
                c = self.isinst(g.elt)
                if c in ('true', 'false'):
                    if old is None:
                        self.types.pop(x)
                    return (c if c == 'true' or name == 'any' else f'({s}.len() == 0)'), 'B'
            self.binders.append((x, t, dom))
            c = self.truth(g.elt)
            conds = [self.truth(i) for i in gen.ifs]
            self.binders.pop()
            self.from_zero.discard(x)
            if old is None:
                self.types.pop(x)
            else:
                self.types[x] = old
            q, op = ('forall', '==>') if name == 'all' else ('exists', '&&')
            if ranged:
                cond = ' && '.join([dom] + conds)
                tr = sorted({m.group(0) for m in re.finditer(r'\b\w+\[' + x + r'\]', c)})
                tr = ''.join(f'#![trigger {e}] ' for e in tr) or '#![auto] '
                return f'({q}|{x}: {vt(t)}| {tr}{cond} {op} {c})', 'B'
            inner = f'{" && ".join(conds)} {op} {c}' if conds else c
            return f'({q}|{x}__i: int| 0 <= {x}__i < {s}.len() {op} {{ let {x} = #[trigger] {s}[{x}__i]; {inner} }})', 'B'
        if name in ('list', 'tuple'):
            if not a:
                return 'Seq::<int>::empty()', 'EMPTY'
            if isinstance(a[0], ast.Call) and isinstance(a[0].func, ast.Name) and a[0].func.id in ('range', 'reversed'):
                c, t = self.seq_of_iter(a[0], n)
                return c, {'I': 'L', 'L': 'LL'}[t]
            c, t = self.ex(a[0])
            if t in ('L', 'LL', 'EMPTY', 'LSYM'):
                return c, t
            if t == 'OL':
                return self.coerce(c, t, 'L', n), 'L'
            if t == 'SETL':
                return self.set_list(c), 'LL'
            self.fail(n, f'list of {t}')
        if name == 'sorted':
            kw = {k.arg: k.value for k in n.keywords}
            if set(kw) - {'key', 'reverse'} or ('reverse' in kw and not isinstance(kw['reverse'], ast.Constant)):
                self.fail(n, 'sorted')
            if 'key' in kw and len(a) == 1 and isinstance(kw['key'], ast.Lambda) and re.fullmatch(r'lambda (\w+): str\(\1\)', ast.unparse(kw['key'])):
                c, t = self.ex(a[0])
                if t == 'LSYM':
                    return f'sym_sorted({c})', t
            if 'key' in kw and not (isinstance(kw['key'], ast.Constant) and kw['key'].value is None):
                k = kw['key']
                if len(a) == 1 and isinstance(k, ast.Lambda) and re.fullmatch(r'lambda (\w+): \1\[1\]', ast.unparse(k)) and 'reverse' not in kw:
                    c, t = self.ex(a[0])
                    if t == 'LST':
                        return f'xsort({c})', t
                if not (isinstance(k, ast.Lambda) and len(k.args.args) == 1 and isinstance(k.body, ast.Name) and k.body.id == k.args.args[0].arg):
                    self.fail(n, 'sort key')
            c, t = self.ex(a[0])
            if t == 'SETL':
                c, t = self.set_list(c), 'LL'
            if t == 'SET':
                if not self.binders:
                    self.emit(f'proof {{ axiom_set_ints({c}); }}')
                c, t = f'set_ints({c})', 'L'
            if t not in ('LL', 'L'):
                self.fail(n, f'sorted of {t}')
            f = {'LL': 'lsort', 'L': 'isort'}[t]
            return (f'{f}({c}).reverse()' if 'reverse' in kw and kw['reverse'].value else f'{f}({c})'), t
        if name == 'str' and len(a) == 1:
            c, t = self.ex(a[0])
            if t == 'EX':
                self.emit(f'proof {{ axiom_print({c}); }}')
                return f'sstr({c})', 'TXT'
            if t == 'TXT':
                return c, t
            if t == 'L':
                return f'py_str({c})', 'STR'
            self.fail(n, f'str of {t}')
        if name == 'hash' and len(a) == 1:
            c, t = self.ex(a[0])
            if t in ('STR', 'L'):
                return f'py_hash({c if t == "STR" else f"py_str({c})"})', 'I'
            self.fail(n, f'hash of {t}')
        if name == 'int':
            c, t = self.ex(a[0])
            if t == 'EX':
                self.oblige(f'{c} is Int', 'a number', n)
                return f'{c}->Int_0', 'I'
            if t == 'F':
                return c, 'I'
            return self.num(a[0]), 'I'
        if name == 'bool':
            return self.truth(a[0]), 'B'
        if name == 'isinstance':
            return self.isinst(n), 'B'
        if name == 'set':
            if len(a) == 1 and isinstance(a[0], ast.Call) and ast.unparse(a[0].func) == 'sp.symbols' and len(a[0].args) == 1 and isinstance(a[0].args[0], ast.Constant) and \
                    sorted(str(a[0].args[0].value).replace(',', ' ').split()) == ['q', 'q1', 'q2']:
                return '()', 'QSET'
            if not a:
                return 'Set::<int>::empty()', 'SETE'
            if isinstance(a[0], ast.Call) and isinstance(a[0].func, ast.Name) and a[0].func.id == 'range':
                lo, hi, st = self.range_args(a[0])
                return f'set_int_range({lo}, {hi})', 'SET'
            c, t = self.ex(a[0])
            if t == 'L':
                return f'{c}.to_set()', 'SET'
            if t == 'LL':
                return f'{c}.to_set()', 'SETL'
            self.fail(n, f'set of {t}')
        if name == 'Schur' and len(a) == 1 and self.peek(a[0]) in ('ARG', 'SCN', 'EX'):
            c, t = self.ex(a[0])
            if t == 'ARG':
                self.oblige(f'{c} is Lst || {c} is Sch', 'a list or a Schur object', n)
                return f'arg_list({c})', 'SCN'
            if t == 'EX':
                self.oblige(f'{c} is Cls', 'a single class', n)
                return f'{c}->Cls_0', 'SCN'
            return c, t
        if name == 'Schur':
            c, t = self.ex(a[0])
            if t == 'EMPTY':
                return 'Seq::<int>::empty()', 'SCHUR' if self.schur_arith else 'L'
            if t == 'OL':
                c, t = self.coerce(c, t, 'L', n), 'L'
            if t == 'L' and self.schur_arith:
                return f'fs_one({c})', 'FS'
            return c, t
        if name == 'LinearCombination':
            c, t = self.ex(a[0])
            if t == 'P' or (t == 'I' and self.spec.ret == 'P'):
                return self.coerce(c, t, 'P', n), 'P'
            return self.coerce(c, t, 'FS', n), 'FS'
        self.fail(n, f'builtin {name}')

    def peek(self, node):
        """the type of an expression, without its obligations"""
        save = self.lines, self.obl, self.tmp
        self.lines, self.obl = [], []
        try:
            return self.ex(node)[1]
        finally:
            self.lines, self.obl, self.tmp = save

    def set_list(self, c):
        if not self.binders:
            self.emit(f'proof {{ axiom_set_list({c}); }}')
        return f'set_list({c})'

    schur_arith = False

    def isinst(self, n):
        c, t = self.ex(n.args[0])
        names = {x.id for x in ast.walk(n.args[1]) if isinstance(x, ast.Name)} | {x.attr for x in ast.walk(n.args[1]) if isinstance(x, ast.Attribute)}
        if t == 'OL':
            if 'list' in names:
                return f'{c}.is_some()'
        if t == 'OI':
            if 'int' in names:
                return f'{c}.is_some()'
        if t == 'FS' and 'LinearCombination' not in names and names & {'sp', 'Number', 'Expr', 'Symbol', 'Integer', 'Rational', 'Schur'}:
            return f'fs_isinst({c}, {self.strconst(" ".join(sorted(names)))})'
        if t == 'ARG':
            kinds = [k for k, ns in (('Lst', {'list'}), ('Sch', {'Schur'}), ('Text', {'str'}), ('Expr', {'Expr'}), ('Int', {'int'}), ('Lc', {'LinearCombination'})) if ns <= names]
            if kinds and names <= {'list', 'Schur', 'str', 'sp', 'Expr', 'Number', 'Symbol', 'int', 'float', 'LinearCombination'}:
                return '(' + ' || '.join(f'{c} is {k}' for k in kinds) + ')'
        if t == 'PVI' and names in ({'list'}, {'int'}):
            return f'({c} is {"R" if "list" in names else "N"})'
        if t == 'EX' and {'sp', 'Expr'} <= names:
            return 'true'
        if t == 'EX':
            if names <= {'LinearCombination', 'Schur', 'list', 'str', 'int', 'float'}:
                return 'false'
            if names == {'sp', 'Number'}:
                return f'({c} is Int)'
            for cls, k in (('Add', 'Sum'), ('Mul', 'Prod'), ('Pow', 'Power')):
                if names == {'sp', cls}:
                    return f'({c} is {k})'
        if t == 'SC':
            if names == {'sp', 'Expr'}:
                return f'{c}.sym'
            if names == {'Schur'}:
                return f'!{c}.sym'
        has = {'SCH': 'Schur' in names, 'LX': 'list' in names, 'X': False, 'LFS': 'list' in names, 'PART': 'Partition' in names, 'L': 'list' in names, 'LL': 'list' in names, 'EMPTY': 'list' in names, 'I': 'int' in names, 'B': 'int' in names or 'bool' in names,
               'PV': 'list' in names, 'SCO': 'Schur' in names, 'LCO': 'LinearCombination' in names, 'TXT': 'str' in names, 'STR': 'str' in names, 'FS': 'LinearCombination' in names, 'NONE': False}
        if t in has:
            return 'true' if has[t] else 'false'
        self.fail(n, f'isinstance of {t}')

    # ---- statements
    def assign(self, name, code, t, node):
        want = self.types.get(name)
        if want is None:
            want = self.spec.types.get(name)
            if want is None:
                want = {'EMPTY': self.retyped.get(name, 'L'), 'SETE': 'SET', 'NONE': 'OL'}.get(t, t)
                if t == 'EMPTY':
                    self.guessed.add(name)
            self.types[name] = want
            self.declared.append(name)
        self.emit(f'proof {{ {name} = {self.coerce(code, t, want, node)}; }}')
        if self.capture is None:
            self.nset[name] = self.nset.get(name, 0) + 1
            for a in (f'set {name}#{self.nset[name]}',) + ((f'set {name}',) if self.nset[name] == 1 else ()):
                for h in self.hooks(a):
                    self.emit_hint(h, 'hint ' + a)
        self.whole.discard(name)
        if want == 'LF' and t in ('L', 'EMPTY') and self.ind == 1 and not self.loopstack:
            self.whole.add(name)      # all entries are ints from here on

    def block(self, stmts):
        self.ind += 1
        for i, s in enumerate(stmts):
            self.stmt(s)
            if isinstance(s, (ast.Return, ast.Raise, ast.Break, ast.Continue)) or self.dead:
                break
        self.dead = False
        self.ind -= 1

    def stmt(self, s):
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            self.fail(s, f'statement {type(s).__name__}')
        m(s)

    def st_FunctionDef(self, s):
        self.localdefs[s.name] = s

    def st_Assign(self, s):
        if len(s.targets) != 1:
            if all(isinstance(t, ast.Name) for t in s.targets):
                c, t = self.ex(s.value)
                if t in ('L', 'LL', 'OL'):
                    self.fail(s, 'chained list assignment')
                for tg in s.targets:
                    self.assign(tg.id, c, t, s)
                return
            self.fail(s, 'assignment')
        tg = s.targets[0]
        if isinstance(tg, ast.Name):
            c, t = self.ex(s.value)
            self.assign(tg.id, c, t, s)
            return
        if isinstance(tg, ast.Tuple):
            c, t = self.ex(s.value)
            if t == 'LL' or t == 'L':
                v = self.fresh('u')
                self.emit(f'let ghost {v}: {vt(t)} = {c};')
                self.oblige(f'{v}.len() == {len(tg.elts)}', 'unpacking', s)
                for i, e in enumerate(tg.elts):
                    self.assign(e.id, f'{v}[{i}]', {'LL': 'L', 'L': 'I'}[t], s)
                return
            ts = split_types(t[1:-1]) if t.startswith('(') else ['OPART', 'I', 'I'] if t == 'RIM' else None
            if ts is None or len(ts) != len(tg.elts):
                self.fail(s, 'unpacking')
            v = self.fresh('u')
            self.emit(f'let ghost {v}: {vt_any(t)} = {c};')
            for i, e in enumerate(tg.elts):
                if not isinstance(e, ast.Name):
                    self.fail(s, 'unpacking')
                self.assign(e.id, f'{v}.{i}', ts[i], s)
            return
        if isinstance(tg, ast.Subscript) and isinstance(tg.value, ast.Name):
            v, t = self.types.get(tg.value.id), None
            self.set_item(tg.value.id, tg.slice, self.ex(s.value), s)
            return
        if isinstance(tg, ast.Subscript) and isinstance(tg.value, ast.Subscript) and isinstance(tg.value.value, ast.Name):
            nm = tg.value.value.id
            t = self.types.get(nm)
            if t not in ('LL', 'LLFS') or isinstance(tg.value.slice, ast.Slice) or isinstance(tg.slice, ast.Slice):
                self.fail(s, f'item assignment to {t}')
            val = self.ex(s.value)
            i = self.index(nm, tg.value.slice, s)
            j = self.index(f'{nm}[{i}]', tg.slice, s)
            self.emit(f'proof {{ {nm} = {nm}.update({i}, {nm}[{i}].update({j}, {self.coerce(val[0], val[1], {"LL": "I", "LLFS": "FS"}[t], s)})); }}')
            return
        if isinstance(tg, ast.Attribute) and isinstance(tg.value, ast.Name) and self.types.get(tg.value.id) == 'MTAB' and tg.attr in ('gr', 'df'):
            c, t = self.ex(s.value)
            nm = tg.value.id
            self.emit(f'proof {{ {nm} = MTab {{ {tg.attr}: {self.coerce(c, t, {"gr": "SPACE", "df": "TABLE"}[tg.attr], s)}, ..{nm} }}; }}')
            return
        if isinstance(tg, ast.Attribute) and isinstance(tg.value, ast.Name) and self.types.get(tg.value.id) == 'LCO' and tg.attr == 'expr':
            c, t = self.ex(s.value)
            self.emit(f'proof {{ {tg.value.id} = {self.coerce(c, t, "EX", s)}; }}')
            return
        if isinstance(tg, ast.Attribute) and isinstance(tg.value, ast.Name) and self.types.get(tg.value.id) == 'SCO' and tg.attr == 'p':
            c, t = self.ex(s.value)
            self.emit(f'proof {{ {tg.value.id} = {self.coerce(c, t, "PV", s)}; }}')
            return
        if isinstance(tg, ast.Attribute) and isinstance(tg.value, ast.Name) and self.types.get(tg.value.id) == 'PART' and tg.attr == 'partition':
            c, t = self.ex(s.value)
            self.emit(f'proof {{ {tg.value.id} = {self.coerce(c, t, "L", s)}; }}')
            return
        if isinstance(tg, ast.Attribute) and isinstance(tg.value, ast.Name) and self.types.get(tg.value.id) == 'SPACE' and tg.attr in SPACE_FIELDS:
            want = SPACE_FIELDS[tg.attr]
            c, t = self.ex(s.value)
            nm = tg.value.id
            self.emit(f'proof {{ {nm} = Space {{ {tg.attr}: {self.coerce(c, t, want, s)}, ..{nm} }}; }}')
            return
        self.fail(s, 'assignment target')

    def set_item(self, name, idx, val, s):
        t = self.types.get(name)
        if t == 'OL':
            self.oblige(f'{name}.is_some()', 'value is a list', s)
            i = self.index(f'{name}.unwrap()', idx, s)
            self.emit(f'proof {{ {name} = Some({name}.unwrap().update({i}, {self.coerce(val[0], val[1], "I", s)})); }}')
            return
        if t == 'TBL':
            i, j = self.cell_of(name, idx, s)
            self.emit(f'proof {{ {name} = tbl_set({name}, {i}, {j}, {self.coerce(val[0], val[1], "OPX", s)}); }}')
            return
        if t not in ('L', 'LL', 'LF', 'NA'):
            self.fail(s, f'item assignment to {t}')
        self.whole.discard(name)
        i = self.index(name, idx, s)
        self.emit(f'proof {{ {name} = {name}.update({i}, {self.coerce(val[0], val[1], {"L": "I", "NA": "I", "LL": "L", "LF": "F"}[t], s)}); }}')

    def st_AugAssign(self, s):
        if isinstance(s.target, ast.Name):
            b = ast.BinOp(ast.Name(s.target.id, ast.Load()), s.op, s.value)
            ast.copy_location(b, s)
            ast.fix_missing_locations(b)
            if self.types.get(s.target.id) not in ('I', 'B', 'F', 'FS', 'SCAL', 'PX', 'OPX', 'EX', 'STR', 'TXT', 'PV'):
                self.owner.check(s.target.id)       # a list: changed in place
            c, t = self.ex(b)
            self.assign(s.target.id, c, t, s)
            return
        if isinstance(s.target, ast.Subscript) and isinstance(s.target.value, ast.Name):
            ld = ast.Subscript(ast.Name(s.target.value.id, ast.Load()), s.target.slice, ast.Load())
            b = ast.BinOp(ld, s.op, s.value)
            ast.copy_location(b, s)
            ast.fix_missing_locations(b)
            self.set_item(s.target.value.id, s.target.slice, self.ex(b), s)
            return
        self.fail(s, 'augmented assignment')

    def st_Expr(self, s):
        v = s.value
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == '__init__' and ast.unparse(v.func.value) in ('super()',) and self.spec.qual.endswith('.__init__'):
            dyn = self.spec.dyn or self.cls
            for path, c in self.src.mro(self.cls)[1:]:
                for key in ((path, c + '.__init__@' + dyn), (path, c + '.__init__')):
                    if key in self.table:
                        cc, t = self.call_contract(self.table.variants[key], v, [ast.Name('self_', ast.Load())] + list(v.args))
                        self.emit(f'proof {{ self_ = {cc}; }}')
                        return
            self.fail(s, 'constructor of the base class')
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name):
            nm, at = v.func.value.id, v.func.attr
            t = self.types.get(nm)
            if t in ('L', 'LL', 'OL', 'LF', 'LFS', 'LLFS', 'LEX', 'LST') and at in ('append', 'extend', 'pop', 'sort', 'reverse', 'insert'):
                self.whole.discard(nm)
                cur = nm
                wrap = lambda x: x
                if t == 'OL':
                    self.oblige(f'{nm}.is_some()', 'value is a list', s)
                    cur, wrap, t = f'{nm}.unwrap()', (lambda x: f'Some({x})'), 'L'
                if at == 'append':
                    c, ct = self.ex(v.args[0])
                    et = {'L': 'I', 'LF': 'F', 'LFS': 'FS', 'LLFS': 'LFS', 'LEX': 'EX', 'LST': 'ST'}.get(t, 'L')
                    if nm in self.guessed and t == 'L' and ct in ('L', 'FS', 'LFS', 'EX', 'ST'):
                        raise Retype(nm, {'L': 'LL', 'FS': 'LFS', 'LFS': 'LLFS', 'EX': 'LEX', 'ST': 'LST'}[ct])
                    self.emit(f'proof {{ {nm} = {wrap(f"{cur}.push({self.coerce(c, ct, et, s)})")}; }}')
                    return
                if at == 'extend':
                    c, ct = self.ex(v.args[0])
                    self.emit(f'proof {{ {nm} = {wrap(f"({cur} + {self.coerce(c, ct, t, s)})")}; }}')
                    return
                if at == 'pop' and not v.args:
                    self.oblige(f'{cur}.len() > 0', 'pop of a non-empty list', s)
                    self.emit(f'proof {{ {nm} = {wrap(f"{cur}.drop_last()")}; }}')
                    return
                if at == 'sort' and not v.args and not v.keywords and t in ('L', 'LL'):
                    f_ = {'LL': 'lsort', 'L': 'isort'}[t]
                    self.emit(f'proof {{ {nm} = {wrap(f"{f_}({cur})")}; }}')
                    return
                if at == 'sort' and t == 'LST' and not v.args and len(v.keywords) == 1 and v.keywords[0].arg == 'key' and re.fullmatch(r'lambda (\w+): \1\[1\]', ast.unparse(v.keywords[0].value)):
                    self.emit(f'proof {{ {nm} = {wrap(f"xsort({cur})")}; }}')
                    return
                if at == 'reverse':
                    self.emit(f'proof {{ {nm} = {wrap(f"{cur}.reverse()")}; }}')
                    return
            if t in ('SET', 'SETL') and at == 'add':
                c, ct = self.ex(v.args[0])
                self.emit(f'proof {{ {nm} = {nm}.insert({self.coerce(c, ct, "I" if t == "SET" else "L", s)}); }}')
                return
        if isinstance(v, ast.Constant):
            return
        self.fail(s, 'expression statement')

    def cond(self, node):
        c = self.truth(node)
        g = self.fresh('c')
        self.emit(f'let ghost {g}: bool = {c}; let {g}x = test(Ghost({g}));')
        return g

    def st_If(self, s):
        c = self.truth(s.test)
        if c in ('true', 'false'):
            for x in (s.body if c == 'true' else s.orelse):
                self.stmt(x)
                if self.dead or isinstance(x, (ast.Return, ast.Raise, ast.Break, ast.Continue)):
                    self.dead = True
                    return
            return
        g = self.fresh('c')
        self.emit(f'let ghost {g}: bool = {c}; let {g}x = test(Ghost({g}));')
        self.emit(f'if {g}x {{')
        self.branch(s.body)
        if s.orelse:
            self.emit('} else {')
            self.branch(s.orelse)
        self.emit('}')

    def branch(self, stmts):
        mark = len(self.lines), len(self.obl), self.ind, dict(self.types), list(self.binders), list(self.loopstack), self.capture, list(self.declared)
        lines = self.lines
        try:
            self.block(stmts)
        except Unsupported as e:
            # outside the translated subset: accepted only where the branch is never taken
            self.lines = lines
            del self.lines[mark[0]:]
            del self.obl[mark[1]:]
            self.ind, self.dead = mark[2], False
            self.types, self.binders, self.loopstack, self.capture, self.declared = mark[3:]
            self.ind += 1
            self.oblige('false', f'not reached (outside the translated subset: {str(e)[:160]})', stmts[0])
            self.emit('return Ghost(arbitrary());')
            self.ind -= 1

    def st_Return(self, s):
        want = self.spec.ret
        if s.value is None and self.spec.qual.endswith('.__init__') and want in ('SPACE', 'PART', 'MTAB', 'LCO', 'SCO'):
            c, t = 'self_', want
        elif s.value is None:
            c, t = 'None::<Seq<int>>', 'NONE'
        else:
            c, t = self.ex(s.value)
        c = self.coerce(c, t, want, s)
        r = self.fresh('ret')
        self.emit(f'let ghost {r}: {vt(want)} = {c};')
        for h in self.hooks('return'):
            self.emit_hint('let result = ' + r + ';\n' + h, 'hint return')
        note = f"{self.spec.path}:{s.lineno} {self.spec.label}: postcondition at this return"
        if self.spec.exc:
            self.emit(f'return Ghost(Out::Val({r}));', note)
        else:
            self.emit(f'return Ghost({r});', note)

    def st_Raise(self, s):
        if not self.spec.exc:
            self.oblige('false', 'this raise is not reached', s)
            self.emit('return Ghost(arbitrary());')
            return
        e = s.exc
        name = e.func.id if isinstance(e, ast.Call) else e.id
        note = f"{self.spec.path}:{s.lineno} {self.spec.label}: raises {name} only when allowed"
        if name not in ('ValueError', 'TypeError', 'Exception'):
            self.fail(s, 'exception')
        self.emit(f'return Ghost(Out::Exc(Ex::{name}));', note)

    def emit_hint(self, text, note):
        if self.spec.drops:
            text = '\n'.join(b for b in hint_statements(text) if not any(f'{self.spec.label}: {note}|{l.strip()}' in self.spec.drops for l in b.split('\n')))
        # snapshots stay visible after the hint
        for l in text.split('\n'):
            if l.startswith('let ghost '):
                self.emit(l.strip(), f'{self.spec.label}: {note}')
        self.emit('proof {')
        for l in text.split('\n'):
            if l.strip() and not l.startswith(('let ghost ', 'hide(', 'broadcast use ')):
                self.emit('    ' + l.strip(), f'{self.spec.label}: {note}')
        self.emit('}')

    def guess_decreases(self, test, body):
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'pop' and isinstance(n.func.value, ast.Name):
                    return f'{n.func.value.id}.len()'
        for n in ast.walk(test) if isinstance(test, ast.AST) else ():
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                sv, so, st = self.lines, list(self.obl), self.tmp
                self.lines = []
                try:
                    a, b = self.num(n.left), self.num(n.comparators[0])
                except Unsupported:
                    continue
                finally:
                    self.lines, self.obl, self.tmp = sv, so, st
                if isinstance(n.ops[0], (ast.Gt, ast.GtE)):
                    a, b = b, a
                return f'({b}) - ({a}) + 1'
        return ''

    def loop_clauses(self, k, auto_inv, cond, auto_dec, test=None, body=()):
        text = self.spec.loops.get(k, '')
        inv, dec, ens = split_clauses(text)
        lab = f'{self.spec.path} {self.spec.label}: loop {k}'
        inv = [i for i in inv if f'{lab} invariant: {" ".join(i.split())[:160]}' not in self.spec.drops]
        if dec and f'{lab} terminates' in self.spec.drops:
            dec = '' if auto_dec else self.guess_decreases(test, body)
        allinv = auto_inv + inv
        note0 = f'{self.spec.path} {self.spec.label}: loop {k}'
        self.emit(f'    invariant')
        for i in allinv:
            nt = f'{note0} invariant: {" ".join(i.split())[:160]}'
            self.obl.append(nt)
            self.obl.append(nt + ' (preserved)')
            self.emit(f'        ({i}),' if not i.startswith('#') else i, nt)
        self.emit(f'    ensures !({cond}),')
        d = dec or auto_dec
        if d:
            self.emit(f'    decreases {d}', f'{note0} terminates')
            self.obl.append(f'{note0} terminates')

    def frozen_invs(self, body):
        """facts about names not assigned in the loop need no invariant (Verus keeps them with loop_isolation(false))"""
        return []

    def forget(self, s):
        self.whole -= {n.id for n in ast.walk(s) if isinstance(n, ast.Name)}

    def st_While(self, s):
        self.loop(s, s.test, [], [], None, s.body, s.orelse)

    def loop(self, s, test, auto_inv, head, auto_dec, body, orelse, pre=None):
        k = self.loopno
        self.loopno += 1
        self.forget(s)
        has_break = any(isinstance(n, ast.Break) for b in body for n in walk_noloop(b))
        brk = None
        if has_break:
            brk = f'brk{k}'
            self.types[brk] = 'B'
            self.declared.append(brk)
            self.emit(f'proof {{ {brk} = false; }}')
        elif orelse:
            self.fail(s, 'loop else')
        for h in self.hooks(f'before loop {k}'):
            self.emit_hint(h, f'hint before loop {k}')
        # first pass on the condition to learn its pure code
        pos = len(self.lines)
        save_tmp = self.tmp
        self.emit('loop')
        mark = len(self.lines)
        self.ind += 1
        if isinstance(test, str):
            cpre, c = [], test
        else:
            sv, self.lines = self.lines, []
            c = self.truth(test)
            cpre, self.lines = self.lines, sv
        self.ind -= 1
        if any('x = py_' in t for t, n in cpre):
            self.fail(s, 'call in a loop condition')
        cc = c
        if brk:
            cc = f'!{brk} && ({c})'
        self.loop_clauses(k, auto_inv, cc, auto_dec if not brk or not auto_dec else f'{auto_dec}, (if {brk} {{ 0int }} else {{ 1int }})', test, body)
        self.emit('{')
        self.ind += 1
        if brk and cpre:
            g = self.fresh('c')
            self.emit(f'let {g}x = test(Ghost({brk})); if {g}x {{ break; }}')
        self.lines += cpre
        g = self.fresh('c')
        self.emit(f'let ghost {g}: bool = {cc}; let {g}x = test(Ghost({g})); if !{g}x {{ break; }}')
        self.ind -= 1
        for h in head:
            self.ind += 1
            self.emit(h)
            self.ind -= 1
        self.ind += 1
        for h in self.hooks(f'loop {k} head'):
            self.emit_hint(h, f'hint loop {k} head')
        self.ind -= 1
        self.loopstack.append((k, brk))
        self.block(body)
        self.loopstack.pop()
        self.ind += 1
        if not (body and isinstance(body[-1], (ast.Return, ast.Continue, ast.Break))):
            for h in self.hooks(f'loop {k} end'):
                self.emit_hint(h, f'hint loop {k} end')
        self.ind -= 1
        self.emit('}')
        for h in self.hooks(f'after loop {k}'):
            self.emit_hint(h, f'hint after loop {k}')
        if orelse and has_break:
            g = self.fresh('c')
            self.emit(f'let ghost {g}: bool = !{brk}; let {g}x = test(Ghost({g})); if {g}x {{')
            self.block(orelse)
            self.emit('}')

    def st_For(self, s):
        k = self.loopno
        it = f'it{k}'
        self.types[it] = 'I'
        self.declared.append(it)
        src = s.iter
        rev = False
        if isinstance(src, ast.Call) and isinstance(src.func, ast.Name) and src.func.id == 'range' and self.src.resolve(self.path, 'range') is None:
            a, b, st = self.range_args(src)
            # bounds are evaluated once
            va, vb = f'lo{k}', f'hi{k}'
            self.emit(f'let ghost {va}: int = {a}; let ghost {vb}: int = {b};')
            self.emit(f'proof {{ {it} = {va}; }}')
            x = s.target.id
            self.declare(x, 'I')
            if st == 1:
                self.loop(s, f'{it} < {vb}', [f'{va} <= {it}', f'{it} <= imax({va}, {vb})'],
                          [f'proof {{ {x} = {it}; {it} = {it} + 1; }}'], f'{vb} - {it}', s.body, s.orelse)
            else:
                self.loop(s, f'{it} > {vb}', [f'{va} >= {it}', f'{it} >= imin({va}, {vb})'],
                          [f'proof {{ {x} = {it}; {it} = {it} - 1; }}'], f'{it} - {vb}', s.body, s.orelse)
            return
        enum = False
        if isinstance(src, ast.Call) and isinstance(src.func, ast.Name) and src.func.id == 'enumerate':
            enum, src = True, src.args[0]
        c, t = self.seq_of_iter(src, s)
        sq = f'sq{k}'
        self.emit(f'let ghost {sq}: {vt({"I": "L", "L": "LL", "EX": "LEX"}[t])} = {c};')
        self.emit(f'proof {{ {it} = 0; }}')
        if enum:
            i, x = s.target.elts[0].id, s.target.elts[1].id
            self.declare(i, 'I')
            pre = f'{i} = {it}; '
        else:
            x = s.target.id
            pre = ''
        self.declare(x, t)
        self.loop(s, f'{it} < {sq}.len()', [f'0 <= {it}', f'{it} <= {sq}.len()'],
                  [f'proof {{ {pre}{x} = {sq}[{it}]; {it} = {it} + 1; }}'], f'{sq}.len() - {it}', s.body, s.orelse)

    def declare(self, x, t):
        if x in self.types:
            if self.types[x] != t:
                raise Unsupported(f'{self.spec.label}: {x} has two types')
            return
        self.types[x] = t
        self.declared.append(x)

    def st_Break(self, s):
        k, brk = self.loopstack[-1]
        for h in self.hooks(f'loop {k} break'):
            self.emit_hint(h, f'hint loop {k} break')
        self.emit(f'proof {{ {brk} = true; }}')
        self.emit('continue;')

    def st_Continue(self, s):
        k, brk = self.loopstack[-1]
        for h in self.hooks(f'loop {k} continue') or self.hooks(f'loop {k} end'):
            self.emit_hint(h, f'hint loop {k} continue')
        self.emit('continue;')

    def st_Pass(self, s):
        pass

    # ---- whole function
    def function(self):
        spec = self.spec
        caps = []
        if self.src.outer_of(spec.path, spec.qual):
            fn, caps = self.src.nested(spec.path, spec.qual, {p for p, t in spec.params})
            caps = in_order(caps, spec)
            fn = copy.deepcopy(fn)
            self.nested_names = {fn.name: spec}
        else:
            fn = copy.deepcopy(self.src.function(spec.path, spec.qual))
            for (pth, q), sp in self.table.items():
                if pth == spec.path and q.rsplit('.', 1)[0] == spec.qual and self.src.outer_of(pth, q):
                    g = self.src.nested(pth, q, {p for p, t in sp.params})
                    self.nested_names[g[0].name] = sp
                    self.nested_caps[g[0].name] = in_order(g[1], sp)
        actual = [a.arg for a in fn.args.args] + caps
        if fn.args.vararg or fn.args.kwarg or fn.args.kwonlyargs:
            raise Unsupported(f'{spec.label}: signature')
        expected = [p for p, t in spec.params]
        if len(actual) != len(expected):
            raise Unsupported(f'{spec.label}: number of parameters changed')
        for n in ast.walk(fn):
            if isinstance(n, (ast.Global, ast.Nonlocal, ast.Yield, ast.YieldFrom, ast.Try, ast.With, ast.Await, ast.NamedExpr)):
                raise Unsupported(f'{spec.path}:{n.lineno} {spec.label}: {type(n).__name__}')
        ren = {a: e for a, e in zip(actual, expected) if a != e}
        if ren:
            fn = Rename(ren).visit(fn)
            for a in fn.args.args:
                a.arg = ren.get(a.arg, a.arg)
            self.nested_caps = {k: [ren.get(c, c) for c in v] for k, v in self.nested_caps.items()}
        fn.body = [s for s in fn.body if not (isinstance(s, ast.FunctionDef) and s.name in self.nested_names)]
        if spec.looped:
            fn = Looped().block_of(fn)
        fn.body = Cleaner(fn).block(fn.body)
        for s in fn.body:
            if isinstance(s, ast.FunctionDef):
                self.localdefs[s.name] = s
        self.allnames = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name)} | {a.arg for a in fn.args.args}
        fn.body = Inliner(self).expand(fn.body)
        fn.body = Cleaner(fn).block(fn.body)
        ast.fix_missing_locations(fn)
        if not spec.looped:
            fold_loops(fn, spec)
        order = binding_order(fn)
        if spec.vars is not None and not set(spec.vars) <= set(order):
            extra = [v for v in order if v not in spec.vars]
            miss = [v for v in spec.vars if v not in order]
            mp = {}
            if len(order) == len(spec.vars):
                mp = {a: b for a, b in zip(order, spec.vars) if a != b}
            elif len(extra) >= len(miss):
                mp = dict(zip(extra, miss))
            else:
                # fewer names than the contract knows: lists that are built up go to the lists the contract names
                built = [v for v in extra if any(isinstance(n, ast.Assign) and isinstance(n.value, ast.List) and not n.value.elts and any(isinstance(t, ast.Name) and t.id == v for t in n.targets)
                                                 for n in ast.walk(fn))]
                mp = dict(zip(built, [v for v in miss if spec.types.get(v, '').startswith('L')]))
            if mp:
                tmpm = {a: a + '__ren' for a in mp}
                fn = Rename(tmpm).visit(fn)
                self.inlined = {mp.get(x, x) for x in self.inlined}
                fn = Rename({a + '__ren': b for a, b in mp.items()}).visit(fn)
                self.nested_caps = {k: [mp.get(c, c) for c in v] for k, v in self.nested_caps.items()}
        # names of the code that the contract does not speak about must not hide names of the contract language
        told = set(re.findall(r'\w+\b(?!\()', str(vars(spec)))) | {t.id for n in ast.walk(fn) if isinstance(n, ast.Assign) and isinstance(n.value, ast.Lambda) for t in n.targets if isinstance(t, ast.Name)}
        own = {v: v + '_v' for v in binding_order(fn) if v not in told and v not in self.localdefs}
        if own:
            fn = Rename(own).visit(fn)
            self.inlined = {own.get(x, x) for x in self.inlined}
            self.nested_caps = {k: [own.get(c, c) for c in v] for k, v in self.nested_caps.items()}
        fn.body = drop_none(fn.body)
        split_sets(fn, [v for v, t in spec.types.items() if t == 'SETL'])
        self.owner = Owner(fn, spec, self.src, self.table, self.inlined)
        self.owner.check()
        self.owner.objects()
        self.fn = fn
        self.declared = []
        self.from_zero = set()
        self.nset = {}
        self.types = {p: t for p, t in spec.params}
        stored = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        mutated = {n.func.value.id for n in ast.walk(fn) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name)
                   and n.func.attr in ('append', 'extend', 'pop', 'sort', 'reverse', 'insert', 'add')}
        mutated |= {n.value.id for n in ast.walk(fn) if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name)}
        mutated |= {n.value.value.id for n in ast.walk(fn) if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Subscript) and isinstance(n.value.value, ast.Name)}
        mutated |= {n.value.id for n in ast.walk(fn) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name)}
        mutated |= {'self_'} if any(isinstance(n, ast.Call) and ast.unparse(n.func) == 'super().__init__' for n in ast.walk(fn)) else set()
        reassigned = [p for p, t in spec.params if p in stored or p in mutated]
        self.schur_arith = spec.ret == 'FS' or 'FS' in spec.types.values()
        for h in self.hooks('entry'):
            self.emit_hint(h, 'hint entry')
        for s in fn.body:
            self.stmt(s)
            if self.dead:
                break
        if not self.dead and fn.body and isinstance(fn.body[-1], ast.While) and self.always_returns(fn.body):
            self.emit('return Ghost(arbitrary());')     # after while True without break
        if not self.dead and not (fn.body and self.always_returns(fn.body)):
            note = f"{spec.path} {spec.label}: postcondition when the end is reached"
            if spec.ret == 'OL':
                self.emit('return Ghost(None::<Seq<int>>);' if not spec.exc else 'return Ghost(Out::Val(None::<Seq<int>>));', note)
            elif spec.ret in ('SPACE', 'PART', 'MTAB', 'LCO', 'SCO') and spec.qual.endswith('.__init__'):
                self.emit('return Ghost(self_);' if not spec.exc else 'return Ghost(Out::Val(self_));', note)
            elif spec.ret == 'U':
                self.emit('return Ghost(());' if not spec.exc else 'return Ghost(Out::Val(()));', note)
            else:
                self.obl.append(f'{spec.label}: the end of the function is not reached without return')
                self.emit('assert(false);', f'{spec.path} {spec.label}: the end of the function is not reached without return')
                self.emit('return Ghost(arbitrary());')
        # head
        body, self.lines = self.lines, []
        self.ind = 0
        rt = vt(spec.ret) if not spec.exc else f'Out<{vt(spec.ret)}>'
        params = ', '.join(f'Ghost({rs(p)}): Ghost<{vt(t)}>' for p, t in spec.params)
        for a in spec.attrs.strip().split('\n'):
            if a:
                self.emit(a)
        self.emit('#[verifier::loop_isolation(false)]')
        self.emit('#[verifier::allow_complex_invariants]')
        self.emit(f'pub fn {spec.name}({params}) -> (result_: Ghost<{rt}>)')
        req, ens, dec = split_contract(spec.contract)
        if req:
            self.emit('    requires')
            for r in req:
                self.emit(f'        ({r}),')
        if ens:
            self.emit('    ensures')
            for e in ens:
                nt = f'{spec.path} {spec.label}: postcondition: {" ".join(e.split())[:200]}'
                self.obl.append(nt)
                self.emit(f'        ({{ let result = result_@; {e} }}),', nt)
        if spec.spec:
            nt = f'{spec.path} {spec.label}: the result is {spec.spec}'
            self.obl.append(nt)
            if not ens:
                self.emit('    ensures')
            eq = '==' if spec.ret in ('I', 'B', 'STR', 'R') else '=~~='
            self.emit(f'        (result_@ {eq} {spec.spec}({", ".join(p for p, t in spec.params)})),', nt)
        if dec:
            self.emit(f'    decreases {dec}')
        self.emit('{')
        self.ind = 1
        for pre in ('hide(', 'broadcast use '):
            for l in spec.hints.get('entry', '').split('\n'):
                if l.startswith(pre):
                    self.emit(l.strip())
        for p in reassigned:
            self.emit(f'let ghost old_{p} = {p}; let ghost mut {p} = {p};')
        for d in self.declared:
            self.emit(f'let ghost mut {rs(d)}: {vt(self.types[d])} = arbitrary();')
        self.lines += body
        self.ind = 0
        self.emit('}')
        return self.lines

    def always_returns(self, body):
        if not body:
            return False
        l = body[-1]
        if isinstance(l, (ast.Return, ast.Raise)):
            return True
        if isinstance(l, ast.If):
            return self.always_returns(l.body) and self.always_returns(l.orelse)
        if isinstance(l, ast.While) and isinstance(l.test, ast.Constant) and l.test.value and not any(isinstance(n, ast.Break) for b in l.body for n in walk_noloop(b)):
            return True
        return False


class Looped:
    """x = [e for v in S if c]  ->  x = []; for v in S: (if c:) x.append(e)   when e calls something;
    f(*[...]) and f(*tuple) likewise through a new name"""

    def __init__(self):
        self.n = 0

    def block_of(self, fn):
        fn.body = self.block(fn.body)
        ast.fix_missing_locations(fn)
        return fn

    def block(self, b):
        out = []
        for s in b:
            for fld in ('body', 'orelse'):
                if isinstance(s, (ast.If, ast.For, ast.While)) and getattr(s, fld):
                    setattr(s, fld, self.block(getattr(s, fld)))
            if isinstance(s, (ast.Assign, ast.Return)) and s.value is not None:
                pre = []
                me = self

                class H(ast.NodeTransformer):
                    def visit_Lambda(self, n):
                        return n

                    def visit_ListComp(self, n):
                        return me.loop(n, pre, s)

                    def visit_Starred(self, n):
                        if isinstance(n.value, ast.GeneratorExp) or isinstance(n.value, ast.ListComp):
                            n.value = me.loop(n.value, pre, s)
                            return n
                        return self.generic_visit(n)
                if isinstance(s, ast.Assign) and isinstance(s.value, ast.ListComp) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and \
                        s.targets[0].id not in {n.id for n in ast.walk(s.value) if isinstance(n, ast.Name)}:
                    self.loop(s.value, pre, s, s.targets[0].id)
                    out += pre
                    continue
                s.value = H().visit(s.value)
                out += pre
            out.append(s)
        return out

    def loop(self, n, pre, at, name=None):
        if len(n.generators) != 1 or not isinstance(n.generators[0].target, ast.Name):
            return n
        g = n.generators[0]
        if name is None:
            self.n += 1
            name = f'lst_l{self.n}'
        body = ast.Expr(ast.Call(ast.Attribute(ast.Name(name, ast.Load()), 'append', ast.Load()), [n.elt], []))
        for c in reversed(g.ifs):
            body = ast.If(c, [body], [])
        new = [ast.Assign([ast.Name(name, ast.Store())], ast.List([], ast.Load())), ast.For(g.target, g.iter, [body], [])]
        for x in new:
            for y in ast.walk(x):
                ast.copy_location(y, at)
        pre += new
        return ast.copy_location(ast.Name(name, ast.Load()), at)


class SubstName(ast.NodeTransformer):
    def __init__(self, a, b):
        self.a, self.b = a, b

    def visit_Name(self, n):
        if n.id == self.a:
            return ast.copy_location(ast.Name(self.b, n.ctx), n)
        return n


def rs(x):
    return x


def vt_any(t):
    if t == 'EMPTY':
        return 'Seq<int>'
    if t == 'NONE':
        return 'Option<Seq<int>>'
    if t == 'STR':
        return 'int'
    if t.startswith('('):
        return '(' + ', '.join(vt_any(x) for x in split_types(t[1:-1])) + ')'
    return vt(t)


# numpy arrays of integers, variables of polynomials and lists of them, polynomials, a table of polynomials
ABBR.update(NA='Seq<int>', SYN='int', LSYN='Seq<int>', VX='int', LVX='Seq<int>', PX='Px', OPX='Option<Px>', TBL='Tbl', LB='Seq<bool>')
ABBR['STR'] = 'int'
ABBR['PART'] = 'Seq<int>'
ABBR.update(OPART='Option<Seq<int>>', RIM='(Option<Seq<int>>, int, int)')
ABBR['SCHUR'] = 'Seq<int>'
ABBR['SCH'] = 'Seq<int>'
# polynomials in the special classes, their symbols, an argument that is a Schur object or a symbol, functions of a number and a class
ABBR.update(P='Seq<Term>', SYM='Seq<int>', LSYM='Seq<Seq<int>>', SC='SC', FN2='Op')


def walk_noloop(n):
    """nodes below n that belong to the same loop"""
    yield n
    if isinstance(n, (ast.For, ast.While, ast.FunctionDef, ast.Lambda)):
        return
    for c in ast.iter_child_nodes(n):
        yield from walk_noloop(c)


def split_top(text):
    """split a clause list at top level commas"""
    out, d, cur = [], 0, ''
    i = 0
    inbar = 0
    while i < len(text):
        ch = text[i]
        if text.startswith('//', i):
            j = text.find('\n', i)
            i = len(text) if j < 0 else j
            continue
        if ch in '([{':
            d += 1
        elif ch in ')]}':
            d -= 1
        elif ch == '|' and re.search(r'(forall|exists|choose)\s*$', text[:i]) and d == d:
            j = text.index('|', i + 1)
            cur += text[i:j + 1]
            i = j + 1
            continue
        if ch == ',' and d == 0:
            if cur.strip():
                out.append(cur.strip())
            cur = ''
        else:
            cur += ch
        i += 1
    if cur.strip():
        out.append(cur.strip())
    return out


def split_keywords(text, kws):
    parts = {}
    pos = []
    for m in re.finditer(r'(?m)^\s*(' + '|'.join(kws) + r')\b', text):
        pos.append((m.start(1), m.end(1), m.group(1)))
    for i, (a, b, k) in enumerate(pos):
        e = pos[i + 1][0] if i + 1 < len(pos) else len(text)
        parts.setdefault(k, '')
        parts[k] += text[b:e].strip().rstrip(',') + ',\n'
    return parts


def split_contract(text):
    p = split_keywords(text, ['requires', 'ensures', 'decreases'])
    return split_top(p.get('requires', '')), split_top(p.get('ensures', '')), ', '.join(split_top(p.get('decreases', '')))


def split_clauses(text):
    p = split_keywords(text, ['invariant', 'decreases'])
    return split_top(p.get('invariant', '')), ', '.join(split_top(p.get('decreases', ''))), None


def hint_statements(text):
    out, cur, bal = [], [], 0
    for l in text.split('\n'):
        cur.append(l)
        bal += sum(l.count(c) for c in '({[') - sum(l.count(c) for c in ')}]')
        if bal == 0 and (l.rstrip().endswith((';', '}')) or not l.strip()):
            out.append('\n'.join(cur))
            cur = []
    if cur:
        out.append('\n'.join(cur))
    return out


# ---------------------------------------------------------------- ownership (frame) check
class Owner:
    """Value semantics is sound when a list changed in place is fresh and has one name.

    fresh expressions: literals, comprehensions, slices, +, *, copy(), list(), sorted(), and calls of functions
    that return fresh lists."""
    MUT = ('append', 'extend', 'pop', 'sort', 'reverse', 'insert', 'remove', 'clear')

    def __init__(self, fn, spec, src, table, inlined=()):
        self.fn, self.spec, self.src, self.table = fn, spec, src, table
        self.inlined = inlined

    def mutated(self):
        out = {}
        self.nested, self.aug = set(), {}
        for n in ast.walk(self.fn):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.attr in self.MUT:
                out.setdefault(n.func.value.id, n)
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name):
                out.setdefault(n.value.id, n)
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Subscript) and isinstance(n.value.value, ast.Name):
                out.setdefault(n.value.value.id, n)
                self.nested.add(n.value.value.id)
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and isinstance(n.op, (ast.Add, ast.Mult)):
                # in place for lists; for numbers harmless
                self.aug.setdefault(n.target.id, n)
        return out

    def fresh(self, e):
        if isinstance(e, (ast.List, ast.ListComp, ast.BinOp, ast.Constant, ast.Tuple, ast.Compare, ast.BoolOp, ast.UnaryOp)):
            return True
        if isinstance(e, ast.Subscript):
            return isinstance(e.slice, ast.Slice)
        if isinstance(e, ast.IfExp):
            return self.fresh(e.body) and self.fresh(e.orelse)
        if isinstance(e, ast.Call):
            return True     # every function under contract returns a fresh list or (checked in callers) is not mutated after; see returns_param
        return False

    def only_fresh(self, name):
        vs = [n.value for n in ast.walk(self.fn) if isinstance(n, ast.Assign) for t in n.targets if isinstance(t, ast.Name) and t.id == name]
        return bool(vs) and all(self.fresh(v) and not isinstance(v, ast.Call) for v in vs)

    def check(self, aug=None):
        """aug: a list that is changed by an augmented assignment"""
        mut = self.mutated()
        if aug is not None:
            mut = {aug: self.aug[aug]} if aug in self.aug else {}
        params = {p: t for p, t in self.spec.params}
        for name, node in mut.items():
            if name in params and params[name] in ('I', 'B', 'FS', 'SCAL'):
                continue
            assigns = []
            first_line = getattr(node, 'lineno', 0)
            for n in ast.walk(self.fn):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name) and t.id == name:
                            assigns.append(n)
            if name in params and name not in self.spec.owns and not any(a.lineno <= first_line for a in assigns):
                raise Unsupported(f"{self.spec.path}:{first_line} {self.spec.label}: the argument {name} is changed in place")
            if name in self.nested and not all(isinstance(a.value, ast.ListComp) and self.fresh(a.value.elt) for a in assigns):
                raise Unsupported(f"{self.spec.path}:{first_line} {self.spec.label}: the rows of {name} may be shared")
            for a in assigns:
                v = a.value
                if isinstance(v, ast.Name) and v.id in self.inlined and self.only_fresh(v.id):
                    continue       # the list of an expanded helper, used nowhere else afterwards
                if isinstance(v, ast.Name) and not isinstance(node, ast.AugAssign):
                    raise Unsupported(f"{self.spec.path}:{a.lineno} {self.spec.label}: {name} is a second name of {v.id} and is changed in place")
                if isinstance(v, ast.Name) and isinstance(node, ast.AugAssign) and self.listy(v.id, params):
                    raise Unsupported(f"{self.spec.path}:{a.lineno} {self.spec.label}: {name} is a second name of the list {v.id} and is changed in place")
                if not self.fresh(v) and not isinstance(v, ast.Name):
                    raise Unsupported(f"{self.spec.path}:{a.lineno} {self.spec.label}: {name} may share a list that is changed in place")
                if isinstance(v, ast.Call):
                    self.returns_fresh(v, name)
            for n in ast.walk(self.fn):
                # another name for the mutated list
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id == name and not isinstance(node, ast.AugAssign) and name not in self.inlined:
                    raise Unsupported(f"{self.spec.path}:{n.lineno} {self.spec.label}: second name of {name}, which is changed in place")
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'insert') and any(isinstance(x, ast.Name) and x.id == name for x in n.args) and not isinstance(node, ast.AugAssign):
                    raise Unsupported(f"{self.spec.path}:{n.lineno} {self.spec.label}: {name}, which is changed in place, is stored")

    def objects(self):
        """attributes are set only on the object under construction and on objects made here"""
        params = {p for p, t in self.spec.params}
        init = self.spec.qual.endswith('.__init__')
        for n in ast.walk(self.fn):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                x = n.value.id if isinstance(n.value, ast.Name) else None
                if init and x == 'self_':
                    continue
                vals = [a.value for a in ast.walk(self.fn) if isinstance(a, ast.Assign) and any(isinstance(t, ast.Name) and t.id == x for t in a.targets)]
                if x is None or x in params or not vals or not all(self.made(v, self.spec.path) for v in vals):
                    raise Unsupported(f"{self.spec.path}:{n.lineno} {self.spec.label}: {ast.unparse(n)} may be an attribute of an object that is used elsewhere")
                for a in ast.walk(self.fn):
                    if isinstance(a, ast.Assign) and any(isinstance(v, ast.Name) and v.id == x for v in ([a.value] if not isinstance(a.value, (ast.Tuple, ast.List)) else a.value.elts)):
                        raise Unsupported(f"{self.spec.path}:{a.lineno} {self.spec.label}: second name of {x}, whose attributes are set")

    def made(self, v, path, deep=0):
        """the value is a new object: a constructor call, or a method that returns only such"""
        if not isinstance(v, ast.Call) or deep > 3:
            return False
        f = v.func
        if isinstance(f, ast.Attribute) and f.attr == '__class__' and isinstance(f.value, ast.Name) and f.value.id in ('self', 'self_'):
            return True
        if isinstance(f, ast.Name):
            r = self.src.resolve(path, f.id)
            return bool(r) and self.src.find_class(r[1]) is not None
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ('self', 'self_'):
            cls = self.spec.dyn or self.spec.qual.split('.')[0]
            for p, c in self.src.mro(cls):
                try:
                    g = self.src.function(p, c + '.' + f.attr)
                except Unsupported:
                    continue
                if g.decorator_list:
                    return False
                rets = [r.value for r in ast.walk(g) if isinstance(r, ast.Return)]
                out = []
                for r in rets:
                    if isinstance(r, ast.Name):
                        out += [a.value for a in ast.walk(g) if isinstance(a, ast.Assign) and any(isinstance(t, ast.Name) and t.id == r.id for t in a.targets)] or [None]
                    else:
                        out.append(r)
                return bool(out) and all(self.made(r, p, deep + 1) for r in out)
        return False

    def listy(self, v, params):
        t = params.get(v) or self.spec.types.get(v)
        return t in ('L', 'LL', 'OL')

    def returns_fresh(self, call, name):
        f = call.func
        key = None
        if isinstance(f, ast.Name):
            key = self.src.resolve(self.spec.path, f.id)
        if key and key[0].startswith('schubertpy/'):
            try:
                g = self.src.function(*key)
            except Unsupported:
                return
            ps = {a.arg for a in g.args.args}
            stored = {n.id for n in ast.walk(g) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            for r in ast.walk(g):
                if isinstance(r, ast.Return) and isinstance(r.value, ast.Name) and r.value.id in ps and r.value.id not in stored:
                    pos = [a.arg for a in g.args.args].index(r.value.id)
                    if pos < len(call.args) and isinstance(call.args[pos], ast.Name) and call.args[pos].id == name:
                        continue    # its own argument comes back
                    raise Unsupported(f"{self.spec.path}:{call.lineno} {self.spec.label}: {name} may be an argument of {f.id}, and is changed in place")

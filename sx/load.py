"""Compile the package under test from its current sources, with rewritten
operators and shimmed builtins and imports.  Nothing is cached on disk."""
import ast
import builtins
import copy
import hashlib
import os
import sys
import types

from . import shims

REPO = os.environ.get('SX_REPO', '/repo')


PURE_CALLS = ('int', 'bool', 'abs', 'len', 'min', 'max', 'round', 'float')


def pure(n):
    """an expression that can be evaluated although the program would not have"""
    if isinstance(n, (ast.Name, ast.Constant)):
        return True
    if isinstance(n, ast.Lambda):
        return getattr(n, 'sx_thunk', False)
    if isinstance(n, ast.Attribute):
        return pure(n.value)
    if isinstance(n, ast.BinOp):
        return pure(n.left) and pure(n.right)
    if isinstance(n, ast.UnaryOp):
        return pure(n.operand)
    if isinstance(n, ast.Compare):
        return pure(n.left) and all(pure(c) for c in n.comparators)
    if isinstance(n, (ast.BoolOp,)):
        return all(pure(v) for v in n.values)
    if isinstance(n, ast.IfExp):
        return pure(n.test) and pure(n.body) and pure(n.orelse)
    if isinstance(n, ast.Subscript):
        return pure(n.value) and pure(n.slice)
    if isinstance(n, ast.Tuple):
        return all(pure(v) for v in n.elts)
    if isinstance(n, ast.Call):
        return isinstance(n.func, ast.Name) and not n.keywords and all(pure(a) for a in n.args) and \
            (n.func.id in PURE_CALLS or n.func.id in ('sx__ite', 'sx__and', 'sx__or', 'sx__not', 'sx__mod',
                                                      'sx__getitem', 'sx__contains'))
    return False


def call(f, *a):
    return ast.Call(ast.Name(f, ast.Load()), list(a), [])


def thunk(e):
    l = ast.Lambda(ast.arguments([], [], None, [], [], None, []), e)
    l.sx_thunk = True
    return l


def assigns(body):
    """the names assigned by a block of plain assignments, or None"""
    out = []
    for s in body:
        if isinstance(s, ast.Pass):
            continue
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and pure(s.value):
            ns = [s.targets[0].id]
        elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and pure(s.value):
            ns = [s.target.id]
        elif isinstance(s, ast.If) and pure(s.test):
            a, b = assigns(s.body), assigns(s.orelse)
            if a is None or b is None:
                return None
            ns = a + b
        else:
            return None
        for n in ns:
            if n not in out:
                out.append(n)
    return out


def returned(stmts, following):
    """the value a block of conditional returns gives, as an expression to be evaluated lazily, or None"""
    if not stmts:
        return following
    s = stmts[0]
    if value_return(s):
        return s.value if len(stmts) == 1 else None
    if isinstance(s, ast.If):
        rest = returned(stmts[1:], following)
        a, b = returned(s.body, rest), returned(s.orelse, rest)
        if a is None or b is None or not pure(s.test):
            return None
        return call('sx__ite', copy.deepcopy(s.test), thunk(copy.deepcopy(a)), thunk(copy.deepcopy(b)))
    return None


def fields(body):
    """{target: (target, value)} of a block of assignments to attributes, or None"""
    out = {}
    for s in body:
        if isinstance(s, ast.Pass):
            continue
        if isinstance(s, ast.Assign) and len(s.targets) == 1:
            t, v = s.targets[0], s.value
        elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Attribute):
            t = s.target
            v = ast.BinOp(ast.Attribute(copy.deepcopy(t.value), t.attr, ast.Load()), s.op, s.value)
        else:
            return None
        if not isinstance(t, ast.Attribute) or not pure(t.value) or not pure(v):
            return None
        k = ast.dump(ast.Attribute(t.value, t.attr, ast.Load()))
        if k in out or any(o in ast.dump(v) for o in out):
            return None
        out[k] = (t, copy.deepcopy(v))
    return out


def merge_block(n):
    """rewrite the if statements of a function whose branches only compute values"""
    for f in ('body', 'orelse', 'finalbody'):
        b = getattr(n, f, None)
        if isinstance(b, list):
            setattr(n, f, merge_stmts(b))
    for h in getattr(n, 'handlers', ()):
        merge_block(h)
    for c in getattr(n, 'cases', ()):
        merge_block(c)


def merge_stmts(body):
    out = []
    for s in reversed(body):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.append(s)       # done, or not to be done, on its own
            continue
        if isinstance(s, (ast.For, ast.While, ast.With, ast.Try, ast.Match)):
            merge_block(s)
        if isinstance(s, ast.If):
            r = merge_if(s, out[-1] if out else None)
            if r is not None:
                if isinstance(r, ast.Return):
                    out = []
                out += [ast.copy_location(x, s) for x in (r[::-1] if isinstance(r, list) else [r])]
                continue
            merge_block(s)
        out.append(s)
    return out[::-1]


def value_return(s):
    return isinstance(s, ast.Return) and s.value is not None and pure(s.value)


def merge_if(s, following):
    b, e = s.body, s.orelse
    after = following.value if value_return(following) else None
    x, y = returned(b, after), returned(e, after)
    if x is not None and y is not None:
        return ast.Return(call('sx__ite', s.test, thunk(copy.deepcopy(x)), thunk(copy.deepcopy(y))))
    fb, fe = fields(b), fields(e)
    if fb is not None and fe is not None and fb:
        rows = [(k, fb.get(k), fe.get(k)) for k in list(fb) + [k for k in fe if k not in fb]]
        args = []
        for k, x, y in rows:
            t = (x or y)[0]
            same = ast.Attribute(copy.deepcopy(t.value), t.attr, ast.Load())
            args.append(ast.Tuple([copy.deepcopy(t.value), ast.Constant(t.attr), thunk(x[1] if x else same),
                                   thunk(y[1] if y else same), ast.Constant(bool(x and y))], ast.Load()))
        plain = ast.If(ast.Name('sx__c', ast.Load()), b, e)
        return [ast.Assign([ast.Name('sx__c', ast.Store())], s.test),
                ast.If(call('sx__set', ast.Name('sx__c', ast.Load()), *args), [ast.Pass()], [copy.deepcopy(plain)])]
    nb, ne = assigns(b), assigns(e)
    if nb is None or ne is None or not nb + ne:
        return None
    names = nb + [x for x in ne if x not in nb]

    def fn(name, stmts):
        a = ast.arguments([], [ast.arg(x) for x in names], None, [], [], None, [])
        ret = ast.Return(ast.List([call('sx__pre', thunk(ast.Name(x, ast.Load()))) for x in names], ast.Load()))
        return ast.FunctionDef(name, a, merge_stmts(copy.deepcopy([x for x in stmts if not isinstance(x, ast.Pass)])) + [ret], [],
                               None, None, type_params=[])
    plain = ast.If(ast.Name('sx__c', ast.Load()), b, e)
    pick = ast.Assign([ast.Name('sx__r', ast.Store())], call(
        'sx__merge', ast.Name('sx__c', ast.Load()), ast.Name('sx__t', ast.Load()), ast.Name('sx__e', ast.Load()),
        ast.List([call('sx__pre', thunk(ast.Name(x, ast.Load()))) for x in names], ast.Load())))
    use = [ast.Assign([ast.Name(x, ast.Store())], ast.Subscript(ast.Name('sx__r', ast.Load()), ast.Constant(i),
                                                               ast.Load())) for i, x in enumerate(names)]
    test = call('sx__sym', ast.Name('sx__c', ast.Load()))
    return [ast.Assign([ast.Name('sx__c', ast.Store())], s.test),
            ast.Assign([ast.Name('sx__r', ast.Store())], ast.Constant(None)),
            ast.If(test, [fn('sx__t', b), fn('sx__e', e), pick], []),
            ast.If(ast.Compare(ast.Name('sx__r', ast.Load()), [ast.IsNot()], [ast.Constant(None)]), use,
                   [copy.deepcopy(plain)])]


class Rewrite(ast.NodeTransformer):
    """Operators whose protocol CPython hard-wires to concrete values."""

    def visit_Compare(self, n):
        if len(n.ops) > 1 and self.merging and all(pure(c) for c in n.comparators):
            # a < b < c is a < b and b < c
            parts, left = [], n.left
            for o, c in zip(n.ops, n.comparators):
                parts.append(ast.copy_location(ast.Compare(left, [o], [c]), n))
                left = copy.deepcopy(c)
            return self.visit(ast.copy_location(ast.BoolOp(ast.And(), parts), n))
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            c = ast.Call(ast.Name('sx__contains', ast.Load()), [n.comparators[0], n.left], [])
            if isinstance(n.ops[0], ast.NotIn):
                c = ast.Call(ast.Name('sx__not', ast.Load()), [c], [])
            return ast.copy_location(c, n)
        return n

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and not isinstance(n.slice, (ast.Slice, ast.Constant, ast.Tuple)):
            return ast.copy_location(
                ast.Call(ast.Name('sx__getitem', ast.Load()), [n.value, n.slice], []), n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute):
            h = {'get': 'sx__get', 'join': 'sx__join', 'to_bytes': 'sx__tobytes'}.get(n.func.attr)
            if h and not (isinstance(n.func.value, ast.Call) and isinstance(n.func.value.func, ast.Name)
                          and n.func.value.func.id == 'super'):
                if h != 'sx__join' or len(n.args) == 1:
                    return ast.copy_location(
                        ast.Call(ast.Name(h, ast.Load()), [n.func.value] + n.args, n.keywords), n)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and not (isinstance(n.left, ast.Constant) and not isinstance(n.left.value, str)):
            return ast.copy_location(ast.Call(ast.Name('sx__mod', ast.Load()), [n.left, n.right], []), n)
        return n

    def visit_MatchValue(self, n):
        return n        # patterns hold literals only

    def visit_Constant(self, n):
        if isinstance(n.value, complex):
            return ast.copy_location(call('complex', ast.Constant(n.value.real), ast.Constant(n.value.imag)), n)
        if isinstance(n.value, bytes):
            return ast.copy_location(
                ast.Call(ast.Name('bytes', ast.Load()),
                         [ast.List([ast.Constant(x) for x in n.value], ast.Load())], []), n)
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        return ast.copy_location(ast.Call(ast.Name('sx__dict', ast.Load()), [n], []), n)

    visit_DictComp = visit_Dict

    # annotations are not executed symbolically
    def visit_arg(self, n):
        n.annotation = None
        return n

    def visit_AnnAssign(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        n.target = self.visit(n.target)
        n.annotation = ast.copy_location(ast.Constant(None), n)
        return n

    def visit_FunctionDef(self, n):
        n.returns = None
        outer, self.merging = self.merging, not any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in ast.walk(n))
        self.depth += 1
        self.generic_visit(n)
        if self.merging:
            merge_block(n)
        self.depth -= 1
        self.merging = outer
        return n

    # ---- both outcomes of a condition in one path, where the alternatives are plain expressions
    merging = False
    depth = 0

    def visit_ClassDef(self, n):
        outer, self.merging = self.merging, False
        self.generic_visit(n)
        self.merging = outer
        return n

    def visit_Lambda(self, n):
        outer, self.merging = self.merging, self.depth > 0 and self.merging
        self.generic_visit(n)
        self.merging = outer
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        if self.merging and pure(n.body) and pure(n.orelse):
            return ast.copy_location(call('sx__ite', n.test, thunk(n.body), thunk(n.orelse)), n)
        return n

    def visit_BoolOp(self, n):
        self.generic_visit(n)
        if self.merging and all(pure(v) for v in n.values[1:]):
            r = n.values[-1]
            for v in n.values[-2::-1]:
                r = call('sx__and' if isinstance(n.op, ast.And) else 'sx__or', v, thunk(r))
            return ast.copy_location(r, n)
        return n

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not):
            return ast.copy_location(call('sx__not', n.operand), n)
        return n

    visit_AsyncFunctionDef = visit_FunctionDef


class Loader:
    """A private module namespace for one copy of the package."""

    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.mods = {}
        self.sources = {}
        self.builtins = dict(shims.BUILTINS)
        self.builtins['__import__'] = self._import
        self.funcs = set()

    def find(self, name):
        p = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(p):
            f = os.path.join(p, '__init__.py')
            return (f if os.path.exists(f) else None), True
        if os.path.exists(p + '.py'):
            return p + '.py', False
        return None, False

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if '.' in name:
            self.load(name.rpartition('.')[0])
            if name in self.mods:
                return self.mods[name]
        path, pkg = self.find(name)
        if path is None and not pkg:
            raise ModuleNotFoundError('No module named %r' % name)
        m = types.ModuleType(name)
        m.__dict__['__builtins__'] = self.builtins
        m.__package__ = name if pkg else name.rpartition('.')[0]
        if pkg:
            m.__path__ = [os.path.join(self.repo, *name.split('.'))]
        self.mods[name] = m
        if path:
            m.__file__ = path
            with open(path, 'rb') as f:
                src = f.read()
            self.sources[path] = hashlib.sha256(src).hexdigest()
            tree = ast.parse(src, path)
            tree = ast.fix_missing_locations(Rewrite().visit(tree))
            code = compile(tree, path, 'exec', dont_inherit=True)
            try:
                exec(code, m.__dict__)
            except BaseException:
                self.mods.pop(name, None)
                raise
        if '.' in name:
            par, _, leaf = name.rpartition('.')
            setattr(self.mods[par], leaf, m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = globals['__package__']
            for _ in range(level - 1):
                base = base.rpartition('.')[0]
            name = base + ('.' + name if name else '')
        if name.split('.')[0] == 'opendis':
            m = self.load(name)
            if fromlist:
                for a in fromlist:
                    if a != '*' and not hasattr(m, a):
                        try:
                            self.load(name + '.' + a)
                        except ModuleNotFoundError:
                            pass
                return m
            return self.mods[name.split('.')[0]]
        if name in shims.MODULES:
            return shims.MODULES[name]
        if name == 'numpy' or name.startswith('numpy.'):
            from . import npshim
            m = npshim.get(name)
            return m if fromlist else npshim.get('numpy')
        return builtins.__import__(name, globals, locals, fromlist, level)


PRELOAD = ('opendis.types', 'opendis.stream', 'opendis.record', 'opendis.record.common', 'opendis.record.radio',
           'opendis.record.warfare', 'opendis.record.base', 'opendis.record.bitfield', 'opendis.dis7',
           'opendis.PduFactory', 'opendis.DeadReckoning', 'opendis.RangeCoordinates')


class State:
    """The mutable state reachable from the loaded modules, to be put back
    before every explored path (each path stands for a fresh process)."""

    def __init__(self, loader):
        self.saved = []
        seen = set()
        todo = list(loader.mods.values())
        own = loader.builtins
        while todo:
            o = todo.pop()
            if id(o) in seen or o is own:
                continue
            seen.add(id(o))
            t = type(o)
            if t is types.ModuleType:
                if o in loader.mods.values():
                    d = {k: v for k, v in o.__dict__.items() if k != '__builtins__'}
                    self.saved.append(('m', o, d))
                    todo += d.values()
            elif t is shims.SxDict:
                self.saved.append(('x', o, (dict(dict.items(o)), [list(e) for e in o._s])))
                todo += list(dict.values(o)) + [e[1] for e in o._s]
            elif t in (list, set, dict):
                self.saved.append((t.__name__, o, t(o)))
                todo += list(o.values()) if t is dict else list(o)
            elif t is types.FunctionType:
                if hasattr(o, 'sx_state'):
                    todo.append(o.sx_state)
                    todo.append(o.__wrapped__)
                if o.__globals__.get('__builtins__') is own:
                    todo += list(o.__defaults__ or ()) + list((o.__kwdefaults__ or {}).values())
                    self.saved.append(('f', o, o.__dict__.copy()))
                    for c in o.__closure__ or ():
                        try:
                            self.saved.append(('c', c, c.cell_contents))
                            todo.append(c.cell_contents)
                        except ValueError:
                            pass
            elif t in (staticmethod, classmethod):
                todo.append(o.__func__)
            elif t is property:
                todo += [f for f in (o.fget, o.fset, o.fdel) if f]
            elif isinstance(o, type):
                if o.__module__.split('.')[0] == 'opendis':
                    d = dict(o.__dict__)
                    self.saved.append(('k', o, d))
                    todo += d.values()
            elif t is tuple or t is frozenset:
                todo += list(o)
            elif getattr(t, '__module__', '').split('.')[0] == 'opendis' and hasattr(o, '__dict__'):
                self.saved.append(('o', o, dict(o.__dict__)))
                todo += o.__dict__.values()

    def restore(self):
        for k, o, v in self.saved:
            if k == 'list':
                if len(o) != len(v) or any(a is not b for a, b in zip(o, v)):
                    o[:] = v
            elif k == 'set':
                o.clear()
                o.update(v)
            elif k == 'dict':
                if o != v if len(o) != len(v) else any(o.get(i) is not x for i, x in v.items()):
                    o.clear()
                    o.update(v)
            elif k == 'x':
                if o._s or v[1] or dict.__len__(o) != len(v[0]) or any(dict.get(o, i) is not x for i, x in v[0].items()):
                    dict.clear(o)
                    dict.update(o, v[0])
                    o._s = [list(e) for e in v[1]]
            elif k == 'f':
                if o.__dict__ != v:
                    o.__dict__.clear()
                    o.__dict__.update(v)
            elif k == 'c':
                if o.cell_contents is not v:
                    o.cell_contents = v
            elif k == 'o':
                o.__dict__.clear()
                o.__dict__.update(v)
            elif k == 'm':
                d = o.__dict__
                if len(d) != len(v) + 1 or any(d.get(i) is not x for i, x in v.items()):
                    b = d['__builtins__']
                    d.clear()
                    d.update(v)
                    d['__builtins__'] = b
            else:
                d = o.__dict__
                for i in list(d):
                    if i not in v:
                        try:
                            delattr(o, i)
                        except (AttributeError, TypeError):
                            pass
                for i, x in v.items():
                    if d.get(i) is not x:
                        try:
                            setattr(o, i, x)
                        except (AttributeError, TypeError):
                            pass


_SHARED = {}


def shared(repo=None):
    """one loader per process, with the state it had after import"""
    key = repo or REPO
    if key not in _SHARED:
        l = Loader(repo)
        for n in PRELOAD:
            try:
                l.load(n)
            except Exception:
                pass            # reported where a harness needs it
        _SHARED[key] = (l, State(l))
    return _SHARED[key]


def trace_functions(loader, fn):
    """Run fn recording which of the package's functions are executed."""
    seen = set()
    root = os.path.join(loader.repo, 'opendis')

    def prof(frame, event, arg):
        if event == 'call':
            c = frame.f_code
            if c.co_filename.startswith(root):
                seen.add('%s:%s' % (os.path.relpath(c.co_filename, loader.repo), c.co_qualname))
    sys.setprofile(prof)
    try:
        r = fn()
    finally:
        sys.setprofile(None)
    return r, seen

"""Loads the repository's modules from their current source into a separate namespace, instrumented mechanically:
   * a float literal becomes the exact rational it denotes,  a / b and a ** b go through exact operators,
   * for-loops get a head/exit hook (used only when the iterated collection has symbolic size),
   * numpy, math, numba, scipy, igl and the numeric builtins resolve to pv.shim.
Nothing else is changed and nothing is dropped; line numbers are kept."""
import warnings
warnings.filterwarnings("ignore", category=SyntaxWarning)
import ast, os, sys, types, builtins, importlib
from fractions import Fraction
from . import terms as T
from . import shim

REPO = os.environ.get('PV_REPO', '/repo')


class Instr(ast.NodeTransformer):
    def __init__(self):
        self.k = 0
        self.ordinal = 0        # number of the loop within its function

    def visit_Constant(self, n):
        if isinstance(n.value, float):
            return ast.copy_location(ast.Call(ast.Name('_pv_c', ast.Load()), [ast.Constant(repr(n.value))], []), n)
        return n

    def visit_JoinedStr(self, n):
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        f = {ast.Div: '_pv_div', ast.Pow: '_pv_pow'}.get(type(n.op))
        if f:
            return ast.copy_location(ast.Call(ast.Name(f, ast.Load()), [n.left, n.right], []), n)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div) and isinstance(n.target, ast.Name):
            return ast.copy_location(ast.Assign([n.target], ast.Call(
                ast.Name('_pv_idiv', ast.Load()), [ast.Name(n.target.id, ast.Load()), n.value], [])), n)
        return n

    def visit_AnnAssign(self, n):
        n.value = self.visit(n.value) if n.value is not None else None
        return n

    def visit_arguments(self, n):
        n.defaults = [self.visit(d) for d in n.defaults]
        n.kw_defaults = [self.visit(d) if d is not None else None for d in n.kw_defaults]
        return n

    def visit_FunctionDef(self, n):
        n.args = self.visit(n.args)
        saved, self.ordinal = self.ordinal, 0
        outer, self.local = getattr(self, 'local', set()), _locals(n)
        n.body = [self.visit(b) for b in n.body]
        n.body = [x for b in n.body for x in (b if isinstance(b, list) else [b])]
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        self.ordinal, self.local = saved, outer
        return n

    def visit_For(self, n):
        assigned = sorted(_assigned(n.body) | _targets(n.target))
        grown = sorted((_grown(n.body) & getattr(self, 'local', set())) - set(assigned))
        self.ordinal += 1
        ordinal = self.ordinal
        self.generic_visit(n)
        if n.orelse:
            return n
        self.k += 1
        h = '_pv_loop%d' % self.k
        load = lambda s: ast.Name(s, ast.Load())
        names = ast.Tuple([ast.Constant(a) for a in assigned], ast.Load())
        tgts = _targets(n.target)
        state = [a for a in assigned if a not in tgts]

        def call(meth):
            c = ast.Call(ast.Attribute(load(h), meth, ast.Load()),
                         [ast.Call(load('locals'), [], []), ast.Tuple([ast.Constant(a) for a in state] + [ast.Constant('+' + a) for a in grown], ast.Load())], [])
            if state + grown:
                return ast.Assign([ast.Tuple([ast.Name(a, ast.Store()) for a in state + grown], ast.Store())], c)
            return ast.Expr(c)
        head = ast.If(ast.Attribute(load(h), 'symbolic', ast.Load()), [call('head')], [])
        after = ast.If(ast.Attribute(load(h), 'symbolic', ast.Load()), [call('after')], [])
        enter = ast.Assign([ast.Name(h, ast.Store())], ast.Call(load('_pv_loop'), [n.iter, ast.Constant(ordinal)], []))
        n.iter = load(h)
        n.body = [head] + n.body
        out = [enter, n, after]
        for x in out + [head]:
            ast.copy_location(x, n)
            ast.fix_missing_locations(x)
        return out

    def visit_While(self, n):
        state = sorted(_assigned(n.body) | _assigned([n.test]))
        grown = sorted((_grown(n.body) & getattr(self, 'local', set())) - set(state))
        self.ordinal += 1
        ordinal = self.ordinal
        self.generic_visit(n)
        if n.orelse:
            return n
        self.k += 1
        h = '_pv_while%d' % self.k
        load = lambda s: ast.Name(s, ast.Load())
        loc = ast.Call(load('locals'), [], [])
        c = ast.Call(ast.Attribute(load(h), 'enter', ast.Load()), [loc, ast.Tuple([ast.Constant(a) for a in state] + [ast.Constant('+' + a) for a in grown], ast.Load())], [])
        c = ast.Assign([ast.Tuple([ast.Name(a, ast.Store()) for a in state + grown], ast.Store())], c) if state + grown else ast.Expr(c)
        init = ast.Assign([ast.Name(h, ast.Store())], ast.Call(load('_pv_while'), [ast.Constant(ordinal)], []))
        head = ast.If(ast.Attribute(load(h), 'symbolic', ast.Load()), [c], [])
        n.test = ast.BoolOp(ast.And(), [ast.BoolOp(ast.Or(), [ast.UnaryOp(ast.Not(), ast.Attribute(load(h), 'symbolic', ast.Load())),
                                                              ast.Call(ast.Attribute(load(h), 'step', ast.Load()), [loc], [])]), n.test])
        out = [init, head, n]
        for x in out:
            ast.copy_location(x, n)
            ast.fix_missing_locations(x)
        return out

    def visit_IfExp(self, n):
        simple = all(isinstance(x, (ast.Name, ast.Constant, ast.Attribute, ast.UnaryOp, ast.USub, ast.UAdd, ast.Load)) for a in (n.body, n.orelse) for x in ast.walk(a))
        self.generic_visit(n)
        if not simple:
            return n
        thunk = lambda e: ast.Lambda(ast.arguments([], [], None, [], [], None, []), e)
        return ast.copy_location(ast.Call(ast.Name('_pv_ifexp', ast.Load()), [n.test, thunk(n.body), thunk(n.orelse)], []), n)

    def visit_ListComp(self, n):
        self.generic_visit(n)
        if len(n.generators) == 1 and not n.generators[0].ifs and not n.generators[0].is_async:
            g = n.generators[0]
            # [e for t in it]  ->  __pv_comp(it, lambda t: e) if it is symbolic
            if isinstance(g.target, ast.Name):
                lam = ast.Lambda(ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, []), n.elt)
                return ast.copy_location(ast.Call(ast.Name('_pv_comp', ast.Load()), [g.iter, lam], []), n)
        return n


def _grown(body):
    """lists, sets and dictionaries that the loop adds to"""
    return {x.value.id for b in body for x in ast.walk(b) if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and
            isinstance(x.value, ast.Name)} | {x.func.value.id for b in body for x in ast.walk(b) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and
            isinstance(x.func.value, ast.Name) and x.func.attr in ('append', 'extend', 'add', 'insert')}


def _locals(f):
    """names that are certainly local to the function"""
    out, todo, shared = set(), list(f.body), set()
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            continue
        if isinstance(x, (ast.Global, ast.Nonlocal)):
            shared |= set(x.names)
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            out.add(x.id)
        todo += list(ast.iter_child_nodes(x))
    return out - shared


def _targets(t):
    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}


def _assigned(body):
    out = set()

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        for c in ast.iter_child_nodes(n):
            walk(c)
    for b in body:
        walk(b)
    return out


class PlainLoop:
    """hook object for an ordinary iterable"""
    symbolic = False
    __slots__ = ('it',)

    def __init__(self, it):
        self.it = it

    def __iter__(self):
        return iter(self.it)


def pv_loop(it, ordinal):
    f = getattr(it, '__pv_loop__', None)
    if f is not None:
        return f(ordinal)
    return PlainLoop(it)


def pv_comp(it, f):
    g = getattr(it, '__pv_comp__', None)
    if g is not None:
        return g(f)
    return [f(x) for x in it]


def pv_ifexp(test, a, b):
    c = T.CTX[0]
    if isinstance(test, T.SymBool) and c is not None and getattr(c, 'ite_mode', False):
        x, y = a(), b()
        if T._scalar(x) and T._scalar(y):
            return shim._pick(test, x, y)
        return x if test else y
    return a() if test else b()


class Loader:
    def __init__(self, repo=None, overrides=None):
        self.repo = repo or REPO
        self.mods = {}
        self.overrides = dict(shim.MODULES)
        self.overrides.update(overrides or {})
        self.files = {}
        self.code_cache = {}
        self.builtins = dict(shim.BUILTINS)
        self.builtins['__import__'] = self._import

    # import machinery
    def _path(self, name):
        p = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(p):
            i = os.path.join(p, '__init__.py')
            return (i if os.path.exists(i) else None), p
        if os.path.exists(p + '.py'):
            return p + '.py', None
        return False, None

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if '.' in name:
            parent = self.load(name.rsplit('.', 1)[0])
        else:
            parent = None
        f, pkg = self._path(name)
        if f is False:
            raise ImportError(name)
        m = types.ModuleType(name)
        m.__dict__['__builtins__'] = self.builtins
        m.__dict__['_pv_c'] = _c
        m.__dict__['_pv_div'] = shim.pdiv
        m.__dict__['_pv_idiv'] = shim.pidiv
        m.__dict__['_pv_pow'] = shim.ppow
        m.__dict__['_pv_loop'] = pv_loop
        m.__dict__['_pv_comp'] = pv_comp
        m.__dict__['_pv_ifexp'] = pv_ifexp
        from . import loops
        m.__dict__['_pv_while'] = loops.pv_while
        if pkg:
            m.__path__ = [pkg]
            m.__package__ = name
        else:
            m.__package__ = name.rpartition('.')[0]
        self.mods[name] = m
        if parent is not None:       # as with sys.modules: an import cycle finds the module being loaded
            setattr(parent, name.rsplit('.', 1)[1], m)
        if f:
            m.__file__ = f
            src = open(f).read()
            self.files[name] = f
            tree = ast.parse(src, f)
            tree = Instr().visit(tree)
            ast.fix_missing_locations(tree)
            code = compile(tree, f, 'exec')
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                exec(code, m.__dict__)
        if parent is not None:
            setattr(parent, name.rsplit('.', 1)[1], m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = globals['__package__']
            for _ in range(level - 1):
                base = base.rpartition('.')[0]
            name = base + ('.' + name if name else '')
        top = name.split('.')[0]
        if name in self.overrides or top in self.overrides:
            if fromlist:
                return self.overrides.get(name) or importlib.import_module(name)
            return self.overrides[top]
        if self._path(top)[0] is not False and top == 'rainbow':
            m = self.load(name)
            if fromlist:
                for a in fromlist:
                    if a != '*' and not hasattr(m, a):
                        try:
                            self.load(name + '.' + a)
                        except ImportError:
                            pass
                return m
            return self.mods[top]
        return builtins.__import__(name, globals, locals, fromlist, 0)


_consts = {}


def _c(s):
    v = _consts.get(s)
    if v is None:
        if s in ('inf', '-inf', 'nan'):
            return float(s)
        v = _consts[s] = T.Sym(T.const(Fraction(s), T.R))
    return v

"""Loads /repo/src/pymgrid for symbolic execution.

The source text of every pymgrid module is read from the working tree on every
run, parsed and executed.  The only rewriting is:
  * calls of the builtins float/int/len/range/isinstance/all/any and numpy.float64 go
    through a wrapper that behaves identically on non-symbolic arguments, and so do
    subscripts x[k] with a computed k and assignments x[m] = y[m];
  * `import numpy`, `gym.spaces`, `math` yield proxies that behave identically
    on non-symbolic arguments.
Nothing is dropped or reordered.
"""
import ast
import builtins
import copy
import importlib.abc
import importlib.util
import math
import os
import sys
import types

from . import core, npshim, loopcut

SRC = os.environ.get('VC_REPO', '/repo') + '/src'

CALL_NAMES = {'float': '_vc_float_', 'int': '_vc_int_', 'len': '_vc_len_', 'range': '_vc_range_',
              'isinstance': '_vc_isinstance_', 'all': '_vc_all_', 'any': '_vc_any_', 'zip': '_vc_zip_', 'enumerate': '_vc_enumerate_'}

SOURCES = {}


def _assigned(stmts):
    """names a list of statements assigns (not inside nested functions or comprehensions)"""
    out = set()

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, ast.Store):
                out.add(n.id)

        def skip(self, n): pass
        visit_FunctionDef = visit_Lambda = visit_ClassDef = visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = skip
    for st in stmts:
        V().visit(st)
    return {n for n in out if not n.startswith('_vc_')}


def _many(r): return r if isinstance(r, list) else [r]


class _Leave(ast.NodeTransformer):
    """`continue` of this loop ends the body"""
    def __init__(self, mk):
        self.mk = mk

    def run(self, st):
        r = self.visit(st)
        return r if isinstance(r, list) else [r]

    def visit_Continue(self, n): return [ast.copy_location(self.mk(), n), n]
    def visit_For(self, n): return n
    def visit_While(self, n): return n
    def visit_FunctionDef(self, n): return n


class Rewriter(ast.NodeTransformer):
    def __init__(self, fname):
        self.fname = fname
        self.loop_n = 0
        self.func = []

    def visit_FunctionDef(self, node):
        self.func.append(node.name)
        node.body = [m for n in node.body for m in _many(self.visit(n))]
        node.args = self.visit(node.args)
        self.func.pop()
        node.decorator_list = [self.visit(n) for n in node.decorator_list]
        return node

    def visit_arg(self, node):
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in CALL_NAMES:
            node.func = ast.copy_location(ast.Name(CALL_NAMES[node.func.id], ast.Load()), node.func)
        elif isinstance(node.func, ast.Attribute) and node.func.attr == 'float64' and \
                isinstance(node.func.value, ast.Name) and node.func.value.id in ('np', 'numpy'):
            node.func = ast.copy_location(ast.Name('_vc_float64_', ast.Load()), node.func)
        return node


    def visit_Assign(self, node):
        t, v = node.targets[0], node.value
        if self.func and len(node.targets) == 1 and isinstance(t, ast.Subscript) and isinstance(v, ast.Subscript) \
                and isinstance(t.slice, ast.Name) and isinstance(v.slice, ast.Name) and t.slice.id == v.slice.id:
            # x[m] = y[m]
            call = ast.Call(ast.Name('_vc_maskset_', ast.Load()), [self.visit(t.value), t.slice, self.visit(v.value)], [])
            call.args[1] = ast.Name(t.slice.id, ast.Load())
            return ast.copy_location(ast.Expr(call), node)
        self.generic_visit(node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and self.func and isinstance(node.slice, (ast.Name, ast.Call, ast.Compare, ast.UnaryOp, ast.BinOp, ast.Attribute)):
            return ast.copy_location(ast.Call(ast.Name('_vc_getitem_', ast.Load()), [node.value, node.slice], []), node)
        return node

    def visit_For(self, node):
        if not self.func:
            self.generic_visit(node)
            return node
        self.loop_n += 1
        var = f'_vc_loop{self.loop_n}'
        names = sorted(_assigned(node.body))
        key = f'{self.fname.split("/")[-1]}:{".".join(self.func)}:{self.loop_n}'
        self.generic_visit(node)
        L = lambda: ast.Name(var, ast.Load())
        loc = lambda: ast.Call(ast.Name('_vc_locals_', ast.Load()), [], [])
        meth = lambda m, *a: ast.Call(ast.Attribute(L(), m, ast.Load()), list(a), [])
        head = ast.Assign([ast.Name(var, ast.Store())], ast.Call(ast.Name('_vc_for_', ast.Load()),
                          [node.iter, ast.Constant(key), ast.Tuple([ast.Constant(n) for n in names], ast.Load()),
                           ast.Tuple([ast.Constant(n) for n in sorted(_assigned([node.target]))], ast.Load())], []))
        restore = lambda: [ast.If(ast.Compare(ast.Constant(n), [ast.In()], [ast.Attribute(L(), 'env', ast.Load())]),
                                  [ast.Assign([ast.Name(n, ast.Store())], ast.Subscript(ast.Attribute(L(), 'env', ast.Load()), ast.Constant(n), ast.Load()))], [])
                           for n in names]
        body = copy.deepcopy(node.body)
        body = [b for st in body for b in _Leave(lambda: ast.Expr(meth('leave', loc()))).run(st)]
        sym = [ast.Expr(meth('begin', loc())),
               ast.For(copy.deepcopy(node.target), L(), restore() + body + [ast.Expr(meth('leave', loc()))],
                       restore() + [ast.If(ast.Attribute(L(), 'after', ast.Load()),
                                           [ast.Assign([ast.Name(n, ast.Store())], meth('poison')) for n in sorted(_assigned([node.target]))] or [ast.Pass()], [])]
                       + copy.deepcopy(node.orelse))]
        plain = ast.For(node.target, L(), node.body, node.orelse)
        out = [head, ast.If(ast.Call(ast.Name('_vc_is_loop_', ast.Load()), [L()], []), sym, [plain])]
        return [ast.copy_location(n, node) for n in out]

    def visit_ListComp(self, node):
        self.generic_visit(node)
        g = node.generators[0]
        if self.func and not g.ifs and not any(x.is_async for x in node.generators) and isinstance(g.iter, ast.Call) and isinstance(g.iter.func, ast.Name) \
                and g.iter.func.id == '_vc_range_' and isinstance(g.target, ast.Name) and not any(isinstance(n, (ast.NamedExpr, ast.Lambda, ast.Await)) for n in ast.walk(node)):
            lam = lambda args, body: ast.Lambda(ast.arguments([], [ast.arg(a) for a in args], None, [], [], None, []), body)
            call = lambda f, *a: ast.copy_location(ast.Call(ast.Name(f, ast.Load()), list(a), []), node)
            if len(node.generators) == 1 and not any(isinstance(n, ast.Name) and n.id == g.target.id for n in ast.walk(node.elt)):
                # [x for _ in range(n)]
                return call('_vc_fill_', lam([], node.elt), g.iter)
            inner = ast.ListComp(node.elt, node.generators[1:]) if len(node.generators) > 1 else ast.List([node.elt], ast.Load())
            return call('_vc_listgen_', lam([g.target.id], inner), g.iter)
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node


class _GymSpaces(types.ModuleType):
    pass


_gym = {}


def gym_spaces():
    if 'm' in _gym:
        return _gym['m']
    import gym.spaces as real
    import numpy as np
    m = _GymSpaces('gym.spaces')
    for k in dir(real):
        if not k.startswith('__'):
            setattr(m, k, getattr(real, k))

    class Box(real.Box):
        def __init__(self, low, high, shape=None, dtype=np.float64, seed=None):
            if npshim._any_series(low, high) or npshim._symshape(shape):
                from .series import Series
                n = shape if shape is not None else (low.shape if isinstance(low, Series) else high.shape)
                self.dtype = np.dtype(dtype)
                self._shape = tuple(n)
                self.low = low.copy() if isinstance(low, Series) else Series.const(n, low)
                self.high = high.copy() if isinstance(high, Series) else Series.const(n, high)
                self.low_repr = self.high_repr = '<sym>'
                self._np_random = None
            elif npshim.has_sym(low) or npshim.has_sym(high):
                if shape is None:
                    shape = low.shape if isinstance(low, np.ndarray) else (high.shape if isinstance(high, np.ndarray) else (1,))
                shape = tuple(shape)

                def mk(v):
                    if isinstance(v, np.ndarray) and v.shape == shape:
                        return npshim.lift(np.array(v.view(np.ndarray), dtype=object)) if npshim.has_sym(v) else v.astype(float)
                    return npshim.full(shape, v.item() if isinstance(v, np.ndarray) else v)
                self.dtype = np.dtype(dtype)
                self._shape = shape
                self.low, self.high = mk(low), mk(high)
                self.low_repr = self.high_repr = '<sym>'
                self.bounded_below = np.ones(shape, dtype=bool)
                self.bounded_above = np.ones(shape, dtype=bool)
                self._np_random = None
            else:
                super().__init__(low, high, shape=shape, dtype=dtype, seed=seed)

        def contains(self, x):
            if npshim.has_sym(x) or npshim.has_sym(self.low) or npshim.has_sym(self.high):
                x = npshim.array(x)
                return bool(x.shape == self.shape and (x >= self.low).all() and (x <= self.high).all())
            return super().contains(x)

        def __eq__(self, o):
            if npshim.has_sym(self.low) or npshim.has_sym(self.high) or (isinstance(o, real.Box) and npshim.has_sym(o.low)):
                return isinstance(o, real.Box) and self.shape == o.shape and bool((self.low == o.low).all() and (self.high == o.high).all())
            return super().__eq__(o)
        __hash__ = real.Box.__hash__
        def __repr__(self):
            return 'Box'

        def sample(self, *a, **k):
            if npshim.has_sym(self.low) or npshim.has_sym(self.high):
                import numpy as _n
                r = _n.empty(self.shape, dtype=object)
                for i in _n.ndindex(r.shape):
                    r[i] = npshim._uniform(self.low[i], self.high[i], None)
                return npshim.lift(r)
            return super().sample(*a, **k)
    Box.__name__ = 'Box'
    m.Box = Box
    _gym['m'] = m
    return m


class _Math(types.ModuleType):
    def __init__(self):
        super().__init__('math')

    def __getattr__(self, n):
        r = getattr(math, n)
        if not callable(r):
            return r

        def f(*a, **k):
            if any(core.is_sym(x) for x in a):
                g = _MATH.get(n)
                if g is None:
                    raise core.Unsupported(f"math.{n}")
                return g(*a, **k)
            return r(*a, **k)
        return f


_MATH = {'isclose': lambda a, b, rel_tol=1e-9, abs_tol=0.0: npshim.s_isclose(a, b, rel_tol, abs_tol),
         'isnan': lambda a: False, 'isinf': lambda a: False, 'isfinite': lambda a: True, 'fabs': lambda a: abs(a),
         'floor': lambda a: npshim.b_int(npshim.s_floor(a)), 'ceil': lambda a: -npshim.b_int(npshim.s_floor(-a))}
_mathproxy = _Math()
STUBMODS = {}


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        if name == 'numpy':
            importlib.import_module('numpy')
            return npshim.NP
        if name == 'math':
            return _mathproxy
        if name == 'gym.spaces' and fromlist:
            return gym_spaces()
        if name == 'pandas.api.types' and fromlist:
            return _pdtypes()
    return builtins.__import__(name, globals, locals, fromlist, level)


def _pdtypes():
    if 'p' not in _gym:
        import pandas.api.types as real
        m = types.ModuleType('pandas.api.types')
        m.__dict__.update({k: v for k, v in real.__dict__.items() if not k.startswith('__')})
        m.is_number = lambda o: core.is_sym(o) or real.is_number(o)
        m.is_numeric_dtype = lambda o: npshim.has_sym(o) or real.is_numeric_dtype(o)
        _gym['p'] = m
    return _gym['p']


BUILTINS = dict(builtins.__dict__)
BUILTINS.update({'__import__': _import, '_vc_float_': npshim.b_float, '_vc_int_': npshim.b_int, '_vc_len_': npshim.b_len,
                 '_vc_range_': npshim.b_range, '_vc_fill_': npshim.b_fill, '_vc_listgen_': npshim.b_listgen, '_vc_isinstance_': npshim.b_isinstance, '_vc_all_': npshim.b_all, '_vc_any_': npshim.b_any, '_vc_float64_': npshim.np_float64_call, '_vc_getitem_': npshim.b_getitem, '_vc_maskset_': npshim.b_maskset,
                 '_vc_for_': loopcut.for_, '_vc_is_loop_': loopcut.is_loop, '_vc_locals_': locals, '_vc_zip_': loopcut.zip_, '_vc_enumerate_': loopcut.enumerate_})


class Loader(importlib.abc.Loader):
    def __init__(self, path, is_pkg):
        self.path, self.is_pkg = path, is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        src = open(self.path, encoding='utf-8').read()
        SOURCES[self.path] = src
        tree = ast.parse(src, self.path)
        tree = Rewriter(self.path).visit(tree)
        for hook in REWRITE_HOOKS:
            tree = hook(self.path, tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, self.path, 'exec')
        module.__dict__['__builtins__'] = BUILTINS
        exec(code, module.__dict__)


REWRITE_HOOKS = []


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != 'pymgrid' and not fullname.startswith('pymgrid.'):
            return None
        rel = fullname.replace('.', '/')
        pk = os.path.join(SRC, rel, '__init__.py')
        if os.path.isfile(pk):
            return importlib.util.spec_from_file_location(fullname, pk, loader=Loader(pk, True),
                                                          submodule_search_locations=[os.path.dirname(pk)])
        f = os.path.join(SRC, rel + '.py')
        if os.path.isfile(f):
            return importlib.util.spec_from_file_location(fullname, f, loader=Loader(f, False))
        return None


def install():
    sys.meta_path.insert(0, Finder())

"""Two-dimensional arrays with a symbolic number of rows (time series)."""
import itertools
import numpy as np
import z3
from . import core
from .core import SInt, SReal, SBool, SNum, Unsupported, mkbool, wrap, to_z3, is_sym, ctx
from .npshim import SArr, lift

_ids = itertools.count()


class Dom:
    def __init__(self, n):
        self.n = n            # z3 Int term: number of rows
        self.id = z3.simplify(n).sexpr()   # series of the same length share their index set


def _rabs(x): return z3.If(x >= 0, x, -x)


_BIN = {'add': lambda a, b: a + b, 'subtract': lambda a, b: a - b, 'multiply': lambda a, b: a * b,
        'true_divide': None, 'divide': None,
        'maximum': lambda a, b: z3.If(a >= b, a, b), 'minimum': lambda a, b: z3.If(a <= b, a, b)}
_CMP = {'less': lambda a, b: a < b, 'less_equal': lambda a, b: a <= b, 'greater': lambda a, b: a > b,
        'greater_equal': lambda a, b: a >= b, 'equal': lambda a, b: a == b, 'not_equal': lambda a, b: a != b}
_LOG = z3.Function('log', z3.RealSort(), z3.RealSort())
_UN = {'log': lambda a: _LOG(a), 'negative': lambda a: -a, 'absolute': _rabs, 'fabs': _rabs, 'positive': lambda a: a,
       'sign': lambda a: z3.If(a > 0, z3.RealVal(1), z3.If(a < 0, z3.RealVal(-1), z3.RealVal(0))),
       'isnan': lambda a: z3.BoolVal(False), 'isfinite': lambda a: z3.BoolVal(True)}


def teq(a, b):
    """the two integer terms are equal on this path"""
    a, b = (x if isinstance(x, z3.ExprRef) else to_z3(x) for x in (a, b))
    d = z3.simplify(a - b)
    if z3.is_int_value(d):
        return d.as_long() == 0
    if z3.is_rational_value(d):
        return d.as_fraction() == 0
    return ctx().query(d != 0) == z3.unsat


class Series:
    """n rows of K components; ndim 1 with K > 1 is the flattened array (row by row)"""
    __array_priority__ = 2000

    def __init__(self, dom, cols, ndim=2, boolean=False):
        self.dom = dom
        self.cols = list(cols)
        self.ndim = ndim
        self.boolean = boolean

    # ------------------------------------------------------------ basics
    @property
    def shape(self):
        n = wrap(self.dom.n)
        return (n, len(self.cols)) if self.ndim == 2 else (n * len(self.cols) if len(self.cols) > 1 else n,)

    @property
    def dtype(self): return np.dtype('float64')

    @property
    def size(self):
        return wrap(self.dom.n) * len(self.cols)

    @property
    def values(self): return self

    def __len__(self):
        n = wrap(self.dom.n)
        if isinstance(n, int):
            return n
        raise Unsupported("len() of a symbolic series")

    def copy(self, *a, **k): return Series(self.dom, self.cols, self.ndim, self.boolean)
    def __deepcopy__(self, memo): return self.copy()
    def __copy__(self): return self.copy()
    def astype(self, *a, **k): return self.copy()
    def to_numpy(self, *a, **k): return self.copy()

    def reshape(self, *shape, **k):
        if len(shape) == 1 and isinstance(shape[0], tuple):
            shape = shape[0]
        K = len(self.cols)
        n = wrap(self.dom.n)

        def isn(s):
            return (isinstance(s, int) and s == -1) or (isinstance(s, (int, SInt)) and teq(s, n))

        def isall(s):
            return (isinstance(s, int) and s == -1) or (isinstance(s, (int, SInt)) and teq(s, n * K))
        if len(shape) == 2 and (isinstance(shape[1], int) and shape[1] in (K, -1)) and isn(shape[0]):
            return Series(self.dom, self.cols, 2, self.boolean)
        if len(shape) == 1 and isall(shape[0]):
            return Series(self.dom, self.cols, 1, self.boolean)
        raise Unsupported("reshape of a symbolic series")

    def squeeze(self, axis=None):
        if len(self.cols) == 1:
            return Series(self.dom, self.cols, 1, self.boolean)
        return self.copy()

    @property
    def T(self):
        if self.ndim == 1:
            return self.copy()
        raise Unsupported("transposed series")

    def flatten(self):
        return self.reshape(-1)
    ravel = flatten

    @staticmethod
    def const(shape, val):
        n = shape[0] if isinstance(shape, tuple) else shape
        K = shape[1] if isinstance(shape, tuple) and len(shape) > 1 else 1
        v = core._real(to_z3(val))
        nd = 2 if isinstance(shape, tuple) and len(shape) > 1 else 1
        return Series(Dom(to_z3(n)), [lambda i: v] * K, nd)

    @staticmethod
    def block(a):
        """a concrete number of rows as a series"""
        a = np.asarray(a, dtype=object)
        rows = a.reshape((len(a), a.shape[1] if a.ndim == 2 else 1)).tolist()

        def mk(j):
            vs = [core._real(to_z3(r[j])) for r in rows]

            def f(i):
                t = vs[-1] if vs else z3.RealVal(0)
                for k, v in reversed(list(enumerate(vs[:-1]))):
                    t = z3.If(i == k, v, t)
                return t
            return f
        K = a.shape[1] if a.ndim == 2 else 1
        return Series(Dom(z3.IntVal(len(rows))), [mk(j) for j in range(K)], a.ndim)

    @staticmethod
    def concatenate(parts, axis=0):
        if axis not in (0, None):
            raise Unsupported("concatenate along an axis")
        parts = [p if isinstance(p, Series) else Series.block(p) for p in parts]
        K, nd = len(parts[0].cols), parts[0].ndim
        if any(len(p.cols) != K or p.ndim != nd for p in parts):
            raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
        r = parts[0]
        for p in parts[1:]:
            def mk(f, g, n):
                return lambda i: z3.If(i < n, f(i), g(z3.simplify(i - n)))
            r = Series(Dom(z3.simplify(r.dom.n + p.dom.n)), [mk(f, g, r.dom.n) for f, g in zip(r.cols, p.cols)], nd)
        return r

    # ------------------------------------------------------------ element access
    def _row(self, i):
        n = wrap(self.dom.n)
        if i < 0:
            i = i + n
            if i < 0:
                raise IndexError("index out of bounds")
        elif i >= n:
            raise IndexError("index out of bounds")
        it = to_z3(i)
        ctx().touch(self.dom, it)
        return it

    def _el(self, c, it):
        if self.boolean:
            return mkbool(self.cols[c](it))
        return wrap(self.cols[c](it))

    def _colsel(self, k):
        K = len(self.cols)
        idx = np.arange(K)[k]
        return idx

    def __getitem__(self, key):
        if isinstance(key, tuple):
            if len(key) == 1:
                key = key[0]
            elif len(key) == 2:
                r, c = key
                if r is Ellipsis:
                    r = slice(None)
                sel = self._colsel(c)
                if isinstance(r, (int, np.integer, SInt)):
                    it = self._row(r)
                    if np.ndim(sel) == 0:
                        return self._el(int(sel), it)
                    return self._arr([self._el(int(j), it) for j in sel])
                if isinstance(r, slice):
                    sub = self._rows(r)
                    if isinstance(sub, SArr) or isinstance(sub, np.ndarray):
                        return sub[:, c]
                    if np.ndim(sel) == 0:
                        return Series(sub.dom, [sub.cols[int(sel)]], 1, self.boolean)
                    return Series(sub.dom, [sub.cols[int(j)] for j in sel], 2, self.boolean)
                raise Unsupported("series index")
            else:
                raise Unsupported("series index")
        if isinstance(key, (int, np.integer, SInt)):
            if self.ndim == 1 and len(self.cols) > 1:
                K = len(self.cols)
                n = wrap(self.dom.n) * K
                if key < 0:
                    key = key + n
                    if key < 0:
                        raise IndexError("index out of bounds")
                elif key >= n:
                    raise IndexError("index out of bounds")
                t = to_z3(key)
                r = self.cols[K - 1](t / K)
                for j in range(K - 1):
                    r = z3.If(t % K == j, self.cols[j](t / K), r)
                return mkbool(r) if self.boolean else wrap(r)
            it = self._row(key)
            if self.ndim == 1:
                return self._el(0, it)
            return self._arr([self._el(j, it) for j in range(len(self.cols))])
        if isinstance(key, slice):
            r = self._rows(key)
            return r
        if key is Ellipsis:
            return self
        raise Unsupported(f"series index {type(key)}")

    def _arr(self, vals):
        a = np.empty(len(vals), dtype=object)
        for i, v in enumerate(vals):
            a[i] = v
        a = a.view(SArr)
        ctx().mut_views.append((a, list(vals)))
        return a

    def _bound(self, b, default):
        n = wrap(self.dom.n)
        if b is None:
            return default
        if b < 0:
            b = b + n
            return b if b >= 0 else 0
        return b if b <= n else n

    def _rows(self, s):
        if self.ndim == 1 and len(self.cols) > 1 and s.step == len(self.cols) and s.stop is None and isinstance(s.start, (int, type(None))) and 0 <= (s.start or 0) < s.step:
            return Series(self.dom, [self.cols[s.start or 0]], 1, self.boolean)
        if s.step not in (None, 1):
            raise Unsupported(f"series slice step {s}")
        n = wrap(self.dom.n)
        if s.start is None and s.stop is None:
            return Series(self.dom, self.cols, self.ndim, self.boolean)
        if self.ndim == 1 and len(self.cols) > 1:
            K = len(self.cols)

            def rowbound(b):
                if b is None:
                    return None
                q = z3.simplify(to_z3(b) / K)
                if not teq(q * K, b):
                    raise Unsupported("slice through a row of a flattened series")
                return wrap(q)
            s = slice(rowbound(s.start), rowbound(s.stop))
        a = self._bound(s.start, 0)
        raw_len = None
        if s.start is not None and s.stop is not None:
            raw_len = s.stop - s.start
        b = self._bound(s.stop, n)
        if a >= b:
            return self._block(a, 0)
        ln = b - a
        if isinstance(ln, int):
            return self._block(a, ln)
        if isinstance(raw_len, int):
            return self._block(a, ctx().concretise_int(ln.t))
        at = to_z3(a)
        sub = Dom(z3.simplify(to_z3(ln)))
        base = self.dom

        def mk(col):
            def f(i):
                i = z3.simplify(at + i)
                ctx().touch(base, i)
                return col(i)
            return f
        return Series(sub, [mk(c) for c in self.cols], self.ndim, self.boolean)

    def _block(self, a, ln):
        K = len(self.cols)
        r = np.empty((ln, K) if self.ndim == 2 else (ln,), dtype=object)
        vals = []
        for i in range(ln):
            it = z3.simplify(to_z3(a) + i)
            ctx().touch(self.dom, it)
            for c in range(K):
                v = self._el(c, it)
                vals.append(v)
                if self.ndim == 2:
                    r[i, c] = v
                else:
                    r[i] = v
        r = r.view(SArr)
        ctx().mut_views.append((r, vals))
        return r

    def item(self, *a):
        n = wrap(self.dom.n)
        if len(self.cols) == 1 and n == 1:
            return self._el(0, self._row(0))
        raise ValueError('can only convert an array of size 1 to a Python scalar')

    def __setitem__(self, key, v):
        if isinstance(key, Series) and key.boolean and isinstance(v, Series):
            raise Unsupported("series mask assignment")
        if isinstance(key, Series) and key.boolean:
            if not (is_sym(v) or np.isscalar(v)) or len(key.cols) != len(self.cols):
                raise Unsupported("series mask assignment")
            t = core._real(to_z3(v))
            self.cols = [(lambda o, m: lambda i: z3.If(m(i), t, o(i)))(o, m) for o, m in zip(self.cols, key.cols)]
            return
        if not isinstance(key, tuple):
            key = (key, slice(None))
        r, c = key
        sel = self._colsel(c)
        sel = [int(sel)] if np.ndim(sel) == 0 else [int(x) for x in sel]
        if isinstance(r, slice) and r == slice(None):
            for j, col in enumerate(sel):
                if isinstance(v, Series):
                    self.cols[col] = v.cols[j if len(v.cols) > 1 else 0]
                elif is_sym(v) or np.isscalar(v):
                    t = core._real(to_z3(v))
                    self.cols[col] = (lambda t: lambda i: t)(t)
                else:
                    raise Unsupported("series assignment")
            return
        if isinstance(r, (int, np.integer, SInt)):
            it = self._row(r)
            vals = list(v) if hasattr(v, '__len__') else [v] * len(sel)
            for j, col in enumerate(sel):
                old = self.cols[col]
                t = core._real(to_z3(vals[j]))
                self.cols[col] = (lambda old, t: lambda i: z3.If(i == it, t, old(i)))(old, t)
            return
        raise Unsupported("series assignment")

    # ------------------------------------------------------------ elementwise
    @staticmethod
    def ufunc(ufunc, method, *inputs, **kw):
        if method != '__call__' or kw:
            raise Unsupported(f"series ufunc {ufunc.__name__}.{method}")
        return Series.op(ufunc.__name__, *inputs)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return Series.ufunc(ufunc, method, *inputs, **kw)

    def __array_function__(self, func, types, args, kwargs):
        return Series.func(func.__name__, *args, **kwargs)

    @staticmethod
    def func(name, *a, **k):
        s = a[0]
        if name in ('concatenate', 'vstack', 'hstack', 'append'):
            if name == 'append':
                return Series.concatenate(list(a[:2]), *a[2:], **k)
            if name != 'concatenate' and any(getattr(x, 'ndim', 0) != (2 if name == 'vstack' else 1) for x in s):
                raise Unsupported(f"numpy.{name} on a symbolic series")
            return Series.concatenate(s, *a[1:], **k)
        if name == 'where' and len(a) == 3 and isinstance(s, Series):
            return Series.op('where', *a)
        if name == 'reshape':
            return s.reshape(*a[1:])
        if name == 'tile' and isinstance(s, Series) or not isinstance(s, Series):
            raise Unsupported(f"numpy.{name} on a symbolic series")
        if name in ('min', 'amin'):
            return s.min(*a[1:], **k)
        if name in ('max', 'amax'):
            return s.max(*a[1:], **k)
        if name == 'all':
            return s.all(*a[1:], **k)
        if name == 'any':
            return s.any(*a[1:], **k)
        if name == 'mean':
            return s.mean()
        if name == 'shape':
            return s.shape
        if name in ('copy', 'array', 'asarray', 'atleast_1d'):
            return s.copy()
        if name == 'ndim':
            return s.ndim
        if name in ('ones_like', 'zeros_like'):
            return Series(s.dom, [(lambda v: lambda i: v)(z3.RealVal(1 if name[0] == 'o' else 0))] * len(s.cols), s.ndim)
        raise Unsupported(f"numpy.{name} on a symbolic series")

    @staticmethod
    def op(name, *inputs):
        s = next(i for i in inputs if isinstance(i, Series))
        inputs = [Series.block(i) if isinstance(i, np.ndarray) and i.ndim > 1 and i.shape[0] != 1 else i for i in inputs]
        K = max(len(i.cols) for i in inputs if isinstance(i, Series))
        for i in inputs:
            if isinstance(i, Series) and i.dom is not s.dom and not teq(i.dom.n, s.dom.n):
                raise Unsupported("series of different length")
            if isinstance(i, Series) and i.ndim != s.ndim:
                raise Unsupported("series of different shapes")
        if len(inputs) == 1:
            f = _UN.get(name)
            if name in ('logical_not', 'invert') and s.boolean:
                return Series(s.dom, [(lambda c: lambda i: z3.Not(c(i)))(c) for c in s.cols], s.ndim, True)
            if f is None:
                raise Unsupported(f"numpy.{name} on a symbolic series")
            return Series(s.dom, [(lambda c: lambda i: f(c(i)))(c) for c in s.cols], s.ndim, name in ('isnan', 'isfinite'))

        def colfn(x, j):
            if isinstance(x, Series):
                return x.cols[j if len(x.cols) > 1 else 0]
            if is_sym(x) or np.isscalar(x):
                if isinstance(x, (bool, np.bool_)):
                    return lambda i: z3.BoolVal(bool(x))
                t = core._real(to_z3(x))
                return lambda i: t
            x = np.asarray(x, dtype=object).reshape(-1)
            t = core._real(to_z3(x[j if len(x) > 1 else 0]))
            return lambda i: t
        if name == 'where':
            return Series(s.dom, [(lambda m, p, q: lambda i: z3.If(m(i), p(i), q(i)))(colfn(inputs[0], j), colfn(inputs[1], j), colfn(inputs[2], j))
                                  for j in range(K)], s.ndim)
        if name in ('logical_and', 'bitwise_and', 'logical_or', 'bitwise_or') and s.boolean:
            g = z3.And if 'and' in name else z3.Or
            return Series(s.dom, [(lambda p, q: lambda i: g(p(i), q(i)))(colfn(inputs[0], j), colfn(inputs[1], j))
                                  for j in range(K)], s.ndim, True)
        if name in _CMP:
            f = _CMP[name]
            return Series(s.dom, [(lambda p, q: lambda i: f(p(i), q(i)))(colfn(inputs[0], j), colfn(inputs[1], j))
                                  for j in range(K)], s.ndim, True)
        if name in ('true_divide', 'divide'):
            d = inputs[1]
            if isinstance(d, Series):
                # numpy yields inf/nan for a zero divisor: excluded by an obligation of the engine
                nz = Series.op('not_equal', d, 0).all()
                if not nz:
                    raise Unsupported("series division by a possible zero")
                a = inputs[0]
                g = [(lambda p, q: lambda i: p(i) / q(i))(colfn(a, j), colfn(d, j)) for j in range(K)]
                return Series(s.dom, g, s.ndim)
            return Series.op('multiply', inputs[0], core.div(1, d))
        f = _BIN.get(name)
        if f is None:
            raise Unsupported(f"numpy.{name} on a symbolic series")
        return Series(s.dom, [(lambda p, q: lambda i: f(p(i), q(i)))(colfn(inputs[0], j), colfn(inputs[1], j))
                              for j in range(K)], s.ndim)

    def __add__(self, o): return Series.op('add', self, o)
    def __radd__(self, o): return Series.op('add', o, self)
    def __sub__(self, o): return Series.op('subtract', self, o)
    def __rsub__(self, o): return Series.op('subtract', o, self)
    def __mul__(self, o): return Series.op('multiply', self, o)
    def __rmul__(self, o): return Series.op('multiply', o, self)
    def __truediv__(self, o): return Series.op('true_divide', self, o)
    def __neg__(self): return Series.op('negative', self)
    def __abs__(self): return Series.op('absolute', self)
    def __lt__(self, o): return Series.op('less', self, o)
    def __le__(self, o): return Series.op('less_equal', self, o)
    def __gt__(self, o): return Series.op('greater', self, o)
    def __ge__(self, o): return Series.op('greater_equal', self, o)
    def __eq__(self, o): return Series.op('equal', self, o)
    def __ne__(self, o): return Series.op('not_equal', self, o)
    def __and__(self, o): return Series.op('logical_and', self, o)
    def __or__(self, o): return Series.op('logical_or', self, o)
    def __invert__(self): return Series.op('invert', self)
    __hash__ = None

    def __bool__(self):
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def __iter__(self):
        raise Unsupported("iteration over a symbolic series")

    # ------------------------------------------------------------ reductions
    def _pred(self):
        if self.boolean:
            return self.cols
        return [(lambda c: lambda i: c(i) != 0)(c) for c in self.cols]

    def all(self, axis=None, **k):
        if axis is not None and axis not in (0,):
            raise Unsupported("all(axis)")
        c = ctx()
        preds = self._pred()
        if axis == 0 and self.ndim == 2:
            return np.array([Series(self.dom, [p], 1, True).all() for p in preds])
        known = list(c.indices.get(self.dom.id, []))
        k_ = c.fresh_int('wit')
        c.touch(self.dom, k_.t)
        inr = lambda i: z3.And(i >= 0, i < self.dom.n)
        # one side may be excluded already: no fork
        if c.replaying():
            some = every = True
        else:
            some = c.query(z3.And(inr(k_.t), z3.Not(z3.And(*[p(k_.t) for p in preds])))) != z3.unsat
            every = not some or c.query(z3.And(*[z3.Implies(inr(i), p(i)) for i in known for p in preds])) != z3.unsat
        b = c.fresh_bool('all')
        if not (some and every):
            c.add(b.t if every else z3.Not(b.t))
        if bool(b):
            c.forall(self.dom, lambda i: z3.And(*[p(i) for p in preds]))
            c.assume(True, check=True)
            return np.bool_(True)
        c.assume(inr(k_.t))
        c.assume(z3.Not(z3.And(*[p(k_.t) for p in preds])), check=True)
        return np.bool_(False)

    def any(self, axis=None, **k):
        r = Series.op('invert', Series(self.dom, self._pred(), self.ndim, True)).all(axis=axis)
        return ~r

    def _ext(self, cols, le):
        c = ctx()
        n = wrap(self.dom.n)
        if n <= 0:
            raise ValueError("zero-size array to reduction operation minimum which has no identity")
        m = c.fresh_real('ext')
        c.forall(self.dom, lambda i: z3.And(*[le(m.t, f(i)) for f in cols]))
        k = c.fresh_int('wit')
        c.assume(z3.And(k.t >= 0, k.t < self.dom.n))
        c.touch(self.dom, k.t)
        c.assume(z3.Or(*[m.t == f(k.t) for f in cols]), check=True)
        return m

    def _red(self, axis, le, **k):
        if axis is None or (self.ndim == 1):
            return self._ext(self.cols, le)
        if axis == 0:
            r = np.empty(len(self.cols), dtype=object)
            for j, col in enumerate(self.cols):
                r[j] = self._ext([col], le)
            return lift(r)
        raise Unsupported("reduction axis")

    def min(self, axis=None, **k): return self._red(axis, lambda m, x: m <= x)
    def max(self, axis=None, **k): return self._red(axis, lambda m, x: m >= x)

    def mean(self, axis=None, **k):
        lo, hi = self.min(axis), self.max(axis)
        if axis is None:
            v = ctx().fresh_real('mean')
            ctx().assume(z3.And(v.t >= to_z3(lo), v.t <= to_z3(hi)))
            return v
        raise Unsupported("mean(axis)")

    def __repr__(self): return f"Series[{len(self.cols)} cols]"
    __str__ = __repr__
    def __format__(self, s): return repr(self)


class Part(Series):
    """the values of one Family of dictionary entries; whatever is done to one entry is done to all"""
    def item(self, *a): return self
    def copy(self, *a, **k): return Part(self.dom, self.cols, self.ndim, self.boolean)

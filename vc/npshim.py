"""numpy as seen by the repository code while it runs on symbolic values.

Real numpy does the work on object arrays; only functions whose C
implementation needs a machine float are given an element-wise definition.
Every shim falls through to real numpy when no symbolic value is involved.
"""
import collections
import types
import numpy as np
import z3
from . import core
from .core import SNum, SBool, SReal, SInt, Unsupported, mkbool, wrap, to_z3, is_sym


# ---------------------------------------------------------------- scalars
def s_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    inf = float('inf')
    for v in (a, b):
        if isinstance(v, (float, np.floating)) and (v in (inf, -inf) or v != v):
            if is_sym(a) or is_sym(b):
                return False
            return bool(np.isclose(a, b, rtol, atol, equal_nan))
    # |a-b| <= atol + rtol*|b|, without branching
    at, bt, rt, tt = (core._real(to_z3(x)) for x in (a, b, rtol, atol))
    d = z3.If(at >= bt, at - bt, bt - at)
    ab = z3.If(bt >= 0, bt, -bt)
    return mkbool(d <= tt + rt * ab)


def s_sign(v):
    if not is_sym(v):
        return np.sign(v)
    t = core._real(to_z3(v))
    return wrap(z3.If(t > 0, z3.RealVal(1), z3.If(t < 0, z3.RealVal(-1), z3.RealVal(0))))


def s_max(a, b): return a if a >= b else b
def s_min(a, b): return a if a <= b else b


_SC = {
    'add': lambda a, b: a + b, 'subtract': lambda a, b: a - b, 'multiply': lambda a, b: a * b,
    'divide': lambda a, b: a / b, 'true_divide': lambda a, b: a / b, 'floor_divide': lambda a, b: a // b,
    'remainder': lambda a, b: a % b, 'negative': lambda a: -a, 'positive': lambda a: a,
    'absolute': lambda a: abs(a), 'fabs': lambda a: abs(a),
    'less': lambda a, b: a < b, 'less_equal': lambda a, b: a <= b, 'greater': lambda a, b: a > b,
    'greater_equal': lambda a, b: a >= b, 'equal': lambda a, b: a == b, 'not_equal': lambda a, b: a != b,
    'maximum': s_max, 'minimum': s_min, 'fmax': s_max, 'fmin': s_min,
    'isnan': lambda a: False if is_sym(a) else bool(np.isnan(a)),
    'isinf': lambda a: False if is_sym(a) else bool(np.isinf(a)),
    'isfinite': lambda a: True if is_sym(a) else bool(np.isfinite(a)),
    'sign': s_sign,
    'logical_and': lambda a, b: mkbool(z3.And(_bt(a), _bt(b))), 'logical_or': lambda a, b: mkbool(z3.Or(_bt(a), _bt(b))),
    'logical_not': lambda a: mkbool(z3.Not(_bt(a))),
    'square': lambda a: a * a, 'power': lambda a, b: a ** b, 'conjugate': lambda a: a,
    'bitwise_and': lambda a, b: a & b, 'bitwise_or': lambda a, b: a | b, 'invert': lambda a: (not a) if isinstance(a, (bool, np.bool_)) else ~a,
    'rint': lambda a: a.__round__(), 'floor': lambda a: s_floor(a), 'ceil': lambda a: -s_floor(-a),
    'float_power': lambda a, b: a ** b,
}
_BOOL_OUT = {'isnan', 'isinf', 'isfinite', 'logical_and', 'logical_or', 'logical_not', 'less', 'less_equal', 'greater',
             'greater_equal', 'equal', 'not_equal'}


def _bt(x):
    return core.as_bool_term(x) if is_sym(x) else z3.BoolVal(bool(x))


def _mask(k):
    """a symbolic boolean mask used as an index is decided element by element"""
    if isinstance(k, SArr):
        f = k.view(np.ndarray).reshape(-1)
        if any(isinstance(x, (SBool, bool, np.bool_)) for x in f):
            return np.array([bool(x) for x in f], dtype=bool).reshape(k.shape)
        return np.array([_idx(x) for x in f], dtype=int).reshape(k.shape)
    return k


def s_floor(a):
    if not is_sym(a):
        return np.floor(a)
    return wrap(z3.ToReal(z3.ToInt(core._real(a.t))))


def _unlift(x):
    """python object arrays for ufunc application"""
    if isinstance(x, (SNum, SBool)):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    return x


def scalar_ufunc(ufunc, method, *inputs, **kw):
    from .series import Series
    if any(isinstance(i, Series) for i in inputs):
        return Series.ufunc(ufunc, method, *inputs, **kw)
    arrs = [i for i in inputs if isinstance(i, np.ndarray) and i.ndim > 0]
    if method != '__call__':
        raise Unsupported(f"ufunc method {method} of {ufunc.__name__} on symbolic scalars")
    if not arrs:
        f = _SC.get(ufunc.__name__)
        if f is None:
            raise Unsupported(f"numpy.{ufunc.__name__} on a symbolic value")
        args = [i.item() if isinstance(i, (np.ndarray, np.generic)) else i for i in inputs]
        return f(*args)
    return arr_ufunc(ufunc, [np.asarray(_unlift(i), dtype=object) for i in inputs], kw)


def arr_ufunc(ufunc, inputs, kw):
    f = _SC.get(ufunc.__name__)
    if f is None:
        raise Unsupported(f"numpy.{ufunc.__name__} on symbolic arrays")
    out = kw.pop('out', None)
    where = kw.pop('where', True)
    kw.pop('dtype', None), kw.pop('casting', None), kw.pop('subok', None), kw.pop('order', None)
    if where is not True or kw:
        raise Unsupported("ufunc keyword")
    bc = np.broadcast(*[np.asarray(i) for i in inputs])
    vals = []
    isb = ufunc.__name__ in _BOOL_OUT
    for tup in bc:
        v = f(*tup)
        if isb and not isinstance(v, SBool):
            v = bool(v)
        vals.append(v)
    res = np.empty(len(vals), dtype=bool if isb and not any(is_sym(v) for v in vals) else object)
    for i, v in enumerate(vals):
        res[i] = v
    res = res.reshape(bc.shape)
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        o[...] = res
        return o
    return lift(res)


class SArr(np.ndarray):
    """object array holding symbolic values"""

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from .series import Series
        if any(isinstance(i, Series) for i in inputs):
            return Series.ufunc(ufunc, method, *inputs, **kw)
        base = [np.asarray(_unlift(i)) if not isinstance(i, SArr) else i.view(np.ndarray) for i in inputs]
        if method == '__call__':
            if 'out' in kw and kw['out'] is not None:
                kw['out'] = tuple(o.view(np.ndarray) if isinstance(o, SArr) else o for o in kw['out'])
            if ufunc.__name__ == 'matmul':
                return lift(np.dot(base[0], base[1]))
            r = arr_ufunc(ufunc, [b.astype(object) if b.dtype != object else b for b in base], dict(kw))
            return r
        if method == 'reduce':
            kw.pop('out', None)
            return lift(getattr(ufunc, method)(*base, **kw))
        if method in ('outer', 'accumulate'):
            return lift(getattr(ufunc, method)(*base, **kw))
        raise Unsupported(f"ufunc method {method}")

    def astype(self, dtype, *a, **k):
        if dtype in (object, 'O'):
            return self.copy()
        dt = np.dtype(dtype)
        if dt.kind == 'f':
            return self.copy()
        if dt.kind in 'iub':
            r = self.copy()
            for i in np.ndindex(r.shape):
                r[i] = b_int(r[i]) if dt.kind != 'b' else bool(r[i])
            return r
        raise Unsupported(f"astype {dtype}")

    def mean(self, axis=None, **k):
        n = self.size if axis is None else self.shape[axis]
        return self.sum(axis=axis) / n

    def sum(self, *a, **k): return lift(np.ndarray.sum(self.view(np.ndarray), *a, **k))
    def _ext(self, name, cmp, a, k):
        if not a and not k and self.size > 2:
            # the extremum as a fresh value: bounds every element and equals one of them
            ts = [core._real(to_z3(x)) for x in self.view(np.ndarray).reshape(-1)]
            c = core.ctx()
            r = c.fresh_real(name)
            c.assume(z3.And(*[cmp(r.t, t) for t in ts], z3.Or(*[r.t == t for t in ts])))
            return r
        return lift(getattr(np.ndarray, name)(self.view(np.ndarray), *a, **k))

    def min(self, *a, **k): return self._ext('min', lambda r, t: r <= t, a, k)
    def max(self, *a, **k): return self._ext('max', lambda r, t: r >= t, a, k)
    def cumsum(self, *a, **k): return lift(np.ndarray.cumsum(self.view(np.ndarray), *a, **k))
    def dot(self, o): return lift(np.dot(self.view(np.ndarray), np.asarray(o)))
    def round(self, decimals=0, **k):
        r = self.copy()
        for i in np.ndindex(r.shape):
            r[i] = r[i].__round__(decimals)
        return r

    def any(self, *a, **k):
        if not a and not k:
            ts = [_bt(x) for x in self.view(np.ndarray).reshape(-1)]
            return mkbool(z3.Or(*ts)) if ts else False
        return np.array([bool(x) for x in self.view(np.ndarray).reshape(-1)], dtype=bool).reshape(self.shape).any(*a, **k)

    def all(self, *a, **k):
        if not a and not k:
            ts = [_bt(x) for x in self.view(np.ndarray).reshape(-1)]
            return mkbool(z3.And(*ts)) if ts else True
        return np.array([bool(x) for x in self.view(np.ndarray).reshape(-1)], dtype=bool).reshape(self.shape).all(*a, **k)

    @property
    def dtype(self):
        return _FLOAT

    def __getitem__(self, k):
        from .series import Series
        if isinstance(k, SNum) or (isinstance(k, tuple) and any(isinstance(x, SNum) for x in k)):
            k = tuple(_idx(x) for x in k) if isinstance(k, tuple) else _idx(k)
        k = tuple(map(_mask, k)) if isinstance(k, tuple) else _mask(k)
        return np.ndarray.__getitem__(self, k)

    def __setitem__(self, k, v):
        k = tuple(map(_mask, k)) if isinstance(k, tuple) else _mask(k)
        if isinstance(v, SArr):
            v = v.view(np.ndarray)
        np.ndarray.__setitem__(self, k, v)

    def __deepcopy__(self, memo):
        return self.copy()

    def tolist(self):
        return np.ndarray.tolist(self.view(np.ndarray))

    def item(self, *a):
        if not a and self.size != 1:
            raise ValueError('can only convert an array of size 1 to a Python scalar')
        return np.ndarray.item(self.view(np.ndarray), *a)

    def __eq__(self, o): return np.equal(self, o)
    def __ne__(self, o): return np.not_equal(self, o)
    __hash__ = None

    def __repr__(self):
        return f"SArr{self.shape}"
    __str__ = __repr__

    def __format__(self, spec): return repr(self)


_FLOAT = np.dtype('float64')


def _idx(x):
    if isinstance(x, SInt):
        return x.__index__()
    return x


def has_sym(x, depth=3):
    if is_sym(x):
        return True
    if isinstance(x, SArr):
        return True
    if isinstance(x, np.ndarray):
        if np.ndarray.__getattribute__(x, 'dtype') == object:
            return any(is_sym(e) for e in x.reshape(-1))
        return False
    if isinstance(x, (list, tuple)) and depth:
        return any(has_sym(e, depth - 1) for e in x)
    if isinstance(x, dict) and depth:
        return any(has_sym(e, depth - 1) for e in x.values())
    return False


def odtype(a):
    return np.ndarray.dtype.__get__(a)


def lift(out):
    if isinstance(out, tuple):
        return tuple(lift(o) for o in out)
    if isinstance(out, list):
        return [lift(o) for o in out]
    if isinstance(out, np.ndarray) and not isinstance(out, SArr) and out.dtype == object:
        if any(is_sym(e) for e in out.reshape(-1)):
            return out.view(SArr)
        # an object array without symbols left: only keep float semantics if it is numeric
        try:
            if out.size and all(isinstance(e, (bool, np.bool_)) for e in out.reshape(-1)):
                return out.astype(bool)
            if all(isinstance(e, (int, float, np.number, bool, np.bool_)) for e in out.reshape(-1)):
                return out.astype(float)
        except (TypeError, ValueError):
            pass
    return out


def unwrap(x):
    if isinstance(x, SArr):
        return x.view(np.ndarray)
    if isinstance(x, (list, tuple)):
        return type(x)(unwrap(e) for e in x) if type(x) in (list, tuple) else x
    if isinstance(x, SNum):
        return x
    return x


def array(obj=None, dtype=None, *a, **k):
    from .series import Series
    if 'object' in k:
        obj = k.pop('object')
    if isinstance(obj, Series):
        return obj.copy()
    if isinstance(obj, (list, tuple)) and any(isinstance(x, Series) for x in obj):
        return _joined(obj)
    if has_sym(obj):
        if is_sym(obj):
            r = np.empty((), dtype=object)
            r[()] = obj
            return r.view(SArr)
        r = np.array(_rows(obj), dtype=object)
        return lift(r)
    if dtype is None:
        return np.array(obj, *a, **k)
    return np.array(obj, dtype, *a, **k)


def _joined(xs):
    """array of scalars and the parts of a dictionary of symbolic size, in order"""
    from .series import Series, Part
    if not all(isinstance(x, Part) if isinstance(x, Series) else not isinstance(x, np.ndarray) or x.ndim == 0 for x in xs):
        raise Unsupported("array of series")
    K = next(len(x.cols) for x in xs if isinstance(x, Series))
    parts, cur = [], []
    for x in xs:
        if not isinstance(x, Series):
            cur.append(x.item() if isinstance(x, np.ndarray) else x)
            continue
        if len(cur) % K or len(x.cols) != K:
            raise Unsupported("array of series")
        if cur:
            parts.append(Series.block(np.array(cur, dtype=object).reshape((-1, K))))
        parts.append(Series(x.dom, x.cols, 2))
        cur = []
    if cur:
        raise Unsupported("array of series")
    return Series.concatenate(parts).reshape(-1)


def zip_keys(keys, vals):
    """zip of the keys of a dictionary of symbolic size with an array"""
    keys = list(keys)
    out, pos, K = [], 0, len(vals.cols)
    for k in keys:
        if not isinstance(k, FamKey):
            out.append((k, vals[pos]))
            pos += 1
        else:
            if k is not keys[-1] or pos % K or len(k.fam.names) != K:
                raise Unsupported("list of arbitrary length")
            out += list(k.fam.zip(vals[pos:]))
    return iter(out)


def _rows(x):
    if isinstance(x, SArr):
        return x.view(np.ndarray)
    if isinstance(x, (list, tuple)):
        return [_rows(e) for e in x]
    return x


def asarray(obj, *a, **k):
    if isinstance(obj, SArr):
        return obj
    return array(obj, *a, **k)


def float64(x=0.0):
    if has_sym(x):
        return x.copy() if isinstance(x, SArr) else x
    return np.float64(x)


def isscalar(x):
    return is_sym(x) or np.isscalar(x)


def _elementwise(fn):
    def f(*args, **k):
        from .series import Series
        if any(isinstance(x, Series) for x in args):
            raise Unsupported("series in " + fn.__name__)
        if not any(isinstance(x, np.ndarray) and x.ndim > 0 or isinstance(x, (list, tuple)) for x in args):
            return fn(*[x.item() if isinstance(x, np.ndarray) else x for x in args], **k)
        arrs = [np.asarray(_rows(x) if not is_sym(x) else _unlift(x), dtype=object) for x in args]
        bc = np.broadcast(*arrs)
        res = np.empty(bc.size, dtype=object)
        for i, tup in enumerate(bc):
            res[i] = fn(*tup, **k)
        return res.reshape(bc.shape)
    return f


def _series_close(a, b, rtol, atol):
    from .series import Series
    d = Series.op('absolute', Series.op('subtract', a, b))
    rhs = Series.op('absolute', b) if isinstance(b, Series) else (abs(b) if not is_sym(b) else SReal(z3.If(b.t >= 0, core._real(b.t), -core._real(b.t))))
    return Series.op('less_equal', d, rhs * rtol + atol)


def _any_series(*xs):
    from .series import Series
    return any(isinstance(x, Series) for x in xs)


def b_all(x):
    return bool(x.all()) if _any_series(x) or (isinstance(x, SArr) and x.ndim == 1) else all(x)


def b_any(x):
    return bool(x.any()) if _any_series(x) or (isinstance(x, SArr) and x.ndim == 1) else any(x)


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if _any_series(a, b):
        return _series_close(a, b, rtol, atol)
    if not has_sym(a) and not has_sym(b):
        return np.isclose(a, b, rtol, atol, equal_nan)
    r = _elementwise(s_isclose)(a, b, rtol=rtol, atol=atol, equal_nan=equal_nan)
    return lift(r)


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if _any_series(a, b):
        return bool(_series_close(a, b, rtol, atol).all())
    if not has_sym(a) and not has_sym(b):
        return np.allclose(a, b, rtol, atol, equal_nan)
    r = _elementwise(s_isclose)(a, b, rtol=rtol, atol=atol, equal_nan=equal_nan)
    if isinstance(r, np.ndarray):
        ts = [core.as_bool_term(x) for x in r.reshape(-1)]
        return bool(mkbool(z3.And(*ts)) if ts else True)
    return bool(r)


def clip(a, lo, hi, *args, **k):
    if _any_series(a, lo, hi):
        from .series import Series
        return Series.op('minimum', Series.op('maximum', a, lo), hi)
    if not any(map(has_sym, (a, lo, hi))):
        return np.clip(a, lo, hi, *args, **k)
    r = a
    if lo is not None:
        r = np.maximum(r, lo)
    if hi is not None:
        r = np.minimum(r, hi)
    return lift(r)


def where(c, *ab):
    if len(ab) == 2 and _any_series(c, *ab):
        from .series import Series
        if isinstance(c, Series):
            return Series.op('where', c, *ab)
        raise Unsupported("where")
    if not ab:
        if isinstance(c, SArr):
            c = np.array([bool(x) for x in c.view(np.ndarray).reshape(-1)]).reshape(c.shape)
        return np.where(c)
    if is_sym(c):
        c = bool(c)
    if has_sym(ab):
        a, b = (np.asarray(_unlift(x), dtype=object) if not isinstance(x, SArr) else x.view(np.ndarray) for x in ab)
        return lift(np.where(c, a, b))
    return np.where(c, *ab)


def _symshape(shape):
    if isinstance(shape, SInt):
        return True
    return isinstance(shape, tuple) and any(isinstance(s, SInt) for s in shape)


def _filled(name, val):
    real = getattr(np, name)

    def f(shape, *a, **k):
        if _symshape(shape):
            from .series import Series
            return Series.const(shape, val)
        return real(shape, *a, **k).view(SFloatArr) if real(shape, *a, **k).dtype == np.float64 else real(shape, *a, **k)
    return f


class SFloatArr(np.ndarray):
    """float array that silently becomes an object array when a symbolic value is written into it."""
    def __setitem__(self, k, v):
        if has_sym(v):
            raise Unsupported("writing a symbolic value into a float array")
        np.ndarray.__setitem__(self, k, v)


def ones(shape, *a, **k): return _mk(shape, 1.0, np.ones, a, k)
def zeros(shape, *a, **k): return _mk(shape, 0.0, np.zeros, a, k)
def empty(shape, *a, **k): return _mk(shape, 0.0, np.empty, a, k)


def full(shape, v, *a, **k):
    if has_sym(v):
        r = np.empty(shape, dtype=object)
        for i in np.ndindex(r.shape):
            r[i] = v
        return lift(r)
    return _mk(shape, v, lambda s, *a_, **k_: np.full(s, v, *a_, **k_), a, k)


def _mk(shape, val, real, a, k):
    if _symshape(shape):
        from .series import Series
        return Series.const(shape, val)
    r = real(shape, *a, **k)
    if core.CTX is not None and OBJ_ARRAYS and r.dtype == np.float64:
        return r.astype(object).view(SArr)
    return r


OBJ_ARRAYS = True


def np_sum(a, *args, **k):
    from .symlist import SymList
    if isinstance(a, SymList):
        return a.sum(*args, **k)
    if isinstance(a, SArr):
        return a.sum(*args, **k)
    if has_sym(a):
        return array(a).sum(*args, **k)
    return np.sum(a, *args, **k)


def _red(name):
    real = getattr(np, name)

    def f(a, *args, **k):
        from .series import Series
        if isinstance(a, Series):
            return getattr(a, name)(*args, **k)
        if has_sym(a) and not isinstance(a, SArr):
            a = array(a)
        if isinstance(a, SArr):
            return lift(getattr(a, name)(*args, **k))
        return real(a, *args, **k)
    return f


class Wide:
    """K rows with a symbolic number of equal columns"""
    ndim = 2

    def __init__(self, vals, n):
        self.vals, self.n = vals, n

    @property
    def shape(self): return (len(self.vals), self.n)

    @property
    def T(self):
        from .series import Series, Dom
        ts = [core._real(to_z3(v)) for v in self.vals]
        return Series(Dom(z3.simplify(to_z3(self.n))), [(lambda t: lambda i: t)(t) for t in ts], 2)

    def transpose(self): return self.T
    def __getattr__(self, n): raise Unsupported(f"{n} of an array with a symbolic number of columns")


def repeat(a, repeats, axis=None):
    if not isinstance(repeats, SInt):
        return _wrapped(np.repeat)(a, repeats, axis=axis)
    from .series import Series
    a = array(a)
    n = SInt(z3.If(repeats.t >= 0, repeats.t, 0)) if not repeats >= 0 else repeats
    if axis == 1 and a.ndim == 2 and a.shape[1] == 1:
        return Wide([a[i, 0] for i in range(a.shape[0])], n)
    if axis == 0 and a.ndim == 2 and a.shape[0] == 1:
        return Wide([a[0, i] for i in range(a.shape[1])], n).T
    if a.size == 1 and axis in (None, 0) and a.ndim < 2:
        return Wide([a.reshape(-1)[0]], n).T.reshape(-1)
    raise Unsupported("repeat")


def tile(a, reps):
    r = reps[0] if isinstance(reps, tuple) and len(reps) == 2 and reps[1] == 1 else reps
    if isinstance(r, SInt):
        a = array(a)
        if a.ndim <= 1 or a.ndim == 2 and a.shape[0] == 1:
            s = Wide(list(a.reshape(-1)), r).T
            return s.reshape(-1) if a.ndim <= 1 and r is reps else s
        raise Unsupported("tile")
    return _wrapped(np.tile)(a, reps)


def arange(*a, **k):
    if len(a) == 1 and isinstance(a[0], SInt):
        from .series import Series, Dom
        return Series(Dom(a[0].t), [lambda i: z3.ToReal(i)], 1)
    return _wrapped(np.arange)(*a, **k)


def outer(a, b):
    from .series import Series
    if isinstance(a, Series) and a.ndim == 1 and len(a.cols) == 1 and isinstance(b, np.ndarray):
        f = a.cols[0]
        return Series(a.dom, [(lambda t: lambda i: f(i) * t)(core._real(to_z3(x))) for x in b.reshape(-1)], 2)
    return _wrapped(np.outer)(a, b)


def concatenate(parts, *a, **k):
    from .series import Series
    if any(isinstance(p, Series) for p in parts):
        return Series.concatenate(parts, *a, **k)
    return _wrapped(np.concatenate)(parts, *a, **k)


def np_round(a, decimals=0, *x, **k):
    if is_sym(a):
        return a.__round__(decimals)
    if isinstance(a, SArr):
        return a.round(decimals)
    return np.round(a, decimals, *x, **k)


class RandomShim(types.ModuleType):
    """numpy.random under symbolic execution: any value the documentation allows."""

    def __init__(self):
        super().__init__('numpy.random')

    def __getattr__(self, n):
        if core.CTX is None:
            return getattr(np.random, n)
        f = _RANDOM.get(n)
        if f is None:
            raise Unsupported(f"numpy.random.{n}")
        return f


def _many(size, one):
    if size is None:
        return one()
    r = np.empty(size, dtype=object)
    for i in np.ndindex(r.shape):
        r[i] = one()
    return lift(r)


def r_rand(*size):
    def one():
        c = core.ctx()
        v = c.fresh_real('rand')
        c.assume(z3.And(v.t >= 0, v.t < 1))
        return v
    return _many(size if size else None, one)


def r_randint(low, high=None, size=None, **k):
    if high is None:
        low, high = 0, low
    if low >= high:
        raise ValueError("low >= high")

    def one():
        c = core.ctx()
        v = c.fresh_int('randint')
        c.assume(z3.And(v.t >= to_z3(low), v.t < to_z3(high)))
        return v
    return _many(size, one)


def r_normal(loc=0.0, scale=1.0, size=None):
    from .series import Series, Dom, teq
    if isinstance(scale, Series) or _symshape(size):
        if not isinstance(size, tuple) or len(size) != 2:
            raise Unsupported("random series")
        if isinstance(scale, Series):
            h = wrap(scale.dom.n)
            if scale.ndim != 2 or len(scale.cols) != size[1]:
                raise Unsupported("random series")
            if not (h == size[0] or h == 1):
                raise ValueError("Output size is not compatible with broadcast dimensions of inputs.")
        c = core.ctx()
        fs = [z3.Function(c._fresh('normal'), z3.IntSort(), z3.RealSort()) for _ in range(size[1])]
        return Series(Dom(to_z3(size[0])), fs, 2)
    if not has_sym(scale) and np.any(np.asarray(scale) < 0):
        raise ValueError("scale < 0")
    if size is not None and np.ndim(scale) > 0 and np.broadcast_shapes(np.shape(scale), size) != tuple(size):
        raise ValueError("Output size is not compatible with broadcast dimensions of inputs.")
    return _many(size, lambda: core.ctx().fresh_real('normal'))


_RANDOM = {'rand': r_rand, 'random': lambda size=None: r_rand(*(size if isinstance(size, tuple) else ((size,) if size else ()))),
           'randint': r_randint, 'normal': r_normal,
           'uniform': lambda low=0.0, high=1.0, size=None: _uniform(low, high, size), 'seed': lambda *a: None}


def _uniform(low, high, size):
    def one():
        c = core.ctx()
        v = c.fresh_real('uniform')
        c.assume(z3.And(v.t >= core._real(to_z3(low)), v.t <= core._real(to_z3(high))))
        return v
    return _many(size, one)


OVERRIDES = {
    'array': array, 'asarray': asarray, 'asanyarray': asarray, 'float64': float64, 'isscalar': isscalar,
    'isclose': isclose, 'allclose': allclose, 'clip': clip, 'where': where, 'ones': ones, 'zeros': zeros,
    'empty': empty, 'full': full, 'sum': np_sum, 'min': _red('min'), 'max': _red('max'), 'amin': _red('min'),
    'amax': _red('max'), 'mean': _red('mean'), 'round': np_round, 'around': np_round, 'any': _red('any'), 'all': _red('all'),
    'random': RandomShim(), 'repeat': repeat, 'tile': tile, 'arange': arange, 'outer': outer, 'concatenate': concatenate,
}


class _Float64Meta(type):
    def __instancecheck__(cls, o): return isinstance(o, np.float64) or isinstance(o, SReal)
    def __eq__(cls, o): return o is cls or o is np.float64
    def __hash__(cls): return hash(np.float64)


def _wrapped(fn):
    def f(*a, **k):
        from .series import Series
        if any(isinstance(x, Series) for x in a) and not isinstance(fn, np.ufunc):
            return Series.func(fn.__name__, *a, **k)
        if core.CTX is None or not (has_sym(a) or has_sym(k)):
            return fn(*a, **k)
        if isinstance(fn, np.ufunc):
            a = [array(x) if isinstance(x, (list, tuple)) else x for x in a]
        return lift(fn(*a, **k))
    f.__name__ = getattr(fn, '__name__', 'f')
    f.__wrapped__ = fn
    return f


class NPProxy(types.ModuleType):
    def __init__(self):
        super().__init__('numpy')
        self.__dict__['_cache'] = {}
        self.__dict__['__path__'] = np.__path__

    def __getattr__(self, name):
        c = self.__dict__['_cache']
        if name in c:
            return c[name]
        if name in OVERRIDES:
            v = OVERRIDES[name]
            if name == 'float64':
                v = np.float64   # kept as the type; calls are rewritten by the loader
        else:
            v = getattr(np, name)
            if isinstance(v, np.ufunc) or isinstance(v, types.BuiltinFunctionType) or isinstance(v, types.FunctionType) \
                    or type(v).__name__ == '_ArrayFunctionDispatcher':
                v = _wrapped(v)
        c[name] = v
        return v


NP = NPProxy()


# ------------------------------------------------------------- builtins
def b_isinstance(o, t):
    ts = t if isinstance(t, tuple) else (t,)
    if isinstance(o, SNum):
        import numbers
        for x in ts:
            if isinstance(x, tuple):
                if b_isinstance(o, x):
                    return True
            elif isinstance(o, SReal) and x in (float, np.floating, np.float64, np.number, np.generic, numbers.Number, numbers.Real):
                return True
            elif isinstance(o, SInt) and x in (int, numbers.Number, numbers.Real, numbers.Integral):
                return True
            elif x in (SReal, SInt, SNum) and isinstance(o, x):
                return True
        return isinstance(o, object) if object in ts else False
    if isinstance(o, SBool):
        return any(x in (bool, int, np.bool_, object) for x in ts)
    from .series import Series
    if isinstance(o, Series) and np.ndarray in ts:
        return True
    from .symlist import SymList
    if isinstance(o, SymList) and list in ts:
        return True
    return isinstance(o, t)


def b_getitem(o, k):
    if isinstance(k, SArr) and isinstance(o, np.ndarray):
        k = _mask(k)
    return o[k]


def b_maskset(x, m, y):
    """x[m] = y[m]"""
    from .series import Series
    if isinstance(x, Series) and isinstance(m, Series) and m.boolean and isinstance(y, (Series, np.ndarray)):
        x.cols = Series.op('where', m, y, x).cols
        return
    if isinstance(m, SArr) and isinstance(x, SArr) and isinstance(y, np.ndarray) and m.shape == x.shape == y.shape:
        for i in np.ndindex(x.shape):
            mi = m.view(np.ndarray)[i]
            if isinstance(mi, SBool):
                a, b = y.view(np.ndarray)[i], x.view(np.ndarray)[i]
                v = wrap(z3.If(mi.t, core._real(to_z3(a)), core._real(to_z3(b))))
                np.ndarray.__setitem__(x, i, v)
            elif mi:
                np.ndarray.__setitem__(x, i, y.view(np.ndarray)[i])
        return
    x[m] = b_getitem(y, m)


def b_len(o):
    from .series import Series
    if isinstance(o, Series):
        return o.shape[0]
    if isinstance(o, collections.UserList):
        return b_len(o.data)
    if isinstance(o, dict) and any(isinstance(k, FamKey) for k in o):
        n = 0
        for k in o:
            n = n + ((k.fam.rng.hi - k.fam.rng.lo) * len(k.fam.names) if isinstance(k, FamKey) else 1)
        return n
    f = getattr(type(o), '__len__', None)
    if f is not None and isinstance(f, types.FunctionType):
        r = f(o)
        if isinstance(r, SInt):
            return r
    return len(o)


def b_float(x=0.0):
    if isinstance(x, SBool):
        return b_float(x._n())
    if isinstance(x, SInt):
        return wrap(z3.ToReal(x.t))
    if isinstance(x, SReal):
        return x
    if isinstance(x, SArr):
        return b_float(x.item())
    return float(x)


def b_int(x=0, *a):
    if isinstance(x, SBool):
        return x._n()
    if isinstance(x, SInt):
        return x
    if isinstance(x, SReal):
        t = x.t
        return wrap(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))
    if isinstance(x, SArr):
        return b_int(x.item())
    return int(x, *a)


def np_float64_call(x=0.0):
    return float64(x)


def b_range(*a):
    if any(isinstance(x, SNum) for x in a):
        return SymRange(*a)
    return range(*a)


def b_fill(f, rng):
    """[f() for _ in rng]"""
    if isinstance(rng, SymRange) and isinstance(rng.lo, int) and rng.lo == 0 and rng.unbounded():
        from .symlist import SymList
        v = f()
        if v is None or isinstance(v, (bool, int, float, SNum, str)):
            return SymList.repeat([v], rng.hi)
    return [f() for _ in rng]


class FamKey(str):
    """stands for the entries of a dictionary whose keys are a Family"""
    fam = None


class Family:
    """list with a symbolic number of entries given by their position"""
    def __init__(self, f, rng):
        self.f, self.rng = f, rng
        self.names = tuple(f('{i}'))
        self.key = FamKey('|'.join(map(str, self.names)))
        self.key.fam = self

    def zip(self, vals):
        from .series import Series, Part, teq
        if isinstance(vals, Series) and vals.ndim == 1 and len(vals.cols) == len(self.names) and isinstance(self.rng.lo, int) and self.rng.lo == 0 \
                and teq(vals.dom.n, self.rng.hi):
            return iter([(self.key, Part(vals.dom, vals.cols, 1))])
        raise Unsupported("list of arbitrary length")

    def _no(self, *a, **k): raise Unsupported("list of arbitrary length")
    __iter__ = __len__ = __getitem__ = __add__ = __radd__ = __contains__ = __eq__ = __bool__ = _no
    __hash__ = None

    def __deepcopy__(self, memo): return self


def b_listgen(f, rng):
    """[x for i in rng for x in f(i)]"""
    if isinstance(rng, SymRange) and rng.unbounded():
        return Family(f, rng)
    return [x for i in rng for x in f(i)]


class SymRange:
    def __init__(self, *a):
        if len(a) == 1:
            a = (0, a[0])
        if len(a) != 2:
            raise Unsupported("range step")
        self.lo, self.hi = a

    def unbounded(self):
        return core.ctx().query(to_z3(self.hi) - to_z3(self.lo) > 40) != z3.unsat

    def __iter__(self):
        # unroll with forking (bounded by the concretisation limit)
        i = self.lo
        n = 0
        while bool(i < self.hi):
            yield i
            i = i + 1
            n += 1
            if n > 40:
                raise Unsupported("unbounded symbolic range")

"""Lists of arbitrary (symbolic) length: segments known only by their identity and length, followed by ordinary items.

Used as the arbitrary history before the operation under verification (induction over the number of past steps).
"""
import math
import z3
from . import core
from .core import SInt, Unsupported


class Seg:
    def __init__(self, name, n, const=None, total=None):
        self.name, self.n, self.const, self.total = name, n, const, total

    def same(self, o):
        """equality of segments as a condition"""
        if self.const is not None or o.const is not None:
            if self.const is None or o.const is None or not same_const(self.const[0], o.const[0]):
                return False
            return core.mkbool(self.n == o.n)
        return self.name == o.name


def same_const(a, b):
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    return type(a) == type(b) and a == b


class SymList:
    def __init__(self, parts):
        self.parts = list(parts)

    @classmethod
    def base(cls, name, n, total=None):
        return cls([Seg(name, n.t, total=total)])

    @classmethod
    def repeat(cls, lst, n):
        if len(lst) != 1:
            raise Unsupported('list of several items repeated symbolically')
        return cls([Seg(None, z3.If(n.t >= 0, n.t, 0), (lst[0],))])

    def append(self, x): self.parts.append(x)

    def extend(self, xs):
        self.parts.extend(xs.parts if isinstance(xs, SymList) else list(xs))

    def copy(self): return SymList(self.parts)
    def __copy__(self): return self.copy()
    def __deepcopy__(self, memo): return self.copy()

    def __add__(self, o):
        r = self.copy()
        r.extend(o)
        return r

    def __radd__(self, o):
        return SymList(list(o) + self.parts)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __len__(self):
        t = z3.IntVal(0)
        for p in self.parts:
            t = t + (p.n if isinstance(p, Seg) else 1)
        return core.wrap(z3.simplify(t))

    def __getitem__(self, i):
        if isinstance(i, int) and i < 0:
            tail = self.parts[i:] if -i <= len(self.parts) else []
            if tail and not any(isinstance(p, Seg) for p in tail):
                return self.parts[i]
        raise Unsupported('indexing an arbitrary history')

    def sum(self, *a, **k):
        if a or k:
            raise Unsupported('sum of an arbitrary history along an axis')
        r = 0.0
        for p in self.parts:
            if isinstance(p, Seg):
                if p.total is None:
                    raise Unsupported('sum of an arbitrary history')
                r = r + p.total
            else:
                r = r + p
        return r

    def __iter__(self): raise Unsupported('iterating over an arbitrary history')
    def __contains__(self, x): raise Unsupported('search in an arbitrary history')
    def __bool__(self): return True if any(not isinstance(p, Seg) for p in self.parts) else bool(self.__len__() > 0)


def history(I, name, n, total=None):
    """a list of n past values"""
    if I.symbolic:
        return SymList.base(name, n, total)
    return [I.real(f'{name}.{i}') for i in range(n)]


def length(x):
    """len() that also works for symbolic lengths"""
    f = type(x).__len__
    return f(x)


def is_history(lst, base, suffix, nan_prefix=None):
    """condition: lst == base + suffix (base a history, or nan_prefix missing values)"""
    from .spec import eq, and_
    if isinstance(lst, SymList):
        exp = (base.parts if base is not None else [Seg(None, nan_prefix.t, (float('nan'),))]) + list(suffix)
        if len(exp) != len(lst.parts):
            return False
        cs = []
        for a, b in zip(lst.parts, exp):
            if isinstance(a, Seg) != isinstance(b, Seg):
                return False
            cs.append(a.same(b) if isinstance(a, Seg) else same_val(a, b))
        return and_(*cs)
    if isinstance(base, SymList):
        return False
    if nan_prefix is not None and base is None and not isinstance(nan_prefix, int):
        k = len(lst) - len(suffix)
        return k >= 0 and and_(eq(nan_prefix, k), is_history(lst, None, suffix, nan_prefix=k))
    exp = (list(base) if base is not None else [float('nan')] * nan_prefix) + list(suffix)
    lst = list(lst)
    if len(exp) != len(lst):
        return False
    return and_(*[same_val(a, b) for a, b in zip(lst, exp)]) if exp else True


def same_val(a, b):
    from .spec import eq
    from .series import Series
    if isinstance(a, Series) or isinstance(b, Series):
        return isinstance(a, Series) and isinstance(b, Series) and len(a.cols) == len(b.cols) and a.ndim == b.ndim and bool(a.shape[0] == b.shape[0]) and bool((a == b).all())
    if isinstance(a, float) and math.isnan(a):
        return isinstance(b, float) and math.isnan(b)
    if isinstance(b, float) and math.isnan(b):
        return False
    return eq(a, b)

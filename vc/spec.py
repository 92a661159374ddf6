"""Contract language: one definition, three interpretations.

A contract is a Python function over an input provider `I`.  It builds an
arbitrary state satisfying the precondition, calls the real function(s) and
states postconditions with `I.ensure`.

  SymInputs     inputs are symbolic: `ensure` is a proof obligation
  ReplayInputs  inputs come from a counter-model: run on the unmodified code
  RandomInputs  inputs are drawn at random: run-time cross-check (bounded)

Concrete comparisons are three-valued (True / False / None=within rounding),
a contract is violated only by a definite False.
"""
import math
import sys
import random
import traceback

TOL = 1e-6
EXC = ' (no exception)'
CONTRACTS = {}      # prop -> list of Contract
MODE = None         # 'sym' or 'concrete'


class Skip(BaseException):
    """concrete sample rejected by a precondition"""


class Violated(BaseException):
    def __init__(self, label, detail):
        super().__init__(label, detail)
        self.label, self.detail = label, detail


class Contract:
    def __init__(self, prop, name, fn, targets, budget, max_paths, bounded, note, weight, q_timeout, random_n, sym, covers, stubs=True, callees=(), aux=False, confirm=False):
        self.confirm = confirm
        self.stubs, self.callees, self.aux = stubs, tuple(callees), aux
        self.sym, self.covers = sym, tuple(covers)
        self.prop, self.name, self.fn, self.targets = prop, name, fn, targets
        self.budget, self.max_paths, self.bounded, self.note = budget, max_paths, bounded, note
        self.weight, self.q_timeout, self.random_n = weight, q_timeout, random_n


USE_CALLEES = [False]       # set while the callees of a contract are replaced by their own contracts


def contract(prop, name, targets=(), budget=100, max_paths=6000, bounded=None, note='', weight=1.0, q_timeout=4000,
             random_n=400, sym=True, covers=(), stubs=True, callees=(), aux=False, confirm=False):
    """aux: contract of a private helper that supports other proofs; its failure alone is no violation
    (a refactoring may change a helper's contract), the contracts relying on it are decided with bodies.
    confirm: the proof uses callee contracts or invariants a refactoring may invalidate: a refuted obligation counts once it is
    reproduced on the real code.
    bounded: None for an unbounded proof, else the text of the bound;
    'concrete' bounded contracts (symbolic=False) are only run on the real code."""
    def deco(fn):
        props = [prop] if isinstance(prop, str) else list(prop)
        for p in props:
            CONTRACTS.setdefault(p, []).append(
                Contract(p, name, fn, tuple(targets), budget, max_paths, bounded, note, weight, q_timeout, random_n,
                         sym, covers, stubs, callees, aux, confirm))
        return fn
    return deco


# ------------------------------------------------------------------ conditions
def _sym(*xs):
    if MODE != 'sym':
        return False
    from . import core
    return any(isinstance(x, (core.SNum, core.SBool)) for x in xs)


def _isint(x):
    import numpy as np
    return isinstance(x, (bool, int, np.integer, np.bool_))


def _val(x):
    import numpy as np
    if isinstance(x, np.ndarray):
        if x.size != 1:
            raise TypeError(f"scalar expected, got array of shape {x.shape}")
        x = x.reshape(-1)[0]
    return x


def _cmp3(a, b, kind):
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return (a == b) if kind == 'eq' else False
    if _isint(a) and _isint(b):
        d = int(b) - int(a)
        return {'le': d >= 0, 'lt': d > 0, 'eq': d == 0}[kind]
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return False
    if MODE == 'sym':
        return {'le': a <= b, 'lt': a < b, 'eq': a == b}[kind]
    if a == b:
        return {'le': True, 'lt': None, 'eq': True}[kind]
    if math.isinf(a) or math.isinf(b):
        return {'le': a < b, 'lt': a < b, 'eq': False}[kind]
    tol = TOL * max(1.0, abs(a), abs(b))
    d = b - a
    if abs(d) <= tol:
        return None
    return {'le': d > 0, 'lt': d > 0, 'eq': False}[kind]


def _bool_const(r):
    return r


def _symcmp(a, b, op, strong):
    from . import core
    a, b = _val(a), _val(b)
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return False
    r = op(a, b)
    if r is NotImplemented:
        return False
    if isinstance(r, core.SBool):
        try:
            at, bt = core._real(core.to_z3(a)), core._real(core.to_z3(b))
            r.sn = lambda m: strong(at, bt, core._real(core.to_z3(m)))
        except core._Inf:
            pass
    return r


def eq(a, b):
    a, b = _val(a), _val(b)
    if _sym(a, b):
        import z3
        return _symcmp(a, b, lambda x, y: x == y, lambda x, y, m: z3.Or(x - y >= m, y - x >= m))
    return _cmp3(a, b, 'eq')


def le(a, b):
    a, b = _val(a), _val(b)
    if _sym(a, b):
        return _symcmp(a, b, lambda x, y: x <= y, lambda x, y, m: x - y >= m)
    return _cmp3(a, b, 'le')


def ge(a, b): return le(b, a)


def lt(a, b):
    a, b = _val(a), _val(b)
    if _sym(a, b):
        return _symcmp(a, b, lambda x, y: x < y, lambda x, y, m: x - y >= m)
    return _cmp3(a, b, 'lt')


def gt(a, b): return lt(b, a)


def between(lo, x, hi): return and_(le(lo, x), le(x, hi))


def _z(x):
    import z3
    from . import core
    if x is None:
        raise TypeError("None condition in symbolic mode")
    return core.as_bool_term(x)


def _anysym(xs):
    if MODE != 'sym':
        return False
    from . import core
    return any(isinstance(x, core.SBool) for x in xs)


def _sn_of(x):
    import z3
    from . import core
    if isinstance(x, core.SBool) and x.sn is not None:
        return x.sn
    t = _z(x)
    return lambda m: z3.Not(t)


def and_(*xs):
    if _anysym(xs):
        import z3
        from . import core
        r = core.mkbool(z3.And(*[_z(x) for x in xs]))
        if isinstance(r, core.SBool):
            sns = [_sn_of(x) for x in xs]
            r.sn = lambda m: z3.Or(*[s(m) for s in sns])
        return r
    xs = [_b3(x) for x in xs]
    if any(x is False for x in xs):
        return False
    if any(x is None for x in xs):
        return None
    return True


def _b3(x):
    return None if x is None else bool(x)


def or_(*xs):
    if _anysym(xs):
        import z3
        from . import core
        r = core.mkbool(z3.Or(*[_z(x) for x in xs]))
        if isinstance(r, core.SBool):
            sns = [_sn_of(x) for x in xs]
            r.sn = lambda m: z3.And(*[s(m) for s in sns])
        return r
    xs = [_b3(x) for x in xs]
    if any(x is True for x in xs):
        return True
    if any(x is None for x in xs):
        return None
    return False


def not_(x):
    if _anysym([x]):
        import z3
        from . import core
        return core.mkbool(z3.Not(x.t))
    x = _b3(x)
    return None if x is None else (not x)


def implies(p, q):
    if _anysym([p, q]):
        import z3
        from . import core
        r = core.mkbool(z3.Implies(_z(p), _z(q)))
        if isinstance(r, core.SBool):
            pt, s = _z(p), _sn_of(q)
            r.sn = lambda m: z3.And(pt, s(m))
        return r
    p, q = _b3(p), _b3(q)
    if p is True:
        return q
    if p is False:
        return True
    return True if q is True else None


def iff(p, q): return and_(implies(p, q), implies(q, p))


def ite(c, a, b):
    if _anysym([c]):
        import z3
        from . import core
        at, bt = core.to_z3(a), core.to_z3(b)
        if not (at.is_int() and bt.is_int()):
            at, bt = core._real(at), core._real(bt)
        return core.wrap(z3.If(c.t, at, bt))
    if c is None:
        raise Skip()
    return a if c else b


def smin(a, b):
    if _sym(a, b):
        return ite(le(a, b), a, b) if not _infs(a, b) else (b if _inf(a) else a)
    return min(a, b)


def smax(a, b):
    if _sym(a, b):
        return ite(ge(a, b), a, b)
    return max(a, b)


def _inf(x): return isinstance(x, float) and math.isinf(x)
def _infs(*xs): return any(_inf(x) for x in xs)


def seq(xs, ys):
    """element-wise equality of two flat sequences"""
    xs, ys = list(xs), list(ys)
    if len(xs) != len(ys):
        return False
    return and_(*[eq(x, y) for x, y in zip(xs, ys)]) if xs else True


# ------------------------------------------------------------------ outcomes
class Outcome:
    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    @property
    def ok(self): return self.exc is None

    def raised(self, *types):
        return self.exc is not None and isinstance(self.exc, types)


class Inputs:
    symbolic = False

    def call(self, fn, *a, **k):
        try:
            return Outcome(fn(*a, **k))
        except Exception as e:       # engine exceptions are BaseException
            if self.symbolic and 'prefix mismatch' in str(e):
                raise
            return Outcome(exc=e)

    def must(self, label, fn, *a, **k):
        """call that has to return normally"""
        o = self.call(fn, *a, **k)
        self.ensure_exc(label, o)
        return o.value

    def ensure_exc(self, label, o):
        if o.exc is not None:
            tb = traceback.extract_tb(o.exc.__traceback__)
            where = '; '.join(f"{f.filename.split('/')[-1]}:{f.lineno}" for f in tb[-3:])
            self.detail(f"raised {type(o.exc).__name__}: {str(o.exc)[:200]} at {where}")
            self.ensure(label, False, exc=True)
            raise (Skip() if not self.symbolic else self._end())

    def detail(self, s):
        self._detail = s

    def reals(self, prefix, n, **k):
        return [self.real(f"{prefix}{i}", **k) for i in range(n)]


class SymInputs(Inputs):
    symbolic = True

    def __init__(self, c):
        self.c = c
        self._detail = ''

    def _end(self):
        from . import core
        return core.PathEnd()

    def _reg(self, name, t):
        from . import core
        self.c.inputs[name] = lambda c, m: core.z3_to_py(m.eval(t, model_completion=True))

    def _bounds(self, v, lo, hi, lo_open, hi_open):
        from . import core
        for b, o, s in ((lo, lo_open, 1), (hi, hi_open, -1)):
            if b is not None and not _inf(b):
                bt = core._real(core.to_z3(b))
                vt = core._real(v.t)
                d = (vt - bt) if s == 1 else (bt - vt)
                self.c.assume(d > 0 if o else d >= 0)

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, **k):
        import z3
        from . import core
        v = core.SReal(z3.Real(name))
        self._reg(name, v.t)
        self._bounds(v, lo, hi, lo_open, hi_open)
        return v

    def int(self, name, lo=None, hi=None, **k):
        import z3
        from . import core
        v = core.SInt(z3.Int(name))
        self._reg(name, v.t)
        self._bounds(v, lo, hi, False, False)
        return v

    def bool(self, name):
        return self.choice(name, [False, True])

    def choice(self, name, options):
        options = list(options)
        i = self.c.choose(len(options), 'choice_' + name)
        self.c.inputs[name] = lambda c, m: i
        return options[i]

    def series(self, name, ncols=1, min_rows=1, max_rows=None, nonneg=False, nonpos=False, binary_cols=(), flat=False, **k):
        import z3
        from . import core
        from .series import Series, Dom
        n = z3.Int(name + '.n')
        self.c.assume(n >= min_rows)
        dom = Dom(n)
        fs = [z3.Function(f"{name}.{j}", z3.IntSort(), z3.RealSort()) for j in range(ncols)]

        def facts(i):
            out = []
            for j, f in enumerate(fs):
                if j in binary_cols:
                    out.append(z3.Or(f(i) == 0, f(i) == 1))
                elif nonneg:
                    out.append(f(i) >= 0)
                elif nonpos:
                    out.append(f(i) <= 0)
            return z3.And(*out) if out else z3.BoolVal(True)
        self.c.forall(dom, facts)

        def mk(f):
            def col(i):
                self.c.touch(dom, i)
                return f(i)
            return col
        s = Series(dom, [mk(f) for f in fs], 1 if flat else 2)
        s.base = True

        def conc(c, m):
            N = core.z3_to_py(m.eval(n, model_completion=True))
            rows = {}
            for it in c.indices.get(dom.id, []):
                iv = core.z3_to_py(m.eval(it, model_completion=True))
                if iv is not None and 0 <= iv < N:
                    rows[str(iv)] = [core.z3_to_py(m.eval(f(iv), model_completion=True)) for f in fs]
            return {'n': N, 'rows': rows, 'k': ncols}
        self.c.inputs[name] = conc
        return s

    def row_index(self, name, s, lo=0):
        """an arbitrary valid row index of a series"""
        i = self.int(name, lo=lo)
        self.c.assume(i.t < s.dom.n)
        self.c.touch(s.dom, i.t)
        return i

    def assume(self, cond):
        self.c.assume(cond, check=False)

    def is_(self, cond):
        return bool(cond)

    def ensure(self, label, cond, exc=False):
        if cond is None:
            return
        if exc:
            label += EXC
        self.c.prove(label, cond)

    def cover(self, label):
        if label not in self.c.ex.covers:
            r = str(self.c.query())
            if r == 'sat':
                self.c.ex.covers[label] = 'sat'
        # unsat/unknown covers are reported as missing

    def rng(self, name): return None


class ConcreteInputs(Inputs):
    def __init__(self):
        self.values = {}
        self._detail = ''
        self.ensured = 0
        self.cov = set()

    def _end(self): return Skip()

    def assume(self, cond):
        if cond is not True and not (cond is not None and bool(cond)):
            raise Skip()

    def is_(self, cond):
        if cond is None:
            raise Skip()
        return bool(cond)

    def ensure(self, label, cond, exc=False):
        if exc:
            label += EXC
        self.ensured += 1
        c = _b3(cond)
        if c is False:
            raise Violated(label, self._detail)

    def cover(self, label):
        self.cov.add(label)

    def row_index(self, name, s, lo=0):
        n = len(s)
        return self.int(name, lo=lo, hi=n - 1)

    def bool(self, name):
        return self.choice(name, [False, True])


class ReplayInputs(ConcreteInputs):
    def __init__(self, values):
        super().__init__()
        self.src = values

    def _get(self, name):
        if name not in self.src or self.src[name] is None:
            raise Skip()
        v = self.src[name]
        self.values[name] = v
        return v

    def _chk(self, v, lo, hi, lo_open, hi_open):
        if lo is not None and (v < lo or (lo_open and v <= lo)):
            raise Skip()
        if hi is not None and (v > hi or (hi_open and v >= hi)):
            raise Skip()
        return v

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, **k):
        return self._chk(float(self._get(name)), lo, hi, lo_open, hi_open)

    def int(self, name, lo=None, hi=None, **k):
        return self._chk(int(self._get(name)), lo, hi, False, False)

    def choice(self, name, options):
        return list(options)[self._get(name)]

    def series(self, name, ncols=1, min_rows=1, max_rows=None, nonneg=False, nonpos=False, binary_cols=(), flat=False, **k):
        import numpy as np
        d = self._get(name)
        if isinstance(d, list):
            a = np.array(d, dtype=float)
            return a.reshape(-1) if flat else a.reshape(-1, ncols)
        n = d['n']
        if n > 4000:
            raise Skip()
        rows = {int(i): r for i, r in d['rows'].items()}
        fill = next(iter(rows.values())) if rows else [0.0] * ncols
        a = np.array([rows.get(i, fill) for i in range(n)], dtype=float).reshape(n, ncols)
        return a.reshape(-1) if flat else a


class RandomInputs(ConcreteInputs):
    """Contract-directed random inputs: bounds, zeros, small integers, repeats of earlier values are over-weighted."""

    def __init__(self, rnd, strat=None):
        super().__init__()
        self.r = rnd
        self.pool = [0.0, 1.0]
        self.strat = strat if strat is not None else rnd.random()

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, scale=None, **k):
        r = self.r
        for _ in range(200):
            p = r.random()
            if p < 0.12 and lo is not None and not lo_open:
                v = float(lo)
            elif p < 0.24 and hi is not None and not hi_open:
                v = float(hi)
            elif p < 0.36:
                v = float(r.choice(self.pool))
            elif p < 0.42:
                v = -float(r.choice(self.pool))
            elif p < 0.50:
                v = float(r.choice(self.pool) + r.choice(self.pool) * r.choice([1, -1]))
            elif lo is not None and hi is not None and not math.isinf(lo) and not math.isinf(hi):
                v = r.uniform(lo, hi)
                if r.random() < 0.3:
                    v = round(v, 1)
            else:
                s = scale or r.choice([1.0, 10.0, 100.0])
                v = r.uniform(-s, s)
                if r.random() < 0.4:
                    v = float(round(v))
                if lo is not None:
                    v = lo + abs(v)
                elif hi is not None:
                    v = hi - abs(v)
            if lo is not None and (v < lo or (lo_open and v <= lo)):
                continue
            if hi is not None and (v > hi or (hi_open and v >= hi)):
                continue
            self.values[name] = v
            self.pool.append(v)
            return v
        raise Skip()

    def int(self, name, lo=None, hi=None, rmax=None, **k):
        lo_ = -3 if lo is None else int(lo)
        hi_ = (lo_ + (rmax or 6)) if hi is None else int(hi)
        if hi_ < lo_:
            raise Skip()
        if hi is not None and hi_ - lo_ > 12 and self.r.random() < 0.5:
            hi_ = lo_ + 6
        p = self.r.random()
        v = lo_ if p < 0.15 else hi_ if p < 0.3 else self.r.randint(lo_, hi_)
        self.values[name] = v
        return v

    def choice(self, name, options):
        options = list(options)
        i = self.r.randrange(len(options))
        self.values[name] = i
        return options[i]

    def series(self, name, ncols=1, min_rows=1, max_rows=None, nonneg=False, nonpos=False, binary_cols=(), flat=False, **k):
        import numpy as np
        r = self.r
        n = r.randint(min_rows, max(min_rows, max_rows or min_rows + 7))
        rows = []
        style = r.random()
        for i in range(n):
            row = []
            for j in range(ncols):
                if j in binary_cols:
                    row.append(float(r.random() < 0.6))
                    continue
                v = float(r.choice(self.pool)) if r.random() < 0.2 else r.uniform(-60, 60)
                if r.random() < 0.1:
                    v = 0.0
                if style < 0.3:
                    v = float(round(v))
                if style > 0.95 and rows:
                    v = rows[0][j]
                if nonneg:
                    v = abs(v)
                elif nonpos:
                    v = -abs(v)
                row.append(v)
            rows.append(row)
        self.values[name] = rows
        a = np.array(rows, dtype=float).reshape(n, ncols)
        self.pool.extend(float(x) for x in a[0])
        return a.reshape(-1) if flat else a

"""Symbolic-execution core of the verifier.

The real repository code is executed by CPython on proxy values that carry z3
terms.  Every control-flow decision taken on a proxy is turned into a branch of
the path tree; the tree is enumerated exhaustively (re-execution with a
decision prefix), infeasible branches are pruned by the solver, and every
`prove` call on every path is one proof obligation (path condition => claim).

Floats are treated as mathematical reals, Python ints as mathematical
integers (stated as an assumption in every evidence file).
"""
import time
from fractions import Fraction
import z3


class Unsupported(BaseException):
    """The engine cannot represent an operation: the contract is undecided."""


class PathEnd(BaseException):
    """Current path is finished (infeasible, assumption contradicted or cut)."""


class Budget(BaseException):
    """Time or path budget exhausted: undecided."""


CTX = None
HASHABLE = [False]


def ctx():
    if CTX is None:
        raise Unsupported("symbolic operation outside of an exploration")
    return CTX


# --------------------------------------------------------------------- terms
def to_z3(v):
    """z3 arithmetic term of a python / proxy value."""
    if isinstance(v, SNum):
        return v.t
    if isinstance(v, SBool):
        return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    import numpy as np
    if isinstance(v, (np.bool_,)):
        return z3.IntVal(int(v))
    if isinstance(v, np.integer):
        return z3.IntVal(int(v))
    if isinstance(v, (float, np.floating)):
        f = float(v)
        if f != f:
            raise Unsupported("NaN in a symbolic operation")
        if f in (float('inf'), float('-inf')):
            raise _Inf(f)
        fr = Fraction(repr(f))  # decimal literal semantics: 0.1 is 1/10
        return z3.RealVal(f"{fr.numerator}/{fr.denominator}")
    if isinstance(v, Fraction):
        return z3.RealVal(f"{v.numerator}/{v.denominator}")
    if isinstance(v, np.ndarray) and v.ndim == 0:
        return to_z3(v.item())
    raise TypeError(f"not numeric: {type(v)}")


class _Inf(Exception):
    def __init__(self, v):
        self.v = v


def is_sym(v):
    return isinstance(v, (SNum, SBool))


def _num(v):
    import numpy as np
    return isinstance(v, (SNum, SBool, bool, int, float, np.bool_, np.integer, np.floating, Fraction)) or \
        (isinstance(v, np.ndarray) and v.ndim == 0)


def _real(t):
    return z3.ToReal(t) if t.is_int() else t


def _const(t):
    """python Fraction/int for a constant term else None"""
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    return None


class SBool:
    __slots__ = ('t', 'sn')
    __array_priority__ = 1000

    def __init__(self, t, sn=None):
        self.t = t
        self.sn = sn    # list of functions margin -> strong negation (for readable counterexamples)

    def __bool__(self):
        return ctx().decide(self.t)

    def _co(self, o):
        if isinstance(o, SBool):
            return o.t
        import numpy as np
        if isinstance(o, (bool, np.bool_)):
            return z3.BoolVal(bool(o))
        return None

    def __and__(self, o):
        c = self._co(o)
        return NotImplemented if c is None else mkbool(z3.And(self.t, c))
    __rand__ = __and__

    def __or__(self, o):
        c = self._co(o)
        return NotImplemented if c is None else mkbool(z3.Or(self.t, c))
    __ror__ = __or__

    def __xor__(self, o):
        c = self._co(o)
        return NotImplemented if c is None else mkbool(z3.Xor(self.t, c))
    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.t))

    def __eq__(self, o):
        c = self._co(o)
        if c is not None:
            return mkbool(self.t == c)
        if _num(o):
            return SInt(to_z3(self)) == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else (not r if isinstance(r, bool) else ~r)

    def _n(self):
        return SInt(to_z3(self))
    def __add__(self, o): return self._n() + o
    __radd__ = __add__
    def __sub__(self, o): return self._n() - o
    def __rsub__(self, o): return o - self._n()
    def __mul__(self, o): return self._n() * o
    __rmul__ = __mul__
    def __lt__(self, o): return self._n() < o
    def __le__(self, o): return self._n() <= o
    def __gt__(self, o): return self._n() > o
    def __ge__(self, o): return self._n() >= o
    def __neg__(self): return -self._n()

    def __hash__(self):
        raise Unsupported("hash of a symbolic bool")

    def __deepcopy__(self, m):
        return self

    def __copy__(self):
        return self

    def any(self): return self
    def all(self): return self
    def item(self): return self

    def __repr__(self):
        return "<symbool>"


def mkbool(t, sn=None):
    t = z3.simplify(t) if not z3.is_const(t) else t
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t, sn)


def wrap(t):
    t = z3.simplify(t)
    c = _const(t)
    if c is not None:
        if t.is_int():
            return int(c)
        return exact(c)
    return SInt(t) if t.is_int() else SReal(t)


def exact(fr):
    """concrete value for an exact rational: float if exactly representable in decimal, else keep a symbolic constant"""
    fr = Fraction(fr)
    f = float(fr)
    if Fraction(repr(f)) == fr:
        return f
    return SReal(z3.RealVal(f"{fr.numerator}/{fr.denominator}"))


def _inf_sign(e):
    return 1 if e.v > 0 else -1


class SNum:
    __slots__ = ('t',)
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t

    # numpy scalar / array interop -------------------------------------
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import npshim
        return npshim.scalar_ufunc(ufunc, method, *inputs, **kw)

    # arithmetic -----------------------------------------------------------
    def _bin(self, o, op, infop):
        if not _num(o):
            return NotImplemented
        try:
            ot = to_z3(o)
        except _Inf as e:
            return infop(e.v)
        return wrap(op(self.t, ot))

    def __add__(self, o): return self._bin(o, lambda a, b: _mix(a, b, lambda x, y: x + y), lambda s: s)
    def __radd__(self, o): return self._bin(o, lambda a, b: _mix(b, a, lambda x, y: x + y), lambda s: s)
    def __sub__(self, o): return self._bin(o, lambda a, b: _mix(a, b, lambda x, y: x - y), lambda s: -s)
    def __rsub__(self, o): return self._bin(o, lambda a, b: _mix(b, a, lambda x, y: x - y), lambda s: s)

    def _infmul(self, s):
        if self > 0:
            return s
        if self < 0:
            return -s
        return float('nan')

    def __mul__(self, o): return self._bin(o, lambda a, b: _mix(a, b, lambda x, y: x * y), self._infmul)
    def __rmul__(self, o): return self._bin(o, lambda a, b: _mix(b, a, lambda x, y: x * y), self._infmul)

    def __truediv__(self, o):
        if not _num(o):
            return NotImplemented
        return div(self, o)

    def __rtruediv__(self, o):
        if not _num(o):
            return NotImplemented
        return div(o, self)

    def __floordiv__(self, o):
        if not _num(o):
            return NotImplemented
        return floordiv(self, o)

    def __rfloordiv__(self, o):
        if not _num(o):
            return NotImplemented
        return floordiv(o, self)

    def __mod__(self, o):
        if not _num(o):
            return NotImplemented
        return self - floordiv(self, o) * o

    def __rmod__(self, o):
        if not _num(o):
            return NotImplemented
        return o - floordiv(o, self) * self

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 6:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        raise Unsupported("power")

    def __neg__(self): return wrap(-self.t)
    def __pos__(self): return self

    def __abs__(self):
        # decided by a branch: keeps terms If-free
        return self if (self >= 0) else -self

    # comparisons -------------------------------------------------------
    def _cmp(self, o, op, infres):
        if not _num(o):
            return NotImplemented
        import numpy as np
        if isinstance(o, (float, np.floating)) and o != o:
            return False
        try:
            ot = to_z3(o)
        except _Inf as e:
            return infres(e.v > 0)
        return mkbool(_mix(self.t, ot, op))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b, lambda pos: pos)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b, lambda pos: pos)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b, lambda pos: not pos)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b, lambda pos: not pos)
    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b, lambda pos: False)

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a == b, lambda pos: False)
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) else mkbool(z3.Not(r.t))

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        # a constant hash makes dicts fall back on (forking) equality; sound only while no concrete number is
        # a key in the same dict, so a contract has to ask for it
        if HASHABLE[0]:
            return 0
        raise Unsupported("hash of a symbolic number")

    def __float__(self):
        raise Unsupported("float() of a symbolic number")

    def __int__(self):
        raise Unsupported("int() of a symbolic number")

    def __round__(self, n=None):
        if isinstance(self, SInt):
            return self
        if n is None:
            if self <= Fraction(1, 2) and self >= Fraction(-1, 2):
                return 0
            if self > Fraction(1, 2) and self < Fraction(3, 2):
                return 1
            h = self.t + z3.RealVal('1/2')
            f = z3.ToInt(h)
            return wrap(z3.If(z3.And(z3.ToReal(f) == h, f % 2 == 1), f - 1, f))
        c = ctx()
        r = c.fresh_real('round')
        h = Fraction(1, 2) / Fraction(10) ** (n or 0)
        c.assume(z3.And(r.t - self.t <= to_z3(h), self.t - r.t <= to_z3(h)))
        return r

    def __deepcopy__(self, m): return self
    def __copy__(self): return self
    def __format__(self, spec): return "<sym>"
    def __str__(self): return "<sym>"
    def __repr__(self): return f"<sym {z3.simplify(self.t)}>"[:200]

    # numpy-scalar like API ---------------------------------------------
    @property
    def dtype(self):
        import numpy as np
        return np.dtype('float64') if isinstance(self, SReal) else np.dtype('int64')

    @property
    def shape(self): return ()
    @property
    def ndim(self): return 0
    @property
    def size(self): return 1
    def item(self): return self
    def astype(self, *_a, **_k): return self
    def copy(self): return self
    def squeeze(self): return self
    def sum(self, *a, **k): return self
    def min(self, *a, **k): return self
    def max(self, *a, **k): return self
    def mean(self, *a, **k): return self
    def any(self): return self != 0
    def all(self): return self != 0
    def round(self, n=0): return self.__round__(n)
    def tolist(self): return self

    def reshape(self, *shape, **k):
        from . import npshim
        return npshim.array([self]).reshape(*shape)

    def __array__(self, dtype=None, copy=None):
        import numpy as np
        a = np.empty((), dtype=object)
        a[()] = self
        return a

    @property
    def real(self): return self

    def is_integer(self):
        return mkbool(z3.IsInt(_real(self.t)))


class SReal(SNum):
    __slots__ = ()


class SInt(SNum):
    __slots__ = ()

    def __mul__(self, o):
        if isinstance(o, list):
            from .symlist import SymList
            return SymList.repeat(o, self)
        return SNum.__mul__(self, o)

    def __rmul__(self, o):
        if isinstance(o, list):
            from .symlist import SymList
            return SymList.repeat(o, self)
        return SNum.__rmul__(self, o)

    def __index__(self):
        # concretise: fork over the feasible values
        return ctx().concretise_int(self.t)


def _mix(a, b, op):
    if a.is_int() and b.is_int():
        return op(a, b)
    return op(_real(a), _real(b))


def div(a, b):
    """true division with Python semantics for a zero divisor (ZeroDivisionError)."""
    try:
        bt = to_z3(b)
    except _Inf:
        return 0.0
    if bool(mkbool(bt == 0)):
        raise ZeroDivisionError("division by zero")
    try:
        at = to_z3(a)
    except _Inf as e:
        return e.v if (mkbool(bt > 0) if True else 0) else -e.v
    bc = _const(bt)
    if bc is not None:
        f = Fraction(1) / Fraction(bc)
        return wrap(_real(at) * to_z3(f))
    return wrap(_real(at) / _real(bt))


def floordiv(a, b):
    at, bt = to_z3(a), to_z3(b)
    if bool(mkbool(bt == 0)):
        raise ZeroDivisionError("integer division or modulo by zero")
    if at.is_int() and bt.is_int():
        c = _const(bt)
        if c is not None and c > 0:
            return wrap(at / bt)
    q = _real(at) / _real(bt)
    r = z3.ToInt(q)
    return wrap(r) if (at.is_int() and bt.is_int()) else wrap(z3.ToReal(r))


# --------------------------------------------------------------- conditions
def as_bool_term(c):
    import numpy as np
    if isinstance(c, SBool):
        return c.t
    if isinstance(c, (bool, np.bool_)):
        return z3.BoolVal(bool(c))
    if isinstance(c, SNum):
        return c.t != 0
    if isinstance(c, z3.BoolRef):
        return c
    raise TypeError(f"not a condition: {type(c)} {c!r}")


# ------------------------------------------------------------------ exploration
class PathCtx:
    def __init__(self, ex, prefix):
        self.ex = ex
        self.prefix = prefix
        self.decisions = []
        self.names = {}
        self.inputs = {}       # name -> description used to concretise a model
        self.nfresh = 0
        self.solver = z3.Solver()
        self.solver.set('timeout', ex.q_timeout)
        self.undecided_branch = False
        self.universals = {}   # domain id -> list of fn(index term) -> formula
        self.indices = {}      # domain id -> list of index terms
        self.mut_views = []
        self.notes = []
        self.pc = []

    # --- fresh
    def _fresh(self, base):
        self.nfresh += 1
        return f"{base}!{self.nfresh}"

    def fresh_real(self, base='r'):
        return SReal(z3.Real(self._fresh(base)))

    def fresh_int(self, base='i'):
        return SInt(z3.Int(self._fresh(base)))

    def fresh_bool(self, base='b'):
        return SBool(z3.Bool(self._fresh(base)))

    # --- path condition
    def add(self, t):
        self.pc.append(t)
        self.solver.add(t)

    def assume(self, c, check=False):
        t = as_bool_term(c)
        t = z3.simplify(t)
        if z3.is_true(t):
            return
        if z3.is_false(t):
            raise PathEnd()
        self.add(t)
        if check and len(self.decisions) >= len(self.prefix):
            r = self.query()
            if r == z3.unsat:
                raise PathEnd()

    def replaying(self):
        """re-running an already decided prefix"""
        return len(self.decisions) < len(self.prefix)

    def query(self, *extra):
        self.ex.tick()
        t0 = time.time()
        r = self.solver.check(*extra)
        if r == z3.unknown:
            r = self._fallback(extra)
        dt = time.time() - t0
        self.ex.solver_time += dt
        self.ex.queries += 1
        return r

    def _fallback(self, extra):
        # second opinion on a fresh non-incremental solver (nlsat capable), different seed
        for cfg in ('QF_NRA', None):
            try:
                s = z3.SolverFor(cfg) if cfg else z3.Solver()
                s.set('timeout', self.ex.q_timeout * 2)
                if not cfg:
                    s.set('random_seed', 7)
                s.add(*self.pc)
                s.add(*extra)
                r = s.check()
                if r != z3.unknown:
                    self._fb = s
                    return r
            except z3.Z3Exception:
                pass
        return z3.unknown

    def model_for(self, extra):
        r = self.solver.check(extra)
        if r == z3.sat:
            return self.solver.model()
        if r == z3.unknown:
            self._fb = None
            if self._fallback((extra,)) == z3.sat:
                return self._fb.model()
        return None

    def decide(self, t):
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        k = len(self.decisions)
        if k < len(self.prefix):
            d = self.prefix[k]
            self.decisions.append(d)
            self.add(t if d else z3.Not(t))
            return d
        nt = z3.Not(t)
        rt = self.query(t)
        if rt == z3.unsat:
            # other side is the only one: not a decision, but record to keep prefix replay cheap
            rf = z3.sat
        else:
            rf = self.query(nt)
        if rt == z3.unknown or rf == z3.unknown:
            self.undecided_branch = True
        can_t, can_f = rt != z3.unsat, rf != z3.unsat
        if can_t and can_f:
            self.ex.push(self.decisions + [False], self.undecided_branch)
            d = True
        elif can_t:
            d = True
        elif can_f:
            d = False
        else:
            raise PathEnd()
        self.decisions.append(d)
        self.add(t if d else nt)
        return d

    def choose(self, n, label='choice'):
        """non-deterministic choice of an index below n (every alternative is explored)"""
        for i in range(n - 1):
            b = z3.Bool(self._fresh(label))
            if self.decide(b):
                return i
        return n - 1

    def concretise_int(self, t):
        c = _const(z3.simplify(t))
        if c is not None:
            return c
        for _ in range(self.ex.max_concretise):
            k = len(self.decisions)
            if k < len(self.prefix):
                # value recorded in the prefix as an int decision
                d = self.prefix[k]
                self.decisions.append(d)
                if isinstance(d, tuple):
                    v, yes = d
                    self.add(t == v if yes else t != v)
                    if yes:
                        return v
                    continue
                raise Unsupported("prefix mismatch")
            if self.query() != z3.sat:
                raise PathEnd()
            v = self.solver.model().eval(t, model_completion=True).as_long()
            # prefer small magnitude values for readability
            self.decisions.append((v, True))
            if self.query(t != v) != z3.unsat:
                self.ex.push(self.decisions[:-1] + [(v, False)], self.undecided_branch)
            self.add(t == v)
            return v
        raise Unsupported("unbounded concretisation of a symbolic integer")

    # --- universally quantified facts over a series index domain
    def touch(self, dom, idx):
        lst = self.indices.setdefault(dom.id, [])
        idx = z3.simplify(idx)
        for j in lst:
            if j.eq(idx):
                return
        lst.append(idx)
        for u in self.universals.get(dom.id, []):
            self._inst(dom, u, idx)

    def _inst(self, dom, u, idx):
        f = z3.simplify(z3.Implies(z3.And(idx >= 0, idx < dom.n), u(idx)))
        if not z3.is_true(f):
            self.add(f)

    def forall(self, dom, u):
        self.universals.setdefault(dom.id, []).append(u)
        for idx in list(self.indices.get(dom.id, [])):
            self._inst(dom, u, idx)

    # --- obligations
    def prove(self, label, cond):
        t = as_bool_term(cond)
        sn = cond.sn if isinstance(cond, SBool) else None
        self.ex.obligation(self, label, t, sn)


class Obligation:
    __slots__ = ('label', 'status', 'count', 'models', 'reason')

    def __init__(self, label):
        self.label = label
        self.status = 'proved'
        self.count = 0
        self.models = []
        self.reason = ''


class Explorer:
    def __init__(self, harness, *, budget_s=120.0, max_paths=4000, q_timeout=4000, name='', max_concretise=64,
                 want_models=6):
        self.harness = harness
        self.name = name
        self.deadline = time.time() + budget_s
        self.max_paths = max_paths
        self.q_timeout = q_timeout
        self.max_concretise = max_concretise
        self.stack = [([], False)]
        self.obls = {}
        self.paths = 0
        self.complete_paths = 0
        self.solver_time = 0.0
        self.queries = 0
        self.n_checks = 0
        self.covers = {}
        self.undecided = []      # reasons
        self.want_models = want_models
        self.assumptions = set()

    def tick(self):
        if time.time() > self.deadline:
            raise Budget("time budget exhausted")

    def push(self, prefix, und):
        self.stack.append((prefix, und))

    def obligation(self, c, label, t, sn):
        o = self.obls.setdefault(label, Obligation(label))
        o.count += 1
        self.n_checks += 1
        t = z3.simplify(t)
        if z3.is_true(t):
            return
        nt = z3.Not(t)
        r = c.query(nt)
        if r == z3.unsat:
            return
        if r == z3.unknown:
            if o.status == 'proved':
                o.status = 'unknown'
                o.reason = 'solver returned unknown'
            return
        # refuted on this path (the path may be infeasible if a branch was undecided)
        if c.undecided_branch and c.query() == z3.unsat:
            return
        o.status = 'refuted'
        if len(o.models) < self.want_models:
            for g in self._goals(nt, sn):
                m = None
                try:
                    m = c.model_for(g)
                except Budget:
                    raise
                if m is not None:
                    o.models.append(extract(c, m))
                    if len(o.models) >= self.want_models:
                        break

    @staticmethod
    def _goals(nt, sn):
        out = []
        if sn is not None:
            for mar in (1, Fraction(1, 10)):
                out.append(sn(mar))
        out.append(nt)
        return out

    def run(self):
        global CTX
        while self.stack:
            prefix, und = self.stack.pop()
            if self.paths >= self.max_paths:
                self.undecided.append(f"path budget {self.max_paths} exhausted")
                break
            self.paths += 1
            c = PathCtx(self, prefix)
            c.undecided_branch = und
            prev, CTX = CTX, c
            try:
                self.harness(c)
                self.complete_paths += 1
            except PathEnd:
                pass
            except Unsupported as e:
                self.undecided.append(f"unsupported: {e}")
                if len(self.undecided) > 3:
                    break
            except Budget as e:
                self.undecided.append(str(e))
                break
            finally:
                CTX = prev
        return self


def z3_to_py(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    return None


def extract(c, m):
    out = {}
    for name, d in c.inputs.items():
        out[name] = d(c, m)
    return out

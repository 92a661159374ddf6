"""Loops over arbitrarily many elements, decided by invariants.

A SymSeq is a sequence whose parts are single elements or runs of arbitrarily many (also zero) arbitrary elements.  The
loader rewrites every `for` statement so that a loop over a SymSeq is cut at its head (nothing changes for other iterables):

  entry     the invariant is checked in the state before the first element of a run
  havoc     the numbers the loop changes (local variables and ghost totals) become arbitrary, the invariant is assumed
  body      the real loop body runs on one arbitrary element; the invariant is checked afterwards, the path ends
  exit      the loop goes on after the run in the havocked state

Everything else the body can reach must be unchanged (frame); a body that changes other state is not decided here.
The invariant is the conjunction of the candidates that survive (Houdini): equalities between the change of a variable and
the change of the ghost totals, and signs.  Candidates refer to values, not to variable names.
"""
import itertools
import types
import z3
from . import core
from .core import SBool, SInt, SReal, SNum, Unsupported, PathEnd

DROPPED = set()         # candidates that do not hold, over all runs of one contract
STATE = {'changed': False, 'used': {}}


def reset():
    DROPPED.clear()
    STATE['changed'] = False
    STATE['used'] = {}


class Ghost:
    """ghost totals of the path"""
    def __init__(self, free=(), **kw):
        self.v = dict(kw)
        self.free = set(free)       # no invariant is looked for
        core.ctx().ghost = self

    def __getitem__(self, k): return self.v[k]
    def __setitem__(self, k, x): self.v[k] = x


class Arb:
    """arbitrarily many elements, each like make()"""
    def __init__(self, label, make, leave=None, havoc=None):
        self.label, self.make, self.leave = label, make, leave
        self.havoc = havoc      # puts the objects the loop changes into an arbitrary state satisfying the invariant; leave() checks it


class SymSeq:
    def __init__(self, label, parts):
        self.label, self.parts = label, list(parts)

    def __iter__(self): raise Unsupported('iterating over arbitrarily many elements outside of a for statement')
    def __len__(self): raise Unsupported('length of an arbitrary sequence')
    def __bool__(self): raise Unsupported('truth of an arbitrary sequence')
    def __getitem__(self, i): raise Unsupported('indexing an arbitrary sequence')
    def to_list(self): return self
    def __deepcopy__(self, memo): raise Unsupported('copy of an arbitrary sequence')

    def map(self, f, label=None):
        def mk(p):
            if isinstance(p, Arb):
                return Arb(p.label, lambda p=p: f(p.make()), p.leave and (lambda x, p=p: p.leave(x)))
            return f(p)
        return SymSeq(label or self.label, [mk(p) for p in self.parts])


def zip_(*xs, strict=False):
    from . import npshim
    from .series import Series
    if len(xs) == 2 and isinstance(xs[0], npshim.Family):
        return xs[0].zip(xs[1])
    if len(xs) == 2 and isinstance(xs[1], Series) and xs[1].ndim == 1 and isinstance(xs[0], (list, tuple, type({}.keys()))) and any(isinstance(k, npshim.FamKey) for k in xs[0]):
        return npshim.zip_keys(xs[0], xs[1])
    if not any(isinstance(x, SymSeq) for x in xs):
        return zip(*xs, strict=strict)
    if not all(isinstance(x, SymSeq) and len(x.parts) == len(xs[0].parts) for x in xs):
        raise Unsupported('zip of sequences of different structure')
    parts = []
    for ps in zip(*[x.parts for x in xs]):
        if any(isinstance(p, Arb) for p in ps) != all(isinstance(p, Arb) for p in ps):
            raise Unsupported('zip of sequences of different structure')
        if isinstance(ps[0], Arb):
            if len({p.label for p in ps}) != 1:
                raise Unsupported('zip of sequences of different lengths')
            leaves = [p.leave for p in ps]
            parts.append(Arb(ps[0].label, lambda ps=ps: tuple(p.make() for p in ps),
                             lambda x, leaves=leaves: [l(y) for l, y in zip(leaves, x) if l is not None]))
        else:
            parts.append(tuple(ps))
    return SymSeq(xs[0].label, parts)


def enumerate_(xs, start=0):
    if not isinstance(xs, SymSeq):
        return enumerate(xs, start)
    raise Unsupported('enumerating an arbitrary sequence')


def for_(it, key, carried, targets):
    """head of every for statement"""
    if isinstance(it, SymSeq):
        return Loop(it, key, carried, targets)
    return it


def is_loop(it): return type(it) is Loop


def _kind(v):
    import numpy as np
    if isinstance(v, (bool, np.bool_, SBool)):
        return 'b'
    if isinstance(v, (int, np.integer, SInt)):
        return 'i'
    if isinstance(v, (float, np.floating, SReal)):
        return 'r'
    return None


def _snap(v, depth=2):
    """what a body could have changed"""
    if isinstance(v, (list, set, tuple)):
        return (type(v), [id(x) for x in v], [_snap(x, depth - 1) for x in v] if depth else None)
    if isinstance(v, dict):
        return ('d', [(k if isinstance(k, str) else id(k), id(x)) for k, x in v.items()], [_snap(x, depth - 1) for x in v.values()] if depth else None)
    if hasattr(type(v), '_vc_ghost_') or isinstance(v, (SNum, SBool, type, SymSeq, Loop)) or callable(type(v).__dict__.get('__call__')) or isinstance(v, types.FunctionType):
        return None
    d = getattr(v, '__dict__', None)
    if isinstance(d, dict) and type(v).__module__.startswith(('pymgrid', 'vc.')):
        return ('o', [(k, id(x)) for k, x in d.items()], [_snap(x, depth - 1) for x in d.values()] if depth else None)
    return None


class Poison:
    """an object the loop may have replaced: unknown"""
    def __bool__(self): raise Unsupported('value left behind by a loop')
    def __getattr__(self, n): raise Unsupported('value left behind by a loop')
    def __call__(self, *a, **k): raise Unsupported('value left behind by a loop')
    __iter__ = __len__ = __getitem__ = __eq__ = __add__ = __radd__ = __lt__ = __gt__ = __hash__ = __call__


class Loop:
    def __init__(self, seq, key, carried, targets):
        self.seq, self.key, self.carried, self.targets = seq, key, carried, targets
        self.pos = -1
        self.mode = None
        self.after = False
        self.env = {}

    # --- called by the rewritten loop
    poison = staticmethod(Poison)

    def begin(self, loc):
        self._take(loc)

    def _take(self, loc):
        self.env = {n: loc[n] for n in self.carried if n in loc}
        self.loc = {k: v for k, v in loc.items() if not k.startswith('_vc_')}

    def leave(self, loc):
        self._take(loc)
        if self.mode == 'body':
            part = self.seq.parts[self.pos]
            if part.havoc is None:
                self._frame()
            if part.leave is not None:
                part.leave(self.elem)
            self._check('kept')
            raise PathEnd()

    def __iter__(self): return self

    def __next__(self):
        c = core.ctx()
        while True:
            self.pos += 1
            if self.pos >= len(self.seq.parts):
                self.mode = 'end'
                raise StopIteration
            part = self.seq.parts[self.pos]
            if not isinstance(part, Arb):
                self.mode = 'item'
                self.after = False
                self.elem = part
                return part
            self._cut(part)
            if c.choose(2, 'loop') == 0:
                self.mode = 'body'
                self.elem = part.make()
                self.snap = {k: _snap(v) for k, v in self.loc.items() if k not in self.carried and k not in self.targets}
                self.esnap = {k: _snap(v) for k, v in self.entry.items()}
                self.ids = {k: id(v) for k, v in self.loc.items() if k not in self.carried and k not in self.targets}
                return self.elem
            self.after = True
            # all elements of this run are done

    # --- the cut
    def _cut(self, part):
        c = core.ctx()
        g = getattr(c, 'ghost', None)
        self.entry = dict(self.env)
        self.gentry = dict(g.v) if g is not None else {}
        self._check('initially')
        for n, v in list(self.env.items()):
            k = _kind(v)
            if k == 'r':
                self.env[n] = c.fresh_real('havoc_' + n)
            elif k == 'i':
                self.env[n] = c.fresh_real('havoc_' + n)
            elif k == 'b':
                self.env[n] = c.fresh_bool('havoc_' + n)
            elif (self.key, self.seq.label, self.pos, n, 'same') in DROPPED:
                self.env[n] = Poison()
        if g is not None:
            for n, v in list(g.v.items()):
                if _kind(v) in ('r', 'i'):
                    g.v[n] = c.fresh_real('havoc_' + n)
                elif _kind(v) == 'b':
                    g.v[n] = c.fresh_bool('havoc_' + n)
        for name, t in self._cands():
            c.assume(t)
        if part.havoc is not None:
            part.havoc(self.loc)

    def _terms(self):
        g = getattr(core.ctx(), 'ghost', None)
        R = lambda v: core._real(core.to_z3(v))
        vs = {n: (R(v), R(self.entry[n])) for n, v in self.env.items() if _kind(v) in ('r', 'i') and _kind(self.entry.get(n)) in ('r', 'i')}
        bs = {n: (core.as_bool_term(v), core.as_bool_term(self.entry[n])) for n, v in self.env.items() if _kind(v) == 'b' and _kind(self.entry.get(n)) == 'b'}
        gs = {n: (R(v), R(self.gentry[n])) for n, v in (g.v if g else {}).items() if _kind(v) in ('r', 'i') and n not in g.free}
        return vs, bs, gs

    def _cands(self):
        vs, bs, gs = self._terms()
        key = (self.key, self.seq.label, self.pos)
        out = []

        def cand(name, t):
            k = key + (name,)
            if k not in DROPPED:
                out.append((k, t))
        for n, (v, v0) in vs.items():
            for cs in itertools.product((0, 1, -1), repeat=len(gs)):
                if sum(map(abs, cs)) > 2:
                    continue
                t = v - v0
                for cf, (x, x0) in zip(cs, gs.values()):
                    t = t - cf * (x - x0)
                cand(f'{n}-{n}0==' + '+'.join(f'{cf}*d{gn}' for cf, gn in zip(cs, gs) if cf), t == 0)
            cand(n + '>=0', v >= 0)
            cand(n + '<=0', v <= 0)
            cand(n + '==0', v == 0)
            cand(f'{n} between 0 and {n}0', z3.And(z3.Implies(v0 >= 0, z3.And(v >= 0, v <= v0)), z3.Implies(v0 <= 0, z3.And(v <= 0, v >= v0))))
            cand(n + '>=' + n + '0', v >= v0)
            cand(n + '<=' + n + '0', v <= v0)
        for n, (v, v0) in bs.items():
            cand(n + '==' + n + '0', v == v0)
        for n, (x, x0) in gs.items():
            cand('d' + n + '==0', x == x0)
            cand('d' + n + '>=0', x >= x0)
        return out

    def _check(self, when):
        c = core.ctx()
        cs = self._cands()
        if not cs:
            return
        # all at once first
        used = STATE['used']
        if c.query(z3.Not(z3.And(*[t for _, t in cs]))) == z3.unsat:
            for k, t in cs:
                used[k] = used.get(k, 0) + 1
            return
        for k, t in cs:
            if c.query(z3.Not(t)) != z3.unsat:
                DROPPED.add(k)
                STATE['changed'] = True
            else:
                used[k] = used.get(k, 0) + 1

    def _frame(self):
        for k, v in self.loc.items():
            if k in self.snap:
                if id(v) != self.ids[k] or _snap(v) != self.snap[k]:
                    if _kind(v) or v is None:
                        continue        # assigned in the body through another loop variable
                    raise Unsupported(f'loop body changes {k}')
        for n in self.env:
            if n not in self.entry:
                continue
            new, old = self.env[n], self.entry[n]
            if _kind(new) and _kind(old):
                if _kind(new) != _kind(old) and {_kind(new), _kind(old)} != {'r', 'i'}:
                    raise Unsupported(f'loop changes the type of {n}')
            elif new is not old:
                if new is None or old is None or _kind(new) or _kind(old):
                    raise Unsupported(f'loop changes {n}')
                k = (self.key, self.seq.label, self.pos, n, 'same')
                if k not in DROPPED:
                    DROPPED.add(k)
                    STATE['changed'] = True
            elif _snap(new) != self.esnap.get(n):
                raise Unsupported(f'loop body changes {n}')

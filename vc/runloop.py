"""Microgrid.run over arbitrarily many modules.

Callees used by contract: ModuleContainer (C18: fixed, controllable, flex yield every module of the kind under its name, in order),
MicrogridStep (C10 'step result object, any history'), the module's own step (C04) and the logger (C14 'logging one step').
The three lists of modules are arbitrary: arbitrarily many names with arbitrarily many modules each.  In one list one arbitrary
module (the witness) is singled out, so that a claim about it is a claim about every module of that list.
"""
from .spec import *
from .models import *
from .absmod import make_classes, ROLES
from . import absmod


class StepModel:
    """contract of MicrogridStep"""
    _vc_ghost_ = True

    def __init__(self, reward_shaping_func=None, cost_info=None):
        from . import core
        self.shape, self.cost_info = reward_shaping_func, cost_info
        self.g = core.ctx().ghost
        self.events = core.ctx().events
        core.ctx().steps.append(self)
        self.out = None

    def append(self, module_name, obs, reward, done, info):
        g = self.g
        self.events.append((module_name, obs, reward, done, info))
        g['P'] = g['P'] + info.get('provided_energy', 0.0)
        g['A'] = g['A'] + info.get('absorbed_energy', 0.0)
        g['R'] = g['R'] + reward

    def _shaped(self):
        return self.g['R'] if self.shape is None else self.shape(INFO, self.cost_info)

    def balance(self):
        return self.g['P'], self.g['A'], self.g['R'], self._shaped()

    def output(self):
        self.out = (OBS, self._shaped(), DONE, INFO)
        return self.out


class _Tok:
    _vc_ghost_ = True


OBS, DONE, INFO, COST = _Tok(), _Tok(), _Tok(), _Tok()


class Group:
    """the modules of one kind"""
    _vc_ghost_ = True

    def __init__(self, seq): self.seq = seq
    def iterdict(self): return self.seq
    def items(self): return self.seq
    def to_dict(self): return self


class Modules:
    _vc_ghost_ = True

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def get_attrs(self, *a, **k): return COST


class Control:
    _vc_ghost_ = True

    def __init__(self, table, extra):
        self.table, self.extra, self.gone = table, extra, []

    def copy(self): return Control(self.table, self.extra)

    def pop(self, name, *default):
        if name not in self.table or name in self.gone:
            raise KeyError(name)
        self.gone.append(name)
        return self.table[name]

    def __getitem__(self, name):
        if name not in self.table or name in self.gone:
            raise KeyError(name)
        return self.table[name]

    def __len__(self): return self.extra
    def keys(self): return ['...']


def build(I, witness, plain=False):
    """an arbitrary microgrid around Microgrid.run (symbolic only)"""
    from . import core, loopcut
    c = core.ctx()
    C = make_classes()
    c.events, c.steps = [], []
    g = loopcut.Ghost(free=('R',), P=0.0, A=0.0, R=0.0)
    W = {}
    table = {}

    def element(role, tag):
        kd = I.choice(tag + '.kind', ['source', 'sink', 'both'] if role == 'flex' else ['source', 'sink'])
        m = C[role](I, tag, role, *ROLES[kd])
        m.ev0 = len(c.events)
        return m

    def check(name, m):
        I.ensure('every module is stepped exactly once', len(m.calls) == 1)
        new = c.events[m.ev0:]
        I.ensure('the result of a step is recorded once, under the name of the module',
                 len(new) == 1 and new[0][0] == name and all(x is y for x, y in zip(new[0][1:], m.outs[0])))
        role = type(m).module_type[1]
        a, nrm = m.calls[0]
        if role == 'fixed':
            I.ensure('fixed modules receive the zero action', and_(eq(a, 0), not nrm))
        elif role == 'controllable':
            I.ensure('each controllable module receives the action at its position under its name', a is m.action and nrm is NRM[0])

    def inner(role, name, tag, wit=None):
        """modules (and controls) under one name"""
        made = {}

        def mods_arb(lbl):
            def mk():
                m = element(role, lbl)
                m.action = c.fresh_real('action') if role == 'controllable' else None
                made[lbl] = m
                return m
            return loopcut.Arb(lbl, mk, lambda m: check(name, m))

        def ctrl_arb(lbl):
            return loopcut.Arb(lbl, lambda: made[lbl].action)
        mp, cp = [mods_arb(tag + '.a')], [ctrl_arb(tag + '.a')]
        if wit is not None:
            mp += [wit, mods_arb(tag + '.b')]
            cp += [wit.action, ctrl_arb(tag + '.b')]
        if role == 'controllable':
            table[name] = loopcut.SymSeq(tag, cp)
        return loopcut.SymSeq(tag, mp)

    def names_arb(role, lbl):
        return loopcut.Arb(lbl, lambda: (lbl, inner(role, lbl, lbl + '.m')))
    seqs = {}
    for role in ('fixed', 'controllable', 'flex'):
        parts = [names_arb(role, role + '_a')]
        if witness == role:
            w = element(role, role + '_w')
            w.action = c.fresh_real('action') if role == 'controllable' else None
            W['m'], W['name'] = w, role + '_name'
            parts += [(role + '_name', inner(role, role + '_name', role + '_n', w)), names_arb(role, role + '_b')]
        if role == 'flex':
            bm = mod('pymgrid.modules').UnbalancedEnergyModule(raise_errors=False, loss_load_cost=10.0, overgeneration_cost=2.0)
            W['bm'] = bm
            parts += [('balancing', [bm]), names_arb(role, 'flex_c')]
        seqs[role] = loopcut.SymSeq(role, parts)
    tab = {k: v for k, v in seqs.items()}
    shaped = I.bool('shaped') if not plain else False
    val = I.real('shaped_value')
    f = (lambda info, cost: val) if shaped else None
    M = mod('pymgrid.microgrid.microgrid')
    mg = I.must('construction', M.Microgrid, [('x', C['fixed'](I, 'seed', 'fixed', True, False))], reward_shaping_func=f)
    mg._modules = Modules(**{k: Group(v) for k, v in seqs.items()})
    log = []

    class Logger:
        _vc_ghost_ = True
        def log(self, **kw): log.append(kw)
    mg._balance_logger = Logger()
    if not hasattr(M, 'MicrogridStep'):
        raise core.Unsupported('MicrogridStep is not used')
    ctl = Control(table, I.int('surplus controls', lo=0) if not plain else 0)
    return mg, ctl, W, g, log, M, (val if shaped else None), check


NRM = [False]


def symbolic_run(I, witness, plain=False):
    from . import core
    mg, ctl, W, g, log, M, val, check = build(I, witness, plain)
    c = core.ctx()
    old = M.MicrogridStep
    M.MicrogridStep = StepModel
    import warnings
    try:
        o = I.call(mg.run, ctl, normalized=NRM[0])
    finally:
        M.MicrogridStep = old
    I.ensure_exc('the step never fails to balance', o)
    return mg, ctl, W, g, log, o.value, val, check


def c01(I):
    """balance over any number of modules"""
    mg, ctl, W, g, log, out, val, check = symbolic_run(I, 'flex', plain=True)
    I.cover('balanced')
    b = [e for e in core_events() if e[0] == 'balancing']
    I.ensure('the balancing module reports once', len(b) == 1)
    inf = b[0][4]
    unmet, over = inf.get('provided_energy', 0.0), inf.get('absorbed_energy', 0.0)
    I.ensure('total provided equals total absorbed', eq(g['P'], g['A']))
    I.ensure('unmet load and overgeneration are non-negative', and_(ge(unmet, 0), ge(over, 0)))
    I.ensure('not both unmet load and overgeneration', or_(eq(unmet, 0), eq(over, 0)))
    w = W['m']
    I.ensure('every module is stepped exactly once', len(w.outs) == 1)
    d = w.outs[0][3]
    got, took = d.get('provided_energy', 0.0), d.get('absorbed_energy', 0.0)
    if w.is_source:
        I.ensure('unmet load only after every flexible source is exhausted', implies(gt(unmet, 0), eq(got, w.maxp)))
    if w.is_sink:
        I.ensure('overgeneration only after every flexible sink is exhausted', implies(gt(over, 0), eq(took, w.maxc)))
    I.cover('unmet') if I.is_(gt(unmet, 0)) else None


def core_events():
    from . import core
    return core.ctx().events


def c10(I, witness):
    """every module takes part exactly once and its result is recorded"""
    NRM[0] = I.bool('normalized') if witness != 'flex' else False
    mg, ctl, W, g, log, out, val, check = symbolic_run(I, witness, plain=witness == 'flex')
    I.cover('c')
    from . import core
    ev = core.ctx().events
    w = W['m']
    mine = [e for e in ev if e[0] == W['name'] and any(e[1] is o[0] for o in w.outs)]
    I.ensure('every module is stepped exactly once', len(w.calls) == 1)
    I.ensure('the result of a step is recorded once, under the name of the module', len(mine) == 1 and all(x is y for x, y in zip(mine[0][1:], w.outs[0])))
    if witness == 'controllable':
        I.ensure('each controllable module receives the action at its position under its name', w.calls[0][0] is w.action and w.calls[0][1] is NRM[0])
    st = core.ctx().steps
    I.ensure('one step result', len(st) == 1 and out is st[0].out)
    I.ensure('reward is the sum of the module rewards, or the value of the shaping function', eq(out[1], g['R'] if val is None else val))
    I.ensure('the control is not modified', ctl.gone == [])


def c14(I):
    """the balance log entry over any number of modules"""
    from . import core, loopcut
    c = core.ctx()
    marks = {}
    mg, ctl, W, g, log, M, val, check = build(I, None)
    # totals at the end of the fixed and of the controllable modules: read when the next list is asked for
    mods = mg._modules

    class Spy:
        _vc_ghost_ = True
        fixed = property(lambda s: mods.fixed)
        def __getattr__(s, n):
            marks.setdefault(n, (g['P'], g['A']))
            return getattr(mods, n)
    mg._modules = Spy()
    old = M.MicrogridStep
    M.MicrogridStep = StepModel
    try:
        o = I.call(mg.run, ctl, normalized=False)
    finally:
        M.MicrogridStep = old
    I.ensure_exc('step succeeds', o)
    I.cover('c')
    I.ensure('one balance entry per step', len(log) == 1)
    e = log[0]
    if 'controllable' not in marks or 'flex' not in marks:
        raise core.Unsupported('order of the lists')
    (fp, fa), (cp, ca) = marks['controllable'], marks['flex']
    exp = dict(fixed_provided_to_microgrid=fp, fixed_absorbed_from_microgrid=fa, controllable_provided_to_microgrid=cp - fp,
               controllable_absorbed_from_microgrid=ca - fa, overall_provided_to_microgrid=g['P'], overall_absorbed_from_microgrid=g['A'],
               reward=g['R'], shaped_reward=g['R'] if val is None else val)
    I.ensure('columns of the balance log', set(e) == set(exp))
    for k in exp:
        I.ensure('balance log: ' + k, eq(e[k], exp[k]))

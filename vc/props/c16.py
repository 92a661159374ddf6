from ..spec import *
from ..models import *
from ..absmod import total
from itertools import permutations, product

A = 'pymgrid.algos.priority_list.priority_list.PriorityListAlgo.'
E = 'pymgrid.algos.priority_list.priority_list_element.PriorityListElement.'
B = 'pymgrid.algos.rbc.rbc.RuleBasedControl.'
D = 'pymgrid.envs.discrete.discrete.DiscreteMicrogridEnv.'
TOL = 1e-4
# ASSUME: a remaining load of at most 1e-4 in magnitude counts as met


def algos():
    return mod('pymgrid.algos')


def element():
    return mod('pymgrid.algos.priority_list').PriorityListElement


def make():
    """controllable modules known only by their limits, loads and renewables known only by their amount; they record what they are asked for"""
    Base = mod('pymgrid.modules.base').BaseMicrogridModule

    class Asked(Base):
        yaml_tag = None

        def __init__(self, I, tag, src=True, snk=False, cost=0.0, two=False):
            self.I, self.tag, self.src, self.snk, self.cost, self.two = I, tag, src, snk, cost, two
            self.asked = []
            self.lims = {}
            super().__init__(False)

        def __deepcopy__(self, memo):
            new = object.__new__(type(self))
            new.__dict__.update(self.__dict__)
            new.asked, new.lims = list(self.asked), dict(self.lims)
            return new

        def lim(self, k):
            """limits for a status; arbitrary but min <= max"""
            if k not in self.lims:
                lo = self.I.real(f'{self.tag}.min{k}', lo=0)
                self.lims[k] = (lo, self.I.real(f'{self.tag}.max{k}', lo=lo))
            return self.lims[k]

        def step(self, action, normalized=True):
            self.asked.append((action, normalized))
            e = action[1] if self.two else action
            src = self.src if self.src != self.snk else self.I.is_(ge(e, 0))
            role = type(self).module_type[1]
            if role == 'fixed':
                e = self.lim('m')[1]
            elif role == 'flex':
                e = min_(max_(action, 0.0), self.lim('m')[1])
            else:
                e = abs_(e)
            self._current_step += 1
            return arr(self.I, [0.0]), 0.0, False, {'provided_energy' if src else 'absorbed_energy': e}

        def _state_dict(self): return {'s': 0.0}
        def update(self, *a, **k): raise NotImplementedError
        min_obs = property(lambda self: 0.0)
        max_obs = property(lambda self: 1.0)
        min_act = property(lambda self: arr(self.I, [0.0, 0.0]) if self.two else 0.0)
        max_act = property(lambda self: arr(self.I, [1.0, 1.0]) if self.two else 1.0)
        is_source = property(lambda self: self.src)
        is_sink = property(lambda self: self.snk)
        max_production = property(lambda self: self.lim('m')[1] if self.src else 0.0)
        min_production = property(lambda self: self.lim('m')[0] if self.src else 0.0)
        production_marginal_cost = property(lambda self: self.cost)

        @property
        def max_consumption(self):
            if not self.snk:
                return 0.0
            return self.lim('c')[1] if self.src else self.lim('m')[1]

    class AFixed(Asked):
        module_type = ('aload', 'fixed')
        yaml_tag = None

    class AFlex(Asked):
        module_type = ('apv', 'flex')
        yaml_tag = None

    class ACtl(Asked):
        module_type = ('actl', 'controllable')
        yaml_tag = None

    class AGen(Asked):
        module_type = ('agen', 'controllable')
        yaml_tag = None

        def next_max_production(self, s): return self.lim(int(s))[1]
        def next_min_production(self, s): return self.lim(int(s))[0]
    return AFixed, AFlex, ACtl, AGen


def min_(a, b): return a if a <= b else b
def max_(a, b): return a if a >= b else b
def abs_(a): return a if a >= 0 else -a


def ranges(md, status):
    """production range with the status and consumption limit"""
    if hasattr(md, 'next_max_production'):
        lo, hi = md.next_min_production(status), md.next_max_production(status)
    else:
        lo, hi = md.min_production, md.max_production
    return lo, hi, (md.max_consumption if md.is_sink else 0.0)


def greedy(r, lo, hi, cons):
    """what a module should be asked for when r remains"""
    if r > 0:
        return lo if r < lo else (hi if r > hi else r)
    if r < 0:
        return -cons if -r > cons else r
    return 0.0


def follows(I, plist, ranges_of, requests, load, renewable):
    """the requests are what the priority list prescribes"""
    r = total(load) - total(renewable)
    for el in plist:
        lo, hi, cons = ranges_of[tuple(el.module)]
        status, e = requests[tuple(el.module)]
        if el.module_actions > 1:
            I.ensure('a module with status options is asked for the status of the list', eq(status, el.action))
        g = greedy(r, lo, hi, cons)
        if I.is_(and_(le(r, TOL), ge(r, -TOL))):
            I.cover('met')
            I.ensure('a module after the load is met is asked for nothing but its must-run minimum', or_(eq(e, 0), eq(e, g), eq(e, lo)))
        elif I.is_(and_(lt(r, 0), eq(cons, 0))):
            I.ensure('a module that cannot absorb is asked for nothing but its must-run minimum', or_(eq(e, 0), eq(e, lo)))
        else:
            I.cover('produce' if I.is_(gt(r, 0)) else 'consume')
            I.ensure('each module is asked for as much as remains and it can give or take', close(e, g))
        r = r - e
    I.cover('done')


def close(a, b):
    if hasattr(a, 't') or hasattr(b, 't'):
        return eq(a, b)
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def split(two, a):
    if two:
        return a[0], a[1]
    return None, a


# ------------------------------------------------------------------ rule-based control over arbitrary limits
def build(I, n, loads=(1,), pvs=(0, 1), kinds=('source', 'both', 'gen'), same=False, cost=None):
    AFixed, AFlex, ACtl, AGen = make()
    mods = [AFixed(I, f'load{i}', False, True) for i in range(I.choice('nload', list(loads)))]
    mods += [AFlex(I, f'pv{i}', True, False) for i in range(I.choice('npv', list(pvs)))]
    for i in range(n):
        k = I.choice(f'kind{i}', list(kinds))
        c = 0.0 if cost is None else cost(i)
        if k == 'gen':
            m = AGen(I, f'm{i}', True, False, c, two=True)
        else:
            m = ACtl(I, f'm{i}', True, k == 'both', c)
        mods.append((f'{k}s' if same else f'm{i}', m))
    return mods


def amounts(mg):
    return [m.max_consumption for m in mg.fixed.sinks.iterlist()], [m.max_production for m in mg.flex.sources.iterlist()]


def pick(I, lists):
    lists = list(lists)
    return lists[I.choice('list', range(len(lists)))]


def rbc_step(I, n, **kw):
    mods = build(I, n, **kw)
    mg = I.must('construction', mod('pymgrid.microgrid.microgrid').Microgrid, mods)
    R = algos().RuleBasedControl
    probe = I.must('construction', R, mg, remove_redundant_gensets=False)
    plist = pick(I, probe.get_priority_lists(remove_redundant_gensets=False))
    rbc = I.must('a listed priority list is accepted', R, mg, priority_list=plist, remove_redundant_gensets=False)
    I.ensure('the controller uses the given list', list(rbc.priority_list) == list(plist))
    m = rbc.microgrid
    load, pv = amounts(m)
    cs = {nm: list(l) for nm, l in m.controllable.iterdict()}
    rg = {tuple(el.module): ranges(cs[el.module[0]][el.module[1]], el.action) for el in plist}
    m.get_log = lambda *a, **k: None
    I.must('a step is executed', rbc.run, 1)
    req = {}
    for nm, l in cs.items():
        for j, md in enumerate(l):
            I.ensure('each controllable module acts once on a plain request', len(md.asked) == 1 and md.asked[0][1] is False)
            req[nm, j] = split(md.two, md.asked[0][0])
    I.ensure('the list names every controllable module once', sorted(tuple(el.module) for el in plist) == sorted(req))
    follows(I, plist, rg, req, load, pv)


T = [A + '_populate_action', A + '_produce_from_module', A + '_consume_in_module', A + '_get_load', A + '_get_renewable', B + '_get_action', B + 'run', B + '_get_priority_list']
contract('C16', 'rule-based step, two modules', targets=T, bounded='two controllable modules of any kind, one load, up to one renewable; all amounts and limits, every list', covers=['done', 'met', 'produce', 'consume'],
         budget=250, max_paths=30000)(lambda I: rbc_step(I, 2))
contract('C16', 'rule-based step, modules sharing a name', targets=T, bounded='two modules under one name, up to two loads and renewables; all amounts and limits', covers=['done'],
         budget=250, max_paths=30000)(lambda I: rbc_step(I, 2, same=True, loads=(0, 2), pvs=(0, 2), kinds=('both', 'gen')))
contract('C16', 'rule-based step, three modules', targets=T, bounded='three controllable modules (one of each kind); all amounts and limits, every list', covers=['done'],
         budget=300, max_paths=60000)(lambda I: rbc_step3(I))


def rbc_step3(I):
    class J:
        def __getattr__(self, n): return getattr(I, n)
        def choice(self, name, options):
            if name.startswith('kind'):
                return ('gen', 'both', 'source')[int(name[4:])]
            return I.choice(name, options)
    rbc_step(J(), 3, pvs=(1,))


# ------------------------------------------------------------------ real modules in any state
def single_step(I, kind):
    """a real module in any state, one load of any amount, one renewable of any amount: what the controller asks for is served exactly"""
    AFixed, AFlex, ACtl, AGen = make()
    strict = I.bool('strict')
    if kind == 'battery':
        m, P = battery(I, raise_errors=strict)
    elif kind == 'genset':
        m, P = genset(I, raise_errors=strict, state='initial')
    else:
        m, P = grid(I, raise_errors=strict, cols=I.choice('cols', [3, 4]))
        m.reset()
    mods = [AFixed(I, 'load', False, True), AFlex(I, 'pv', True, False), ('x', m)]
    mg = I.must('construction', mod('pymgrid.microgrid.microgrid').Microgrid, mods)
    R = algos().RuleBasedControl
    if I.symbolic:
        from .. import core
        core.HASHABLE[0] = True
    try:
        probe = I.must('construction', R, mg, remove_redundant_gensets=False)
        plist = pick(I, probe.get_priority_lists(remove_redundant_gensets=False))
        rbc = I.must('a listed priority list is accepted', R, mg, priority_list=plist, remove_redundant_gensets=False)
    finally:
        if I.symbolic:
            core.HASHABLE[0] = False
    mm = rbc.microgrid
    load, pv = amounts(mm)
    md = mm.controllable['x'][0]
    if kind == 'genset':
        genset_state(I, md, P, 'q_')
    el, = plist
    rg = {('x', 0): ranges(md, el.action)}
    seen, real_step = [], md.step

    def step(action, normalized=True):
        seen.append((action, normalized))
        out = real_step(action, normalized=normalized)
        seen.append(out[3])
        return out
    md.step = step
    mm.reset = lambda: None         # the state is arbitrary, not the one after a reset
    mm.get_log = lambda *a, **k: None
    I.must('a step is executed, also by modules that refuse what they cannot do', rbc.run, 1)
    I.ensure('the module acts once', len(seen) == 2)
    (action, norm), info = seen
    two = kind == 'genset'
    status, e = split(two, action)
    follows(I, plist, rg, {('x', 0): (status, e)}, load, pv)
    lo, hi, cons = rg['x', 0]
    p, a = info.get('provided_energy', 0.0), info.get('absorbed_energy', 0.0)
    I.ensure('the module serves exactly what it is asked for, or its must-run minimum', or_(close(p - a, e), and_(eq(e, 0), close(p, lo))))


for k in ('battery', 'genset', 'grid'):
    contract('C16', f'rule-based step of a {k} in any state', targets=T, covers=['done', 'met', 'produce'] + (['consume'] if k != 'genset' else []), budget=200, max_paths=20000)(
        lambda I, k=k: single_step(I, k))


# ------------------------------------------------------------------ order
@contract('C16', 'elements are ordered by marginal cost', targets=[E + '__lt__', E + '__eq__'], covers=['c', 'tie'])
def order(I):
    El = element()
    xs = [El(('m', i), 2, I.choice(f'a{i}', [0, 1]), I.real(f'c{i}')) for i in range(2)]
    a, b = xs
    I.cover('c')
    if a.marginal_cost < b.marginal_cost:
        I.ensure('the cheaper element comes first', bool(a < b) and not bool(b < a) and bool(b > a) and bool(a <= b))
    elif a.marginal_cost == b.marginal_cost:
        I.cover('tie')
        I.ensure('ties are not ordered both ways', not (bool(a < b) and bool(b < a)))
    c = El(('m', 0), 2, xs[0].action, I.real('c2'))
    I.ensure('elements differ if the costs do', bool(a == c) == I.is_(eq(a.marginal_cost, c.marginal_cost)))
    I.ensure('elements of different modules differ', not bool(a == b))
    d = El(('m', 0), 2, 1 - a.action, a.marginal_cost)
    I.ensure('elements of different status differ', not bool(a == d))


@contract('C16', 'automatic lists are ordered by increasing marginal cost', targets=[B + '_get_priority_list', A + 'get_priority_lists'], covers=['c'],
          bounded='up to three modules, all marginal costs', budget=250, max_paths=30000)
def automatic(I):
    n = I.choice('n', [0, 1, 2, 3])
    mods = build(I, n, pvs=(1,), kinds=('source', 'gen'), cost=lambda i: I.real(f'cost{i}'))
    mg = I.must('construction', mod('pymgrid.microgrid.microgrid').Microgrid, mods)
    if I.symbolic:
        from .. import core
        core.HASHABLE[0] = True
    try:
        rbc = I.must('construction', algos().RuleBasedControl, mg, remove_redundant_gensets=I.bool('remove'))
        pl = list(rbc.priority_list)
    finally:
        if I.symbolic:
            core.HASHABLE[0] = False
    I.cover('c')
    I.ensure('every controllable module once', sorted(tuple(e.module) for e in pl) == [(f'm{i}', 0) for i in range(n)])
    for e in pl:
        I.ensure('the cost of each element is the marginal cost of its module', eq(e.marginal_cost, mg.modules[e.module[0]][e.module[1]].marginal_cost))
    for e, f in zip(pl, pl[1:]):
        I.ensure('costs increase along the list', le(e.marginal_cost, f.marginal_cost))


def expected_lists(ms, remove):
    """ms: (name, position, number of actions, redundant-off)"""
    out = []
    for perm in permutations(ms):
        for st in product(*[range(k) for _, _, k, _ in perm]):
            if remove and any(red and s == 0 and k == 2 for (_, _, k, red), s in zip(perm, st)):
                continue
            out.append(tuple((a, b, k, s) for (a, b, k, _), s in zip(perm, st)))
    return out


def check_lists(I, lists, m, remove):
    G = modules().GensetModule
    ms = []
    for nm, l in m.controllable.iterdict():
        for j, md in enumerate(l):
            if md.is_source:
                ms.append((nm, j, 2 if isinstance(md, G) else 1, isinstance(md, G) and md.running_min_production == 0))
    got = [tuple((*e.module, e.module_actions, e.action) for e in pl) for pl in lists]
    want = expected_lists(ms, remove)
    I.ensure('every ordering exactly once, with one status per genset', sorted(got) == sorted(want))
    for pl in lists:
        for e in pl:
            I.ensure('cost of each element', bool(e.marginal_cost == m.modules[e.module[0]][e.module[1]].marginal_cost))


def rand_mg(I, env=False, **kw):
    from ..mg import random_microgrid
    c = dict(load=I.choice('nload', [1, 2]), ren=I.choice('nren', [0, 1, 2]), bat=I.choice('nbat', [0, 1, 2]), gen=I.choice('ngen', [0, 1, 2]), grid=I.choice('ngrid', [0, 1, 1]))
    if c['bat'] + c['grid'] + 2 * c['gen'] > 5:
        raise Skip()
    return random_microgrid(I, counts=c, max_rows=6, many=False, **kw)


@contract('C16', 'the available lists', sym=False, targets=[A + 'get_priority_lists', A + '_remove_redundant_actions', A + '_remove_redundant_gensets'],
          bounded='random microgrids of up to four controllable modules', random_n=60)
def available(I):
    m, P = rand_mg(I)
    R = algos().RuleBasedControl
    remove = I.bool('remove')
    rbc = I.must('construction', R, m, remove_redundant_gensets=remove)
    check_lists(I, rbc.get_priority_lists(remove_redundant_gensets=remove), rbc.microgrid, remove)
    pl = list(rbc.priority_list)
    I.ensure('the automatic list is one of the available ones', tuple(pl) in list(rbc.get_priority_lists(remove_redundant_gensets=remove)))
    I.ensure('costs increase along the list', all(a.marginal_cost <= b.marginal_cost for a, b in zip(pl, pl[1:])))
    I.ensure('the microgrid given is not used itself', rbc.microgrid is not m)
    if pl:
        I.ensure('an incomplete list is rejected', I.call(R, m, priority_list=pl[1:], remove_redundant_gensets=remove).raised(ValueError))
        I.ensure('a list is accepted as such', I.call(R, m, priority_list=pl, remove_redundant_gensets=remove).ok)


def watch(m):
    """records requests and answers of the controllable modules"""
    log = {}
    for nm, l in m.controllable.iterdict():
        for j, md in enumerate(l):
            def wrap(md, key, f):
                def step(action, normalized=True):
                    out = f(action, normalized=normalized)
                    log[key] = (action, normalized, out[3])
                    return out
                return step
            md.step = wrap(md, (nm, j), md.step)
    return log


def before(m, plist):
    load = [float(x.max_consumption) for x in m.fixed.sinks.iterlist()]
    pv = [float(x.max_production) for x in m.flex.sources.iterlist()]
    rg = {}
    for e in plist:
        md = m.modules[e.module[0]][e.module[1]]
        rg[tuple(e.module)] = tuple(float(v) for v in ranges(md, e.action))
    return load, pv, rg


def after(I, m, plist, log, bf):
    load, pv, rg = bf
    req = {}
    for key, (a, norm, info) in log.items():
        md = m.modules[key[0]][key[1]]
        two = md.action_space.shape[0] > 1
        st, e = split(two, a)
        req[key] = (st, float(e))
        I.ensure('plain request', norm is False)
    I.ensure('every controllable source is asked once', sorted(req) == sorted(tuple(e.module) for e in plist))
    follows(I, plist, rg, req, load, pv)


@contract('C16', 'discrete environment', sym=False, targets=[D + 'step', D + '_get_action', D + 'remove_action', D + '_get_action_space'],
          bounded='random microgrids of up to four controllable modules, random histories', random_n=70)
def discrete(I):
    import warnings
    m, P = rand_mg(I)
    Env = mod('pymgrid.envs').DiscreteMicrogridEnv
    remove = I.bool('remove')
    if I.bool('frommg'):
        e = I.must('construction', Env.from_microgrid, m, remove_redundant_gensets=remove)
    else:
        e = I.must('construction', Env, P['given'], remove_redundant_gensets=remove)
    check_lists(I, e.actions_list, e, remove)
    I.ensure('one action per list', e.action_space.n == len(e.actions_list))
    lists = list(e.actions_list)
    n_ok = 0
    for s in range(I.int('steps', lo=1, hi=6)):
        if e.current_step >= P['n']:
            break
        if len(lists) > 1 and I.bool(f'rm{s}'):
            k = I.int(f'rmk{s}', lo=0, hi=len(lists) - 1)
            I.must('an action can be removed', e.remove_action, k)
            lists = lists[:k] + lists[k + 1:]
            I.ensure('the other actions keep their lists in order', list(e.actions_list) == lists and e.action_space.n == len(lists))
        if I.bool(f'bad{s}'):
            st = e.state_series().tolist()
            o = I.call(e.step, len(lists) + I.int(f'far{s}', lo=0, hi=3))
            I.ensure('an action number outside the space is rejected', o.raised(ValueError))
            I.ensure('a rejected action changes nothing', e.state_series().tolist() == st and len(e.log) == n_ok)
            I.ensure('a removed number is rejected', I.call(e.remove_action, len(lists)).raised(ValueError))
        k = I.int(f'act{s}', lo=0, hi=len(lists) - 1)
        log = watch(e)
        bf = before(e, lists[k])
        I.must('a step is executed', e.step, k)
        n_ok += 1
        for nm, l in e.controllable.iterdict():
            for md in l:
                del md.step
        after(I, e, lists[k], log, bf)
        I.ensure('the action number is logged', len(e.log) == n_ok and int(e.log['action'].iloc[-1, 0]) == k)


@contract('C16', 'rule-based control of built-in microgrids', sym=False, bounded='random microgrids of up to four controllable modules, whole runs', random_n=70)
def runs(I):
    m, P = rand_mg(I)
    R = algos().RuleBasedControl
    rbc = I.must('construction', R, m, remove_redundant_gensets=I.bool('remove'))
    lists = rbc.get_priority_lists(remove_redundant_gensets=False)
    if I.bool('given'):
        plist = lists[I.int('list', lo=0, hi=len(lists) - 1)]
        rbc = I.must('construction', R, m, priority_list=plist, remove_redundant_gensets=False)
    else:
        plist = rbc.priority_list
    mg = rbc.microgrid
    log = watch(mg)
    run = mg.run
    count = [0]

    def one(action, normalized=True):
        log.clear()
        bf = before(mg, plist)
        out = run(action, normalized=normalized)
        after(I, mg, plist, log, bf)
        count[0] += 1
        return out
    mg.run = one
    k = I.choice('max_steps', [None, 1, 2, 3, 50])
    out = I.must('the run succeeds', rbc.run, k)
    I.ensure('the run ends with the episode or after the requested number of steps', count[0] == min(P['n'], P['n'] if k is None else k))
    I.ensure('the log of the run is returned', len(out) == count[0] and len(mg.log) == count[0])


# ------------------------------------------------------------------ lists of any length
class _Stub:
    """a controllable module known by its limits"""
    _vc_ghost_ = True


class _Slots:
    _vc_ghost_ = True

    def __init__(self, d, name): self.d, self.name = d, name
    def __getitem__(self, i): return self.d.get((self.name, i))
    def __setitem__(self, i, v): self.d[self.name, i] = v


class _Act:
    """an empty action: every slot is None"""
    _vc_ghost_ = True

    def __init__(self): self.d = {}
    def __getitem__(self, name): return _Slots(self.d, name)
    def items(self): return [(k, v) for k, v in self.d.items()]


class _Table:
    _vc_ghost_ = True

    def __init__(self): self.d = {}

    def __getitem__(self, name):
        t = self
        class L:
            _vc_ghost_ = True
            def __getitem__(s, i): return t.d[name, i]
        return L()


def _element(I, tag, table):
    from pymgrid.algos.priority_list import PriorityListElement
    kind = I.choice(tag + '.kind', ['genset', 'storage', 'source'])
    m = _Stub()
    m.kind = kind
    m.is_sink, m.is_source = kind == 'storage', True
    hi = I.real(tag + '.max', lo=0)
    lo = I.real(tag + '.min', lo=0) if kind == 'genset' else 0.0
    if kind == 'genset':
        I.assume(le(lo, hi))
        a = I.choice(tag + '.status', [0, 1])
        other = (I.real(tag + '.max2', lo=0), I.real(tag + '.min2', lo=0))
        m.next_max_production = lambda s: hi if s == a else other[0]
        m.next_min_production = lambda s: lo if s == a else other[1]
        m.max_production, m.min_production, m.max_consumption = other[0], other[1], 0.0
    else:
        a = 0
        m.max_production, m.min_production = hi, lo
        m.max_consumption = I.real(tag + '.maxc', lo=0) if kind == 'storage' else 0.0
    m.lo, m.hi, m.status = lo, hi, a
    name = I.choice(tag + '.name', ['n', tag])
    k = len(table.d)
    table.d[name, k] = m
    m.key = (name, k)
    return m, PriorityListElement((name, k), 2 if kind == 'genset' else 1, a, 1.0)


def _asked(I, m, act, rem, atol=1e-4):
    """what one element of the list is asked for, given what remains"""
    v = act.d.get(m.key)
    I.ensure('every module of the list gets an action', v is not None)
    if m.kind == 'genset':
        v = list(v)
        I.ensure('a genset is told its status', len(v) == 2 and v[0] == m.status)
        v = v[1]
    if I.is_(and_(le(rem, atol), ge(rem, -atol))):
        I.ensure('nothing is asked beyond the must-run minimum once the load is met', eq(v, m.lo))
    elif rem > 0:
        I.ensure('asked for as much as it can give, not more than remains', eq(v, smax(m.lo, smin(rem, m.hi))))
    elif m.kind == 'storage':
        I.ensure('asked to take as much as it can, not more than remains', eq(v, -smin(-rem, m.max_consumption)))
    else:
        I.ensure('asked for the must-run minimum when there is a surplus', eq(v, m.lo))
    return v


@contract('C16', 'a list of any length is served in order', targets=[A + '_populate_action', A + '_produce_from_module', A + '_consume_in_module', A + '_get_production_limits'],
          covers=['c'], budget=120, max_paths=8000, aux=True, random_n=300,
          note='loop over the elements of the list by invariant: what remains is the net load minus what was asked for so far')
def anylist(I):
    from pymgrid.algos.priority_list import PriorityListAlgo
    table, act = _Table(), _Act()
    load, ren = I.real('load', lo=0), I.real('renewable', lo=0)
    import numpy as np

    class H(PriorityListAlgo):
        _vc_ghost_ = True
        modules = property(lambda s: table)
        fixed = flex = None
        def get_empty_action(s): return act
        def _get_load(s): return {}, (load if I.symbolic else np.float64(load))
        def _get_renewable(s): return ren if I.symbolic else np.float64(ren)
    if not I.symbolic:
        ms, pl = [], []
        for i in range(I.int('n', lo=0, hi=7)):
            m, e = _element(I, f'e{i}', table)
            ms.append(m)
            pl.append(e)
        I.must('an action is derived', H()._populate_action, pl)
        rem = load - ren
        for m in ms:
            rem = rem - _asked(I, m, act, rem)
        I.cover('c')
        return
    from .. import core, loopcut
    g = loopcut.Ghost(E=0.0)
    made = {}

    def mk():
        m, e = _element(I, 'e', table)
        made['m'], made['E'] = m, g['E']
        return e

    def leave(e):
        v = _asked(I, made['m'], act, load - ren - made['E'])
        I.cover('c')
        g['E'] = made['E'] + v
    I.must('an action is derived', H()._populate_action, loopcut.SymSeq('list', [loopcut.Arb('elements', mk, leave)]))

from ..spec import *
from ..models import *
from ..absmod import *
from ..symlist import SymList, Seg, is_history
import copy

R = 'pymgrid.microgrid.microgrid.Microgrid.'
S = 'pymgrid.microgrid.utils.step.MicrogridStep.'
# ASSUME: modules used inside a microgrid satisfy the step contract proved in C04


def same(a, b):
    """identical results: same object, or element-wise equal"""
    if a is b:
        return True
    if hasattr(a, 'shape') and hasattr(b, 'shape') and getattr(a, 'ndim', 0):
        return and_(tuple(a.shape) == tuple(b.shape), seq(list(a), list(b)))
    return eq(a, b)


def same_info(a, b):
    return and_(set(a) == set(b), *[eq(a[k], b[k]) for k in a if k in b]) if set(a) == set(b) else False


def record(mg):
    """ghost state: what every module was asked and what it answered"""
    log = {}
    order = []
    for name, lst in mg.modules.iterdict():
        for j, md in enumerate(lst):
            log[name, j] = []
            real = md.step

            def step(*a, _real=real, _k=(name, j), **k):
                out = _real(*a, **k)
                log[_k].append((a, k, out, dict(out[3])))
                order.append(_k)
                return out
            md.step = step
    return log, order


def aggregate(I, mg, log, out, rewards_shaped=None):
    obs, reward, done, info = out
    names = [n for n, l in mg.modules.iterdict()]
    I.ensure('observations for exactly the modules', set(obs) == set(names))
    I.ensure('information for exactly the modules', set(info) == set(names))
    tot, anyd = 0.0, False
    for name, lst in mg.modules.iterdict():
        I.ensure('one observation per module', name in obs and len(obs[name]) == len(lst))
        I.ensure('one information entry per module', name in info and len(info[name]) == len(lst))
        for j, md in enumerate(lst):
            I.ensure('every module is stepped exactly once', len(log[name, j]) == 1)
            a, k, o, inf = log[name, j][0]
            I.ensure("a module's observation is passed on in its position", same(obs[name][j], o[0]))
            I.ensure("a module's information is passed on in its position", same_info(info[name][j], inf))
            tot = tot + o[1]
            if I.is_(o[2]):
                anyd = True
    I.ensure('done exactly if some module is done', bool(done) == bool(anyd))
    if rewards_shaped is None:
        I.ensure('reward is the sum of the module rewards', eq(reward, tot))
    return tot


def checks(I, mg, ctrl, normalized, log, out, shaped=None):
    tot = aggregate(I, mg, log, out, shaped)
    for name, lst in mg.controllable.iterdict():
        for j in range(len(lst)):
            a, k, o, _ = log[name, j][0]
            got = a[0] if a else k.get('action')
            nrm = k.get('normalized', a[1] if len(a) > 1 else True)
            I.ensure('each controllable module receives the action at its position under its name', and_(same(got, ctrl[name][j]), bool(nrm) == bool(normalized)))
    return tot


def agg_body(I, done, surplus, nrm, **k):
    mg, mods = abstract_microgrid(I, done=False, **k)
    for md in mg.modules.iterlist():
        md.extra = md.tag.endswith('0') if hasattr(md, 'tag') else False
    last = list(mg.modules.iterlist())
    w = I.choice('which done', done)
    if w != 'none' and hasattr(last[w], 'tag'):
        last[w].may_done = True
    log, order = record(mg)
    ctrl = control(I, mg)
    keep = {k: list(v) for k, v in ctrl.items()}
    if surplus:
        ctrl['no such module'] = [I.real('junk')]
    passed = dict(ctrl)
    out = I.must('step succeeds', mg.run, passed, normalized=nrm)
    I.cover('done' if out[2] else 'not done')
    checks(I, mg, keep, nrm, log, out)
    I.ensure('the control is not modified', list(passed) == list(ctrl) and all(passed[k] is ctrl[k] for k in ctrl) and and_(*[seq(passed[k], keep[k]) for k in keep]))
    for nm, o in mods:
        I.ensure('the modules used for construction are not modified', len(o.calls) == 0 and o.current_step == 0)


TG = [R + 'run', S + 'append', S + 'output', S + 'shaped_reward', S + '_output_info']


@contract('C10', 'step aggregates its modules', targets=TG, budget=150, max_paths=20000, covers=['not done'],
          bounded='up to two fixed, two controllable and one flexible module besides the balancing one (same or different names); all values')
def agg(I):
    agg_body(I, ['none'], False, False, fixed=(0, 1, 2), ctrl=(1, 2), flex=(0, 1), kinds=('source', 'sink'))


@contract('C10', 'done and surplus control', targets=TG, budget=150, max_paths=20000, covers=['done', 'not done'],
          bounded='one fixed, up to two controllable and one flexible module besides the balancing one; all values')
def agg2(I):
    agg_body(I, [0, -2], True, I.bool('normalized'), fixed=(1,), ctrl=(1, 2), flex=(1,), kinds=('source',))


CALL = ['pymgrid.microgrid.utils.step.MicrogridStep (step result object, any history)', 'pymgrid.modules.module_container.ModuleContainer (C18)', 'BaseMicrogridModule.step (C04)']


def many(w):
    @contract('C10', f'every {w} module takes part, any number of modules', targets=[R + 'run'], covers=['c'], budget=150, max_paths=20000, confirm=True, random_n=100,
              callees=CALL, note='loops over the fixed, controllable and flexible modules by invariant')
    def unbounded(I):
        if I.symbolic:
            from .. import runloop
            return runloop.c10(I, w)
        agg_body(I, ['none'], I.bool('surplus'), I.bool('normalized'), fixed=range(6), ctrl=range(6), flex=range(5), kinds=('source', 'sink'))


for w in ('fixed', 'controllable', 'flex'):
    many(w)


@contract('C10', 'missing control is an error', targets=[R + 'run'], bounded='up to two controllable modules', covers=['c'])
def missing(I):
    mg, mods = abstract_microgrid(I, fixed=(0, 1), ctrl=(1, 2), flex=(0,), kinds=('source', 'sink'))
    ctrl = control(I, mg)
    drop = I.choice('drop', [0, -1])
    name = list(ctrl)[drop]
    del ctrl[name]
    if I.bool('other'):
        ctrl['unrelated'] = [0.0]
    o = I.call(mg.run, ctrl, normalized=False)
    I.cover('c')
    I.ensure('missing entry is an error', not o.ok)


@contract('C10', 'reward shaping replaces the reward', targets=[R + 'run', S + 'shaped_reward', S + 'output', R + 'get_cost_info'],
          bounded='up to two fixed, one controllable and one flexible module', covers=['c'])
def shaping(I):
    seen = []
    val = I.real('shaped')

    def f(info, cost):
        seen.append((info, cost))
        return val
    mg, mods = abstract_microgrid(I, fixed=(0, 1, 2), ctrl=(0, 1), flex=(0, 1), kinds=('source', 'sink'), reward_shaping_func=f)
    log, order = record(mg)
    ctrl = control(I, mg)
    out = I.must('step succeeds', mg.run, ctrl, normalized=False)
    I.cover('c')
    aggregate(I, mg, log, out, rewards_shaped=True)
    I.ensure('reward is the value of the shaping function', eq(out[1], val))
    I.ensure('the shaping function is used', len(seen) > 0)
    info, cost = seen[-1]
    I.ensure('the shaping function sees the information of every module', set(info) == set(out[3]) and
             and_(*[and_(len(info[k]) == len(out[3][k]), *[same_info(x, y) for x, y in zip(info[k], out[3][k])]) for k in out[3]]))
    I.ensure('the shaping function sees the costs of every module', set(cost) == set(out[3]) and all(len(cost[k]) == len(out[3][k]) for k in cost))


@contract('C10', 'step result object', targets=[S + 'append', S + 'balance', S + 'output'], bounded='three appended results', covers=['c'], aux=True)
def stepobj(I):
    MS = mod('pymgrid.microgrid.utils.step').MicrogridStep
    ms = MS()
    exp = {}
    tot, p, a, dn = 0.0, 0.0, 0.0, False
    for i in range(3):
        nm = I.choice(f'name{i}', ['a', 'b'])
        r, e = I.real(f'r{i}'), I.real(f'e{i}', lo=0)
        src = I.bool(f'src{i}')
        d = I.bool(f'd{i}') if i != 1 else False
        info = {'provided_energy' if src else 'absorbed_energy': e, 'x': I.real(f'x{i}')}
        ob = I.real(f'o{i}')
        ms.append(nm, ob, r, d, info)
        exp.setdefault(nm, []).append((ob, info))
        tot = tot + r
        dn = dn or d
        if src:
            p = p + e
        else:
            a = a + e
    I.cover('c')
    P, A, R_, SR = ms.balance()
    I.ensure('balance totals', and_(eq(P, p), eq(A, a), eq(R_, tot), eq(SR, tot)))
    o, r, d, inf = ms.output()
    I.ensure('output', and_(list(o) == list(exp) and list(inf) == list(exp), eq(r, tot), bool(d) == dn))
    for k in exp:
        I.ensure('order kept', and_(seq(o[k], [x[0] for x in exp[k]]), len(inf[k]) == len(exp[k]), *[same_info(x, y[1]) for x, y in zip(inf[k], exp[k])]))


@contract('C10', 'step result object, any history', targets=[S + 'append', S + 'balance', S + 'output', S + 'shaped_reward', S + '_output_info'], covers=['c'], aux=True,
          note='induction over the number of recorded results: an arbitrary state before the next result is recorded')
def stephist(I):
    MS = mod('pymgrid.microgrid.utils.step').MicrogridStep
    val = I.real('shaped')
    shaped = I.bool('shaping')
    seen = []

    def f(info, cost):
        seen.append(info)
        return val
    ms = MS(reward_shaping_func=f if shaped else None, cost_info={})
    names = ['a', 'b'] if I.bool('two names') else ['a']
    n = {k: I.int('n_' + k, lo=1, hi=None if I.symbolic else 4) for k in names}
    hist = {}
    if I.symbolic:
        tot, p, a = I.real('R'), I.real('P', lo=0), I.real('A', lo=0)
        dn = I.bool('D')
        np_, na = I.int('np', lo=0), I.int('na', lo=0)
        for k in names:
            hist[k] = (SymList.base('obs_' + k, n[k]), SymList.base('info_' + k, n[k]))
        ms._obs = {k: hist[k][0].copy() for k in names}
        ms._info = {k: hist[k][1].copy() for k in names}
        ms._energy = dict(absorbed_energy=SymList.base('absorbed', na, a), provided_energy=SymList.base('provided', np_, p))
        ms._reward, ms._done = tot, dn
    else:
        tot, p, a, dn = 0.0, 0.0, 0.0, False
        for k in names:
            hist[k] = ([], [])
            for i in range(n[k]):
                src, e, r, d = I.bool(f'src{k}{i}'), I.real(f'e{k}{i}', lo=0), I.real(f'r{k}{i}'), I.bool(f'd{k}{i}')
                info = {'provided_energy' if src else 'absorbed_energy': e}
                ob = I.real(f'o{k}{i}')
                ms.append(k, ob, r, d, info)
                hist[k][0].append(ob)
                hist[k][1].append(info)
                tot, dn = tot + r, dn or d
                p, a = (p + e, a) if src else (p, a + e)
    nm = I.choice('name', ['a', 'b', 'c'])
    e, r, d = I.real('e', lo=0), I.real('r'), I.bool('d')
    kind = I.choice('kind', ['provided_energy', 'absorbed_energy', None])
    info = {'x': I.real('x')}
    if kind:
        info[kind] = e
    ob = I.real('o')
    keep = dict(info)
    I.must('a result can be recorded', ms.append, nm, ob, r, d, info)
    P, A, R_, SR = I.must('the totals can be read', ms.balance)
    I.cover('c')
    I.ensure('balance totals', and_(eq(P, p + (e if kind == 'provided_energy' else 0.0)), eq(A, a + (e if kind == 'absorbed_energy' else 0.0)), eq(R_, tot + r)))
    o, rew, done, inf = I.must('the result can be read', ms.output)
    I.ensure('reward', and_(eq(rew, val if shaped else tot + r), eq(SR, val if shaped else tot + r)))
    I.ensure('done', bool(done) == bool(dn or d))
    I.ensure('names', list(o) == list(inf) == names + ([nm] if nm not in names else []))
    for k in o:
        h = hist.get(k, ([], []))
        I.ensure('earlier results are kept, the new one is last', is_history(o[k], h[0], [ob] if k == nm else []))
        if k == nm:
            I.ensure('earlier information is kept, the new one is last', last_is(inf[k], h[1], info))
        else:
            I.ensure('earlier information is kept', same_list(inf[k], h[1]))
    I.ensure('the information of a module is not modified', set(info) == set(keep) and all(info[k] is keep[k] for k in keep))
    if shaped:
        I.ensure('the shaping function sees the information of every module', len(seen) > 0 and list(seen[-1]) == list(inf) and all(same_list(seen[-1][k], inf[k]) for k in inf))


def same_list(x, y):
    if isinstance(x, SymList) or isinstance(y, SymList):
        return isinstance(x, SymList) and isinstance(y, SymList) and len(x.parts) == len(y.parts) and all(
            (a.same(b) if isinstance(a, Seg) and isinstance(b, Seg) else a is b) for a, b in zip(x.parts, y.parts))
    return len(x) == len(y) and all(a == b for a, b in zip(x, y))


def last_is(x, base, item):
    if isinstance(x, SymList):
        return same_list(SymList(x.parts[:-1]), base) and x.parts[-1] == item
    return len(x) == len(base) + 1 and same_list(list(x)[:-1], list(base)) and x[-1] == item


@contract('C10', 'built-in microgrids aggregate', sym=False, bounded='random microgrids of built-in modules and random histories on the real code', random_n=400)
def real(I):
    from ..mg import random_microgrid, random_control
    import numpy as np
    shape = I.choice('shape', [None, 'f'])
    f = (lambda info, cost: sum(d.get('provided_energy', 0.0) for l in info.values() for d in l)) if shape else None
    m, P = random_microgrid(I, max_rows=10, reward_shaping_func=f)
    before = [(md.current_step, list(np.atleast_1d(md.state_dict().values() and list(md.state_dict().values())))) for md in _mods(P['given'])]
    ids = {id(x) for x in m.modules.iterlist()}
    I.ensure('modules are copied', not any(id(x) in ids for x in _mods(P['given'])))
    for s in range(I.int('steps', lo=1, hi=6)):
        if m.current_step >= P['n'] and P['has_ts']:
            m.reset()
        ctrl = random_control(I, m, f'c{s}')
        keep = copy.deepcopy(ctrl)
        log, order = record(m)
        nrm = True
        passed = dict(ctrl)
        if I.bool(f'sur{s}'):
            passed['zzz'] = [1.0]
        out = I.must('step succeeds', m.run, passed, normalized=nrm)
        checks(I, m, keep, nrm, log, out, shape)
        if shape:
            I.ensure('reward is the value of the shaping function', eq(out[1], f(out[3], None)))
        for md in m.modules.iterlist():
            md.__dict__.pop('step', None)
        for k in keep:
            I.ensure('the control is not modified', k in passed and len(passed[k]) == len(keep[k]) and all(np.array_equal(x, y) for x, y in zip(passed[k], keep[k])))
    after = [(md.current_step, list(np.atleast_1d(md.state_dict().values() and list(md.state_dict().values())))) for md in _mods(P['given'])]
    I.ensure('the modules used for construction are not modified', all(a[0] == b[0] and np.array_equal(a[1], b[1]) for a, b in zip(before, after)))
    for md in _mods(P['given']):
        I.ensure('the modules used for construction have empty logs', len(md.log_dict()) == 0)


def _mods(given):
    return [x[1] if isinstance(x, tuple) else x for x in given]

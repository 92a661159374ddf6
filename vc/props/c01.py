from ..spec import *
from ..models import *
from ..absmod import *

R = 'pymgrid.microgrid.microgrid.Microgrid.'
S = 'pymgrid.microgrid.utils.step.MicrogridStep.'
# ASSUME: modules used inside a microgrid satisfy the step contract proved in C04 (served exactly within limits, clipped outside, one direction per step); flexible modules have no must-run minimum (true of every built-in flexible module)


def flows(info):
    p = [d['provided_energy'] for k, l in info.items() for d in l if 'provided_energy' in d]
    a = [d['absorbed_energy'] for k, l in info.items() for d in l if 'absorbed_energy' in d]
    return p, a


def checks(I, mg, info, limits):
    p, a = flows(info)
    I.ensure('total provided equals total absorbed', eq(total(p), total(a)))
    bal = info['balancing'] if 'balancing' in info else info.get('unbalanced_energy')
    I.ensure('the balancing module reports once', bal is not None and len(bal) == 1)
    b = bal[0]
    unmet, over = b.get('provided_energy', 0.0), b.get('absorbed_energy', 0.0)
    I.ensure('unmet load and overgeneration are non-negative', and_(ge(unmet, 0), ge(over, 0)))
    I.ensure('not both unmet load and overgeneration', or_(eq(unmet, 0), eq(over, 0)))
    I.cover('balanced')
    for name, lst in mg.flex.iterdict():
        if name in ('balancing', 'unbalanced_energy'):
            continue
        for md, d in zip(lst, info[name]):
            mp, mc = limits[md]
            got, took = d.get('provided_energy', 0.0), d.get('absorbed_energy', 0.0)
            if md.is_source:
                I.ensure('unmet load only after every flexible source is exhausted', implies(gt(unmet, 0), eq(got, mp)))
            if md.is_sink:
                I.ensure('overgeneration only after every flexible sink is exhausted', implies(gt(over, 0), eq(took, mc)))
    return unmet, over


def _run(I, **kw):
    mg, mods = abstract_microgrid(I, **kw)
    limits = {id(md): (md.max_production, md.max_consumption) for md in mg.flex.iterlist()}

    class Lim:
        def __getitem__(self, md): return limits[id(md)]
    ctrl = control(I, mg)
    out = I.must('the step never fails to balance', mg.run, ctrl, normalized=False)
    checks(I, mg, out[3], Lim())


contract('C01', 'step balances, flexible modules', targets=[R + 'run', S + 'append', S + 'balance', S + 'output', R + '_get_log_dict'],
         bounded='one fixed source, sink or none, one controllable, up to two flexible modules besides the balancing one; all energies, limits and controls', covers=['balanced'], budget=200, max_paths=20000)(
    lambda I: _run(I, fixed=(0, 1), ctrl=(0, 1), flex=(0, 1, 2)))
contract('C01', 'step balances, many fixed and controllable modules', targets=[R + 'run', S + 'append', S + 'balance'],
         bounded='up to two fixed and two controllable modules, one flexible source besides the balancing module', covers=['balanced'], budget=200, max_paths=20000)(
    lambda I: _run(I, fixed=(0, 1, 2), ctrl=(0, 1, 2), flex=(0, 1), kinds=('source', 'sink')))


@contract('C01', 'step balances, any number of modules', targets=[R + 'run'], covers=['balanced', 'unmet'], budget=200, max_paths=20000, confirm=True, random_n=150,
          callees=['pymgrid.microgrid.utils.step.MicrogridStep (C10)', 'pymgrid.modules.module_container.ModuleContainer (C18)', 'BaseMicrogridModule.step (C04)'],
          note='loops over the fixed, controllable and flexible modules by invariant')
def unbounded(I):
    if I.symbolic:
        from .. import runloop
        return runloop.c01(I)
    _run(I, fixed=range(6), ctrl=range(5), flex=range(7))


@contract('C01', 'built-in modules balance', sym=False, bounded='random microgrids of up to two of every built-in module and random histories on the real code', random_n=400)
def real(I):
    from ..mg import random_microgrid, random_control
    m, P = random_microgrid(I, max_rows=10)
    for s in range(I.int('steps', lo=1, hi=8)):
        if m.current_step >= P['n'] and P['has_ts']:
            m.reset()
        lim = {id(md): (md.max_production, md.max_consumption if md.is_sink else 0.0) for md in m.flex.iterlist()}

        class Lim:
            def __getitem__(self, md): return lim[id(md)]
        if I.bool(f'raw{s}'):
            ctrl = {k: [md.from_normalized(v, act=True) for md, v in zip(m.controllable[k], vs)] for k, vs in random_control(I, m, f'c{s}').items()}
            out = I.must('the step never fails to balance', m.run, ctrl, normalized=False)
        else:
            out = I.must('the step never fails to balance', m.run, random_control(I, m, f'c{s}'), normalized=True)
        checks(I, m, out[3], Lim())

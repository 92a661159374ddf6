from ..spec import *
from ..models import *
from ..absmod import *
from ..symlist import *
from .c04 import build
import math

L = 'pymgrid.utils.logger.ModularLogger.'
BM = 'pymgrid.modules.base.base_module.BaseMicrogridModule.'
R = 'pymgrid.microgrid.microgrid.Microgrid.'
NAMES = {'battery': ('discharge_amount', 'charge_amount'), 'grid': ('grid_import', 'grid_export'), 'renewable': ('renewable_used', None),
         'load': (None, 'load_met'), 'genset': ('genset_production', None), 'balancing': ('loss_load', 'overgeneration')}


def ML():
    return mod('pymgrid.utils.logger').ModularLogger


# ------------------------------------------------------------------ the logger itself
@contract('C14', 'logging one step', targets=[L + '__init__', L + 'log', L + 'to_dict', L + '__len__'], covers=['new column', 'missing value'],
          note='induction over the history: any number of past steps; up to three columns')
def logone(I):
    n = I.int('n', lo=0, hi=None if I.symbolic else 5)
    cols = {}
    for k in ('a', 'b', 'c'):
        if I.bool('old_' + k):
            cols[k] = history(I, 'h_' + k, n)
    if not cols:
        I.assume(eq(n, 0))
    new = {}
    for k in ('b', 'c', 'd'):
        if I.bool('new_' + k):
            new[k] = I.real('v_' + k)
    if not cols and not new:
        I.assume(False) if not I.symbolic else I.assume(eq(n, 1))
        return
    keep = {k: v.copy() for k, v in cols.items()}
    lg = I.must('a log can be restored', ML(), dict(cols))
    I.ensure('length of the restored log', eq(length(lg), n))
    I.must('logging succeeds', lg.log, **new)
    out = lg.to_dict()
    I.ensure('the columns are those ever logged', set(out) == set(cols) | set(new))
    for k in out:
        base = keep.get(k)
        val = new[k] if k in new else float('nan')
        if k not in keep:
            I.cover('new column')
        if k not in new:
            I.cover('missing value')
        I.ensure('earlier entries are kept, the new one is appended, missing values are missing exactly where absent',
                 is_history(out[k], base, [val], nan_prefix=n if base is None else None))
        I.ensure('every column has one entry per step', eq(length(out[k]), n + 1))
    I.ensure('length grows by one', eq(length(lg), n + 1))


@contract('C14', 'log values', targets=[L + 'log', L + 'flush', L + 'to_dict', L + 'from_raw', L + 'raw'], bounded='three calls of log', covers=['c'])
def values(I):
    lg = ML()()
    exp = {'a': [], 'b': []}
    n = 0
    for s in range(3):
        d = {}
        for k in ('a', 'b'):
            if I.bool(f'{k}{s}'):
                v = I.real(f'v{k}{s}')
                d[k] = v
            exp[k].append(d.get(k, float('nan')))
        lg.log(**d)
    I.cover('c')
    out = lg.to_dict()
    for k in exp:
        if k in out:
            I.ensure('column holds exactly the values logged', is_history(out[k], [], exp[k]))
        else:
            I.ensure('a column is absent only if never logged', all(isinstance(x, float) and math.isnan(x) for x in exp[k]))
    copy2 = I.must('restoring', ML().from_raw, out)
    I.ensure('restored log has the same content', set(copy2.to_dict()) == set(out) and and_(*[is_history(copy2.to_dict()[k], [], list(out[k])) for k in out]) if out else True)
    got = lg.flush()
    I.ensure('flush returns the content', set(got) == set(k for k in exp if k in out) and (and_(*[is_history(got[k], [], exp[k]) for k in got]) if got else True))
    I.ensure('flush empties the log', len(lg) == 0 and len(lg.to_dict()) == 0)
    lg.log(a=1.0)
    I.ensure('a flushed log starts again', lg.to_dict() == {'a': [1.0]} and len(lg) == 1)


# ------------------------------------------------------------------ modules
def prior_log(I, m, keys, extras):
    """an arbitrary earlier log of the module"""
    n = I.int('past', lo=1, hi=None if I.symbolic else 3)
    have = list(keys) + (list(extras) if I.bool('past_extras') else [])
    cols = {k: history(I, 'past_' + k, n) for k in have}
    m.logger = ML()({k: v.copy() for k, v in cols.items()})
    return n, cols


def module_entry(kind):
    def f(I):
        m, lim, P = build(I, kind, False)
        a = I.real('action')
        act = arr(I, [I.choice('goal', [0, 1]), a]) if kind == 'genset' else a
        if kind in ('renewable', 'genset'):
            I.assume(ge(a, 0))
        if kind == 'load':
            act = 0.0
        state = dict(m.state_dict())
        pn, an = NAMES[kind]
        if pn is not None:
            I.ensure('name of the provided energy', m.provided_energy_name == pn)
        if an is not None:
            I.ensure('name of the absorbed energy', m.absorbed_energy_name == an)
        pn, an = m.provided_energy_name, m.absorbed_energy_name
        names = [x for x in (pn, an) if x is not None]
        extras = {'renewable': ['curtailment'], 'genset': ['co2_production'], 'grid': ['co2_production']}.get(kind, [])
        first = I.bool('first')
        n, cols = (0, {}) if first else prior_log(I, m, list(state) + ['reward'] + names, extras)
        out = I.must('step succeeds', m.step, act, normalized=False)
        _, reward, _, info = out
        if kind == 'genset':
            state = dict(m.state_dict())     # the status in force during the step, updated at its start (C05)
        exp = dict(state)
        exp['reward'] = reward
        if pn is not None:
            exp[pn] = info.get('provided_energy', 0.0)
        if an is not None:
            exp[an] = info.get('absorbed_energy', 0.0)
        for k, v in info.items():
            if k not in ('provided_energy', 'absorbed_energy'):
                exp[k] = v
        I.cover('first' if first else 'later')
        lg = m.log_dict()
        I.ensure('the columns of the log', set(lg) == set(exp) | set(cols))
        for k in lg:
            what = 'state before the step' if k in state else 'reward' if k == 'reward' else 'energy' if k in names else 'information'
            v = exp.get(k, float('nan'))
            I.ensure(f'log entry: {what}', is_history(lg[k], cols.get(k, [] if first else None), [v], nan_prefix=n if k not in cols else None))
            I.ensure('one entry per step', eq(length(lg[k]), n + 1))
        for k in exp:
            I.ensure('every value is logged', k in lg)
        if pn is not None and an is not None:
            I.ensure('zero for the direction not used', or_(eq(exp[pn], 0), eq(exp[an], 0)))
        I.ensure('last log entry', and_(*[same_val(m.logger_last[k], exp[k]) for k in exp]))
        if not first:
            return
        I.must('reset succeeds', m.reset)
        I.ensure('reset empties the log', len(m.log_dict()) == 0 and eq(length(m.logger), 0))
    return f


CL = {'battery': 'battery_module.BatteryModule.', 'grid': 'grid_module.GridModule.', 'renewable': 'renewable_module.RenewableModule.',
      'load': 'load_module.LoadModule.', 'genset': 'genset_module.GensetModule.', 'balancing': 'unbalanced_energy_module.UnbalancedEnergyModule.'}
for _k in NAMES:
    contract('C14', f'log entry of one step: {_k}', targets=[BM + 'step', BM + '_log', BM + 'reset', BM + 'log_dict', BM + 'logger_last', 'pymgrid.modules.' + CL[_k] + 'update'],
             covers=['first', 'later'], budget=250, note='induction over the history: any number of earlier log entries')(module_entry(_k))


# ------------------------------------------------------------------ balance log
PRE = [f'{a}_{b}' for a in ('fixed', 'controllable', 'overall') for b in ('provided_to_microgrid', 'absorbed_from_microgrid')]


def bal(mg):
    lg = getattr(mg, '_balance_logger', None)
    if lg is None:
        undecided('balance logger not found')
    return lg


@contract('C14', 'balance log entry, any number of modules', targets=[R + 'run', R + '_get_log_dict'], covers=['c'], budget=150, max_paths=20000, confirm=True, random_n=100,
          callees=['pymgrid.microgrid.utils.step.MicrogridStep (C10)', 'pymgrid.modules.module_container.ModuleContainer (C18)', 'BaseMicrogridModule.step (C04)', 'ModularLogger.log (logging one step)'])
def unbounded(I):
    if I.symbolic:
        from .. import runloop
        return runloop.c14(I)
    _balance(I, range(6), range(6), range(5))


@contract('C14', 'balance log entry', targets=[R + 'run', R + '_get_log_dict', R + 'reset'], covers=['c'], budget=150, max_paths=20000,
          bounded='up to two fixed, two controllable and one flexible module besides the balancing one; any history, all values')
def balance(I):
    _balance(I, (0, 2), (0, 2), (0, 1))


def _balance(I, nf, nc, nx):
    shaped = I.bool('shaped')
    f = (lambda info, cost: 17.5) if shaped else None
    mg, mods = abstract_microgrid(I, fixed=nf, ctrl=nc, flex=nx, kinds=('source', 'sink'), reward_shaping_func=f)
    n, cols = 0, {}
    if I.bool('earlier steps'):
        n = I.int('past', lo=1, hi=None if I.symbolic else 3)
        cols = {k: history(I, 'past_' + k, n) for k in PRE + ['reward', 'shaped_reward']}
        lg = ML()({k: v.copy() for k, v in cols.items()})
        bal(mg)
        mg._balance_logger = lg
    bal(mg)
    out = I.must('step succeeds', mg.run, control(I, mg), normalized=False)
    info = out[3]
    tot = {}
    for grp, cont in (('fixed', mg.fixed), ('controllable', mg.controllable), ('overall', mg.modules)):
        p = [d.get('provided_energy', 0.0) for nm, l in cont.iterdict() for d in info[nm]]
        a = [d.get('absorbed_energy', 0.0) for nm, l in cont.iterdict() for d in info[nm]]
        tot[grp + '_provided_to_microgrid'], tot[grp + '_absorbed_from_microgrid'] = total(p), total(a)
    rew = total([md.outs[-1][1] for md in mg.modules.iterlist() if hasattr(md, 'outs')])
    bm = [md for md in mg.modules.iterlist() if not hasattr(md, 'outs')]
    rew = rew + total([md.logger_last['reward'] for md in bm])
    tot['reward'] = rew
    tot['shaped_reward'] = 17.5 if shaped else rew
    I.cover('c')
    lg = bal(mg).to_dict()
    I.ensure('columns of the balance log', set(PRE) | {'reward'} <= set(lg))
    for k in lg:
        if k in tot:
            what = 'unshaped reward' if k == 'reward' else 'shaped reward' if k == 'shaped_reward' else k.split('_')[0] + ' totals'
            I.ensure('balance log: ' + what, is_history(lg[k], cols.get(k, [] if not cols else None), [tot[k]]))
        I.ensure('one balance entry per step', eq(length(lg[k]), n + 1))
    if not cols:
        r = I.must('reset succeeds', mg.reset)
        I.ensure('reset returns the balance log', 'balance' in r and set(r['balance']) == set(lg) and and_(*[is_history(r['balance'][k], [], list(lg[k])) for k in lg]))
        I.ensure('reset empties the balance log', len(bal(mg).to_dict()) == 0 and len(bal(mg)) == 0)


# ------------------------------------------------------------------ real histories
@contract('C14', 'logs of random histories', sym=False, bounded='random microgrids, histories of up to 12 steps with resets on the real code', random_n=250)
def histories(I):
    from ..mg import random_microgrid, random_control
    import numpy as np
    from pymgrid.microgrid.trajectory import DeterministicTrajectory
    f = (lambda info, cost: 1.0) if I.bool('shape') else None
    m, P = random_microgrid(I, windows=True, horizons=(None, 0, 2), max_rows=9, reward_shaping_func=f)
    init, fin = P['init'], P['fin']
    if I.bool('traj') and fin - init > 1:
        a = I.int('t0', lo=init, hi=fin - 1)
        b = I.int('t1', lo=a + 1, hi=fin)
        m.trajectory_func = DeterministicTrajectory(a, b)
        m.reset()
        init, fin = a, b
    exp, ebal, cur = {}, [], init
    for s in range(I.int('steps', lo=1, hi=12)):
        if cur >= fin or I.choice(f'reset{s}', [0, 0, 0, 0, 1]):
            r = m.reset()
            if ebal:
                I.ensure('reset returns the balance log', [round(x, 6) for x in r['balance']['overall_provided_to_microgrid']] == [round(x['op'], 6) for x in ebal])
            exp, ebal, cur = {}, [], init
        pre = {(k, j): md.state_dict() for k, l in m.modules.iterdict() for j, md in enumerate(l)}
        out = I.must('step succeeds', m.run, random_control(I, m, f'c{s}'), normalized=True)
        cur += 1
        e = dict(op=0.0, oa=0.0, fp=0.0, fa=0.0, cp=0.0, ca=0.0)
        for k, l in m.modules.iterdict():
            for j, md in enumerate(l):
                inf = dict(out[3][k][j])
                pe, ae = inf.pop('provided_energy', 0.0), inf.pop('absorbed_energy', 0.0)
                ent = {**inf, **(pre[k, j] if type(md).__name__ != 'GensetModule' else md.state_dict())}
                if md.provided_energy_name is not None:
                    ent[md.provided_energy_name] = pe
                if md.absorbed_energy_name is not None:
                    ent[md.absorbed_energy_name] = ae
                exp.setdefault((k, j), []).append(ent)
                e['op'] += pe
                e['oa'] += ae
                role = md.module_type[1]
                if role == 'fixed':
                    e['fp'] += pe
                    e['fa'] += ae
                elif role == 'controllable':
                    e['cp'] += pe
                    e['ca'] += ae
        ebal.append(e)
        if not I.choice(f'look{s}', [0, 0, 1]):
            continue
        n = len(ebal)
        df = I.must('the log can be read', m.get_log)
        I.ensure('one row per step', len(df) == n)
        I.ensure('rows are labelled with the steps', list(df.index) == list(range(init, cur)))
        rewards = np.zeros(n)
        for (k, j), ents in exp.items():
            md = m.modules[k][j]
            lg = md.log_dict()
            keys = set().union(*[set(x) for x in ents])
            I.ensure('columns', set(lg) == keys | {'reward'})
            for c in keys:
                want = [x.get(c, float('nan')) for x in ents]
                I.ensure('module entries', is_history(lg[c], [], want))
                I.ensure('module entries in the microgrid log', is_history(list(df[(k, j, c)]), [], want))
            I.ensure('reward entries', len(lg['reward']) == n)
            rewards += np.array(lg['reward'])
        b = df['balance'][0]
        for c, q in (('overall_provided_to_microgrid', 'op'), ('overall_absorbed_from_microgrid', 'oa'), ('fixed_provided_to_microgrid', 'fp'),
                     ('fixed_absorbed_from_microgrid', 'fa'), ('controllable_provided_to_microgrid', 'cp'), ('controllable_absorbed_from_microgrid', 'ca')):
            I.ensure('balance totals', seq(list(b[c]), [x[q] for x in ebal]))
        I.ensure('balance reward is unshaped', seq(list(b['reward']), list(rewards)))
        if f is not None:
            I.ensure('shaped reward', seq(list(b['shaped_reward']), [1.0] * n))

from ..spec import *
from ..models import *

T = 'pymgrid.modules.base.timeseries.base_timeseries_module.BaseTimeSeriesMicrogridModule.'
B = 'pymgrid.modules.base.base_module.BaseMicrogridModule.'
# ASSUME: episode windows satisfy 0 <= initial_step (negative steps would be Python negative indices)

L = lambda x: list(x) if hasattr(x, '__len__') else [x]


def window(I, n):
    """any window of the series, given explicitly or through a non-positive final step"""
    init = I.int('initial', lo=0, hi=n - 1)
    if I.choice('final_kind', ['explicit', 'end']) == 'end':
        arg = I.int('final_arg', hi=0, lo=None)
        return init, arg, n
    fin = I.int('final', lo=init + 1, hi=n)
    return init, fin, fin


def ts_module(I, kind, horizon=None):
    ncols = 4 if kind == 'grid' else 1
    ts = I.series('ts', ncols=ncols, nonneg=True, binary_cols=(3,) if kind == 'grid' else ())
    n = ts.shape[0]
    init, arg, fin = window(I, n)
    fk = {} if horizon is None else dict(forecaster='oracle', forecast_horizon=horizon)
    M = modules()
    if kind == 'grid':
        m = I.must('construction', M.GridModule, max_import=I.real('imp', lo=0), max_export=I.real('exp', lo=0), time_series=ts, initial_step=init, final_step=arg, **fk)
    else:
        m = I.must('construction', dict(load=M.LoadModule, renewable=M.RenewableModule)[kind], time_series=ts, initial_step=init, final_step=arg, **fk)
    sgn = -1 if kind == 'load' else 1
    return m, dict(ts=ts, n=n, init=init, fin=fin, sgn=sgn, k=ncols)


def row(P, t):
    return [P['sgn'] * P['ts'][t, j] for j in range(P['k'])]


def _step(I, kind, horizon=None):
    m, P = ts_module(I, kind, horizon)
    I.ensure('clock starts at the initial step', eq(m.current_step, P['init']))
    I.ensure('final step', eq(m.final_step, P['fin']))
    t = I.row_index('t', P['ts'])
    goto(I, m, t)
    I.ensure('observation is the row of the current step', seq(L(m.current_obs), row(P, t)))
    sd = list(m.state_dict().values())
    I.ensure('state starts with the row of the current step', seq(sd[:P['k']], row(P, t)))
    a = 0.0 if kind == 'load' else I.real('action', lo=0) if kind == 'renewable' else I.real('action')
    obs, reward, done, info = I.must('step succeeds', m.step, a, normalized=False)
    I.ensure('step advances the clock by one', eq(m.current_step, t + 1))
    I.cover('stepped')
    if I.is_(bool_(done)):
        I.cover('done')
        I.ensure('done only at the last row before the final step', ge(t, P['fin'] - 1))
    else:
        I.cover('not done')
        I.ensure('done at the last row before the final step', lt(t, P['fin'] - 1))
    if I.is_(lt(t + 1, P['n'])):
        I.ensure('next observation is the next row', seq(L(m.current_obs), row(P, t + 1)))
    else:
        I.cover('end')
        lo, hi = ([b[j] for j in range(P['k'])] for b in (m.min_obs, m.max_obs))
        I.ensure('filler beyond the end', seq(L(m.current_obs), [(x + y) / 2 for x, y in zip(lo, hi)]))
    I.must('reset succeeds', m.reset)
    I.ensure('reset returns to the initial step', eq(m.current_step, P['init']))
    I.ensure('reset keeps the window', and_(eq(m.final_step, P['fin']), eq(m.initial_step, P['init'])))
    I.ensure('observation after reset', seq(L(m.current_obs), row(P, P['init'])))


def bool_(x):
    return x


for _k in ('load', 'renewable', 'grid'):
    contract('C12', f'{_k} clock', targets=[T + '__init__', T + '_update_step', T + '_done', T + 'current_obs', T + 'final_step', T + '_state_dict', B + 'step', B + 'reset', B + '_update_step'],
             covers=['stepped', 'done', 'not done', 'end'])(lambda I, _k=_k: _step(I, _k))
for _k in ('load', 'renewable', 'grid'):
    contract('C12', f'{_k} clock with forecast', targets=[T + '_update_step', T + 'forecast', T + 'current_obs'],
             covers=['stepped', 'done', 'not done', 'end'])(lambda I, _k=_k: _step(I, _k, horizon(I)))


@contract('C12', 'window validation', targets=[T + 'final_step', T + '__init__'], covers=['ok', 'rejected', 'set ok', 'set rejected'])
def windows(I):
    ts = I.series('ts', nonneg=True)
    n = ts.shape[0]
    init = I.int('initial', lo=0)
    fin = I.int('final')
    eff = ite(le(fin, 0), n, fin)
    o = I.call(modules().LoadModule, time_series=ts, initial_step=init, final_step=fin)
    if o.ok:
        I.cover('ok')
        I.ensure('accepted window is non-empty', lt(init, eff))
        I.ensure('non-positive final step means the end of the series', eq(o.value.final_step, eff))
    else:
        I.cover('rejected')
        I.ensure('only empty windows are rejected', or_(ge(init, eff), ge(init, n)))
        I.ensure('rejection is a ValueError', o.raised(ValueError))
        return
    m = o.value
    f2 = I.int('final2')
    eff2 = ite(le(f2, 0), n, f2)
    o2 = I.call(setattr, m, 'final_step', f2)
    if o2.ok:
        I.cover('set ok')
        I.ensure('assigned window is non-empty', lt(init, eff2))
        I.ensure('assigned final step', eq(m.final_step, eff2))
    else:
        I.cover('set rejected')
        I.ensure('assignment rejects only empty windows', ge(init, eff2))


@contract('C12', 'fractional final step rejected', targets=[T + 'final_step'], covers=['c'])
def frac(I):
    ts = I.series('ts', nonneg=True, min_rows=4)
    m = modules().LoadModule(time_series=ts)
    f = I.real('f', lo=1)
    o = I.call(setattr, m, 'final_step', f)
    if o.ok:
        I.cover('c')
        if I.symbolic:
            I.ensure('accepted final step is an integer', f.is_integer())
        else:
            I.ensure('accepted final step is an integer', float(f).is_integer())


@contract('C12', 'clock of modules without a series', targets=[B + 'step', B + 'reset', B + '_update_step'], covers=['b', 'g', 'u'])
def plain(I):
    kind = I.choice('kind', ['b', 'g', 'u'])
    init = I.int('initial', lo=0)
    if kind == 'b':
        m, P = battery(I, initial_step=init)
    elif kind == 'g':
        m, P = genset(I, state='init', initial_step=init)
    else:
        m, P = unbalanced(I, initial_step=init)
    I.ensure('clock starts at the initial step', eq(m.current_step, init))
    t = I.int('t', lo=0)
    m.current_step = t
    a = I.real('action')
    if kind == 'g':
        I.assume(ge(a, 0))
    out = I.must('step succeeds', m.step, a if kind != 'g' else arr(I, [I.choice('goal', [0, 1]), a]), normalized=False)
    I.cover(kind)
    I.ensure('step advances the clock by one', eq(m.current_step, t + 1))
    I.ensure('never done', not out[2])
    I.must('reset', m.reset)
    I.ensure('reset returns to the initial step', eq(m.current_step, init))


@contract('C12', 'observing does not move the clock', targets=[B + 'sample_action', B + 'to_normalized', B + 'from_normalized', B + 'state_dict', T + 'forecast', B + 'log_dict'], covers=['load', 'renewable', 'grid', 'battery', 'genset'])
def observe(I):
    kind = I.choice('kind', ['load', 'renewable', 'grid', 'battery', 'genset'])
    h = None if kind in ('grid', 'renewable', 'battery', 'genset') else I.choice('h', [None, 1])
    if kind == 'battery':
        m, _ = battery(I)
    elif kind == 'genset':
        m, _ = genset(I)
    elif kind == 'grid':
        m, _ = grid(I)
    elif kind == 'load':
        m, _ = load(I, sign='pos', horizon=h)
    else:
        m, _ = renewable(I, sign='pos', horizon=h)
    t = m.current_step
    before = L(m.state)
    I.must('observe', lambda: (m.state_dict(), m.to_normalized(m.state, obs=True), m.log_dict()))
    if m.action_space.shape[0]:
        I.call(m.sample_action, strict_bound=I.bool('strict'))
    if hasattr(m, 'forecast'):
        I.must('forecast', m.forecast)
        m.current_obs
    m.max_production, m.max_consumption, m.min_production, m.marginal_cost
    I.cover(kind)
    I.ensure('clock unchanged', eq(m.current_step, t))
    I.ensure('state unchanged', seq(L(m.state), before))


@contract('C12', 'microgrid clock over histories', sym=False, bounded='random microgrids and histories on the real code', random_n=200)
def mg(I):
    from ..mg import random_microgrid, random_control
    m, info = random_microgrid(I, windows=True)
    init, fin = info['init'], info['fin']
    expect = init
    I.ensure('clock starts at the initial step', eq(m.current_step, init))
    for s in range(I.int('steps', lo=1, hi=12)):
        op = I.choice(f'op{s}', ['run', 'run', 'run', 'run', 'reset', 'observe'])
        if op == 'reset':
            m.reset()
            expect = init
        elif op == 'observe':
            m.state_dict(), m.state_series(), m.sample_action(), m.get_log() if expect > init else None, m.state_dict(normalized=True)
            repr(m)
        else:
            if expect >= min(fin, info['n']):
                continue
            obs, r, done, _ = I.must('run', m.run, random_control(I, m, f'c{s}'), normalized=True)
            I.ensure('done exactly at the last row', bool(done) == (expect >= fin - 1 and info['has_ts']))
            expect += 1
        I.ensure('microgrid clock', eq(m.current_step, expect))
        for md in m.modules.iterlist():
            I.ensure('all modules share the clock', eq(md.current_step, expect))

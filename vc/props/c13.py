from ..spec import *
from ..models import *

T = 'pymgrid.modules.base.timeseries.base_timeseries_module.BaseTimeSeriesMicrogridModule.'
F = 'pymgrid.forecast.forecaster.'
L = lambda x: list(x) if hasattr(x, '__len__') else [x]
flat = lambda a: [x for r in list(a) for x in L(r)]
# ASSUME: user-defined forecasters are functions of their three arguments


def ts_mod(I, kind, h, forecaster='oracle', rows=None, **kw):
    """module over an arbitrary series at an arbitrary position; returns module, row function, position"""
    M = modules()
    k = 4 if kind == 'grid' else 1
    ts = I.series('ts', ncols=k, nonneg=True, binary_cols=(3,) if k == 4 else (), min_rows=3 if callable(forecaster) else 1) if rows is None else rows
    fk = {} if forecaster is None else dict(forecaster=forecaster, forecast_horizon=h)
    if kind == 'grid':
        m = I.must('construction', M.GridModule, max_import=I.real('imp', lo=0), max_export=I.real('exp', lo=0), time_series=ts, **fk, **kw)
    else:
        m = I.must('construction', M.LoadModule if kind == 'load' else M.RenewableModule, time_series=ts, **fk, **kw)
    sg = -1 if kind == 'load' else 1
    return m, dict(ts=ts, k=k, n=ts.shape[0], sg=sg, row=lambda t: [sg * ts[t, j] for j in range(k)])


def at(I, m, P):
    t = I.row_index('t', P['ts'])
    goto(I, m, t)
    # the forecast shown in the state is refreshed when the clock moves
    return t


def expected(I, m, P, t, h):
    """rows t+1..t+h of the series, then the midpoint of the observation bounds"""
    lo, hi = L(m.min_obs)[:P['k']], L(m.max_obs)[:P['k']]
    mid = [(x + y) / 2 for x, y in zip(lo, hi)]
    out = []
    for i in range(h):
        out.append(P['row'](t + 1 + i) if I.is_(lt(t + 1 + i, P['n'])) else mid)
    return out


def check_oracle(I, m, P, t, h, f):
    I.ensure('one row per horizon step and one column per component', tuple(f.shape) == (h, P['k']))
    for i, (got, want) in enumerate(zip(list(f), expected(I, m, P, t, h))):
        I.ensure('row i of the forecast is the value i + 1 steps ahead, then the filler', seq(L(got), want))


def _oracle(I, kind, hs):
    h = I.choice('h', hs)
    m, P = ts_mod(I, kind, h)
    t = at(I, m, P)
    f = I.must('forecast', m.forecast)
    I.cover('forecast')
    check_oracle(I, m, P, t, h, f)
    I.ensure('current row is still that of the series', seq(L(m.time_series[t, :]), P['row'](t)))
    # stepping shows current values followed by the forecast
    a = 0.0
    I.must('step', m.step, a, normalized=False)
    if I.is_(lt(t + 1, P['n'])):
        sd = I.must('state', m.state_dict)
        want = P['row'](t + 1) + [x for r in expected(I, m, P, t + 1, h) for x in r]
        I.cover('state')
        I.ensure('state is the current values followed by the forecast', seq(list(sd.values()), want))
        keys = list(sd)
        I.ensure('state names are in order', [x.rsplit('_forecast_', 1)[-1] for x in keys[P['k']:]] == [str(i) for i in range(h) for _ in range(P['k'])]
                 and all(x.endswith('_current') for x in keys[:P['k']]))


contract('C13', 'perfect forecast, one component', targets=[T + 'forecast', T + '_state_dict', F + 'OracleForecaster._forecast', F + 'Forecaster.__call__', F + 'Forecaster._pad', F + 'Forecaster._clip', F + 'Forecaster.full_pad', F + 'Forecaster._get_forecast_shaped_space', F + 'get_forecaster'],
         bounded='horizons 1 to 3; series of any length, any position', covers=['forecast', 'state'])(lambda I: _oracle(I, I.choice('kind', ['load', 'renewable']), [1, 2, 3]))
contract('C13', 'perfect forecast, four components', targets=[T + 'forecast', T + '_state_dict', F + 'Forecaster._pad', F + 'Forecaster._clip'],
         bounded='horizons 1 and 2; series of any length, any position', covers=['forecast', 'state'])(lambda I: _oracle(I, 'grid', [1, 2]))


def any_horizon(I, m, P, t, h, f, oracle):
    """row i of the forecast for an arbitrary i"""
    K = P['k']
    I.ensure('one row per horizon step and one column per component', and_(len(f.shape) == 2, eq(f.shape[0], h), f.shape[1] == K))
    i = I.int('i', lo=0)
    I.assume(lt(i, h))
    lo, hi = [m.min_obs[j] for j in range(K)], [m.max_obs[j] for j in range(K)]
    row = [f[i, j] for j in range(K)]
    I.ensure('forecast within the observation bounds', and_(*[between(a, x, b) for a, x, b in zip(lo, row, hi)]))
    if oracle:
        if I.is_(lt(t + 1 + i, P['n'])):
            I.cover('ahead')
            I.ensure('row i of the forecast is the value i + 1 steps ahead', seq(row, P['row'](t + 1 + i)))
        else:
            I.cover('beyond')
            I.ensure('beyond the end the forecast is the filler', seq(row, [(a + b) / 2 for a, b in zip(lo, hi)]))
    j = I.int('j', lo=0)
    I.assume(lt(j, h + 1))
    I.ensure('bounds are the same for every row', seq([m.min_obs[j * K + c] for c in range(K)] + [m.max_obs[j * K + c] for c in range(K)], lo + hi))
    I.ensure('observation space has one entry per value shown', eq(m.observation_space.unnormalized.low.shape[0], (h + 1) * K))
    r = I.row_index('r', P['ts'])
    I.ensure('bounds contain every value', and_(*[between(a, x, b) for a, x, b in zip(lo, P['row'](r), hi)]))
    I.ensure('series not overwritten', seq(L(m.time_series[r, :]), P['row'](r)))


def _anyh(I, kinds, fc):
    kind = I.choice('kind', kinds)
    h = horizon(I)
    kw = dict(forecaster_increase_uncertainty=I.bool('inc')) if fc == 'gauss' else {}
    m, P = ts_mod(I, kind, h, forecaster=I.choice('std', [0.5, 1000.0]) if fc == 'gauss' else 'oracle', **kw)
    t = at(I, m, P)
    f = I.must('forecast', m.forecast)
    I.cover('forecast')
    any_horizon(I, m, P, t, h, f, fc == 'oracle')


def _anystate(I, kinds):
    """state, normalized state and observation of a step with any horizon"""
    kind = I.choice('kind', kinds)
    h = horizon(I)
    m, P = ts_mod(I, kind, h)
    K = P['k']
    t = at(I, m, P)
    obs, r, d, info = I.must('step', m.step, 0.0, normalized=False)
    st = I.must('state', lambda: m.state)
    nd = I.must('normalized state', m.state_dict, normalized=True)
    I.ensure('one entry per value', and_(eq(st.shape[0], (h + 1) * K), eq(obs.shape[0], (h + 1) * K)))
    i = I.int('i', lo=0)
    I.assume(lt(i, h + 1))
    lo, hi = [m.min_obs[j] for j in range(K)], [m.max_obs[j] for j in range(K)]
    row = [st[i * K + j] for j in range(K)]
    orow = [obs[i * K + j] for j in range(K)]
    if I.is_(lt(t + 1 + i, P['n'])):
        I.cover('ahead')
        want = P['row'](t + 1 + i)
    else:
        I.cover('beyond')
        want = [(a + b) / 2 for a, b in zip(lo, hi)]
    I.ensure('state is the current values followed by the forecast', seq(row, want))
    for x, o, a, b in zip(row, orow, lo, hi):
        I.ensure('observation is the normalized state', eq(o * ite(eq(a, b), 1, b - a), x - a))
    if not I.symbolic:
        I.ensure('normalized state', seq(list(nd.values()), list(obs)))


def _anyreplace(I, op):
    kind = I.choice('kind', ['load', 'grid'])
    h = horizon(I)
    m, P = ts_mod(I, kind, h, forecaster=None if op != 'series' and I.bool('from none') else 'oracle')
    t = at(I, m, P)
    if op == 'series':
        ts2 = I.series('ts2', ncols=P['k'], nonneg=True, binary_cols=(3,) if P['k'] == 4 else ())
        I.assume(eq(ts2.shape[0], P['n']))
        I.must('assign series', setattr, m, 'time_series', ts2)
        P = dict(P, ts=ts2, n=ts2.shape[0], row=lambda i: [P['sg'] * ts2[i, j] for j in range(P['k'])])
    else:
        h = I.int('h2', lo=1, hi=None if I.symbolic else 30)
        if op == 'forecaster':
            I.must('set forecaster', m.set_forecaster, 'oracle', forecast_horizon=h)
        else:
            I.must('set horizon', setattr, m, 'forecast_horizon', h)
    I.cover(op)
    I.ensure('horizon', eq(m.forecast_horizon, h))
    any_horizon(I, m, P, t, h, I.must('forecast', m.forecast), True)
    st = I.must('state', lambda: m.state)
    k = I.int('k', lo=0)
    I.assume(and_(lt(k, h + 1), lt(t + k, P['n'])))
    I.ensure('state shows the current values and the new forecast', seq([st[k * P['k'] + j] for j in range(P['k'])], P['row'](t + k)))
    I.ensure('state has one entry per value', eq(st.shape[0], (h + 1) * P['k']))


def _noisy_horizon(I):
    kind = I.choice('kind', ['load', 'grid'])
    h = horizon(I)
    m, P = ts_mod(I, kind, h, forecaster=I.choice('std', [0.5, 1000.0]), forecaster_increase_uncertainty=I.bool('inc'))
    t = at(I, m, P)
    before, h = type(m.forecaster), I.int('h2', lo=1, hi=None if I.symbolic else 30)
    I.must('set horizon', setattr, m, 'forecast_horizon', h)
    I.cover('c')
    I.ensure('horizon', eq(m.forecast_horizon, h))
    I.ensure('the forecaster is kept', type(m.forecaster) is before)
    any_horizon(I, m, P, t, h, I.must('forecast', m.forecast), False)
    I.ensure('state has one entry per value', eq(m.state.shape[0], (h + 1) * P['k']))


AH = [T + 'forecast', T + 'min_obs', T + 'max_obs', F + 'OracleForecaster._forecast', F + 'Forecaster.__call__', F + 'Forecaster._pad', F + 'Forecaster._clip', F + 'Forecaster._get_forecast_shaped_space', F + 'get_forecaster']
contract('C13', 'perfect forecast of any horizon', targets=AH, covers=['forecast', 'ahead', 'beyond'])(lambda I: _anyh(I, ['load', 'renewable', 'grid'], 'oracle'))
contract('C13', 'state with a forecast of any horizon', targets=AH + [T + '_state_dict', T + '_set_state_dict_keys', T + '_update_step'], covers=['ahead', 'beyond'])(lambda I: _anystate(I, ['load', 'renewable', 'grid']))
for _op in ('series', 'forecaster', 'horizon'):
    contract('C13', f'replacing the {_op}, any horizon', targets=[T + 'time_series', T + 'set_forecaster', T + 'forecast_horizon', F + 'Forecaster.observation_space'] + AH, covers=[_op], budget=250)(
        lambda I, _op=_op: _anyreplace(I, _op))
contract('C13', 'changing the horizon of a noisy forecaster, any horizon', targets=[T + 'forecast_horizon', F + 'Forecaster.observation_space', F + 'GaussianNoiseForecaster.observation_space'] + AH, covers=['c'], budget=250)(_noisy_horizon)
contract('C13', 'noisy forecast of any horizon', targets=AH + [F + 'GaussianNoiseForecaster._forecast', F + 'GaussianNoiseForecaster._get_noise', F + 'GaussianNoiseForecaster._get_noise_std'], covers=['forecast'])(lambda I: _anyh(I, ['load', 'renewable', 'grid'], 'gauss'))


@contract('C13', 'no forecaster, no forecast', targets=[T + 'forecast', F + 'NoForecaster._forecast', T + 'set_forecaster'], covers=['c'])
def none(I):
    kind = I.choice('kind', ['load', 'grid'])
    m, P = ts_mod(I, kind, None, forecaster=None)
    t = at(I, m, P)
    I.cover('c')
    I.ensure('horizon is zero', m.forecast_horizon == 0)
    I.ensure('no forecast', m.forecast() is None)
    I.ensure('state is the current values', seq(list(m.state_dict().values()), P['row'](t)))


@contract('C13', 'noisy forecasts have the right shape and stay in bounds', targets=[F + 'GaussianNoiseForecaster._forecast', F + 'GaussianNoiseForecaster._get_noise', F + 'GaussianNoiseForecaster._get_noise_std', F + 'Forecaster._clip', F + 'Forecaster._pad'],
          bounded='horizons 1 and 2; series of any length, any position, any noise drawn', covers=['c'])
def gauss(I):
    kind = I.choice('kind', ['load', 'renewable'])
    h = I.choice('h', [1, 2])
    inc, rel = I.bool('inc'), False if I.symbolic else I.bool('rel')
    std = I.choice('std', [0.5, 3, 1000.0])
    m, P = ts_mod(I, kind, h, forecaster=std, forecaster_increase_uncertainty=inc, forecaster_relative_noise=rel)
    t = at(I, m, P)
    f = I.must('forecast', m.forecast)
    I.cover('c')
    I.ensure('shape', tuple(f.shape) == (h, P['k']))
    lo, hi = L(m.min_obs)[:P['k']], L(m.max_obs)[:P['k']]
    for r in list(f):
        for j, x in enumerate(L(r)):
            I.ensure('forecast within the observation bounds', between(lo[j], x, hi[j]))
    I.ensure('series not overwritten', seq(L(m.time_series[t, :]), P['row'](t)))
    if I.is_(lt(t + 1, P['n'])):
        I.ensure('series not overwritten', seq(L(m.time_series[t + 1, :]), P['row'](t + 1)))


def small_rows(I, n, k=1):
    if k == 1:
        return arr(I, I.reals('x', n, lo=0)).reshape((n, 1))
    return arr(I, [v for i in range(n) for v in (I.real(f'x{i}a', lo=0), I.real(f'x{i}b', lo=0), I.real(f'x{i}c', lo=0), 1.0)]).reshape((n, k))


@contract('C13', 'user-defined forecasters', targets=[F + 'UserDefinedForecaster._forecast', F + 'UserDefinedForecaster.__init__', F + 'vectorize_scalar_forecaster', F + '_validate_callable_forecaster', F + '_validate_vectorized_forecaster', F + '_validate_scalar_forecaster', F + '_validate_forecasted_value'],
          bounded='series of 4 rows, horizons 1 to 3', covers=['scalar', 'vector'], budget=150)
def user(I):
    kind = I.choice('kind', ['load', 'renewable'])
    style = I.choice('style', ['vector', 'scalar'])
    h = I.choice('h', [1, 2, 3])
    N = 4
    rows = small_rows(I, N)
    calls = []

    def vec(val_c, val_c_n, n):
        if len(val_c_n.shape) == 2:
            calls.append((L(val_c), flat(val_c_n), n))
            return val_c_n / 2 if mutate is None else mutate(val_c_n)
        raise TypeError

    def sca(val_c, val_c_n, n):
        if getattr(val_c_n, 'size', 1) != 1 or len(getattr(val_c_n, 'shape', ())) > 1:
            raise TypeError
        calls.append((L(val_c), L(val_c_n), n))
        return (val_c_n / 2).item()

    mutate = None
    m, P = ts_mod(I, kind, h, forecaster=vec if style == 'vector' else sca, rows=rows)
    t = I.choice('t', list(range(N)))
    goto(I, m, t)
    calls.clear()
    f = I.must('forecast', m.forecast)
    I.cover(style)
    fut = [P['row'](i) for i in range(t + 1, min(N, t + 1 + h))]
    if style == 'vector':
        I.ensure('called once with the current row, the future rows and the horizon', len(calls) == 1 and and_(
            seq(calls[0][0], P['row'](t)), seq(calls[0][1], [x for r in fut for x in r]), calls[0][2] == h))
    else:
        I.ensure('called once per future step', len(calls) == len(fut))
        for i, c in enumerate(calls):
            I.ensure('called with the current row, the value n steps ahead and n', and_(seq(c[0], P['row'](t)), seq(c[1], fut[i]), c[2] == i + 1))
    I.ensure('shape', tuple(f.shape) == (h, 1))
    lo, hi = L(m.min_obs)[0], L(m.max_obs)[0]
    for i in range(h):
        want = fut[i][0] / 2 if i < len(fut) else (lo + hi) / 2
        I.ensure('forecast is what the function returned, then the filler', eq(f[i, 0], want))
        I.ensure('forecast within the observation bounds', between(lo, f[i, 0], hi))


@contract('C13', 'a forecast that writes into its argument does not reach the series', targets=[T + 'forecast'], bounded='series of 3 rows, horizon 1', covers=['c'], sym=False, random_n=40)
def writing(I):
    rows = small_rows(I, 3)

    def wr(val_c, val_c_n, n):
        val_c_n *= 0
        return val_c_n
    m, P = ts_mod(I, 'renewable', 1, forecaster=wr, rows=rows)
    before = [m.time_series[i, 0] for i in range(3)]
    t = I.choice('t', [0, 1, 2])
    goto(I, m, t)
    I.must('forecast', m.forecast)
    I.cover('c')
    I.ensure('series not overwritten', seq([m.time_series[i, 0] for i in range(3)], before))


@contract('C13', 'replacing the series, forecaster or horizon', targets=[T + 'time_series', T + 'set_forecaster', T + 'forecast_horizon', F + 'Forecaster.observation_space'],
          bounded='horizons 1 and 2', covers=['series', 'forecaster', 'horizon', 'off'])
def replace(I):
    kind = I.choice('kind', ['load', 'renewable'])
    op = I.choice('op', ['series', 'forecaster', 'horizon', 'off'])
    h = I.choice('h', [1, 2]) if op != 'series' else 1
    m, P = ts_mod(I, kind, 1, forecaster=None if op == 'forecaster' and I.bool('from none') else 'oracle')
    t = at(I, m, P)
    if op == 'series':
        ts2 = I.series('ts2', nonneg=True)
        I.assume(eq(ts2.shape[0], P['n']))
        I.must('assign series', setattr, m, 'time_series', ts2)
        P = dict(P, ts=ts2, row=lambda i: [P['sg'] * ts2[i, 0]])
        if I.symbolic:
            P['n'] = ts2.shape[0]
    elif op == 'forecaster':
        I.must('set forecaster', m.set_forecaster, 'oracle', forecast_horizon=h)
    elif op == 'off':
        I.must('remove forecaster', m.set_forecaster, None)
        I.cover('off')
        I.ensure('no forecast', m.forecast() is None and m.forecast_horizon == 0)
        I.ensure('state is the current values', seq(list(m.state_dict().values()), P['row'](t)))
        I.ensure('observation space follows', len(L(m.observation_space.unnormalized.low)) == 1)
        return
    else:
        I.must('set horizon', setattr, m, 'forecast_horizon', h)
    I.cover(op)
    I.ensure('horizon', m.forecast_horizon == h)
    f = I.must('forecast', m.forecast)
    check_oracle(I, m, P, t, h, f)
    want = P['row'](t) + [x for r in expected(I, m, P, t, h) for x in r]
    I.ensure('state shows the current values and the new forecast', seq(list(m.state_dict().values()), want))
    sp = m.observation_space.unnormalized
    I.ensure('observation space follows', and_(len(L(sp.low)) == 1 + h, seq(L(sp.low), L(m.min_obs)), seq(L(sp.high), L(m.max_obs))))
    j = I.row_index('j', P['ts'])
    I.ensure('bounds contain every value', between(L(m.min_obs)[0], P['row'](j)[0], L(m.max_obs)[0]))
    I.must('observation after the change', m.to_normalized, m.state, obs=True)
    I.must('step after the change', m.step, 0.0, normalized=False)


@contract('C13', 'forecasts over whole episodes', sym=False, bounded='random series, horizons up to 24, all forecasters, random operation sequences on the real code', random_n=150)
def histories(I):
    import numpy as np
    kind = I.choice('kind', ['load', 'renewable', 'grid'])
    h = I.choice('h', [1, 2, 5, 24])
    fc = I.choice('fc', ['oracle', 'oracle', 'gauss', 'none'])
    m, P = ts_mod(I, kind, h, forecaster=dict(oracle='oracle', gauss=2.5, none=None)[fc],
                  **(dict(forecaster_increase_uncertainty=I.bool('inc'), forecaster_relative_noise=I.bool('rel')) if fc == 'gauss' else {}))
    truth = P['sg'] * np.array(P['ts'], dtype=float)
    k = P['k']
    steps = I.int('steps', lo=1, hi=10)
    for s in range(steps):
        t = m.current_step
        n = len(truth)
        op = I.choice(f'op{s}', ['step', 'step', 'step', 'forecast', 'reset', 'swap', 'horizon', 'fc'])
        if op == 'step' and t < n:
            I.must('step', m.step, 0.0, normalized=False)
        elif op == 'forecast':
            f = I.must('forecast', m.forecast)
        elif op == 'reset':
            I.must('reset', m.reset)
        elif op == 'swap':
            new = abs(truth) * I.choice(f'sw{s}', [0.5, 2.0]) if k == 1 else truth
            I.must('assign series', setattr, m, 'time_series', new)
            truth = P['sg'] * abs(new)
        elif op == 'horizon' and fc != 'none':
            h = I.choice(f'nh{s}', [1, 3])
            I.must('set horizon', setattr, m, 'forecast_horizon', h)
        elif op == 'fc' and fc != 'none':
            h = I.choice(f'nh{s}', [1, 3, 23])
            fc = 'oracle'
            I.must('set forecaster', m.set_forecaster, 'oracle', forecast_horizon=h)
        t = m.current_step
        I.ensure('series unchanged', m.time_series.shape == truth.shape and bool((m.time_series == truth).all()))
        if t >= n:
            continue
        I.ensure('the forecaster is the one that was set', type(m.forecaster).__name__ == dict(oracle='OracleForecaster', gauss='GaussianNoiseForecaster', none='NoForecaster')[fc])
        sd = list(m.state_dict().values())
        lo, hi = np.asarray(m.min_obs), np.asarray(m.max_obs)
        I.ensure('state length', len(sd) == k * (1 + (0 if fc == 'none' else h)) == len(lo) == len(hi))
        I.ensure('state starts with the current row', bool(np.allclose(sd[:k], truth[t])))
        I.ensure('state within the observation bounds', bool((np.asarray(sd) >= lo - 1e-9).all() and (np.asarray(sd) <= hi + 1e-9).all()))
        if fc == 'oracle':
            want = []
            mid = (lo[:k] + hi[:k]) / 2
            for i in range(h):
                want.extend(truth[t + 1 + i] if t + 1 + i < n else mid)
            I.ensure('state shows the perfect forecast', bool(np.allclose(sd[k:], want)))


@contract('C13', 'microgrid-wide forecasters', targets=['pymgrid.microgrid.microgrid.Microgrid.set_forecaster', 'pymgrid.microgrid.microgrid.Microgrid.get_forecast_horizon'],
          sym=False, bounded='random microgrids on the real code', random_n=60)
def mgwide(I):
    from ..mg import random_microgrid
    import numpy as np
    m, info = random_microgrid(I, max_rows=6)
    if not info['has_ts']:
        raise Skip()
    h = I.choice('h', [1, 2, 7])
    names = [nm for nm, l in m.modules.iterdict() if hasattr(l[0], 'time_series')]
    per = I.bool('per')
    pick = I.choice('pick', names) if per else None
    I.must('set forecaster', m.set_forecaster, {pick: 'oracle'} if per else 'oracle', forecast_horizon=h)
    for nm, l in m.modules.iterdict():
        for md in l:
            if not hasattr(md, 'time_series'):
                continue
            if per and nm != pick:
                I.ensure('other modules untouched', md.forecast_horizon == 0 and md.forecast() is None)
                continue
            I.ensure('horizon set', md.forecast_horizon == h)
            f = md.forecast()
            for i in range(h):
                if md.current_step + 1 + i < len(md.time_series):
                    I.ensure('perfect forecast', bool(np.allclose(f[i], md.time_series[md.current_step + 1 + i])))
    if not per:
        I.ensure('microgrid horizon', m.get_forecast_horizon() == h)
    o = I.call(m.set_forecaster, {'no such module': 'oracle'})
    I.ensure('unknown name is an error', o.raised(NameError))

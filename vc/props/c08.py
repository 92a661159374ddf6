from ..spec import *
from ..models import *

L = 'pymgrid.modules.load_module.LoadModule.'
R = 'pymgrid.modules.renewable_module.RenewableModule.'
T = 'pymgrid.modules.base.timeseries.base_timeseries_module.BaseTimeSeriesMicrogridModule.'


def _load_step(I, m, P, a, normalized, tag):
    out = I.must('load step succeeds', m.step, a, normalized=normalized)
    _, reward, _, info = out
    I.cover('load stepped')
    I.ensure('load absorbs exactly the current demand', eq(absb(info), P['mag']))
    I.ensure('load absorbs a non-negative amount', ge(absb(info), 0))
    I.ensure('load provides nothing', prov(info) is None or eq(prov(info), 0))
    I.ensure('load has zero reward', eq(reward, 0))


@contract('C08', 'load step', targets=[L + 'update', L + 'current_load', L + '__init__', T + '_set_time_series', T + '_sign_check'], covers=['load stepped'])
def load_step(I):
    m, P = load(I)
    I.ensure('current load', eq(m.current_load, P['mag']))
    I.ensure('load limit', eq(m.max_consumption, P['mag']))
    neg = I.choice('request', ['zero', 'neg'])
    a = 0.0 if neg == 'zero' else I.real('action', hi=0)
    _load_step(I, m, P, a, False, '')


@contract('C08', 'load step with forecast', targets=[L + 'update'], covers=['load stepped'])
def load_step_fc(I):
    m, P = load(I, horizon=horizon(I))
    _load_step(I, m, P, 0.0, False, '')


@contract('C08', 'renewable step with forecast', targets=[R + 'update', R + 'current_renewable'], covers=['c'])
def ren_step_fc(I):
    m, P = renewable(I, horizon=horizon(I))
    a = I.real('action', lo=0)
    _, reward, _, info = I.must('renewable step succeeds', m.step, a, normalized=False)
    I.cover('c')
    I.ensure('renewable provides min(request, available)', eq(prov(info), smin(a, P['mag'])))
    I.ensure('used plus curtailed equals available', eq(prov(info) + info['curtailment'], P['mag']))
    I.ensure('renewable has zero reward', eq(reward, 0))


@contract('C08', 'renewable step', targets=[R + 'update', R + 'current_renewable', R + 'max_production', R + '__init__', T + '_sign_check'], covers=['renewable stepped'])
def ren_step(I):
    m, P = renewable(I)
    I.ensure('current renewable', eq(m.current_renewable, P['mag']))
    a = I.real('action', lo=0)
    out = I.must('renewable step succeeds', m.step, a, normalized=False)
    _, reward, _, info = out
    I.cover('renewable stepped')
    I.ensure('renewable provides at most what is available', le(prov(info), P['mag']))
    I.ensure('renewable provides min(request, available)', eq(prov(info), smin(a, P['mag'])))
    I.ensure('used plus curtailed equals available', eq(prov(info) + info['curtailment'], P['mag']))
    I.ensure('curtailment is non-negative', ge(info['curtailment'], 0))
    I.ensure('renewable absorbs nothing', absb(info) is None or eq(absb(info), 0))
    I.ensure('renewable has zero reward', eq(reward, 0))


@contract('C08', 'renewable normalized step', targets=[R + 'update'], covers=['renewable stepped'])
def ren_norm(I):
    m, P = renewable(I)
    a = I.real('action', lo=0, hi=1)
    out = I.must('renewable step succeeds', m.step, a)
    _, reward, _, info = out
    I.cover('renewable stepped')
    I.ensure('renewable provides at most what is available', le(prov(info), P['mag']))
    I.ensure('used plus curtailed equals available', eq(prov(info) + info['curtailment'], P['mag']))
    I.ensure('curtailment is non-negative', ge(info['curtailment'], 0))
    I.ensure('renewable has zero reward', eq(reward, 0))


@contract('C08', 'mixed sign series rejected', targets=[T + '_sign_check'], covers=['built', 'rejected'])
def mixed(I):
    ts = I.series('ts', ncols=1)
    i, j = I.row_index('i', ts), I.row_index('j', ts)
    cls = I.choice('cls', ['LoadModule', 'RenewableModule'])
    o = I.call(getattr(modules(), cls), time_series=ts)
    if o.ok:
        I.cover('built')
        I.ensure('accepted series has a single sign', not_(and_(gt(ts[i, 0], 0), lt(ts[j, 0], 0))))
    else:
        I.cover('rejected')
        I.ensure('rejection is a ValueError', o.raised(ValueError))


@contract('C08', 'load and renewable full episode', sym=False, bounded='random episodes over random series on the real code', random_n=150)
def episode(I):
    which = I.choice('which', ['load', 'ren'])
    h = I.choice('h', [None, 1, 3, 23])
    m, P = (load if which == 'load' else renewable)(I, horizon=h, goto_=False)
    ts = P['ts'].reshape(-1)
    rounds = I.int('rounds', lo=1, hi=3)
    for r in range(rounds):
        m.reset()
        n = I.int(f'n{r}', lo=1, hi=len(ts))
        for t in range(n):
            if which == 'load':
                _, rew, _, info = m.step(0.0, normalized=False)
                I.ensure('load absorbs exactly the current demand', eq(absb(info), abs(ts[t])))
            else:
                a = I.real(f'a{r}_{t}', lo=0)
                _, rew, _, info = m.step(a, normalized=False)
                I.ensure('renewable provides min(request, available)', eq(prov(info), min(a, abs(ts[t]))))
                I.ensure('used plus curtailed equals available', eq(prov(info) + info['curtailment'], abs(ts[t])))
            I.ensure('zero reward', eq(rew, 0))
    I.ensure('series unchanged', bool((abs(m.time_series.reshape(-1)) == abs(ts)).all()))

"""Arbitrary module states, built through the real constructors."""
from .spec import *
from . import spec
import importlib

# ASSUME: user supplied callables (battery transition models, genset cost functions, forecasters, reward shapers, trajectory functions) are pure and return finite numbers; unless a contract says otherwise the default (None) model is verified
# ASSUME: constructor parameters satisfy the documented domains: 0 < efficiency <= 1, 0 <= min_capacity <= max_capacity, max_capacity > 0, non-negative limits, initial charge within capacity


def mod(name):
    return importlib.import_module(name)


def modules():
    return mod('pymgrid.modules')


def battery(I, raise_errors=False, p='b_', soc_init=None, cost=True, **kw):
    """arbitrary battery in an arbitrary valid state of charge"""
    cap = I.real(p + 'max_capacity', lo=0, lo_open=True)
    mn = I.real(p + 'min_capacity', lo=0, hi=cap)
    mc = I.real(p + 'max_charge', lo=0)
    md = I.real(p + 'max_discharge', lo=0)
    eff = I.real(p + 'efficiency', lo=0, lo_open=True, hi=1)
    if not I.symbolic:
        I.assume(eff > 1e-2 and cap > 1e-2)
    cc = I.real(p + 'cost_cycle', lo=0) if cost else 0.0
    if soc_init is None:
        soc_init = False
    if soc_init:
        soc = I.real(p + 'init_soc', lo=0, hi=1)
        I.assume(le(mn, soc * cap))
        args = dict(init_soc=soc)
    else:
        ch = I.real(p + 'init_charge', lo=mn, hi=cap)
        args = dict(init_charge=ch)
    B = modules().BatteryModule
    b = I.must('constructor accepts valid parameters', B, min_capacity=mn, max_capacity=cap, max_charge=mc, max_discharge=md,
               efficiency=eff, battery_cost_cycle=cc, raise_errors=raise_errors, **args, **kw)
    return b, dict(mn=mn, cap=cap, mc=mc, md=md, eff=eff, cc=cc, **args)


def arr(I, xs):
    """numpy array of (possibly symbolic) values"""
    if I.symbolic:
        from . import npshim
        return npshim.array(list(xs))
    import numpy as np
    return np.array(list(xs))


def undecided(msg):
    """the harness cannot establish the state it needs (e.g. after a renaming): undecided, never a violation"""
    if spec.MODE == 'sym':
        from .core import Unsupported
        raise Unsupported(msg)
    raise Skip()


def set_state(I, m, values):
    """put a module in an arbitrary state through its own state-restoring interface"""
    attrs = m.serializable_state_attributes()
    d = {}
    left = dict(values)
    for a in attrs:
        k = a.lstrip('_')
        if k in left:
            d[a] = left.pop(k)
        else:
            d[a] = getattr(m, a)
    if left:
        undecided(f'state attributes {sorted(left)} not found on {type(m).__name__}')
    m.deserialize(d)


def genset(I, raise_errors=False, p='g_', allow_abortion=True, state='any', costfn=None, start=None, **kw):
    rmin = I.real(p + 'running_min', lo=0)
    rmax = I.real(p + 'running_max', lo=rmin)
    cost = I.real(p + 'genset_cost') if costfn is None else costfn
    co2 = I.real(p + 'co2_per_unit', lo=0)
    pco2 = I.real(p + 'cost_per_unit_co2', lo=0)
    su = I.int(p + 'start_up_time', lo=0)
    wd = I.int(p + 'wind_down_time', lo=0)
    init = I.bool(p + 'init_start_up')
    g = I.must('constructor accepts valid parameters', modules().GensetModule, running_min_production=rmin,
               running_max_production=rmax, genset_cost=cost, co2_per_unit=co2, cost_per_unit_co2=pco2, start_up_time=su,
               wind_down_time=wd, allow_abortion=allow_abortion, init_start_up=init, raise_errors=raise_errors, **kw)
    P = dict(rmin=rmin, rmax=rmax, cost=cost, co2=co2, pco2=pco2, su=su, wd=wd, init=init)
    if state == 'any':
        P.update(genset_state(I, g, P, p))
    return g, P


def genset_state(I, g, P, p='g_'):
    """any state satisfying the status-machine invariant (C05 proves that it is inductive)"""
    cur = I.choice(p + 'cur', [0, 1])
    goal = I.choice(p + 'goal', [0, 1])
    if cur == goal:
        up, down = (0, P['wd']) if cur else (P['su'], 0)
    elif goal == 1:
        up, down = I.int(p + 'up', lo=0, hi=P['su'] - 1), 0
    else:
        up, down = 0, I.int(p + 'down', lo=0, hi=P['wd'] - 1)
    set_state(I, g, dict(current_status=cur, goal_status=goal, steps_until_up=up, steps_until_down=down))
    return dict(cur=cur, goal=goal, up=up, down=down)


def horizon(I, hi=30):
    """any forecast horizon"""
    return I.int('h', lo=1, hi=None if I.symbolic else hi)


def ts_window(I, s, p=''):
    """arbitrary episode window and position for a module over series s"""
    return I.row_index(p + 'step', s)


def goto(I, m, step):
    """arbitrary position in the series"""
    set_state(I, m, dict(current_step=step))
    if not I.is_(eq(m.current_step, step)):
        undecided('current step not settable')


def grid(I, raise_errors=False, p='gr_', cols=4, horizon=None, **kw):
    imp = I.real(p + 'max_import', lo=0)
    exp = I.real(p + 'max_export', lo=0)
    pco2 = I.real(p + 'cost_per_unit_co2', lo=0)
    ts = I.series(p + 'ts', ncols=cols, nonneg=True, binary_cols=(3,))
    fk = {} if horizon is None else dict(forecaster='oracle', forecast_horizon=horizon)
    g = I.must('constructor accepts valid parameters', modules().GridModule, max_import=imp, max_export=exp, time_series=ts,
               cost_per_unit_co2=pco2, raise_errors=raise_errors, **fk, **kw)
    t = I.row_index(p + 't', ts)
    goto(I, g, t)
    row = [ts[t, j] for j in range(cols)]
    if cols == 3:
        row.append(1.0)
    return g, dict(imp=imp, exp=exp, pco2=pco2, ts=ts, t=t, pi=row[0], pe=row[1], co2=row[2], status=row[3])


def load(I, p='l_', horizon=None, raise_errors=False, sign='any', goto_=True, **kw):
    sg = I.choice(p + 'sign', ['pos', 'neg']) if sign == 'any' else sign
    ts = I.series(p + 'ts', ncols=1, nonneg=sg == 'pos', nonpos=sg == 'neg', flat=I.bool(p + 'flat'))
    fk = {} if horizon is None else dict(forecaster='oracle', forecast_horizon=horizon)
    m = I.must('constructor accepts valid series', modules().LoadModule, time_series=ts, raise_errors=raise_errors, **fk, **kw)
    P = dict(ts=ts, sign=sg)
    if goto_:
        t = I.row_index(p + 't', ts)
        goto(I, m, t)
        v = ts[t] if ts.ndim == 1 else ts[t, 0]
        P.update(t=t, mag=v if sg == 'pos' else -v)
    return m, P


def renewable(I, p='r_', horizon=None, raise_errors=False, sign='any', goto_=True, **kw):
    sg = I.choice(p + 'sign', ['pos', 'neg']) if sign == 'any' else sign
    ts = I.series(p + 'ts', ncols=1, nonneg=sg == 'pos', nonpos=sg == 'neg', flat=I.bool(p + 'flat'))
    fk = {} if horizon is None else dict(forecaster='oracle', forecast_horizon=horizon)
    m = I.must('constructor accepts valid series', modules().RenewableModule, time_series=ts, raise_errors=raise_errors, **fk, **kw)
    P = dict(ts=ts, sign=sg)
    if goto_:
        t = I.row_index(p + 't', ts)
        goto(I, m, t)
        v = ts[t] if ts.ndim == 1 else ts[t, 0]
        P.update(t=t, mag=v if sg == 'pos' else -v)
    return m, P


def unbalanced(I, p='u_', raise_errors=False, **kw):
    ll = I.real(p + 'loss_load_cost', lo=0)
    og = I.real(p + 'overgeneration_cost', lo=0)
    m = I.must('constructor accepts valid costs', modules().UnbalancedEnergyModule, raise_errors=raise_errors, loss_load_cost=ll,
               overgeneration_cost=og, **kw)
    return m, dict(ll=ll, og=og)


def prov(info): return info.get('provided_energy')
def absb(info): return info.get('absorbed_energy')

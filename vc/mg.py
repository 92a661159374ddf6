"""random microgrids for run-time (bounded) contracts on the unmodified code"""
from .spec import *
from .models import *
import numpy as np


def rows(I, name, n, lo=0, hi=60, k=1, binary=()):
    out = []
    for i in range(n):
        r = []
        for j in range(k):
            if j in binary:
                r.append(float(I.choice(f'{name}_{i}_{j}', [0, 1, 1])))
            else:
                r.append(I.real(f'{name}_{i}_{j}', lo=lo, hi=hi))
        out.append(r)
    return np.array(out, dtype=float).reshape(n, k)


WORDS = ['energy', 'provided_energy', 'curtailment', 'reward', 'co2_production', 'balance_x', 'A', 'Z', 'B b', '0', 'x1', 'x10', ' pad', 'pad ', 'UP', 'up', 'é', 'load_met', 'unit-1', 'a.b']


def odd_name(I, key, kind, p=0.35):
    """None (default name), or a name that is unusual but not reserved; names of different kinds differ"""
    if not I.choice(key + '?', [False, False, True]):
        return None
    w = I.choice(key + 'w', WORDS)
    return I.choice(key + 'f', [f'{kind}_{w}', f'{w}_{kind}', f'{kind} {w}', f'{kind}{w}', f'{w}{kind}', w.upper() + kind])


def random_battery(I, p, **kw):
    cap = I.real(p + 'cap', lo=1, hi=100)
    mn = cap * I.choice(p + 'mnf', [0, 0.1, 0.2, 0.5])
    return modules().BatteryModule(min_capacity=mn, max_capacity=cap, max_charge=cap * I.choice(p + 'mcf', [0.1, 0.5, 1.0]),
                                   max_discharge=cap * I.choice(p + 'mdf', [0.1, 0.3, 1.0]), efficiency=I.choice(p + 'eff', [1.0, 0.9, 0.7, 0.5]),
                                   battery_cost_cycle=I.choice(p + 'cc', [0.0, 0.02, 1.0]), init_charge=min(cap, mn + (cap - mn) * I.real(p + 'frac', lo=0, hi=1)), **kw)


def random_genset(I, p, **kw):
    rmin = I.choice(p + 'rmin', [0.0, 2.0, 10.0])
    return modules().GensetModule(running_min_production=rmin, running_max_production=rmin + I.real(p + 'span', lo=0, hi=50),
                                  genset_cost=I.choice(p + 'gc', [0.4, 0.0, 1.5]), co2_per_unit=I.choice(p + 'co2', [0.0, 2.0]),
                                  cost_per_unit_co2=I.choice(p + 'pco2', [0.0, 0.1]), start_up_time=I.choice(p + 'su', [0, 1, 2]),
                                  wind_down_time=I.choice(p + 'wd', [0, 1, 2]), init_start_up=I.bool(p + 'init'), **kw)


def random_microgrid(I, windows=False, horizons=(None,), kinds=None, min_rows=1, max_rows=12, names=True, flex_extra=True, counts=None, many=True, **mgkw):
    """a microgrid of up to two of every built-in kind, common window"""
    M = modules()
    n = I.int('rows', lo=min_rows, hi=max_rows)
    init, fin, arg = 0, n, -1
    if windows:
        init = I.int('init', lo=0, hi=n - 1)
        if I.bool('explicit'):
            fin = arg = I.int('fin', lo=init + 1, hi=n)
    step, ts = {}, {}
    h = I.choice('horizon', list(horizons))
    if h is not None:
        ts.update(forecaster='oracle', forecast_horizon=h)
    c = counts or dict(load=I.choice('nload', [0, 1, 1, 2]), ren=I.choice('nren', [0, 1, 1, 2]), bat=I.choice('nbat', [0, 1, 1, 2]),
                       gen=I.choice('ngen', [0, 0, 1, 2]), grid=I.choice('ngrid', [0, 1, 1, 2]))
    if not sum(c.values()):
        raise Skip()
    if many and I.choice('many', [False] * 11 + [True]):
        k = I.choice('manyk', [k for k in ('load', 'ren', 'bat', 'grid') if c[k]] or [next(iter(c))])
        c = {**c, k: I.int('manyn', lo=3, hi=12)}
    mods = []
    for i in range(c['load']):
        mods.append(M.LoadModule(time_series=rows(I, f'l{i}', n), **ts))
    for i in range(c['ren']):
        mods.append(('pv' if i == 0 else 'wind', M.RenewableModule(time_series=rows(I, f'r{i}', n), **ts)) if names and i < 2 and I.bool(f'rn{i}') else M.RenewableModule(time_series=rows(I, f'r{i}', n), **ts))
    for i in range(c['bat']):
        mods.append(random_battery(I, f'b{i}', **step))
    for i in range(c['gen']):
        mods.append(random_genset(I, f'g{i}', **step))
    for i in range(c['grid']):
        cols = I.choice(f'gr{i}c', [3, 4])
        mods.append(M.GridModule(max_import=I.choice(f'gr{i}i', [0, 10, 80]), max_export=I.choice(f'gr{i}e', [0, 5, 80]),
                                 time_series=rows(I, f'gr{i}', n, hi=3, k=cols, binary=(3,)), cost_per_unit_co2=I.choice(f'gr{i}p', [0.0, 0.3]), **ts))
    if names and I.choice('odd', [False, False, True]):
        out = []
        for i, x in enumerate(mods):
            nm = None if isinstance(x, tuple) else odd_name(I, f'nm{i}', x.module_type[0])
            out.append((nm, x) if nm is not None else x)
        mods = out
    if names and len(mods) > 1 and I.bool('shuffle'):
        k = I.int('rot', lo=0, hi=len(mods) - 1)
        mods = mods[k:] + mods[:k]
    if windows and not c['load'] + c['ren'] + c['grid']:
        raise Skip()
    llc, ogc = I.choice('llc', [10.0, 0.0, 3.5]), I.choice('ogc', [2.0, 0.0, 1.25])
    m = mod('pymgrid.microgrid.microgrid').Microgrid(mods, loss_load_cost=llc, overgeneration_cost=ogc, **mgkw)
    if windows and c['load'] + c['ren'] + c['grid']:
        m.final_step = arg
        m.initial_step = init
        m.reset()
    return m, dict(n=n, init=init, fin=fin, has_ts=bool(c['load'] + c['ren'] + c['grid']), llc=llc, ogc=ogc, counts=c, given=mods)


def random_control(I, m, p, normalized=True, over=0.0):
    """a complete control; normalized values in [-over, 1+over]"""
    ctrl = {}
    for name, lst in m.controllable.iterdict():
        ctrl[name] = []
        for j, md in enumerate(lst):
            v = I.real(f'{p}_{name}_{j}', lo=-over, hi=1 + over)
            if md.action_space.shape[0] == 2:
                g = I.choice(f'{p}_{name}_{j}g', [0, 1, 0.2, 0.8])
                v = np.array([g, max(v, 0)])
            ctrl[name].append(v)
    return ctrl

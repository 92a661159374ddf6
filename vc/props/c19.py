from ..spec import *
from ..models import *
from ..legacy import legacy, COLS, quiet
from .. import core as _core

# ASSUME: the pandas operations the converters use on series (DataFrame, column selection, squeeze, concat, iloc, min) are modelled by vc/pdshim.py
# ASSUME: conversions are claimed for legacy batteries with soc_max = 1 (the modular battery has no such limit), equal emission prices of grid and genset, a numeric genset cost, and microgrids with a renewable source, which the legacy simulator requires
C = 'pymgrid.convert.'
TM = [C + 'convert.to_modular', C + 'get_module.get_load_module', C + 'get_module.get_pv_module', C + 'get_module.get_unbalanced_energy_module']
TN = [C + 'convert.to_nonmodular', C + 'to_nonmodular_ops.add_load_params', C + 'to_nonmodular_ops.add_pv_params', C + 'to_nonmodular_ops.add_unbalanced_energy_params', C + 'to_nonmodular_ops.finalize_params',
      C + 'to_nonmodular_ops.check_viability', C + 'to_nonmodular_ops.add_params_from_module']
HORIZONS = [2, 1, 5]


def setup(I):
    """pandas in the converters works on series of any length"""
    if I.symbolic:
        from ..pdshim import Pandas
        for n in ('get_module', 'to_nonmodular_ops'):
            m = mod(C + n)
            if hasattr(m, 'pd'):
                m.pd = Pandas()
    return mod(C + 'convert')


def frames(I):
    ts = I.series('ts', ncols=6, min_rows=2, nonneg=True, binary_cols=(5,))
    if I.symbolic:
        from ..pdshim import PFrame
        return ts, {c: PFrame(ts.dom, [ts.cols[j]], [c]) for j, c in enumerate(COLS)}
    import pandas as pd
    return ts, {c: pd.DataFrame(ts[:, j], columns=[c]) for j, c in enumerate(COLS)}


def vary(I, a, label, options, *parts):
    """a choice that is explored symbolically for the microgrids with at most the given parts only, to keep the number of paths down"""
    if I.symbolic and any(a[k] and k not in parts for k in a):
        return options[0]
    return I.choice(label, options)


def positive(I, a, ts):
    """with further components: series that are positive somewhere and zero somewhere (all-zero and all-positive ones are covered without)"""
    if I.symbolic and any(a.values()):
        p, z = I.row_index('p', ts), I.row_index('z', ts)
        for j in (0, 1):
            I.assume(and_(gt(ts[p, j], 0), eq(ts[z, j], 0)))
        if a['grid']:
            for j in (2, 3, 4):
                I.assume(and_(gt(ts[p, j], 0), eq(ts[z, j], 0)))
            I.assume(and_(eq(ts[p, 5], 1), eq(ts[z, 5], 0)))


def some_row(I, n, name='row'):
    i = I.int(name, lo=0, hi=n - 1)
    return i


def el(s, i, j=0):
    """entry of a numpy array, DataFrame or symbolic series"""
    if hasattr(s, 'iloc'):
        s = s.iloc
        return s[i, j] if True else None
    return s[i, j]


def only(I, c, name):
    d = dict(c.modules.iterdict())
    I.ensure('one module of each kind', name in d and len(d[name]) == 1)
    return d[name][0]


def legacy_mg(I, a):
    ts, fr = frames(I)
    positive(I, a, ts)
    h = vary(I, a, 'horizon', HORIZONS, 'grid')
    m, P = legacy(I, a['battery'], a['genset'], a['grid'], fr, 0, horizon=h)
    if a['battery']:
        I.assume(eq(P['battery_soc_max'], 1) if I.symbolic else P['battery_soc_max'] == 1)
    return m, P, ts, h


def check_modular(I, g, a, E, ts):
    """modular microgrid g has the quantities E (see expect_*) and series ts (columns as COLS)"""
    n = ts.shape[0]
    i = some_row(I, n)
    d = dict(g.modules.iterdict())
    I.ensure('exactly the modules of the microgrid', sorted(d) == sorted(['load', 'unbalanced_energy', 'PV'] + [k for k in ('battery', 'genset', 'grid') if a[k]]) and all(len(v) == 1 for v in d.values()))
    ld, pv, ub = d['load'][0], d['PV'][0], d['unbalanced_energy'][0]
    I.ensure('series lengths', and_(eq(ld.time_series.shape[0], n), eq(pv.time_series.shape[0], n)))
    I.ensure('load series', eq(ld.time_series[i, 0], -ts[i, 0]))
    I.ensure('renewable series', eq(pv.time_series[i, 0], ts[i, 1]))
    I.ensure('costs of unmet load and overgeneration', and_(eq(ub.loss_load_cost, E['loss_load']), eq(ub.overgeneration_cost, E['overgeneration'])))
    I.ensure('forecast horizon', and_(eq(ld.forecast_horizon, E['horizon'] - 1), eq(pv.forecast_horizon, E['horizon'] - 1)))
    if a['battery']:
        b = d['battery'][0]
        I.ensure('battery capacity', and_(eq(b.max_capacity, E['capacity']), eq(b.min_capacity, E['capacity'] * E['soc_min'])))
        I.ensure('battery rates', and_(eq(b.max_charge, E['charge']), eq(b.max_discharge, E['discharge'])))
        I.ensure('battery efficiency and cost', and_(eq(b.efficiency, E['efficiency']), eq(b.battery_cost_cycle, E['cycle'])))
        I.ensure('battery state of charge', and_(eq(b.soc, E['soc']), eq(b.current_charge, E['soc'] * E['capacity'])))
    if a['genset']:
        q = d['genset'][0]
        I.ensure('genset limits', and_(eq(q.running_min_production, E['gen_min']), eq(q.running_max_production, E['gen_max'])))
        I.ensure('genset cost', and_(eq(q.genset_cost, E['fuel']), eq(q.co2_per_unit, E['gen_co2']), eq(q.cost_per_unit_co2, E['co2'])))
        I.ensure('the genset starts without delay', and_(eq(q.start_up_time, 0), eq(q.wind_down_time, 0)))
    if a['grid']:
        q = d['grid'][0]
        I.ensure('grid limits', and_(eq(q.max_import, E['import']), eq(q.max_export, E['export'])))
        I.ensure('grid cost of emissions', eq(q.cost_per_unit_co2, E['co2']))
        s = q.time_series
        I.ensure('grid series', and_(eq(s.shape[0], n), *[eq(s[i, j], ts[i, 2 + j]) for j in range(4)]))
        I.ensure('grid forecast horizon', eq(q.forecast_horizon, E['horizon'] - 1))


def check_legacy(I, m, a, E, ts):
    n = ts.shape[0]
    i = some_row(I, n, 'row2')
    I.ensure('architecture', {k: int(v) for k, v in m.architecture.items()} == dict(PV=1, **{k: int(a[k]) for k in ('battery', 'genset', 'grid')}))
    I.ensure('legacy load series', and_(eq(m._load_ts.shape[0], n), eq(m._load_ts.iloc[i, 0], ts[i, 0])))
    I.ensure('legacy renewable series', and_(eq(m._pv_ts.shape[0], n), eq(m._pv_ts.iloc[i, 0], ts[i, 1])))
    p = lambda k: m.parameters[k].item()
    I.ensure('legacy costs of unmet load and overgeneration', and_(eq(p('cost_loss_load'), E['loss_load']), eq(p('cost_overgeneration'), E['overgeneration'])))
    I.ensure('legacy horizon', eq(m.horizon, E['horizon']))
    if a['battery']:
        b = m.battery
        I.ensure('legacy battery capacity', and_(eq(b.capacity, E['capacity']), eq(p('battery_capacity'), E['capacity'])))
        I.ensure('legacy battery rates', and_(eq(b.p_charge_max, E['charge']), eq(b.p_discharge_max, E['discharge']), eq(p('battery_power_charge'), E['charge']), eq(p('battery_power_discharge'), E['discharge'])))
        I.ensure('legacy battery efficiency and cost', and_(eq(b.efficiency, E['efficiency']), eq(b.cost_cycle, E['cycle']), eq(p('battery_efficiency'), E['efficiency']), eq(p('battery_cost_cycle'), E['cycle'])))
        I.ensure('legacy battery state of charge', and_(eq(b.soc, E['soc']), eq(p('battery_soc_0'), E['soc']), eq(m._df_record_state['battery_soc'][-1], E['soc'])))
        I.ensure('legacy battery state of charge limits', and_(eq(b.soc_min, E['soc_min']), eq(b.soc_max, 1), eq(p('battery_soc_min'), E['soc_min']), eq(p('battery_soc_max'), 1)))
    if a['genset']:
        q = m.genset
        I.ensure('legacy genset limits', and_(eq(q.p_min * q.rated_power, E['gen_min']), eq(q.p_max * q.rated_power, E['gen_max']), eq(p('genset_pmin') * p('genset_rated_power'), E['gen_min']),
                                              eq(p('genset_pmax') * p('genset_rated_power'), E['gen_max'])))
        I.ensure('legacy genset cost', and_(eq(q.fuel_cost, E['fuel']), eq(p('fuel_cost'), E['fuel']), eq(p('genset_co2'), E['gen_co2'])))
    if a['grid']:
        q = m.grid
        I.ensure('legacy grid limits', and_(eq(q.power_import, E['import']), eq(q.power_export, E['export']), eq(p('grid_power_import'), E['import']), eq(p('grid_power_export'), E['export'])))
        for j, s in enumerate((m._grid_price_import, m._grid_price_export, m._grid_co2, m._grid_status_ts)):
            I.ensure('legacy grid series', and_(eq(s.shape[0], n), eq(s.iloc[i, 0], ts[i, 2 + j])))
    if a['grid'] or a['genset']:
        I.ensure('legacy cost of emissions', eq(p('cost_co2'), E['co2']))


def of_legacy(P, h):
    E = dict(loss_load=P['cost_loss_load'], overgeneration=P['cost_overgeneration'], co2=P['cost_co2'], horizon=h)
    if 'battery_capacity' in P:
        E.update(capacity=P['battery_capacity'], soc_min=P['battery_soc_min'], charge=P['battery_power_charge'], discharge=P['battery_power_discharge'], efficiency=P['battery_efficiency'],
                 cycle=P['battery_cost_cycle'], soc=P['battery_soc_0'])
    if 'genset_rated_power' in P:
        E.update(gen_min=P['genset_pmin'] * P['genset_rated_power'], gen_max=P['genset_pmax'] * P['genset_rated_power'], fuel=P['fuel_cost'], gen_co2=P['genset_co2'])
    if 'grid_power_import' in P:
        E.update({'import': P['grid_power_import'], 'export': P['grid_power_export']})
    return E


def from_legacy(I, a):
    conv = setup(I)
    m, P, ts, h = legacy_mg(I, a)
    E = of_legacy(P, h)
    if a['battery'] and vary(I, a, 'used', [True, False], 'battery'):                    # during a simulation
        soc = I.real('later_soc', lo=P['battery_soc_min'], hi=1)
        m.battery.soc = soc
        E['soc'] = soc
    if a['genset']:
        I.assume(gt(E['gen_max'], 0))
    g = I.must('a legacy microgrid is converted', conv.to_modular, m)
    I.cover('to modular')
    check_modular(I, g, a, E, ts)
    m2 = I.must('the modular microgrid is converted back', conv.to_nonmodular, g)
    I.cover('and back')
    check_legacy(I, m2, a, E, ts)


def modular_mg(I, a):
    """modular microgrid in the middle of a simulation"""
    M = modules()
    ts = I.series('ts', ncols=6, min_rows=2, nonneg=True, binary_cols=(5,))
    positive(I, a, ts)
    h = vary(I, a, 'horizon', HORIZONS, 'grid')
    fk = {} if h == 1 else dict(forecaster='oracle', forecast_horizon=h - 1)
    sg = vary(I, a, 'load_sign', [1, -1])
    raise_errors = False
    def col(a, b): return ts[:, a:b]
    E = dict(horizon=h)
    ms = [('load', I.must('load', M.LoadModule, time_series=col(0, 1) * sg if sg == -1 else col(0, 1), raise_errors=False, **fk)),
          ('PV', I.must('renewable', M.RenewableModule, time_series=col(1, 2), raise_errors=False, **fk))]
    ub, U = unbalanced(I)
    ms.append(('unbalanced_energy', ub))
    E.update(loss_load=U['ll'], overgeneration=U['og'])
    co2 = I.real('cost_co2', lo=0)
    E['co2'] = co2
    if a['battery']:
        b, B = battery(I)
        soc = B['init_charge'] / B['cap']
        E.update(capacity=B['cap'], soc_min=B['mn'] / B['cap'], charge=B['mc'], discharge=B['md'], efficiency=B['eff'], cycle=B['cc'], soc=soc)
        if vary(I, a, 'used', [True, False], 'battery'):
            ch = I.real('later_charge', lo=B['mn'], hi=B['cap'])
            set_state(I, b, dict(current_charge=ch, soc=ch / B['cap']))
            E['soc'] = ch / B['cap']
        ms.append(('battery', b))
    if a['genset']:
        rmin = I.real('running_min', lo=0)
        rmax = I.real('running_max', lo=rmin)
        I.assume(gt(rmax, 0))
        fuel, gco2 = I.real('fuel', lo=0), I.real('gen_co2', lo=0)
        ms.append(('genset', I.must('genset', M.GensetModule, running_min_production=rmin, running_max_production=rmax, genset_cost=fuel, co2_per_unit=gco2, cost_per_unit_co2=co2)))
        E.update(gen_min=rmin, gen_max=rmax, fuel=fuel, gen_co2=gco2)
    if a['grid']:
        imp, exp = I.real('max_import', lo=0), I.real('max_export', lo=0)
        ms.append(('grid', I.must('grid', M.GridModule, max_import=imp, max_export=exp, time_series=col(2, 6), cost_per_unit_co2=co2, **fk)))
        E.update({'import': imp, 'export': exp})
    g = I.must('microgrid', mod('pymgrid.microgrid').Microgrid, ms, add_unbalanced_module=False)
    return g, E, ts


def from_modular(I, a):
    conv = setup(I)
    g, E, ts = modular_mg(I, a)
    m = I.must('a modular microgrid is converted', conv.to_nonmodular, g)
    I.cover('to legacy')
    check_legacy(I, m, a, E, ts)
    g2 = I.must('the legacy microgrid is converted back', conv.to_modular, m)
    I.cover('and back')
    check_modular(I, g2, a, E, ts)


for b in (False, True):
    for q in (False, True):
        for r in (False, True):
            a = dict(battery=b, genset=q, grid=r)
            name = 'renewable' + ' battery' * b + ' genset' * q + ' grid' * r
            tg = [C + f'get_module.get_{k}_module' for k in a if a[k]] + [C + f'to_nonmodular_ops.add_{k}_params' for k in a if a[k]]
            contract('C19', f'legacy to modular and back: {name}', targets=TM + TN + tg, covers=['to modular', 'and back'], budget=300, random_n=60)(lambda I, a=a: from_legacy(I, a))
            contract('C19', f'modular to legacy and back: {name}', targets=TM + TN + tg, covers=['to legacy', 'and back'], budget=300, random_n=60)(lambda I, a=a: from_modular(I, a))


# ------------------------------------------------------------------ unsupported compositions
KINDS = ['load', 'load', 'renewable', 'renewable', 'battery', 'genset', 'grid', 'unbalanced', 'other']


@contract('C19', 'unsupported compositions are rejected', targets=TN, sym=False, bounded='random lists of up to 7 modules', random_n=300)
def rejected(I):
    import numpy as np
    M = modules()
    conv = setup(I)
    n = I.int('n', lo=1, hi=7)
    mk = dict(load=lambda: M.LoadModule(time_series=np.ones(5) * 3), renewable=lambda: M.RenewableModule(time_series=np.ones(5)),
              battery=lambda: M.BatteryModule(min_capacity=0, max_capacity=10, max_charge=1, max_discharge=1, efficiency=.9, init_soc=.5),
              genset=lambda: M.GensetModule(running_min_production=1, running_max_production=5, genset_cost=1.),
              grid=lambda: M.GridModule(max_import=4, max_export=2, time_series=np.ones((5, 3))), unbalanced=lambda: M.UnbalancedEnergyModule(raise_errors=False))

    class Other(M.RenewableModule.__mro__[1]):
        module_type = ('other', 'fixed')
        state_components = np.array(['x'], dtype=object)
        name_ = 'other'

        def __init__(self):
            super().__init__(np.ones(5), False)

        def update(self, external_energy_change, as_source=False, as_sink=False):
            return 0.0, False, {}

        @property
        def is_source(self): return True
    mk['other'] = Other
    kinds = [I.choice(f'k{i}', KINDS) for i in range(n)]
    if I.bool('mostly valid'):
        kinds = list(dict.fromkeys(k for k in kinds if k != 'other'))
        for k in ('renewable', 'unbalanced'):
            if k not in kinds:
                kinds.append(k)
    same = I.bool('same name')
    ms = []
    for i, k in enumerate(kinds):
        try:
            m = mk[k]()
        except (TypeError, AttributeError, NotImplementedError):
            raise Skip()
        ms.append((k if same else f'{k}_{i}', m))
    try:
        g = mod('pymgrid.microgrid').Microgrid(ms, add_unbalanced_module=False)
    except Exception:
        raise Skip()
    ok = len(set(kinds)) == len(kinds) and 'other' not in kinds and 'load' in kinds
    if ok and not ('renewable' in kinds and 'unbalanced' in kinds):
        raise Skip()
    if ok:
        I.must('a supported composition is converted', conv.to_nonmodular, g)
        I.cover('converted')
    else:
        e = I.call(conv.to_nonmodular, g)
        I.ensure('an unsupported composition raises ValueError or TypeError', isinstance(e.exc, (ValueError, TypeError)))
        I.cover('rejected')


@contract('C19', 'conversions are independent of each other', targets=TN, sym=False, bounded='two random modular microgrids converted one after the other', random_n=120)
def independent(I):
    conv = setup(I)
    out = []
    for p in ('x', 'y'):
        J = Prefixed(I, p)
        a = {k: J.bool(k) for k in ('battery', 'genset', 'grid')}
        g, E, ts = modular_mg(J, a)
        out.append((J, a, g, E, ts, J.must('a modular microgrid is converted', conv.to_nonmodular, g)))
    for J, a, g, E, ts, m in out:
        check_legacy(J, m, a, E, ts)
        want = {'load', 'pv_consummed', 'pv_curtailed', 'pv'} | {k for c, ks in dict(battery=('battery_charge', 'battery_discharge'), genset=('genset',), grid=('grid_import', 'grid_export')).items() if a[c] for k in ks}
        I.ensure('controls of the components present', set(m.control_dict) == want and len(m.control_dict) == len(want) and set(m._df_record_control_dict) == want)
    for J, a, g, E, ts, m in out:
        check_modular(J, g, a, E, ts)
    I.cover('two')


class Prefixed:
    """inputs of a second object"""

    def __init__(self, I, p):
        self.I, self.p = I, p

    def __getattr__(self, n):
        f = getattr(self.I, n)
        if n in ('real', 'int', 'bool', 'choice', 'series', 'row_index'):
            return lambda name, *a, **k: f(self.p + name, *a, **k)
        return f


@contract('C19', 'converted legacy microgrids run like the modular ones', targets=TN, sym=False, bounded='random modular microgrids with every subset of battery, genset and grid, up to 6 steps', random_n=200)
def behaves(I):
    """the converted microgrid accepts the same step: production within limits, same costs for the quantities that both simulators define alike"""
    a = {k: I.bool(k) for k in ('battery', 'genset', 'grid')}
    conv = setup(I)
    g, E, ts = modular_mg(I, a)
    m = I.must('a modular microgrid is converted', conv.to_nonmodular, g)
    if ts.shape[0] < 4 or m.horizon > ts.shape[0] - 3:
        raise Skip()
    req = {k: 0.0 for k in m.control_dict if k not in ('load', 'pv', 'pv_curtailed', 'pv_consummed')}
    net = ts[0, 0] - ts[0, 1]
    req.update(load=ts[0, 0], pv=ts[0, 1], pv_consummed=min(ts[0, 0], ts[0, 1]), pv_curtailed=max(-net, 0.0))
    if a['grid'] and net > 0:
        req['grid_import'] = net
    out = I.must('the converted microgrid takes a step', quiet(m.run), dict(req))
    p = {k: v[-1] for k, v in m._df_record_actual_production.items()}
    I.ensure('the load is met or reported as unmet', near(p['pv_consummed'] + p.get('grid_import', 0.) + p.get('battery_discharge', 0.) + p.get('genset', 0.) + p['loss_load'] - ts[0, 0], 0))
    if a['grid']:
        I.ensure('grid import within the limits of the modular grid', le(p['grid_import'], E['import'] * ts[0, 5]))
        I.ensure('import cost', near(m._df_record_cost['grid_import'][-1], p['grid_import'] * ts[0, 2]))
        I.ensure('the following state shows the second row', and_(eq(out['load'], ts[1, 0]), eq(out['pv'], ts[1, 1]), eq(out['grid_status'], ts[1, 5])))
    I.ensure('cost of unmet load', near(m._df_record_cost['loss_load'][-1], p['loss_load'] * E['loss_load']))
    I.cover('run')


def near(x, y):
    return abs(x - y) <= 1e-3 + 1e-6 * abs(x)

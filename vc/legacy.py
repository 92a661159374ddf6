"""legacy microgrids in arbitrary states; parameters and series rows are arbitrary"""
import contextlib
import io
from .spec import *
from .models import *

# ASSUME: legacy parameters are in their documented domains: 0 < efficiency <= 1, 0 <= soc_min <= soc <= soc_max <= 1, capacity > 0, non-negative powers, costs, emissions and series, 0 <= pmin <= pmax


class Frame:
    """one column of an arbitrarily long series with the interface of a DataFrame that the simulator uses"""

    def __init__(self, ts, j):
        self.ts, self.j = ts, j
        outer = self

        class Loc:
            def __getitem__(self, k):
                if not isinstance(k, tuple) or k[1] != 0:
                    undecided('unexpected access to a series')
                return outer.ts[k[0], outer.j]
        self.iloc = Loc()

    @property
    def shape(self):
        return (self.ts.shape[0], 1)

    def __len__(self):
        undecided('len of a series')


COLS = ('load', 'pv', 'grid_price_import', 'grid_price_export', 'grid_co2', 'grid_ts')


def frames(I, min_rows=2):
    ts = I.series('ts', ncols=6, min_rows=min_rows, nonneg=True, binary_cols=(5,))
    if I.symbolic:
        return ts, {c: Frame(ts, j) for j, c in enumerate(COLS)}
    import pandas as pd
    return ts, {c: pd.DataFrame(ts[:, j], columns=[c]) for j, c in enumerate(COLS)}


def legacy(I, battery, genset, grid, fr, t, horizon=1):
    """parameters as MicrogridGenerator builds them; the current row is t"""
    import pandas as pd
    pos = dict(lo=0)
    P = dict(cost_loss_load=I.real('cost_loss_load', **pos), cost_overgeneration=I.real('cost_overgeneration', **pos), cost_co2=I.real('cost_co2', **pos),
             load=1.0, PV_rated_power=1.0)
    acts, prod, cost = ['load', 'pv_consummed', 'pv_curtailed', 'pv'], ['loss_load', 'overgeneration', 'pv_consummed', 'pv_curtailed'], ['loss_load', 'overgeneration', 'co2']
    row = {c: fr[c].iloc[t, 0] for c in COLS}
    st = dict(load=[row['load']], hour=[0], pv=[row['pv']])
    if battery:
        P['battery_capacity'] = I.real('capacity', lo=0, lo_open=True)
        P['battery_efficiency'] = I.real('efficiency', lo=0, lo_open=True, hi=1)
        if not I.symbolic:
            I.assume(P['battery_capacity'] > 1e-2 and P['battery_efficiency'] > 1e-2)
        P['battery_soc_min'] = I.real('soc_min', lo=0, hi=1)
        P['battery_soc_max'] = I.real('soc_max', lo=P['battery_soc_min'], hi=1)
        P['battery_power_charge'] = I.real('power_charge', **pos)
        P['battery_power_discharge'] = I.real('power_discharge', **pos)
        P['battery_cost_cycle'] = I.real('cost_cycle', **pos)
        soc = I.real('soc', lo=P['battery_soc_min'], hi=P['battery_soc_max'])
        P['battery_soc_0'] = soc
        st.update(battery_soc=[soc], capa_to_charge=[I.real('capa_to_charge', **pos)], capa_to_discharge=[I.real('capa_to_discharge', **pos)])
        for l in (acts, prod):
            l += ['battery_charge', 'battery_discharge']
        cost.append('battery')
    if genset:
        P['genset_rated_power'] = I.real('rated_power', **pos)
        P['genset_pmin'] = I.real('pmin', lo=0, hi=1)
        P['genset_pmax'] = I.real('pmax', lo=P['genset_pmin'], hi=1)
        P['fuel_cost'] = I.real('fuel_cost', **pos)
        P['genset_co2'] = I.real('genset_co2', **pos)
        P.update(genset_polynom_order=3, genset_polynom_0=1.0, genset_polynom_1=1.0, genset_polynom_2=1.0)
        for l in (acts, prod, cost):
            l.append('genset')
    if grid:
        P['grid_power_import'] = I.real('power_import', **pos)
        P['grid_power_export'] = I.real('power_export', **pos)
        P['grid_weak'] = 1
        st.update(grid_status=[row['grid_ts']], grid_co2=[row['grid_co2']], grid_price_import=[row['grid_price_import']], grid_price_export=[row['grid_price_export']])
        for l in (acts, prod, cost):
            l += ['grid_import', 'grid_export']
    cost.append('total_cost')
    arch = dict(PV=1, battery=int(battery), genset=int(genset), grid=int(grid))
    d = dict(parameters=pd.DataFrame({k: pd.Series([v], dtype=object if I.symbolic else None) for k, v in P.items()}), architecture=arch, df_actions={k: [] for k in acts}, df_status=st,
             df_actual_generation={k: [] for k in prod}, df_cost={k: [] for k in cost}, df_co2=dict(co2=[]), grid_spec=0, control_dict=acts, **fr)
    m = I.must('construction', mod('pymgrid._deprecated.non_modular_microgrid').NonModularMicrogrid, d, horizon=horizon)
    return m, P


def quiet(fn):
    def f(*a, **k):
        with contextlib.redirect_stdout(io.StringIO()):
            return fn(*a, **k)
    return f


def last(d): return {k: v[-1] for k, v in d.items()}

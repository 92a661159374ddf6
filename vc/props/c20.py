from ..spec import *
from ..models import *
from ..legacy import *

N = 'pymgrid._deprecated.non_modular_microgrid.NonModularMicrogrid.'
T = [N + 'run', N + '_record_production', N + '_record_cost', N + '_record_co2', N + '_update_status', N + 'update_variables',
     N + '_check_constraints_battery', N + '_check_constraints_genset', N + '_check_constraints_grid']
TOL = 1e-3
# ASSUME: a mismatch of less than 1e-3 between supply and use counts as balanced (the simulator's own tolerance)


def near(a, b):
    if hasattr(a, 't') or hasattr(b, 't'):
        return eq(a, b)
    return abs(a - b) <= 1e-7 * max(1.0, abs(a), abs(b))


def lim(a, b):
    """a <= b"""
    if hasattr(a, 't') or hasattr(b, 't'):
        return le(a, b)
    return a <= b + 1e-7 * max(1.0, abs(a), abs(b))


def request(I, m, p='c'):
    return {k: I.real(f'{p}_{k}') for k in ('battery_charge', 'battery_discharge', 'genset', 'grid_import', 'grid_export')
            if (k.split('_')[0] if k != 'genset' else k) in [a for a, on in m.architecture.items() if on]}


mn, mx = smin, smax


def check_step(I, m, P, req, pre, row, nxt, out, k=1, amount=True):
    """pre: state before; row: series values of this step; nxt: of the following one (None: unknown)"""
    a = m.architecture
    pr, co, c2, st = last(m._df_record_actual_production), last(m._df_record_cost), last(m._df_record_co2), last(m._df_record_state)
    z = 0.0
    ch, di = (pr['battery_charge'], pr['battery_discharge']) if a['battery'] else (z, z)
    gen = pr['genset'] if a['genset'] else z
    imp, exp = (pr['grid_import'], pr['grid_export']) if a['grid'] else (z, z)
    pvc, cut, unmet, over = pr['pv_consummed'], pr['pv_curtailed'], pr['loss_load'], pr['overgeneration']
    I.cover('step')
    I.ensure('recorded amounts are non-negative', and_(*[ge(x, 0) for x in (ch, di, gen, imp, exp, pvc, cut, unmet, over)]))
    gap = pvc + di + gen + imp + unmet - (row['load'] + ch + exp + over)
    I.ensure('supply equals use', and_(le(gap, TOL), ge(gap, -TOL)))
    I.ensure('renewable used and curtailed is what is available', near(pvc + cut, row['pv']))
    I.ensure('never both unmet load and overgeneration', or_(eq(unmet, 0), eq(over, 0)))
    I.ensure('load is unmet only if all renewable power is used', implies(gt(unmet, 0), near(pvc, row['pv'])))
    I.ensure('overgeneration only if no renewable power is used', implies(gt(over, 0), eq(pvc, 0)))
    if a['battery']:
        cap, eff, soc = P['battery_capacity'], P['battery_efficiency'], pre['battery_soc']
        room, avail = (P['battery_soc_max'] - soc) * cap * eff, (soc - P['battery_soc_min']) * cap * eff
        I.ensure('battery power limits', and_(le(ch, P['battery_power_charge']), le(di, P['battery_power_discharge'])))
        I.ensure('battery takes no more than it has room for and gives no more than it holds', and_(lim(ch, room), lim(di, avail)))
        I.ensure('a battery request within the limits is carried out', and_(
            implies(and_(ge(req['battery_charge'], 0), le(req['battery_charge'], mn(room, P['battery_power_charge']))), near(ch, req['battery_charge'])),
            implies(and_(ge(req['battery_discharge'], 0), le(req['battery_discharge'], mn(avail, P['battery_power_discharge']))), near(di, req['battery_discharge']))))
        pc, pd = P['battery_power_charge'], P['battery_power_discharge']
        I.ensure('a battery request beyond the power limit gets that limit', and_(implies(and_(ge(req['battery_charge'], pc), ge(room, pc)), near(ch, pc)),
                                                                                  implies(and_(ge(req['battery_discharge'], pd), ge(avail, pd)), near(di, pd))))
        I.ensure('the battery never does more than requested', and_(le(ch, mx(req['battery_charge'], 0)), le(di, mx(req['battery_discharge'], 0))))
        I.ensure('the next state of charge follows from the recorded charge and discharge', near(st['battery_soc'], soc + (ch * eff - di / eff) / cap))
        I.ensure('the state of charge stays within its limits', and_(lim(P['battery_soc_min'], st['battery_soc']), lim(st['battery_soc'], P['battery_soc_max'])))
        ns = st['battery_soc']
        I.ensure('the reported capacities follow from the state of charge', and_(near(st['capa_to_charge'], mx((P['battery_soc_max'] - ns) * cap * eff, 0.0)),
                                                                                 near(st['capa_to_discharge'], mx((ns - P['battery_soc_min']) * cap * eff, 0.0))))
        if not m.done:
            I.ensure('the battery object shows the recorded state', near(m.battery.soc, ns))
        I.ensure('battery cost', near(co['battery'], (ch + di) * P['battery_cost_cycle']))
    if a['genset']:
        lo, hi = P['genset_rated_power'] * P['genset_pmin'], P['genset_rated_power'] * P['genset_pmax']
        r = req['genset']
        I.ensure('genset maximum', le(gen, hi))
        I.ensure('genset minimum for every request above one unit', implies(gt(r, 1), ge(gen, lo)))
        I.ensure('a genset request within the limits is carried out', implies(and_(ge(r, lo), le(r, hi)), eq(gen, r)))
        I.ensure('a genset request beyond a limit gets that limit', and_(implies(ge(r, hi), eq(gen, hi)), implies(and_(gt(r, 1), le(r, lo)), eq(gen, lo))))
        I.ensure('genset cost', near(co['genset'], gen * P['fuel_cost']))
    if a['grid']:
        up, down = P['grid_power_import'] * row['grid_ts'], P['grid_power_export'] * row['grid_ts']
        I.ensure('grid power limits and outages', and_(le(imp, up), le(exp, down)))
        I.ensure('a grid request within the limits is carried out', and_(implies(and_(ge(req['grid_import'], 0), le(req['grid_import'], up)), eq(imp, req['grid_import'])),
                                                                         implies(and_(ge(req['grid_export'], 0), le(req['grid_export'], down)), eq(exp, req['grid_export']))))
        I.ensure('a grid request beyond a limit gets that limit', and_(implies(ge(req['grid_import'], up), eq(imp, up)), implies(ge(req['grid_export'], down), eq(exp, down))))
        I.ensure('the grid never does more than requested', and_(le(imp, mx(req['grid_import'], 0)), le(exp, mx(req['grid_export'], 0))))
        I.ensure('grid cost', and_(near(co['grid_import'], imp * row['grid_price_import']), near(co['grid_export'], -exp * row['grid_price_export'])))
    em = (gen * P['genset_co2'] if a['genset'] else z) + (imp * row['grid_co2'] if a['grid'] else z)
    I.ensure('emissions', near(c2['co2'], em))
    I.ensure('cost of emissions', near(co['co2'], em * P['cost_co2']))
    I.ensure('cost of unmet load and overgeneration', and_(near(co['loss_load'], unmet * P['cost_loss_load']), near(co['overgeneration'], over * P['cost_overgeneration'])))
    tot = z
    for key in co:
        if key != 'total_cost':
            tot = tot + co[key]
    I.ensure('the total cost is the sum of all costs', and_(near(co['total_cost'], tot), near(m.get_cost(), tot), near(m.get_co2(), em)))
    for key, l in list(m._df_record_actual_production.items()) + list(m._df_record_cost.items()) + list(m._df_record_co2.items()):
        I.ensure('one record per step', len(l) == k)
    for key, l in m._df_record_state.items():
        I.ensure('one state per step', len(l) == k + 1)
    if nxt is not None:
        I.ensure('the next state shows the next load and renewable power', and_(eq(st['load'], nxt['load']), eq(st['pv'], nxt['pv'])))
        if a['grid']:
            I.ensure('the next state shows the next grid values', and_(eq(st['grid_status'], nxt['grid_ts']), eq(st['grid_price_import'], nxt['grid_price_import']),
                                                                         eq(st['grid_price_export'], nxt['grid_price_export']), eq(st['grid_co2'], nxt['grid_co2'])))
    for key in out:
        I.ensure('the state is returned', out[key] is st[key] or out[key] == st[key])


# ------------------------------------------------------------------ contracts of the limit checks
def battery_limits(I, P, soc, pc, pd, ch, di):
    cap, eff = P['battery_capacity'], P['battery_efficiency']
    room, avail = (P['battery_soc_max'] - soc) * cap * eff, (soc - P['battery_soc_min']) * cap * eff
    return [('non-negative', and_(ge(ch, 0), ge(di, 0))),
            ('power limits', and_(le(ch, P['battery_power_charge']), le(di, P['battery_power_discharge']))),
            ('room and content', and_(lim(ch, room), lim(di, avail))),
            ('no more than requested', and_(le(ch, mx(pc, 0)), le(di, mx(pd, 0)))),
            ('a request beyond the power limit gets it', and_(implies(and_(ge(pc, P['battery_power_charge']), ge(room, P['battery_power_charge'])), eq(ch, P['battery_power_charge'])),
                                                              implies(and_(ge(pd, P['battery_power_discharge']), ge(avail, P['battery_power_discharge'])), eq(di, P['battery_power_discharge'])))),
            ('a request within the limits is kept', and_(implies(and_(ge(pc, 0), le(pc, mn(room, P['battery_power_charge']))), eq(ch, pc)),
                                                         implies(and_(ge(pd, 0), le(pd, mn(avail, P['battery_power_discharge']))), eq(di, pd))))]


def grid_limits(I, P, status, pi, pe, imp, exp):
    up, down = P['grid_power_import'] * status, P['grid_power_export'] * status
    return [('non-negative', and_(ge(imp, 0), ge(exp, 0))), ('limits', and_(le(imp, up), le(exp, down))),
            ('no more than requested', and_(le(imp, mx(pi, 0)), le(exp, mx(pe, 0)))),
            ('a request beyond a limit gets it', and_(implies(ge(pi, up), eq(imp, up)), implies(ge(pe, down), eq(exp, down)))),
            ('a request within the limits is kept', and_(implies(and_(ge(pi, 0), le(pi, up)), eq(imp, pi)), implies(and_(ge(pe, 0), le(pe, down)), eq(exp, pe))))]


def genset_limits(I, P, r, gen):
    lo, hi = P['genset_rated_power'] * P['genset_pmin'], P['genset_rated_power'] * P['genset_pmax']
    return [('limits', and_(ge(gen, 0), le(gen, hi))), ('minimum for requests above one unit', implies(gt(r, 1), ge(gen, lo))),
            ('a request beyond a limit gets it', and_(implies(ge(r, hi), eq(gen, hi)), implies(and_(gt(r, 1), le(r, lo)), eq(gen, lo)))),
            ('a request within the limits is kept', implies(and_(ge(r, lo), le(r, hi)), eq(gen, r)))]


CHECKS = [N + f'_check_constraints_{k}' for k in ('battery', 'genset', 'grid')]


def by_contract(I, m, P):
    """replaces the limit checks of m by their contracts"""
    for k in CHECKS:
        if not hasattr(m, k.rsplit('.', 1)[1]):
            undecided('limit checks were renamed')

    def known(cs):
        for _, c in cs:
            I.assume(c)

    def battery(pc, pd, status):
        ch, di = I.real('ch'), I.real('di')
        known(battery_limits(I, P, status['battery_soc'][-1], pc, pd, ch, di))
        return ch, di

    def grid(pi, pe, status=1):
        imp, exp = I.real('imp'), I.real('exp')
        known(grid_limits(I, P, status, pi, pe, imp, exp))
        return imp, exp

    def genset(r):
        g = I.real('gen')
        known(genset_limits(I, P, r, g))
        return g
    m._check_constraints_battery, m._check_constraints_grid, m._check_constraints_genset = battery, grid, genset


def checked(I, kind):
    ts, fr = frames(I, min_rows=3)
    m, P = legacy(I, kind == 'battery', kind == 'genset', kind == 'grid', fr, 0)
    if not hasattr(m, '_check_constraints_' + kind):
        undecided('limit checks were renamed')
    f = quiet(getattr(m, '_check_constraints_' + kind))
    I.cover('c')
    if kind == 'battery':
        soc = I.real('now', lo=P['battery_soc_min'], hi=P['battery_soc_max'])
        pc, pd = I.real('pc'), I.real('pd')
        cs = battery_limits(I, P, soc, pc, pd, *f(pc, pd, {'battery_soc': [0.0, soc]}))
    elif kind == 'grid':
        st = I.choice('status', [0, 1])
        pi, pe = I.real('pi'), I.real('pe')
        cs = grid_limits(I, P, st, pi, pe, *f(pi, pe, st))
    else:
        r = I.real('r')
        cs = genset_limits(I, P, r, f(r))
    for label, c in cs:
        I.ensure(label, c)


for k in ('battery', 'genset', 'grid'):
    contract('C20', f'limit check: {k}', targets=[N + '_check_constraints_' + k], covers=['c'], budget=60, aux=True)(lambda I, k=k: checked(I, k))


def one_step(I, battery, genset, grid, first):
    ts, fr = frames(I, min_rows=3)
    n = ts.shape[0]
    if first:
        t = 0
        m, P = legacy(I, battery, genset, grid, fr, 0)
    else:
        t = I.row_index('t', ts)
        I.assume(lt(t, n - 2) if not I.symbolic else t < n - 2)
        m, P = legacy(I, battery, genset, grid, fr, t)
        if not hasattr(m, '_tracking_timestep'):
            undecided('no clock')
        m._tracking_timestep = t
        m.update_variables()
    row = {c: fr[c].iloc[t, 0] for c in COLS}
    nxt = {c: fr[c].iloc[t + 1, 0] for c in COLS}
    pre = last(m._df_record_state)
    req = request(I, m)
    if I.symbolic and USE_CALLEES[0]:
        by_contract(I, m, P)
    out = I.must('every request leads to a step', quiet(m.run), dict(req))
    check_step(I, m, P, req, pre, row, nxt, out)
    I.ensure('time advances by one', and_(eq(m._tracking_timestep, t + 1), eq(m.load, nxt['load']), eq(m.pv, nxt['pv'])))
    if grid:
        I.ensure('the grid of the next step', and_(eq(m.grid.status, nxt['grid_ts']), eq(m.grid.price_import, nxt['grid_price_import']), eq(m.grid.price_export, nxt['grid_price_export'])))


for b in (False, True):
    for g in (False, True):
        for r in (False, True):
            name = 'renewable' + ' battery' * b + ' genset' * g + ' grid' * r
            contract('C20', f'step: {name}', targets=T, covers=['step'], budget=200, max_paths=20000, callees=CHECKS if b + g + r > 1 else ())(
                lambda I, b=b, g=g, r=r: one_step(I, b, g, r, I.bool('first') if b + g + r < 2 else False))


@contract('C20', 'histories', sym=False, targets=T + [N + 'reset', N + 'train_test_split'], bounded='random architectures and parameters, up to 12 rows, 2 episodes, with and without training split', random_n=300)
def histories(I):
    import numpy as np
    n = I.int('n', lo=4, hi=12)
    ts = np.array([[I.real(f'x{i}{j}', lo=0, hi=50) if j < 5 else float(I.choice(f'x{i}{j}', [0, 1, 1])) for j in range(6)] for i in range(n)])
    import pandas as pd
    fr = {c: pd.DataFrame(ts[:, j], columns=[c]) for j, c in enumerate(COLS)}
    h = I.choice('horizon', [1, 2, 3])
    m, P = legacy(I, I.bool('bat'), I.bool('gen'), I.bool('grid'), fr, 0, horizon=h)
    split = I.choice('split', [None, None, 0.5, 0.67])
    lo, hi = 0, n
    if split is not None:
        cut = int(np.ceil(n * split))
        if cut < 3 or n - cut < 3:
            raise Skip()
        m.train_test_split(train_size=split)
    for ep in range(2):
        if ep or split is not None:
            testing = I.bool(f'test{ep}')
            m.reset(testing=testing)
            lo, hi = (0, n) if split is None else ((cut, n) if testing else (0, cut))
            cur = last(m._df_record_state)
            I.ensure('after a reset the state shows the first step of the data set in use', cur['load'] == ts[lo, 0] and cur['pv'] == ts[lo, 1] and (not m.architecture['grid'] or cur['grid_status'] == ts[lo, 5]))
            if m.architecture['battery']:
                I.ensure('after a reset the battery has its initial charge', cur['battery_soc'] == P['battery_soc_0'])
        for s in range(I.int(f'steps{ep}', lo=1, hi=10)):
            if m.done or s + 1 >= hi - lo - (1 if split is not None else 0):
                break
            if I.bool(f'pin{ep}{s}'):
                req = {k: v * 1.0 for k, v in request(I, m, f'c{ep}{s}').items()}
            else:                                   # meet the load exactly without renewable power where possible
                req = {k: 0.0 for k in request(I, m, f'c{ep}{s}')}
                for key in ('battery_discharge', 'grid_import', 'genset'):
                    if key in req:
                        req[key] = float(ts[lo + s, 0])
                        break
            row = {c: ts[lo + s, j] for j, c in enumerate(COLS)}
            nxt = {c: ts[lo + s + 1, j] for j, c in enumerate(COLS)}
            pre = last(m._df_record_state)
            done = s >= hi - lo - h or s >= hi - lo - 1
            out = I.must('every request leads to a step', quiet(m.run), dict(req))
            check_step(I, m, P, req, pre, row, nxt, out, k=s + 1)
            I.ensure('the episode ends when the horizon reaches the end of the data', bool(m.done) == done)

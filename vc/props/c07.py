from ..spec import *
from ..models import *

G = 'pymgrid.modules.grid_module.GridModule.'


def limits(I, g, P):
    I.ensure('import limit', eq(g.max_production, P['imp'] * P['status']))
    I.ensure('export limit', eq(g.max_consumption, P['exp'] * P['status']))
    I.ensure('marginal costs are the current prices', and_(eq(g.production_marginal_cost, P['pi']), eq(g.absorption_marginal_cost, P['pe'])))
    I.ensure('current status', eq(g.current_status, P['status']))


def pricing(I, P, out):
    _, reward, _, info = out
    I.ensure('exactly one direction is reported', (prov(info) is None) != (absb(info) is None))
    if prov(info) is not None:
        e = prov(info)
        I.cover('import')
        I.ensure('import within limit', between(0, e, P['imp']))
        I.ensure('no import in an outage', implies(eq(P['status'], 0), eq(e, 0)))
        I.ensure('emissions of import', eq(info['co2_production'], P['co2'] * e))
        I.ensure('reward of import', eq(reward, -(P['pi'] * e) - P['pco2'] * P['co2'] * e))
        return e, None
    e = absb(info)
    I.cover('export')
    I.ensure('export within limit', between(0, e, P['exp']))
    I.ensure('no export in an outage', implies(eq(P['status'], 0), eq(e, 0)))
    I.ensure('no emissions for export', eq(info['co2_production'], 0))
    I.ensure('reward of export', eq(reward, P['pe'] * e))
    return None, e


def _grid_step(cols):
    def f(I):
        g, P = grid(I, cols=cols)
        limits(I, g, P)
        a = I.real('action')
        out = I.must('step accepts any request', g.step, a, normalized=False)
        pricing(I, P, out)
    return f


contract('C07', 'grid step, four columns', targets=[G + 'update', G + 'get_cost', G + 'get_co2_cost', G + 'get_co2_production', G + 'max_production', G + 'max_consumption', G + 'current_status', G + '_check_params'], covers=['import', 'export'])(_grid_step(4))
contract('C07', 'grid step, three columns', targets=[G + '_check_params', G + 'update'], covers=['import', 'export'])(_grid_step(3))


@contract('C07', 'grid step, normalized', targets=[G + 'update'], covers=['import', 'export'])
def norm(I):
    g, P = grid(I)
    a = I.real('action', lo=0, hi=1)
    out = I.must('step accepts any normalized action', g.step, a)
    e, x = pricing(I, P, out)
    raw = -P['exp'] + (P['exp'] + P['imp']) * a
    if e is not None:
        I.ensure('normalized import', implies(eq(P['status'], 1), eq(e, smax(raw, 0))))
    else:
        I.ensure('normalized export', implies(eq(P['status'], 1), eq(x, smax(-raw, 0))))


@contract('C07', 'grid step with forecast', targets=[G + 'import_price', G + 'grid_status'], covers=['import', 'export'])
def fc(I):
    g, P = grid(I, horizon=horizon(I))
    limits(I, g, P)
    a = I.real('action')
    out = I.must('step accepts any request', g.step, a, normalized=False)
    pricing(I, P, out)


@contract('C07', 'grid rejects invalid limits', targets=[G + '_check_params'], covers=['ok', 'rejected'])
def reject_limits(I):
    imp, exp = I.real('imp'), I.real('exp')
    ts = I.series('ts', ncols=4, nonneg=True, binary_cols=(3,))
    o = I.call(modules().GridModule, max_import=imp, max_export=exp, time_series=ts)
    if o.ok:
        I.cover('ok')
    else:
        I.cover('rejected')
        I.ensure('rejection is a ValueError', o.raised(ValueError))
    I.ensure('negative limits are rejected and only those', iff(o.ok, and_(ge(imp, 0), ge(exp, 0))))


@contract('C07', 'grid rejects invalid series', targets=[G + '_check_params'], covers=['ok', 'rejected'])
def reject_series(I):
    cols = I.choice('cols', [3, 4])
    ts = I.series('ts', ncols=cols, nonneg=False)
    i = I.row_index('i', ts)
    o = I.call(modules().GridModule, max_import=1.0, max_export=1.0, time_series=ts)
    bad = or_(*[lt(ts[i, j], 0) for j in range(cols)])
    if cols == 4:
        bad = or_(bad, and_(not_(eq(ts[i, 3], 0)), not_(eq(ts[i, 3], 1))))
    if o.ok:
        I.cover('ok')
        I.ensure('accepted series is non-negative with binary status', not_(bad))
    else:
        I.cover('rejected')
        I.ensure('rejection is a ValueError', o.raised(ValueError))


@contract('C07', 'grid rejects wrong number of columns', targets=[G + '_check_params'], covers=['r'])
def reject_cols(I):
    ts = I.series('ts', ncols=I.choice('cols', [1, 2, 5, 6]), nonneg=True)
    o = I.call(modules().GridModule, max_import=1.0, max_export=1.0, time_series=ts)
    I.cover('r')
    I.ensure('rejected', o.raised(ValueError))


@contract('C07', 'weak grid flag', targets=[G + 'weak_grid'], covers=['c'])
def weak(I):
    g, P = grid(I)
    w = g.weak_grid
    I.cover('c')
    I.ensure('a grid with an outage is weak', implies(eq(P['status'], 0), w if isinstance(w, bool) else (w == True)))


@contract('C07', 'grid full episode', sym=False, bounded='random episodes over random series on the real code', random_n=200)
def episode(I):
    h = I.choice('h', [None, 1, 4])
    cols = I.choice('cols', [3, 4])
    g, P = grid(I, cols=cols, horizon=h)
    ts = P['ts']
    for r in range(2):
        g.reset()
        for t in range(len(ts)):
            Q = dict(P, pi=ts[t, 0], pe=ts[t, 1], co2=ts[t, 2], status=ts[t, 3] if cols == 4 else 1)
            limits(I, g, Q)
            if I.bool(f'n{r}_{t}'):
                out = I.must('step', g.step, I.real(f'a{r}_{t}', lo=0, hi=1))
            else:
                out = I.must('step', g.step, I.real(f'a{r}_{t}'), normalized=False)
            pricing(I, Q, out)

from ..spec import *
from ..models import *

BM = 'pymgrid.modules.base.base_module.BaseMicrogridModule.'
T = [BM + 'step', BM + '_unnormalized_step', BM + 'as_source', BM + 'as_sink', BM + '_raise_error']


def build(I, kind, strict):
    """module, limits of the coming step (lo, hi, mc), parameters"""
    if kind == 'battery':
        m, P = battery(I, raise_errors=strict)
        return m, (0, m.max_production, m.max_consumption), P
    if kind == 'grid':
        m, P = grid(I, raise_errors=strict)
        return m, (0, m.max_production, m.max_consumption), P
    if kind == 'renewable':
        m, P = renewable(I, raise_errors=strict)
        return m, (0, m.max_production, None), P
    if kind == 'balancing':
        m, P = unbalanced(I, raise_errors=strict)
        return m, (0, m.max_production, m.max_consumption), P
    if kind == 'load':
        m, P = load(I, raise_errors=strict)
        return m, None, P
    if kind == 'genset':
        m, P = genset(I, raise_errors=strict)
        return m, None, P
    raise KeyError(kind)


def loglen(m):
    return [len(v) for v in m.log_dict().values()]


def one_direction(I, info):
    e, x = prov(info), absb(info)
    I.ensure('exactly one direction is reported', (e is None) != (x is None))
    v = e if e is not None else x
    I.ensure('reported amount is never negative', ge(v, 0))
    return e, x


def serve(I, kind, strict):
    m, lim, P = build(I, kind, strict)
    a = I.real('action')
    if kind == 'genset':
        r = I.choice('goal', [0, 1])
        lim = (m.next_min_production(r), m.next_max_production(r), None)
        act = arr(I, [r, a])
    else:
        act = a
    lo, hi, mc = lim
    sink = mc is not None
    before_state, before_step, before_log = m.state_dict(), m.current_step, loglen(m)
    o = I.call(m.step, act, normalized=False)
    inf = float('inf')
    source_dir = ge(a, 0) if not sink else None
    if o.ok:
        _, _, _, info = o.value
        e, x = one_direction(I, info)
        if e is not None:
            I.cover('source')
            I.ensure('a negative request is not served as a source', ge(a, 0))
            I.ensure('request within limits is served exactly', implies(and_(le(lo, a), le(a, hi)), eq(e, a)))
            I.ensure('request above the maximum is clipped to it', implies(gt(a, hi), eq(e, hi)))
            I.ensure('request below the must-run minimum is raised to it', implies(lt(a, lo), eq(e, lo)))
            if strict:
                I.ensure('served only if within limits', and_(le(lo, a), le(a, hi)))
        else:
            I.cover('sink')
            I.ensure('module that is no sink never absorbs', sink)
            I.ensure('a positive request is not served as a sink', le(a, 0))
            if sink:
                I.ensure('request within limits is absorbed exactly', implies(le(-a, mc), eq(x, -a)))
                I.ensure('request above the limit is clipped to it', implies(gt(-a, mc), eq(x, mc)))
                if strict:
                    I.ensure('absorbed only if within limits', le(-a, mc))
        I.ensure('time moved by one', eq(m.current_step, before_step + 1))
        I.ensure('exactly one log entry', all(n == 1 for n in loglen(m)))
        return
    I.cover('refused')
    I.detail(f'raised {type(o.exc).__name__}: {o.exc}')
    unsupported = lt(a, 0) if not sink else False
    if strict:
        out = or_(unsupported, lt(a, lo) if not sink else False, gt(a, hi), gt(-a, mc) if sink else False)
        I.ensure('only a request outside the limits is refused', out)
        I.ensure('refusal of an excessive request is a ValueError', or_(unsupported, o.raised(ValueError)))
    else:
        I.ensure('only an unsupported direction is refused', unsupported)
    I.ensure('refused request does not move time', eq(m.current_step, before_step))
    I.ensure('refused request writes no log', loglen(m) == before_log)
    if kind != 'genset':
        after = m.state_dict()
        I.ensure('refused request leaves the state alone', and_(list(after) == list(before_state), *[eq(after[k], before_state[k]) for k in after]))


for kind in ('battery', 'genset', 'grid', 'renewable', 'balancing'):
    for strict in (False, True):
        cov = ['source']
        if kind in ('battery', 'grid', 'balancing'):
            cov.append('sink')
        if (strict and kind != 'balancing') or kind in ('genset', 'renewable'):
            cov.append('refused')
        contract('C04', f'{kind} serves requests' + (', strict' if strict else ''), targets=T, covers=cov)(
            (lambda k, s: lambda I: serve(I, k, s))(kind, strict))


@contract('C04', 'load serves only its demand', targets=T + ['pymgrid.modules.load_module.LoadModule.update'], covers=['sink'])
def load_req(I):
    m, P = load(I, raise_errors=I.bool('strict'))
    form = I.choice('form', ['zero', 'negative', 'positive', 'empty'])
    a = {'zero': 0.0, 'empty': None}.get(form)
    if form == 'negative':
        a = I.real('a', hi=0, hi_open=True)
    if form == 'positive':
        a = I.real('a', lo=0, lo_open=True)
    if form == 'empty':
        a = arr(I, [])
    st, n = m.current_step, loglen(m)
    o = I.call(m.step, a, normalized=False)
    if o.ok:
        I.cover('sink')
        e, x = one_direction(I, o.value[3])
        I.ensure('load never provides', e is None)
        I.ensure('load takes its demand', x is not None and eq(x, P['mag']))
    else:
        I.ensure('only a positive request can be refused', form == 'positive')
        I.ensure('refused request does not move time', eq(m.current_step, st))
        I.ensure('refused request writes no log', loglen(m) == n)


@contract('C04', 'normalized actions span the feasible range', targets=['pymgrid.modules.battery_module.BatteryModule.min_act', 'pymgrid.modules.battery_module.BatteryModule.max_act', 'pymgrid.modules.grid_module.GridModule._get_bounds'], covers=['c'])
def span(I):
    kind = I.choice('kind', ['battery', 'grid', 'genset'])
    m, lim, P = build(I, kind, False)
    I.cover('c')
    if kind == 'genset':
        r = I.choice('goal', [0, 1])
        z, w = m.from_normalized(arr(I, [r, 0.0]), act=True), m.from_normalized(arr(I, [r, 1.0]), act=True)
        I.ensure('genset: zero is no energy', eq(z[1], 0))
        I.ensure('genset: one is the running maximum', implies(gt(P['rmax'], 0), eq(w[1], P['rmax'])))
        return
    z, w = m.from_normalized(0.0, act=True), m.from_normalized(1.0, act=True)
    I.ensure('zero covers the largest feasible absorption', le(z, -lim[2]))
    I.ensure('one covers the largest feasible production', ge(w, lim[1]))
    if kind == 'battery':
        I.ensure('battery: zero is the rated charge', eq(z * P['eff'], -P['mc']))
        I.ensure('battery: one is the rated discharge', implies(gt(P['md'] + P['mc'], 0), eq(w, P['md'] * P['eff'])))
    else:
        I.ensure('grid: zero is the rated export', eq(z, -P['exp']))
        I.ensure('grid: one is the rated import', implies(gt(P['imp'] + P['exp'], 0), eq(w, P['imp'])))


@contract('C04', 'malformed actions are refused', targets=[BM + 'step'], covers=['c'])
def malformed(I):
    kind = I.choice('kind', ['battery', 'grid'])
    m, lim, P = build(I, kind, False)
    bad = I.choice('bad', ['none', 'str', 'dict', 'list'])
    a = {'none': None, 'str': 'abc', 'dict': {}, 'list': ['x']}[bad]
    st, n, before = m.current_step, loglen(m), m.state_dict()
    o = I.call(m.step, a, normalized=False)
    I.cover('c')
    I.ensure('refused', not o.ok)
    I.ensure('nothing happened', and_(eq(m.current_step, st), loglen(m) == n, *[eq(m.state_dict()[k], before[k]) for k in before]))


@contract('C04', 'request history', sym=False, bounded='random histories of up to 30 requests on the real code', random_n=250)
def history(I):
    kind = I.choice('kind', ['battery', 'grid', 'genset', 'balancing', 'renewable'])
    strict = I.bool('strict')
    m, lim, P = build(I, kind, strict)
    for i in range(I.int('n', lo=1, hi=30)):
        if hasattr(m, 'time_series') and m.current_step >= len(m.time_series):
            m.reset()
        a = I.real(f'a{i}', lo=None if kind in ('battery', 'grid', 'balancing') else 0)
        act = a
        if kind == 'genset':
            r = I.choice(f'g{i}', [0, 1])
            act, lim = arr(I, [r, a]), (m.next_min_production(r), m.next_max_production(r), 0)
        elif kind == 'renewable':
            lim = (0, m.max_production, 0)
        else:
            lim = (0, m.max_production, m.max_consumption)
        lo, hi, mc = lim
        st = m.current_step
        o = I.call(m.step, act, normalized=False)
        want = hi if a > hi else lo if (a < lo and a >= 0) else a
        if a < 0:
            want = -mc if -a > mc else a
        if o.ok:
            e, x = one_direction(I, o.value[3])
            got = e if e is not None else -x
            I.ensure('served or clipped to the nearest limit', eq(got, want))
            I.ensure('strict modules serve only feasible requests', not strict or eq(a, want) is not False)
        else:
            I.ensure('only strict modules refuse', strict)
            I.ensure('only infeasible requests are refused', eq(a, want) is not True or want != a)
            I.ensure('refused request does not move time', eq(m.current_step, st))

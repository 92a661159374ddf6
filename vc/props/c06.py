from ..spec import *
from ..models import *

G = 'pymgrid.modules.genset_module.GensetModule.'


def money(I, g, P, out, fuel):
    _, reward, done, info = out
    e = prov(info)
    I.ensure('genset reports provided energy only', e is not None and (absb(info) is None))
    on = g.current_status
    I.ensure('off genset provides nothing', implies(eq(on, 0), eq(e, 0)))
    I.ensure('running genset provides within its limits', implies(eq(on, 1), between(P['rmin'], e, P['rmax'])))
    I.ensure('emissions are factor times energy', eq(info['co2_production'], P['co2'] * e))
    I.ensure('reward is minus fuel cost minus carbon cost', eq(reward, -(fuel(e) + P['pco2'] * P['co2'] * e)))
    I.ensure('genset never ends the episode', not done)
    return e


@contract('C06', 'genset step, raw energy', targets=[G + 'step', G + 'update', G + 'get_cost', G + 'get_co2_cost', G + 'get_co2', G + '_get_fuel_cost', G + 'max_production', G + 'min_production'], covers=['on', 'off'])
def raw(I):
    g, P = genset(I)
    r = I.real('goal_request', lo=0, hi=1)
    a = I.real('energy', lo=0)
    out = I.must('step succeeds', g.step, arr(I, [r, a]), normalized=False)
    I.cover('on' if I.is_(eq(g.current_status, 1)) else 'off')
    e = money(I, g, P, out, lambda x: P['cost'] * x)
    I.ensure('a feasible request is served exactly', implies(and_(eq(g.current_status, 1), between(P['rmin'], a, P['rmax'])), eq(e, a)))


@contract('C06', 'genset step, normalized energy', targets=[G + 'step'], covers=['on', 'off'])
def norm(I):
    g, P = genset(I)
    r = I.real('goal_request', lo=0, hi=1)
    a = I.real('energy', lo=0, hi=1)
    out = I.must('step succeeds', g.step, arr(I, [r, a]))
    I.cover('on' if I.is_(eq(g.current_status, 1)) else 'off')
    e = money(I, g, P, out, lambda x: P['cost'] * x)
    I.ensure('normalized request scales to the running maximum', implies(and_(eq(g.current_status, 1), between(P['rmin'], a * P['rmax'], P['rmax'])), eq(e, a * P['rmax'])))


@contract('C06', 'genset step, user cost function', targets=[G + '_get_fuel_cost'], covers=['c'])
def userfn(I):
    q, l, c = I.real('q'), I.real('l'), I.real('c')
    f = lambda x: q * x * x + l * x + c
    g, P = genset(I, costfn=f)
    r = I.real('goal_request', lo=0, hi=1)
    a = I.real('energy', lo=0)
    out = I.must('step succeeds', g.step, arr(I, [r, a]), normalized=False)
    I.cover('c')
    money(I, g, P, out, f)


@contract('C06', 'genset cost functions', targets=[G + 'get_cost', G + 'get_co2_cost', G + 'get_co2', G + 'production_marginal_cost'], covers=['c'])
def fns(I):
    g, P = genset(I, state='init')
    x = I.real('x', lo=0)
    I.cover('c')
    I.ensure('co2', eq(g.get_co2(x), P['co2'] * x))
    I.ensure('co2 cost', eq(g.get_co2_cost(x), P['pco2'] * P['co2'] * x))
    I.ensure('total cost', eq(g.get_cost(x), P['cost'] * x + P['pco2'] * P['co2'] * x))
    I.ensure('marginal cost is the cost of one unit', eq(g.production_marginal_cost, P['cost'] + P['pco2'] * P['co2']))


@contract('C06', 'genset long history', sym=False, bounded='random histories of up to 40 steps on the real code', random_n=200)
def history(I):
    g, P = genset(I, state='init')
    for i in range(I.int('n', lo=1, hi=40)):
        norm = I.bool(f'norm{i}')
        a = I.real(f'a{i}', lo=0, hi=1 if norm else None)
        out = I.must('step succeeds', g.step, arr(I, [I.choice(f'r{i}', [0.0, 1.0, 0.7, 0.2]), a]), normalized=norm)
        money(I, g, P, out, lambda x: P['cost'] * x)

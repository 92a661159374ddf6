from ..spec import *
from ..models import *

B = 'pymgrid.modules.battery_module.BatteryModule.'


def law(I, b, P, c0, out, tag=''):
    _, reward, _, info = out
    d = b.current_charge - c0
    if prov(info) is not None:
        I.cover('discharge')
        e = prov(info)
        I.ensure('discharge removes energy / efficiency', eq(d * P['eff'], -e))
        I.ensure('discharge lowers the charge by at most max_discharge', ge(d, -P['md']))
    else:
        I.cover('charge')
        e = absb(info)
        I.ensure('charge adds energy * efficiency', eq(d, e * P['eff']))
        I.ensure('charge raises the charge by at most max_charge', le(d, P['mc']))
    I.ensure('reward is minus cycle cost times change of charge', eq(reward, -P['cc'] * ite(ge(d, 0), d, -d)))
    return d


@contract('C03', 'battery step: losses, rates, cost', targets=[B + 'update', B + 'default_transition_model', B + 'model_transition', B + 'get_cost', B + 'max_production', B + 'max_consumption', B + '_update_state'],
          covers=['discharge', 'charge'])
def step_raw(I):
    b, P = battery(I)
    c0 = b.current_charge
    a = I.real('action')
    out = I.must('step accepts any energy request', b.step, a, normalized=False)
    d = law(I, b, P, c0, out)
    # reachability of the limits
    room_down = smin(P['md'], c0 - P['mn'])
    room_up = smin(P['mc'], P['cap'] - c0)
    I.ensure('a large discharge request reaches the limit', implies(ge(a, room_down * P['eff']), eq(d, -room_down)))
    I.ensure('a large charge request reaches the limit', implies(and_(lt(a, 0), ge(-a * P['eff'], room_up)), eq(d, room_up)))
    I.ensure('a small discharge request is served exactly', implies(and_(ge(a, 0), le(a, room_down * P['eff'])), eq(d * P['eff'], -a)))
    I.ensure('a small charge request is served exactly', implies(and_(lt(a, 0), le(-a * P['eff'], room_up)), eq(d, -a * P['eff'])))


@contract('C03', 'battery step from a normalized action', targets=[B + 'update'], covers=['discharge', 'charge'])
def step_norm(I):
    b, P = battery(I)
    c0 = b.current_charge
    a = I.real('action', lo=0, hi=1)
    out = I.must('step accepts any normalized action', b.step, a)
    law(I, b, P, c0, out)


@contract('C03', 'default transition model', targets=[B + 'default_transition_model'], covers=['called'])
def default_model(I):
    e = I.real('e')
    eff = I.real('eff', lo=0, lo_open=True, hi=1)
    r = I.must('returns', modules().BatteryModule.default_transition_model, external_energy_change=e, efficiency=eff)
    I.cover('called')
    I.ensure('losses when discharging', implies(lt(e, 0), eq(r * eff, e)))
    I.ensure('losses when charging', implies(ge(e, 0), eq(r, e * eff)))


@contract('C03', 'user transition model decides the change', targets=[B + 'model_transition', B + 'transition_kwargs'], covers=['called'])
def user_model(I):
    seen = []
    k = I.real('k', lo=0, lo_open=True, hi=1)

    def user(external_energy_change, **kw):
        seen.append((external_energy_change, kw))
        return external_energy_change * k
    b, P = battery(I, battery_transition_model=user)
    I.assume(le(k, P['eff']))      # a model that respects the limits it is given
    c0, s0 = b.current_charge, b.soc
    mp, mc = b.max_production, b.max_consumption
    a = I.real('action')
    out = I.must('step succeeds', b.step, a, normalized=False)
    _, reward, _, info = out
    I.cover('called')
    e = -prov(info) if prov(info) is not None else absb(info)
    I.ensure('model is consulted', len(seen) >= 1)
    if not seen:
        return
    x, kw = seen[-1]
    I.ensure('model gets the signed external energy', eq(x, e))
    d = b.current_charge - c0
    I.ensure('change of charge is what the model says', eq(d, e * k))
    I.ensure('cost uses the change of charge', eq(reward, -P['cc'] * ite(ge(d, 0), d, -d)))
    want = dict(min_capacity=P['mn'], max_capacity=P['cap'], max_charge=P['mc'], max_discharge=P['md'], efficiency=P['eff'],
                battery_cost_cycle=P['cc'], max_production=mp, max_consumption=mc)
    for n, v in want.items():
        I.ensure(f'model gets {n}', n in kw and eq(kw[n], v))
    I.ensure('model gets the state', 'state_dict' in kw and and_(eq(kw['state_dict']['soc'], s0), eq(kw['state_dict']['current_charge'], c0)))


@contract('C03', 'marginal costs', targets=[B + 'production_marginal_cost', B + 'absorption_marginal_cost'], covers=['c'])
def marginal(I):
    b, P = battery(I)
    I.cover('c')
    I.ensure('marginal costs are the cycle cost', and_(eq(b.production_marginal_cost, P['cc']), eq(b.absorption_marginal_cost, P['cc']), eq(b.marginal_cost, P['cc'])))
    e = I.real('e')
    I.ensure('cost function', eq(b.get_cost(e), P['cc'] * ite(ge(e, 0), e, -e)))


@contract('C03', 'battery long history', sym=False, bounded='random histories of up to 40 steps on the real code', random_n=150)
def history(I):
    b, P = battery(I)
    for i in range(I.int('n', lo=1, hi=40)):
        c0 = b.current_charge
        if I.bool(f'norm{i}'):
            out = I.must('step', b.step, I.real(f'a{i}', lo=0, hi=1))
        else:
            out = I.must('step', b.step, I.real(f'a{i}'), normalized=False)
        law(I, b, P, c0, out)

from ..spec import *
from ..models import *

U = 'pymgrid.modules.unbalanced_energy_module.UnbalancedEnergyModule.'


@contract('C09', 'balancing step', targets=[U + 'update', U + 'get_cost', U + 'max_production', U + 'max_consumption'], covers=['loss', 'over'])
def step(I):
    m, P = unbalanced(I, raise_errors=I.bool('strict'))
    I.ensure('unlimited', m.max_production == float('inf') and m.max_consumption == float('inf'))
    I.ensure('marginal costs', and_(eq(m.production_marginal_cost, P['ll']), eq(m.absorption_marginal_cost, P['og'])))
    a = I.real('action')
    out = I.must('any amount is accepted', m.step, a, normalized=False)
    _, reward, done, info = out
    I.ensure('never ends the episode', not done)
    I.ensure('exactly one direction is reported', (prov(info) is None) != (absb(info) is None))
    last = m.logger_last
    if prov(info) is not None:
        I.cover('loss')
        I.ensure('unmet load is the request', and_(ge(a, 0), eq(prov(info), a)))
        I.ensure('unmet load is priced', eq(reward, -(P['ll'] * a)))
        I.ensure('logged amounts', and_(eq(last['loss_load'], a), eq(last['overgeneration'], 0)))
    else:
        I.cover('over')
        I.ensure('overgeneration is the request', and_(le(a, 0), eq(absb(info), -a)))
        I.ensure('overgeneration is priced', eq(reward, P['og'] * a))
        I.ensure('logged amounts', and_(eq(last['overgeneration'], -a), eq(last['loss_load'], 0)))
    I.ensure('logged reward', eq(last['reward'], reward))


@contract('C09', 'cost function', targets=[U + 'get_cost'], covers=['c'])
def cost(I):
    m, P = unbalanced(I)
    e = I.real('e', lo=0)
    I.cover('c')
    I.ensure('loss-of-load cost', eq(m.get_cost(e, True, False), P['ll'] * e))
    I.ensure('overgeneration cost', eq(m.get_cost(e, False, True), P['og'] * e))
    I.ensure('one direction required', not I.call(m.get_cost, e, False, False).ok and not I.call(m.get_cost, e, True, True).ok)


@contract('C09', 'microgrid configures its balancing module', targets=['pymgrid.microgrid.microgrid.Microgrid._get_unbalanced_energy_module', 'pymgrid.microgrid.microgrid.Microgrid._get_module_container'], covers=['c'])
def configured(I):
    ll, og = I.real('ll', lo=0), I.real('og', lo=0)
    b, _ = battery(I)
    MG = mod('pymgrid.microgrid.microgrid').Microgrid
    defaults = I.bool('defaults')
    m = I.must('construction', MG, [b], **({} if defaults else dict(loss_load_cost=ll, overgeneration_cost=og)))
    if defaults:
        ll, og = 10.0, 2.0
    I.cover('c')
    mods = [x for x in m.modules.to_list() if type(x).__name__ == 'UnbalancedEnergyModule']
    I.ensure('one balancing module', len(mods) == 1)
    if mods:
        I.ensure('configured rates are used', and_(eq(mods[0].loss_load_cost, ll), eq(mods[0].overgeneration_cost, og)))
        e = I.real('e', lo=0)
        I.ensure('priced at the configured rates', and_(eq(mods[0].get_cost(e, True, False), ll * e), eq(mods[0].get_cost(e, False, True), og * e)))
    m2 = I.must('construction without', MG, [b], add_unbalanced_module=False)
    I.ensure('none unless requested', all(type(x).__name__ != 'UnbalancedEnergyModule' for x in m2.modules.to_list()))

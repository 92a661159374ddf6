from ..spec import *
from ..models import *

B = 'pymgrid.modules.battery_module.BatteryModule.'


def inv(I, b, P, tag):
    I.ensure(f'{tag}: charge >= min_capacity', ge(b.current_charge, P['mn']))
    I.ensure(f'{tag}: charge <= max_capacity', le(b.current_charge, P['cap']))
    I.ensure(f'{tag}: soc * max_capacity == charge', eq(b.soc * P['cap'], b.current_charge))
    sd = b.state_dict()
    I.ensure(f'{tag}: state_dict reports soc', eq(sd['soc'], b.soc))
    I.ensure(f'{tag}: state_dict reports charge', eq(sd['current_charge'], b.current_charge))
    I.ensure(f'{tag}: soc between min_soc and 1', and_(le(P['mn'], b.soc * P['cap']), le(b.soc, 1)))


def same_params(I, b, P):
    I.ensure('frame: parameters unchanged', and_(eq(b.min_capacity, P['mn']), eq(b.max_capacity, P['cap']), eq(b.max_charge, P['mc']),
                                                 eq(b.max_discharge, P['md']), eq(b.efficiency, P['eff'])))


@contract('C02', 'battery construction', targets=[B + '__init__', B + '_init_battery'], covers=['built'])
def construct(I):
    soc_init = I.bool('soc_init')
    b, P = battery(I, soc_init=soc_init)
    I.cover('built')
    inv(I, b, P, 'init')
    if soc_init:
        I.ensure('init: soc is init_soc', eq(b.soc, P['init_soc']))
    else:
        I.ensure('init: charge is init_charge', eq(b.current_charge, P['init_charge']))


@contract('C02', 'battery step (raw action)', targets=[B + 'update', B + '_update_state', B + 'max_production', B + 'max_consumption', 'pymgrid.modules.base.base_module.BaseMicrogridModule.step', 'pymgrid.modules.base.base_module.BaseMicrogridModule.as_source', 'pymgrid.modules.base.base_module.BaseMicrogridModule.as_sink'],
          covers=['stepped'])
def step_raw(I):
    b, P = battery(I)
    a = I.real('action')
    I.must('step accepts any energy request', b.step, a, normalized=False)
    I.cover('stepped')
    inv(I, b, P, 'step')
    same_params(I, b, P)


@contract('C02', 'battery step (normalized action)', covers=['stepped'])
def step_norm(I):
    b, P = battery(I)
    a = I.real('action', lo=0, hi=1)
    I.must('step accepts any normalized action', b.step, a)
    I.cover('stepped')
    inv(I, b, P, 'step')


@contract('C02', 'battery strict mode', covers=['stepped', 'refused'])
def step_strict(I):
    b, P = battery(I, raise_errors=True)
    a = I.real('action')
    c0, s0 = b.current_charge, b.soc
    o = I.call(b.step, a, normalized=False)
    if o.ok:
        I.cover('stepped')
    else:
        I.cover('refused')
        I.ensure('refused request leaves the charge alone', and_(eq(b.current_charge, c0), eq(b.soc, s0)))
    inv(I, b, P, 'strict step')


@contract('C02', 'battery setters and reset', covers=['done'])
def setters(I):
    b, P = battery(I)
    which = I.choice('which', ['soc', 'charge', 'reset'])
    if which == 'soc':
        v = I.real('v', lo=0, hi=1)
        I.assume(le(P['mn'], v * P['cap']))
        b.soc = v
        I.ensure('soc setter: value', eq(b.soc, v))
    elif which == 'charge':
        v = I.real('v', lo=0)
        I.assume(and_(le(P['mn'], v), le(v, P['cap'])))
        b.current_charge = v
        I.ensure('charge setter: value', eq(b.current_charge, v))
    else:
        I.must('reset succeeds', b.reset)
    I.cover('done')
    inv(I, b, P, which)


@contract('C02', 'battery two-step history', covers=['stepped'], bounded='two consecutive steps')
def two_steps(I):
    b, P = battery(I)
    a1, a2 = I.real('a1'), I.real('a2')
    I.must('first step', b.step, a1, normalized=False)
    I.must('second step', b.step, a2, normalized=False)
    I.cover('stepped')
    inv(I, b, P, 'second step')


@contract('C02', 'battery long history', sym=False, bounded='random histories of up to 60 steps on the real code', random_n=150)
def history(I):
    b, P = battery(I)
    n = I.int('n', lo=1, hi=60)
    for i in range(n):
        if I.bool(f'reset{i}') and I.bool(f'rr{i}') and I.bool(f'rrr{i}'):
            b.reset()
        if I.bool(f'norm{i}'):
            I.must('normalized step', b.step, I.real(f'a{i}', lo=0, hi=1))
        else:
            I.must('raw step', b.step, I.real(f'a{i}'), normalized=False)
        inv(I, b, P, f'history')

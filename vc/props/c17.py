from ..spec import *
from ..models import *

T = 'pymgrid.microgrid.trajectory.'
R = 'pymgrid.microgrid.microgrid.Microgrid.'
# ASSUME: numpy.random.randint(lo, hi) returns any integer lo <= v < hi and raises ValueError if lo >= hi


def traj():
    return mod('pymgrid.microgrid.trajectory')


def draws(I, k=250):
    return range(1) if I.symbolic else range(k)


def inside(I, a, b, out, label=''):
    i, f = out
    I.ensure('two integers', isint(i) and isint(f))
    I.ensure('the episode starts inside the window', and_(ge(i, a), lt(i, b)))
    I.ensure('the episode ends inside the window', le(f, b))
    I.ensure('the episode ends after it starts', gt(f, i))
    return i, f


def isint(x):
    if isinstance(x, int) and not isinstance(x, bool):
        return True
    return type(x).__name__ == 'SInt'


@contract('C17', 'random trajectory', targets=[T + 'stochastic.StochasticTrajectory.__call__'], covers=['c', 'early', 'late'])
def stochastic(I):
    a = I.int('initial', lo=0)
    b = I.int('final', lo=a + 3)
    t = traj().StochasticTrajectory()
    for _ in draws(I):
        out = I.must('the random trajectory succeeds when three steps are available', t, a, b)
        I.cover('c')
        i, f = inside(I, a, b, out)
        if I.symbolic and I.is_(eq(i, a)):
            I.cover('early')
        elif I.symbolic:
            I.cover('late')


@contract('C17', 'fixed-length trajectory', targets=[T + 'stochastic.FixedLengthStochasticTrajectory.__call__'], covers=['c', 'first', 'last', 'reject'])
def fixed(I):
    a = I.int('initial', lo=0)
    b = I.int('final', lo=a + 1)
    n = I.int('length', lo=1)
    t = I.must('construction', traj().FixedLengthStochasticTrajectory, n)
    for _ in draws(I):
        o = I.call(t, a, b)
        if I.is_(le(n, b - a)):
            I.ensure('every length that fits is accepted', o.ok)
            if not o.ok:
                return
            I.cover('c')
            i, f = inside(I, a, b, o.value)
            I.ensure('the episode has exactly the requested length', eq(f - i, n))
            if I.symbolic:
                if I.is_(eq(i, a)):
                    I.cover('first')
                if I.is_(eq(f, b)):
                    I.cover('last')
        else:
            I.cover('reject')
            I.ensure('a length that does not fit is rejected', o.raised(ValueError))


@contract('C17', 'deterministic trajectory', targets=[T + 'deterministic.DeterministicTrajectory.__call__'], covers=['c'])
def deterministic(I):
    a, b = I.int('a'), I.int('b')
    i, f = I.int('i'), I.int('f')
    t = traj().DeterministicTrajectory(i, f)
    out = I.must('call', t, a, b)
    I.cover('c')
    I.ensure('the configured window', and_(len(out) == 2, eq(out[0], i), eq(out[1], f)))


# ------------------------------------------------------------------ use by the microgrid
WINDOWS = [(0, 1), (0, 6), (2, 7), (3, 4)]


def micro(I, func=None, late=False):
    """microgrid over series of any length with a given window"""
    a, b = I.choice('window', WINDOWS)
    M = modules()
    ts = I.series('ts', ncols=1, min_rows=b, nonneg=True)
    ts2 = I.series('ts2', ncols=3, min_rows=b, nonneg=True)
    mods = [M.LoadModule(time_series=ts, final_step=b, initial_step=a), M.GridModule(max_import=10, max_export=5, time_series=ts2, final_step=b, initial_step=a)]
    mods.append(M.BatteryModule(min_capacity=0, max_capacity=10, max_charge=5, max_discharge=5, efficiency=0.9, init_soc=0.5, initial_step=a))
    u = M.UnbalancedEnergyModule(raise_errors=False, initial_step=a)
    return mods + [u], a, b


@contract('C17', 'trajectory functions are validated at construction', targets=[R + '_check_trajectory_func'], covers=['ok', 'bad'],
          bounded='four windows of the microgrid; series of any length, all values returned by the function')
def validated(I):
    mods, a, b = micro(I)
    i, f = I.int('i', lo=None if I.symbolic else a - 2, hi=None if I.symbolic else b + 2), I.int('f', lo=None if I.symbolic else a - 2, hi=None if I.symbolic else b + 2)
    seen = []

    def func(x, y):
        seen.append((x, y))
        return i, f
    o = I.call(mod('pymgrid.microgrid.microgrid').Microgrid, mods, add_unbalanced_module=False, trajectory_func=func)
    I.ensure('the function is tried', len(seen) > 0)
    I.ensure('the function is given the window of the microgrid', all(x == a and y == b for x, y in seen))
    good = and_(ge(i, a), le(f, b), lt(i, f))
    if o.ok:
        I.cover('ok')
        I.ensure('only windows inside are accepted', good)
    else:
        I.cover('bad')
        I.ensure('rejected with ValueError', o.raised(ValueError))
        I.ensure('windows inside are not rejected', not_(good))


@contract('C17', 'malformed trajectory functions are rejected', targets=[R + '_check_trajectory_func'], covers=['c'], sym=False, random_n=100, bounded='sampled malformed results')
def malformed(I):
    mods, a, b = micro(I)
    bad = I.choice('bad', ['float', 'str', 'one', 'three', 'none', 'notcallable', 'npfloat'])
    v = {'float': (float(a), float(b)), 'str': ('a', 'b'), 'one': a, 'three': (a, b, b), 'none': None, 'notcallable': 0, 'npfloat': (a, b - 0.5)}[bad]
    f = 17 if bad == 'notcallable' else (lambda x, y: v)
    o = I.call(mod('pymgrid.microgrid.microgrid').Microgrid, mods, add_unbalanced_module=False, trajectory_func=f)
    I.cover('c')
    I.ensure('rejected with TypeError', o.raised(TypeError))


@contract('C17', 'reset applies the window to every module', targets=[R + 'reset', R + '_set_trajectory', R + '_set_initial_step', R + '_set_final_step', R + 'set_module_attr'],
          covers=['c'], bounded='four windows of the microgrid, two resets; series of any length, all windows returned by the function')
def applied(I):
    mods, a, b = micro(I)
    plan = []
    for k in range(2):
        i = I.int(f'i{k}', lo=a, hi=b - 1)
        plan.append((i, I.int(f'f{k}', lo=i + 1, hi=b)))
    calls = []

    def func(x, y):
        calls.append((x, y))
        return plan[min(max(len(calls) - 2, 0), 1)]
    mg = I.must('a valid trajectory function is accepted', mod('pymgrid.microgrid.microgrid').Microgrid, mods, add_unbalanced_module=False, trajectory_func=func)
    for k in range(2):
        calls[:] = calls[:1] + [(a, b)] * k
        I.must('reset succeeds', mg.reset)
        I.cover('c')
        i, f = plan[k]
        I.ensure('the trajectory is drawn from the window of the microgrid', calls[-1] == (a, b) and len(calls) >= 2 + k)
        for md in mg.modules.iterlist():
            I.ensure('every module starts at the drawn step', and_(eq(md.current_step, i), eq(md.initial_step, i)))
            if hasattr(md, 'final_step'):
                I.ensure('every time-series module ends at the drawn step', eq(md.final_step, f))
        I.ensure('the window of the microgrid is kept', mg.initial_step == a and mg.final_step == b)


@contract('C17', 'episodes of real microgrids', sym=False, bounded='random microgrids, trajectories and histories on the real code', random_n=250)
def real(I):
    from ..mg import random_microgrid, random_control
    m, P = random_microgrid(I, windows=True, horizons=(None, 2), min_rows=3, max_rows=14)
    a, b = P['init'], P['fin']
    kind = I.choice('kind', ['stochastic', 'fixed', 'det'])
    n = None
    if kind == 'stochastic':
        if b - a < 3:
            raise Skip()
        t = traj().StochasticTrajectory()
    elif kind == 'fixed':
        n = I.int('len', lo=1, hi=b - a)
        t = traj().FixedLengthStochasticTrajectory(n)
    else:
        x = I.int('x', lo=a, hi=b - 1)
        t = traj().DeterministicTrajectory(x, I.int('y', lo=x + 1, hi=b))
    o = I.call(m._check_trajectory_func, t) if hasattr(m, '_check_trajectory_func') else None
    I.ensure('a valid trajectory is accepted', o is None or o.ok)
    m.trajectory_func = t
    for e in range(6):
        I.must('reset succeeds', m.reset)
        i = m.current_step
        fs = {md.final_step for md in m.modules.iterlist() if hasattr(md, 'final_step')}
        I.ensure('one common window', len(fs) == 1 and all(md.current_step == i and md.initial_step == i for md in m.modules.iterlist()))
        f = fs.pop()
        I.ensure('the episode lies in the window', a <= i < f <= b)
        if n is not None:
            I.ensure('exactly the requested length', f - i == n)
        steps = 0
        done = False
        while not done and steps < 30:
            _, _, done, _ = m.run(random_control(I, m, f'c{e}_{steps}'))
            steps += 1
        I.ensure('the episode has as many steps as the window', steps == f - i)
    I.ensure('the window of the microgrid is kept', m.initial_step == a and m.final_step == b)

from ..spec import *
from ..models import *

G = 'pymgrid.modules.genset_module.GensetModule.'


def state(g):
    s = g.state_dict()
    return s['current_status'], s['goal_status'], s['steps_until_up'], s['steps_until_down']


def inv(I, g, P, tag):
    cur, goal, up, down = state(g)
    I.ensure(f'{tag}: statuses are binary', and_(or_(eq(cur, 0), eq(cur, 1)), or_(eq(goal, 0), eq(goal, 1))))
    I.ensure(f'{tag}: timers are never negative', and_(ge(up, 0), ge(down, 0)))
    I.ensure(f'{tag}: public status agrees with the state', and_(eq(g.current_status, cur), eq(g.goal_status, goal)))
    steady = eq(cur, goal)
    on = eq(cur, 1)
    I.ensure(f'{tag}: steady timers', implies(steady,
             or_(and_(on, eq(up, 0), eq(down, P['wd'])), and_(not_(on), eq(down, 0), eq(up, P['su'])))))
    I.ensure(f'{tag}: starting timers', implies(and_(not_(steady), not_(on)), and_(eq(down, 0), lt(up, P['su']))))
    I.ensure(f'{tag}: stopping timers', implies(and_(not_(steady), on), and_(eq(up, 0), lt(down, P['wd']))))
    I.ensure(f'{tag}: off means zero limits', implies(not_(on), and_(eq(g.max_production, 0), eq(g.min_production, 0))))
    I.ensure(f'{tag}: on means configured limits', implies(on, and_(eq(g.max_production, P['rmax']), eq(g.min_production, P['rmin']))))


def expected(P, g0):
    """next (current, goal, up, down) for requested status g0 by the documented rules"""
    cur, goal, up, down = P['cur'], P['goal'], P['up'], P['down']
    su, wd = P['su'], P['wd']
    steady = lambda c: (c, c, 0, wd) if c else (c, c, su, 0)
    if cur == g0:
        return [(True, steady(cur))]                       # nothing to do, or cancellation
    if goal == g0:
        left = up if g0 else down
    else:
        left = su if g0 else wd                             # a new change is requested
    nxt = (cur, g0, left - 1, 0) if g0 else (cur, g0, 0, left - 1)
    return [(eq(left, 0), steady(g0)), (gt(left, 0), nxt)]


def check_transition(I, g, P, g0, tag):
    got = state(g)
    for cond, want in expected(P, g0):
        for nm, a, b in zip(('current status', 'goal status', 'steps until up', 'steps until down'), got, want):
            I.ensure(f'{tag}: {nm}', implies(cond, eq(a, b)))


@contract('C05', 'genset construction', targets=[G + '__init__', G + '_reset_up_down_times'], covers=['c'])
def construct(I):
    g, P = genset(I, state='init')
    I.cover('c')
    cur, goal, up, down = state(g)
    want = 1 if P['init'] else 0
    I.ensure('initial status', and_(eq(cur, want), eq(goal, want)))
    inv(I, g, P, 'init')


@contract('C05', 'genset status transition', targets=[G + 'update_status', G + '_finish_in_progress_change', G + '_non_instantaneous_update', G + '_update_up_down_times', G + '_reset_up_down_times', G + 'next_status', G + 'next_max_production', G + 'next_min_production'], covers=['t'])
def transition(I):
    g, P = genset(I)
    r = I.real('goal_request', lo=0, hi=1)
    g0 = 0 if r <= 0.5 else 1
    before = state(g)
    ns = g.next_status(g0)
    nmax, nmin = g.next_max_production(g0), g.next_min_production(g0)
    I.ensure('prediction changes nothing', seq(state(g), before))
    I.must('status update succeeds', g.update_status, r)
    I.cover('t')
    I.ensure('predicted status is what happens', eq(g.current_status, ns))
    I.ensure('predicted limits are what happens', and_(eq(g.max_production, nmax), eq(g.min_production, nmin)))
    check_transition(I, g, P, g0, 'transition')
    inv(I, g, P, 'after')


@contract('C05', 'genset step drives the status', targets=[G + 'step'], covers=['t'])
def step_transition(I):
    g, P = genset(I)
    r = I.real('goal_request', lo=0, hi=1)
    g0 = 0 if r <= 0.5 else 1
    norm = I.bool('normalized')
    e = I.real('energy', lo=0, hi=1) if norm else I.real('energy', lo=0)
    I.must('step succeeds', g.step, arr(I, [r, e]), normalized=norm)
    I.cover('t')
    check_transition(I, g, P, g0, 'step')
    inv(I, g, P, 'after step')


@contract('C05', 'invalid status request', targets=[G + 'update_status', G + 'step'], covers=['t'])
def invalid(I):
    g, P = genset(I)
    r = I.real('goal_request')
    I.assume(or_(lt(r, 0), gt(r, 1)))
    before = state(g)
    o = I.call(g.step if I.bool('step') else (lambda a, normalized: g.update_status(a[0])), arr(I, [r, 0.0]), normalized=False)
    I.cover('t')
    I.ensure('status request outside [0, 1] is refused', not o.ok)
    I.ensure('refused request changes nothing', seq(state(g), before))


@contract('C05', 'genset sustained request', targets=[G + 'update_status'], bounded='start-up / wind-down times up to 6, at most 8 requests', covers=['t'])
def sustained(I):
    """from steady off (on), sustained requests switch exactly after the start-up (wind-down) time"""
    up = I.bool('up')
    n = I.choice('time', list(range(0, 7)))
    GM = modules().GensetModule
    g = GM(running_min_production=1.0, running_max_production=2.0, genset_cost=0.5, start_up_time=n if up else 3,
           wind_down_time=n if not up else 3, init_start_up=not up)
    I.cover('t')
    for k in range(n + 2):
        g.update_status(1 if up else 0)
        reached = k >= n
        I.ensure('switches exactly when the time has elapsed', eq(g.current_status, int(up) if reached else int(not up)))


@contract('C05', 'cancellation forbidden', targets=[G + 'update_status'], bounded='random histories of up to 30 requests, times up to 4, on the real code', sym=False)
def no_abort(I):
    """without cancellation, once started a change runs to its end"""
    g, P = genset(I, allow_abortion=False, state='init')
    I.assume(P['su'] <= 4 and P['wd'] <= 4 and P['su'] > 0 and P['wd'] > 0)
    for i in range(I.int('n', lo=1, hi=30)):
        cur, goal, up, down = state(g)
        r = I.choice(f'r{i}', [0, 1])
        if cur != goal and r != goal:
            continue     # cancelling while forbidden is documented as not supported: outside the property
        o = I.call(g.update_status, r)
        I.ensure('status update succeeds', o.ok)
        _, _, up2, down2 = state(g)
        I.ensure('timers are never negative', up2 >= 0 and down2 >= 0)


@contract('C05', 'genset long history', sym=False, bounded='random request histories of up to 60 steps, times up to 6, on the real code', random_n=200)
def history(I):
    g, P = genset(I, state='init')
    c = 1 if P['init'] else 0
    P.update(cur=c, goal=c, up=0 if c else P['su'], down=P['wd'] if c else 0)
    for i in range(I.int('n', lo=1, hi=60)):
        r = I.choice(f'r{i}', [0, 1, 0.3, 0.9, 0.5]) if not (i and I.bool(f'same{i}')) else r
        g0 = int(round(r))
        ns = g.next_status(g0)
        I.must('step succeeds', g.step, arr(I, [r, 0.5 * P['rmax']]), normalized=False)
        I.ensure('predicted status is what happens', eq(g.current_status, ns))
        check_transition(I, g, P, g0, 'history')
        inv(I, g, P, 'history')
        P['cur'], P['goal'], P['up'], P['down'] = state(g)

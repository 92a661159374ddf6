from ..spec import *
from ..models import *
from ..symlist import same_val
import inspect
import math

BM = 'pymgrid.modules.base.base_module.BaseMicrogridModule.'
TS = 'pymgrid.modules.base.timeseries.base_timeseries_module.BaseTimeSeriesMicrogridModule.'
R = 'pymgrid.microgrid.microgrid.Microgrid.'
# ASSUME: PyYAML restores plain data (numbers, strings, None, lists, mappings with string keys; tuples come back as lists) and nested YAML objects exactly; exercised, not proved, by the run-time contracts with the real library and real files
# ASSUME: objects given to the save functions are representable in YAML (user-supplied Python functions are not)


class Dumper:
    """what to_yaml needs of a yaml dumper: the mapping it is given is what the loader gets back"""
    stream = None

    def represent_mapping(self, tag, mapping, flow_style=None):
        return ('mapping', tag, mapping)


class Node:
    def __init__(self, mapping): self.mapping = mapping


class Loader:
    stream = None

    def construct_mapping(self, node, deep=False):
        return node.mapping


def plain(v):
    """assumed behaviour of yaml on a value"""
    import numpy as np
    import pandas as pd
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if hasattr(type(v), 'to_yaml') and hasattr(type(v), 'serialize'):
        return roundtrip(v)
    if isinstance(v, pd.DataFrame):
        return pd.DataFrame({c: {i: x for i, x in v[c].items()} for c in v})
    if hasattr(v, 'copy') and not isinstance(v, (int, float)):
        return v.copy()
    return v


def roundtrip(m):
    kind, tag, mapping = type(m).to_yaml(Dumper(), m)
    if tag != type(m).yaml_tag:
        undecided('unexpected yaml tag')
    return type(m).from_yaml(Loader(), Node(plain(mapping)))


def params(m):
    return [p for p in inspect.signature(type(m).__init__).parameters if p not in ('self', 'forecaster')]


def same_array(a, b):
    import numpy as np
    if type(a).__name__ == 'Series' and type(b).__name__ == 'Series':
        return a.dom.n is b.dom.n or bool((a == b).all())
    a, b = np.asarray(a) if not hasattr(a, 'reshape') else a, b
    if tuple(a.shape) != tuple(b.shape):
        return False
    return seq(list(a.reshape(-1)), list(b.reshape(-1)))


def same_thing(a, b):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
        return a == b
    if hasattr(a, 'shape') and getattr(a, 'ndim', 0) > 0:
        return same_array(a, b)
    if callable(a):
        return type(a) is type(b)
    return eq(a, b)


def same_dict(a, b):
    if list(a) != list(b):
        return False
    return and_(*[same_val(a[k], b[k]) for k in a]) if a else True


def same_log(a, b):
    if set(a) != set(b):
        return False
    cs = []
    for k in a:
        if len(a[k]) != len(b[k]):
            return False
        cs += [same_val(x, y) for x, y in zip(a[k], b[k])]
    return and_(*cs) if cs else True


def equal_modules(I, m, c):
    I.ensure('same class', type(m) is type(c))
    I.ensure('same role', tuple(m.module_type) == tuple(c.module_type))
    for p in params(m):
        I.ensure(f'same parameters: {p}', same_thing(getattr(m, p), getattr(c, p)))
    I.ensure('same current step', eq(m.current_step, c.current_step))
    I.ensure('same initial step', eq(m.initial_step, c.initial_step))
    if hasattr(m, 'final_step'):
        I.ensure('same final step', eq(m.final_step, c.final_step))
    I.ensure('same name', tuple(m.name) == tuple(c.name))
    I.ensure('same log', same_log(m.log_dict(), c.log_dict()))
    noisy = type(getattr(m, 'forecaster', None)).__name__ in ('GaussianNoiseForecaster',)
    if not noisy:
        I.ensure('same state', same_dict(m.state_dict(), c.state_dict()))
    if hasattr(m, 'forecaster'):
        I.ensure('same forecaster', type(m.forecaster) is type(c.forecaster) and m.forecast_horizon == c.forecast_horizon)
        I.ensure('same noise', type(m.forecaster).__name__ != 'GaussianNoiseForecaster' or repr(m.forecaster) == repr(c.forecaster))
    return noisy


def same_out(I, a, b, noisy=False, label='the copy steps like the original'):
    if not noisy:
        I.ensure(label + ': observation', same_array(a[0], b[0]) if hasattr(a[0], 'shape') else eq(a[0], b[0]))
    I.ensure(label + ': reward', eq(a[1], b[1]))
    I.ensure(label + ': done', bool(a[2]) == bool(b[2]))
    I.ensure(label + ': information', same_dict(a[3], b[3]))


def act(I, kind, nm):
    a = I.real(nm)
    if kind == 'genset':
        I.assume(ge(a, 0))
        return arr(I, [I.choice(nm + '_goal', [0, 1]), a])
    if kind == 'renewable':
        I.assume(ge(a, 0))
    return 0.0 if kind == 'load' else a


def build(I, kind, horizon, **kw):
    name = ('x', 3)
    if kind == 'battery':
        m, P = battery(I, raise_errors=I.bool('strict'))
    elif kind == 'genset':
        m, P = genset(I, raise_errors=I.bool('strict'))
    elif kind == 'balancing':
        m, P = unbalanced(I, raise_errors=I.bool('strict'))
    elif kind == 'grid':
        m, P = grid(I, horizon=horizon)
    elif kind == 'load':
        m, P = load(I, horizon=horizon, **kw)
    else:
        m, P = renewable(I, horizon=horizon, **kw)
    if name:
        m.name = name
    return m


def one(kind, h=None):
    def f(I):
        m = build(I, kind, h(I) if callable(h) else h, **(dict(sign='pos') if callable(h) and kind != 'grid' else {}))
        logged = not callable(h) and I.bool('logged')
        if logged:
            # the state before is arbitrary anyway: one step with request zero makes the log non-empty
            o = I.call(m.step, arr(I, [0, 0.0]) if kind == 'genset' else 0.0, normalized=False)
            if not o.ok:
                return
        st = dict(m.state_dict())
        c = I.must('saving and loading succeeds', roundtrip, m)
        I.cover('logged' if logged else 'fresh')
        I.ensure('saving changes nothing', same_dict(st, m.state_dict()))
        noisy = equal_modules(I, m, c)
        a = act(I, kind, 'after')
        o1, o2 = I.call(m.step, a, normalized=False), I.call(c.step, a, normalized=False)
        I.ensure('both accept or both refuse', o1.ok == o2.ok)
        if o1.ok and o2.ok:
            same_out(I, o1.value, o2.value, noisy)
            I.ensure('same log afterwards', same_log(m.log_dict(), c.log_dict()))
    return f


TT = [BM + 'to_yaml', BM + 'from_yaml', BM + 'serialize', BM + 'deserialize_instance', BM + 'deserialize', BM + '_serialize_cls_params', BM + '_serialize_state_attributes', BM + 'serializable_state_attributes']
for _k in ('battery', 'genset', 'balancing', 'grid', 'load', 'renewable'):
    contract('C15', f'module round trip: {_k}', targets=TT, covers=['logged', 'fresh'], budget=300, max_paths=20000,
             note='any parameters and state; series of any length; the log holds no or one entry (its content is copied by ModularLogger.from_raw, C14)')(one(_k))
for _k in ('renewable', 'load'):
    contract('C15', f'module round trip with forecast: {_k}', targets=TT + [TS + 'serialize', TS + 'deserialize'], covers=['logged', 'fresh'], budget=300, max_paths=20000,
             bounded='oracle forecaster, horizon 2; series of any length, any state')(one(_k, 2))
for _k in ('renewable', 'load', 'grid'):
    contract('C15', f'module round trip with forecast of any horizon: {_k}', targets=TT + [TS + 'serialize', TS + 'deserialize'], covers=['fresh'], budget=300, max_paths=20000)(one(_k, horizon))


@contract('C15', 'microgrid round trip', targets=[R + 'to_yaml', R + 'from_yaml', R + '_serialization_data', R + 'serialize'], covers=['c'], budget=300, max_paths=20000,
          bounded='one battery and one genset (start-up time 1) besides the balancing module, zero or one step before saving; all other values')
def micro(I):
    T = mod('pymgrid.microgrid.trajectory')
    b, _ = battery(I)
    g = modules().GensetModule(running_min_production=I.real('rmin', lo=0, hi=1), running_max_production=5.0, genset_cost=I.real('gc', lo=0), start_up_time=1, wind_down_time=2)
    ll, og = I.real('ll', lo=0), I.real('og', lo=0)
    stepped = I.bool('stepped')
    shaper = 'pv' if stepped else None
    f = mod('pymgrid.microgrid.reward_shaping').PVCurtailmentShaper() if shaper else None
    m = I.must('construction', mod('pymgrid.microgrid.microgrid').Microgrid, [('big', b), g], loss_load_cost=ll, overgeneration_cost=og, reward_shaping_func=f)
    ctrl = lambda t: {'big': [I.real(t + 'b')], 'genset': [arr(I, [1, I.real(t + 'g', lo=0)])]}
    if stepped:
        I.must('step', m.run, {'big': [0.0], 'genset': [arr(I, [0, 0.0])]}, normalized=False)
    c = I.must('saving and loading succeeds', roundtrip, m)
    I.cover('c')
    d1, d2 = dict(m.modules.iterdict()), dict(c.modules.iterdict())
    I.ensure('same names', list(d1) == list(d2) and all(len(d1[k]) == len(d2[k]) for k in d1))
    for k in d1:
        for x, y in zip(d1[k], d2[k]):
            equal_modules(I, x, y)
    I.ensure('same window', same_thing(m.initial_step, c.initial_step) and same_thing(m.final_step, c.final_step))
    I.ensure('same reward shaping', type(m.reward_shaping_func) is type(c.reward_shaping_func))
    I.ensure('same trajectory', m.trajectory_func is None and c.trajectory_func is None)
    ct = ctrl('c1')
    o1, o2 = I.must('original steps', m.run, dict(ct), normalized=False), I.must('copy steps', c.run, dict(ct), normalized=False)
    I.ensure('the copy steps like the original: reward and done', and_(eq(o1[1], o2[1]), bool(o1[2]) == bool(o2[2])))
    for k in d1:
        I.ensure('the copy steps like the original: observations', and_(*[same_array(x, y) for x, y in zip(o1[0][k], o2[0][k])]))
        I.ensure('the copy steps like the original: information', and_(*[same_dict(x, y) for x, y in zip(o1[3][k], o2[3][k])]))


# ------------------------------------------------------------------ the real library and real files
class Scratch:
    def __enter__(self):
        import tempfile
        self.t = tempfile.TemporaryDirectory(prefix='vc15_')
        return self.t.name

    def __exit__(self, *a):
        self.t.cleanup()


def real_roundtrip(I, ms, tag):
    """dump several objects, then load them: as strings, through yaml or all into one directory"""
    import yaml
    how = I.choice(tag + 'how', ['string', 'file', 'yaml'])
    if how == 'string':
        texts = [I.must('saving succeeds', m.dump) for m in ms]
        return [I.must('loading succeeds', type(m).load, t) for m, t in zip(ms, texts)]
    if how == 'yaml':
        texts = [yaml.safe_dump(m) for m in ms]
        return [yaml.safe_load(t) for t in texts]
    with Scratch() as d:
        for i, m in enumerate(ms):
            with open(f'{d}/save{i}.yaml', 'w') as f:
                I.must('saving succeeds', m.dump, f)
        out = []
        for i, m in enumerate(ms):
            with open(f'{d}/save{i}.yaml') as f:
                out.append(I.must('loading succeeds', type(m).load, f))
        return out


def exact(a, b):
    """exact equality of floats, arrays and dicts"""
    import numpy as np
    if isinstance(a, dict):
        return set(a) == set(b) and all(exact(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(exact(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return np.array_equal(a, b, equal_nan=True)
    if isinstance(a, float) and math.isnan(a):
        return isinstance(b, float) and math.isnan(b)
    return a == b


@contract('C15', 'saved microgrids continue like the original', sym=False, bounded='random microgrids, histories, windows and trajectories; strings and files', random_n=80)
def histories(I):
    from ..mg import random_microgrid, random_control
    import copy
    import numpy as np
    T = mod('pymgrid.microgrid.trajectory')
    RS = mod('pymgrid.microgrid.reward_shaping')
    shaper = RS.PVCurtailmentShaper() if I.bool('shaped') else None
    m, P = random_microgrid(I, windows=True, horizons=(None, None, 1, 3), max_rows=9, reward_shaping_func=shaper)
    a, b = P['init'], P['fin']
    if I.bool('traj') and b - a >= 3:
        k = I.choice('kind', ['s', 'f', 'd'])
        m.trajectory_func = T.StochasticTrajectory() if k == 's' else T.FixedLengthStochasticTrajectory(I.int('len', lo=1, hi=b - a)) if k == 'f' else T.DeterministicTrajectory(a, I.int('y', lo=a + 1, hi=b))
        m.reset()
    saved = []
    for s in range(I.int('steps', lo=0, hi=6)):
        if m.current_step >= m_final(m):
            m.reset()
        m.run(random_control(I, m, f'c{s}'))
        if I.bool(f'save{s}'):
            saved.append(copy.deepcopy(m))
    saved.append(copy.deepcopy(m))
    loaded = real_roundtrip(I, saved, 'x')
    for m, c in zip(saved, loaded):
        I.ensure('the loaded microgrid equals the original', bool(m == c))
        d1, d2 = dict(m.modules.iterdict()), dict(c.modules.iterdict())
        I.ensure('same names', {k: len(v) for k, v in d1.items()} == {k: len(v) for k, v in d2.items()})
        for k in d1:
            for x, y in zip(d1[k], d2[k]):
                equal_modules(I, x, y)
                I.ensure('exactly the same numbers', exact(x.state_dict(), y.state_dict()) and exact(x.log_dict(), y.log_dict()))
                if hasattr(x, 'time_series'):
                    I.ensure('exactly the same series', np.array_equal(x.time_series, y.time_series))
        I.ensure('same window and settings', (m.initial_step, m.final_step) == (c.initial_step, c.final_step) and m.trajectory_func == c.trajectory_func
                 and type(m.reward_shaping_func) is type(c.reward_shaping_func))
        if m.current_step > 0 and len(m._balance_logger):
            I.ensure('same microgrid log', m.log.sort_index(axis=1).equals(c.log.sort_index(axis=1)))
        ra = rb = None
        for t in range(4):
            if m.current_step >= m_final(m):
                np.random.seed(t)
                ra = m.reset()
                np.random.seed(t)
                rb = c.reset()
                I.ensure('same episode after reset', m.current_step == c.current_step and m_final(m) == m_final(c))
            ct = random_control(I, m, f'a{t}')
            o1, o2 = m.run(ct), c.run(ct)
            I.ensure('the copy steps like the original', o1[1] == o2[1] and o1[2] == o2[2] and exact(o1[0], o2[0]) and exact(o1[3], o2[3]))


def m_final(m):
    fs = [md.final_step for md in m.modules.iterlist() if hasattr(md, 'final_step')]
    return min(fs) if fs else float('inf')


class NumpyReals:
    """parameters and actions are numpy numbers, as they are when taken from arrays"""
    def __init__(self, I):
        self.I = I

    def __getattr__(self, n):
        f = getattr(self.I, n)
        if n == 'real':
            import numpy as np
            return lambda *a, **k: np.float64(f(*a, **k))
        return f


@contract('C15', 'saved modules continue like the original', sym=False, bounded='random modules, settings and histories; strings and files', random_n=250)
def modules_real(I):
    from ..mg import rows, random_battery, random_genset
    import numpy as np
    M = modules()
    if I.bool('numpy_values'):
        I = NumpyReals(I)
    kind = I.choice('kind', ['battery', 'genset', 'grid', 'load', 'renewable', 'balancing'])
    n = I.int('n', lo=1, hi=8)
    fc = I.choice('fc', [None, 'oracle', 0.0, 0.7])
    fk = dict(forecaster=fc, forecast_horizon=I.int('h', lo=1, hi=3), forecaster_relative_noise=I.bool('rel'), forecaster_increase_uncertainty=I.bool('inc')) if fc is not None else {}
    if kind == 'battery':
        m = random_battery(I, 'b', raise_errors=I.bool('strict'))
    elif kind == 'genset':
        m = random_genset(I, 'g', provided_energy_name=I.choice('pn', ['genset_production', 'mine']))
    elif kind == 'balancing':
        m = M.UnbalancedEnergyModule(raise_errors=I.bool('strict'), loss_load_cost=I.real('ll', lo=0), overgeneration_cost=I.real('og', lo=0))
    else:
        init = I.int('init', lo=0, hi=n - 1)
        fin = I.int('fin', lo=init + 1, hi=n)
        fk.update(initial_step=init, final_step=fin)
        if kind == 'grid':
            m = M.GridModule(max_import=I.real('mi', lo=0), max_export=I.real('me', lo=0), time_series=rows(I, 'ts', n, k=4, binary=(3,)), cost_per_unit_co2=I.real('c', lo=0), **fk)
        else:
            m = (M.LoadModule if kind == 'load' else M.RenewableModule)(time_series=rows(I, 'ts', n), **fk)
        if I.bool('newhorizon') and fc == 'oracle':
            m.set_forecaster('oracle', forecast_horizon=I.int('h2', lo=1, hi=4))
    if kind == 'grid' and I.bool('flex'):
        m.as_flex()
    if I.bool('named'):
        m.name = ('some name', 2)

    def action(t):
        if kind == 'load':
            return 0.0, False
        if kind == 'genset':
            return np.array([I.choice(f'{t}g', [0, 1, 0.3]), I.real(f'{t}e', lo=0, hi=1)]), True
        if kind == 'balancing':
            return I.real(f'{t}u'), False
        return I.real(f'{t}a', lo=0, hi=1), True
    left = (m.final_step - m.initial_step) if hasattr(m, 'final_step') else 5
    for s in range(I.int('steps', lo=0, hi=min(4, left))):
        I.call(m.step, *action(f's{s}'))
    c = real_roundtrip(I, [m], 'x')[0]
    noisy = equal_modules(I, m, c)
    if not noisy:
        I.ensure('the loaded module equals the original', bool(m == c))
        I.ensure('exactly the same numbers', exact(m.state_dict(), c.state_dict()) and exact(m.log_dict(), c.log_dict()))
    elif fc == 0.7:
        I.ensure('comparison is possible', I.call(lambda: m == c).ok)
    for t in range(3):
        if hasattr(m, 'final_step') and m.current_step >= m.final_step:
            r1, r2 = m.reset(), c.reset()
            I.ensure('same observation after reset', noisy or exact(r1, r2))
        a = action(f't{t}')
        o1, o2 = I.call(m.step, *a), I.call(c.step, *a)
        I.ensure('both accept or both refuse', o1.ok == o2.ok)
        if o1.ok:
            same_out(I, o1.value, o2.value, noisy)

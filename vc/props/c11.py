from ..spec import *
from ..models import *

S = 'pymgrid.utils.space.'
BM = 'pymgrid.modules.base.base_module.BaseMicrogridModule.'


def MS():
    return mod('pymgrid.utils.space').ModuleSpace


def affine(I, lo, hi, v, n, tag):
    """n is the normalized value of v in [lo, hi]"""
    I.ensure(f'{tag}: affine where the bounds differ', implies(lt(lo, hi), eq(n * (hi - lo), v - lo)))
    I.ensure(f'{tag}: offset where the bounds coincide', implies(eq(lo, hi), eq(n, v - lo)))


def bounds(I, k, p=''):
    lo = [I.real(f'{p}lo{i}') for i in range(k)]
    hi = [I.real(f'{p}hi{i}', lo=lo[i]) for i in range(k)]
    if not I.symbolic:
        I.assume(all(h == l or h - l > 1e-3 for l, h in zip(lo, hi)))
    return lo, hi


@contract('C11', 'module space laws, any dimension', targets=[S + 'ModuleSpace.__init__', S + 'ModuleSpace.normalize', S + 'ModuleSpace.denormalize', S + 'ModuleSpace._bounds_check', S + '_PymgridSpace._shape_check'], covers=['c'], stubs=False)
def laws_nd(I):
    if not I.symbolic:
        n = I.int('dim', lo=1, hi=6)
        lo_, hi_ = bounds(I, n)
        v_ = I.reals('v', n)
        i = I.int('i', lo=0, hi=n - 1)
        mk = lambda xs: arr(I, xs)
        lo, hi, v = mk(lo_), mk(hi_), mk(v_)
    else:
        import z3
        from ..series import Series
        lo = I.series('lo', ncols=1, flat=True)
        c = I.c
        fs = {k: z3.Function(f'{k}', z3.IntSort(), z3.RealSort()) for k in ('hi', 'v')}
        c.forall(lo.dom, lambda j: fs['hi'](j) >= lo.cols[0](j))
        mk = lambda k: Series(lo.dom, [lambda j: fs[k](j)], 1)
        hi, v = mk('hi'), mk('v')
        i = I.row_index('i', lo)
    sp = I.must('space accepts the bounds', MS(), lo, hi)
    o = I.must('normalize succeeds', sp.normalize, v)
    b = I.must('denormalize succeeds', sp.denormalize, v)
    at = lambda x: x[i] if hasattr(x, 'shape') and len(x.shape) else x
    I.cover('c')
    affine(I, lo[i], hi[i], v[i], at(o), 'normalize')
    affine(I, lo[i], hi[i], at(b), v[i], 'denormalize')
    I.ensure('space bounds are unchanged', and_(eq(sp.unnormalized.low[i], lo[i]), eq(sp.unnormalized.high[i], hi[i])))


@contract('C11', 'module space round trips', targets=[S + 'ModuleSpace.normalize', S + 'ModuleSpace.denormalize'], bounded='dimensions 1 and 2, arrays and scalars', covers=['c'])
def roundtrip(I):
    k = I.choice('k', [1, 2])
    lo, hi = bounds(I, k)
    scalar = k == 1 and I.bool('scalar')
    v = I.reals('v', k)
    val = v[0] if scalar else arr(I, v)
    sp = I.must('space accepts the bounds', MS(), arr(I, lo), arr(I, hi))
    n = I.must('normalize', sp.normalize, val)
    back = I.must('denormalize', sp.denormalize, n)
    d = I.must('denormalize', sp.denormalize, val)
    fwd = I.must('normalize', sp.normalize, d)
    I.cover('c')
    L = lambda x: [x] if not hasattr(x, '__len__') else list(x)
    for i in range(k):
        affine(I, lo[i], hi[i], v[i], L(n)[i], 'normalize')
        affine(I, lo[i], hi[i], L(d)[i], v[i], 'denormalize')
    I.ensure('denormalize undoes normalize', seq(L(back), v))
    I.ensure('normalize undoes denormalize', seq(L(fwd), v))
    low, high = sp.normalize(arr(I, lo)), sp.normalize(arr(I, hi))
    for i in range(k):
        I.ensure('lower bound maps to 0', eq(L(low)[i], 0))
        I.ensure('upper bound maps to 1', implies(lt(lo[i], hi[i]), eq(L(high)[i], 1)))
    if not scalar:
        I.ensure('argument is not modified', seq(list(val), v))


@contract('C11', 'wrong lengths are rejected', targets=[S + '_PymgridSpace._shape_check'], bounded='dimensions 1 to 3', covers=['c'], stubs=False)
def lengths(I):
    k, j = I.choice('k', [1, 2, 3]), I.choice('j', [0, 1, 2, 3, 4])
    lo, hi = bounds(I, k)
    sp = MS()(arr(I, lo), arr(I, hi))
    v = arr(I, I.reals('v', j))
    for f in (sp.normalize, sp.denormalize):
        o = I.call(f, v)
        I.cover('c')
        I.ensure('accepted exactly if the length matches', o.ok == (k == j))
        if not o.ok:
            I.ensure('rejection is a TypeError', o.raised(TypeError))
    x = I.real('x')
    o = I.call(sp.normalize, x)
    I.ensure('scalar accepted exactly if one-dimensional', o.ok == (k == 1))


@contract('C11', 'ranges of every magnitude', sym=False, bounded='random ranges of magnitude 1e-12 to 1e12 on the real floats', random_n=300)
def magnitudes(I):
    k = I.int('k', lo=1, hi=3)
    lo, hi = [], []
    for i in range(k):
        m = 10.0 ** I.int(f'mag{i}', lo=-12, hi=12)
        a, b = I.real(f'a{i}', lo=-1, hi=1), I.real(f'b{i}', lo=0.05, hi=2)
        lo.append((0.0 if I.bool(f'z{i}') else a) * m)
        hi.append(lo[-1] + b * m)
    f = I.real('f', lo=0, hi=1)
    np = mod('numpy')
    lo, hi = np.array(lo), np.array(hi)
    sp = I.must('space accepts the bounds', MS(), lo, hi)
    near = lambda x, y, s=1.0: bool((abs(np.atleast_1d(x) - y) <= 1e-9 * s).all())
    S_ = mod('pymgrid.utils.space').MicrogridSpace
    ms = I.must('microgrid space', S_, {'m': [{'action_space': sp, 'observation_space': sp, 'module_type': ('m', 'controllable')}]}, I.choice('ao', ['act', 'obs']))
    L = [('module', sp.normalize, sp.denormalize),
         ('microgrid', lambda v: ms.normalize({'m': [v]})['m'][0], lambda v: ms.denormalize({'m': [v]})['m'][0])]
    for tag, nrm, den in L:
        I.ensure(f'{tag}: lower bound maps to 0 and upper bound to 1', near(nrm(lo), 0) and near(nrm(hi), 1))
        I.ensure(f'{tag}: affine in between', near(nrm(lo + f * (hi - lo)), f, 1e3))
        I.ensure(f'{tag}: 0 and 1 map to the bounds', near(den(np.zeros(k)), lo, abs(lo)) and near(den(np.ones(k)), hi, abs(hi) + abs(lo)))
        I.ensure(f'{tag}: denormalize undoes normalize', near(den(np.atleast_1d(nrm(lo + f * (hi - lo)))), lo + f * (hi - lo), 1e3 * (abs(hi) + abs(lo))))


@contract('C11', 'two-dimensional spaces', targets=[S + 'ModuleSpace.normalize'], bounded='2 x 2', covers=['c'])
def twod(I):
    lo, hi = bounds(I, 4)
    v = I.reals('v', 4)
    r = lambda x: arr(I, x).reshape((2, 2))
    sp = MS()(r(lo), r(hi), shape=(2, 2))
    I.cover('c')
    n, d = (sp._unnormalized.low - sp._unnormalized.low), None
    low, high = list(sp.unnormalized.low.reshape(-1)), list(sp.unnormalized.high.reshape(-1))
    I.ensure('bounds are those given', and_(seq(low, lo), seq(high, hi)))


def dict_space(I, act):
    """microgrid space over one or two modules of one or two names"""
    MGS = mod('pymgrid.utils.space').MicrogridSpace
    lens = I.choice('lens', [(1,), (2,), (1, 1), (2, 1)])
    names = ['a', 'b'][:len(lens)]
    dims = [1, 2]
    d, B = {}, {}
    for nm, ln in zip(names, lens):
        d[nm], B[nm] = [], []
        for j in range(ln):
            k = dims[(j + len(d)) % 2]
            lo, hi = bounds(I, k, f'{nm}{j}_')
            sp = MS()(arr(I, lo), arr(I, hi))
            d[nm].append({'action_space': sp, 'observation_space': sp, 'module_type': ('x', 'controllable')})
            B[nm].append((lo, hi))
    return MGS(d, 'act' if act else 'obs'), B


@contract('C11', 'microgrid space laws', targets=[S + 'MicrogridSpace.normalize', S + 'MicrogridSpace.denormalize', S + 'MicrogridSpace._get_spread', S + 'MicrogridSpace.dict_op', S + '_PymgridDict._extract_action_spaces', S + '_PymgridDict._extract_observation_spaces', S + '_PymgridDict._transform_builtins', S + '_PymgridDict.get_attr'],
          bounded='up to two names with up to two modules of dimension 1 or 2', covers=['c'])
def mg_space(I):
    sp, B = dict_space(I, I.bool('act'))
    val, V = {}, {}
    for nm, bl in B.items():
        V[nm] = [I.reals(f'v{nm}{j}_', len(lo)) for j, (lo, hi) in enumerate(bl)]
        val[nm] = [arr(I, x) for x in V[nm]]
    n = I.must('normalize', sp.normalize, val)
    d = I.must('denormalize', sp.denormalize, val)
    back = I.must('round trip', sp.denormalize, n)
    I.cover('c')
    I.ensure('same names', list(n) == list(B) and list(d) == list(B))
    low, high = sp.unnormalized.low, sp.unnormalized.high
    for nm, bl in B.items():
        I.ensure('one value per module', len(n[nm]) == len(bl) and len(d[nm]) == len(bl))
        for j, (lo, hi) in enumerate(bl):
            I.ensure('bounds in order', and_(seq(list(low[nm][j]), lo), seq(list(high[nm][j]), hi)))
            for i in range(len(lo)):
                v = V[nm][j][i]
                affine(I, lo[i], hi[i], v, n[nm][j][i], 'normalize')
                affine(I, lo[i], hi[i], d[nm][j][i], v, 'denormalize')
                I.ensure('round trip', eq(back[nm][j][i], v))


def some_module(I, kind, raw=False):
    if kind == 'battery':
        b, P = battery(I)
        return b, [P['mn'] / P['cap'], P['mn']], [1, P['cap']], [-P['mc'] / P['eff']], [P['md'] * P['eff']]
    if kind == 'genset':
        g, P = genset(I)
        return g, [0, 0, 0, 0], [1, 1, P['su'], P['wd']], [0, 0], [1, P['rmax']]
    if kind == 'balancing':
        g, P = unbalanced(I)
        return g, [], [], None, None
    if kind == 'load':
        m, P = load(I)
        return m, None, None, None, None
    m, P = grid(I)
    return m, None, None, [-P['exp']], [P['imp']]


@contract('C11', 'module conversions use the module bounds', targets=[BM + 'to_normalized', BM + 'from_normalized', BM + '_get_action_spaces', BM + '_get_observation_spaces', BM + 'state_dict', BM + 'reset'], covers=['c'])
def module_level(I):
    kind = I.choice('kind', ['battery', 'genset', 'load', 'grid'])
    m, olo, ohi, alo, ahi = some_module(I, kind)
    if olo is None:
        olo, ohi = list(m.min_obs), list(m.max_obs)
    L = lambda x: [x] if not hasattr(x, '__len__') else list(x)
    I.cover('c')
    if alo is not None:
        a = I.reals('act', len(alo))
        n = L(I.must('normalize action', m.to_normalized, arr(I, a), act=True))
        d = L(I.must('denormalize action', m.from_normalized, arr(I, a), act=True))
        for i in range(len(alo)):
            affine(I, alo[i], ahi[i], a[i], n[i], 'action normalize')
            affine(I, alo[i], ahi[i], d[i], a[i], 'action denormalize')
    s = list(m.state)
    n = L(I.must('normalize state', m.to_normalized, m.state, obs=True))
    sd = I.must('normalized state dict', m.state_dict, normalized=True)
    back = L(I.must('denormalize state', m.from_normalized, arr(I, n), obs=True))
    I.ensure('state length', len(n) == len(s) == len(olo))
    for i in range(len(s)):
        affine(I, olo[i], ohi[i], s[i], n[i], 'state normalize')
    I.ensure('state round trip', seq(back, s))
    if True:
        I.ensure('normalized state dict', and_(list(sd) == list(m.state_dict()), seq(list(sd.values()), n)))
    I.ensure('one of act and obs required', not I.call(m.to_normalized, m.state).ok and not I.call(m.to_normalized, m.state, act=True, obs=True).ok)


@contract('C11', 'returned observations are the normalized state', targets=[BM + 'step', BM + 'reset'], covers=['c'])
def observations(I):
    kind = I.choice('kind', ['battery', 'genset', 'grid'])
    m, *_ = some_module(I, kind)
    L = lambda x: [x] if not hasattr(x, '__len__') else list(x)
    if I.bool('reset'):
        obs = I.must('reset', m.reset)
    else:
        a = I.real('a', lo=0, hi=1)
        obs = I.must('step', m.step, arr(I, [I.choice('g', [0, 1]), a]) if kind == 'genset' else a)[0]
    I.cover('c')
    I.ensure('observation is the normalized current state', seq(L(obs), L(m.to_normalized(m.state, obs=True))))


@contract('C11', 'normalized and raw actions agree', targets=[BM + 'step', S + 'ModuleSpace.denormalize'], covers=['c'])
def agree(I):
    kind = I.choice('kind', ['battery', 'grid'])
    m, *_ = some_module(I, kind)
    import copy
    m2 = copy.deepcopy(m)
    a = I.real('a', lo=0, hi=1)
    raw = m.from_normalized(a, act=True)
    o1 = I.must('normalized step', m.step, a)
    o2 = I.must('raw step', m2.step, raw, normalized=False)
    I.cover('c')
    I.ensure('same reward', eq(o1[1], o2[1]))
    I.ensure('same energy', and_(list(o1[3]) == list(o2[3]), *[eq(o1[3][k], o2[3][k]) for k in o1[3]]))


def small_grid(I):
    MG = mod('pymgrid.microgrid.microgrid').Microgrid
    b1, P1 = battery(I, p='b1_')
    b2, P2 = battery(I, p='b2_')
    g, PG = genset(I, state='init')
    return MG([b1, ('other', b2), g]), (P1, P2, PG)


@contract('C11', 'microgrid conversions are those of its modules', targets=['pymgrid.microgrid.microgrid.Microgrid.to_normalized', 'pymgrid.microgrid.microgrid.Microgrid.from_normalized'], bounded='one microgrid of two batteries, a genset and a balancing module', covers=['c'])
def mg_level(I):
    m, Ps = small_grid(I)
    act = {'battery': [I.real('x')], 'other': [I.real('y')], 'genset': [arr(I, [I.real('z'), I.real('w')])]}
    n = I.must('to_normalized', m.to_normalized, act, act=True)
    d = I.must('from_normalized', m.from_normalized, act, act=True)
    I.cover('c')
    L = lambda x: [x] if not hasattr(x, '__len__') else list(x)
    for nm, v in act.items():
        md = m.modules[nm][0]
        I.ensure('normalize', nm in n and len(n[nm]) == 1 and seq(L(n[nm][0]), L(md.to_normalized(v[0], act=True))))
        I.ensure('denormalize', nm in d and len(d[nm]) == 1 and seq(L(d[nm][0]), L(md.from_normalized(v[0], act=True))))
    I.ensure('nothing else', set(n) == set(act) and set(d) == set(act))
    I.ensure('one of act and obs required', not I.call(m.to_normalized, act).ok)

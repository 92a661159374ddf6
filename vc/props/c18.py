from ..spec import *
from ..models import *
from ..absmod import make_classes, ROLES

K = 'pymgrid.modules.module_container.'
R = 'pymgrid.microgrid.microgrid.Microgrid.'
# ASSUME: module names are not reserved words of the container ('fixed', 'flex', 'controllable', 'sources', 'sinks', 'source_and_sinks', 'data' and its method names)
GROUP = {'source': 'sources', 'sink': 'sinks', 'both': 'source_and_sinks'}
ROLEN = ('fixed', 'flex', 'controllable')


def make(I, n, roles, kinds, names):
    C = make_classes()
    out = []
    for i in range(n):
        role, kind, name = I.choice(f'role{i}', roles), I.choice(f'kind{i}', kinds), I.choice(f'name{i}', names)
        m = C[role](I, f'm{i}', role, *ROLES[kind])
        out.append((role, kind, name, m))
    return out


def expected(specs, extra=()):
    exp = {}
    kind_of = {}
    clash = False
    for i, (role, kind, name, m) in enumerate(specs):
        nm = name if name is not None else 'abs_' + role
        if kind_of.setdefault(nm, (role, kind)) != (role, kind):
            clash = True
        exp.setdefault(nm, []).append(i)
    return exp, kind_of, clash


def tags(ms):
    return [getattr(m, 'tag', 'balancing') for m in ms]


def views(I, c, specs, exp, kind_of, extra):
    """all views of container c show exactly the modules of specs (plus the balancing module)"""
    I.cover('registered')
    n = len(specs) + (1 if extra else 0)
    flat = list(c.to_list())
    want = sorted([f'm{i}' for i in range(len(specs))] + (['balancing'] if extra else []))
    I.ensure('every module is held exactly once', sorted(tags(flat)) == want)
    I.ensure('iterating lists the same modules', tags(c.iterlist()) == tags(flat) and all(x is y for x, y in zip(c.iterlist(), flat)))
    I.ensure('the number of modules', sum(len(l) for _, l in c.iterdict()) == n)
    d = dict(c.iterdict())
    I.ensure('names', set(d) == set(exp) | set(extra) and set(c.names()) == set(d) if hasattr(c, 'names') else set(d) == set(exp) | set(extra))
    for nm, idx in exp.items():
        I.ensure('modules of a name in the order given', tags(d[nm]) == [f'm{i}' for i in idx])
        I.ensure('access by name', tags(c[nm]) == tags(d[nm]) and tags(getattr(c, nm)) == tags(d[nm]) and nm in c)
        for j, m in enumerate(d[nm]):
            I.ensure('every module is labelled with its name and position', tuple(m.name) == (nm, j))
    I.ensure('pairs of name and module', sorted((nm, t) for nm, t in [(a, tags([b])[0]) for a, b in c.to_tuples()]) == sorted((nm, t) for nm, l in d.items() for t in tags(l)))
    ids = {id(m) for m in flat}
    for r in ROLEN:
        sub = getattr(c, r)
        for g in GROUP.values():
            cell = list(getattr(sub, g).to_list())
            other = list(getattr(getattr(c, g), r).to_list())
            w = [f'm{i}' for i, (role, kind, _, _) in enumerate(specs) if role == r and GROUP[kind] == g]
            if extra and (r, g) == ('flex', 'source_and_sinks'):
                w = w + ['balancing']
            I.ensure('by-role view holds exactly the modules of that role', sorted(tags(cell)) == sorted(w) and all(id(m) in ids for m in cell))
            I.ensure('both orders of the role views agree', [id(m) for m in cell] == [id(m) for m in other])
        want_r = sorted([f'm{i}' for i, s in enumerate(specs) if s[0] == r] + (['balancing'] if extra and r == 'flex' else []))
        I.ensure('role view', sorted(tags(sub.to_list())) == want_r and sorted(t for _, l in sub.iterdict() for t in tags(l)) == want_r)
    for k, g in GROUP.items():
        want_g = sorted([f'm{i}' for i, s in enumerate(specs) if s[1] == k] + (['balancing'] if extra and k == 'both' else []))
        I.ensure('source/sink view', sorted(tags(getattr(c, g).to_list())) == want_g)


def run(I, n, roles=ROLEN, kinds=tuple(ROLES), names=(None, 'x', 'y'), grid=False):
    specs = make(I, n, roles, kinds, names)
    exp, kind_of, clash = expected(specs)
    mods = [(s[2], s[3]) if s[2] is not None else s[3] for s in specs]
    if grid:
        o = I.call(mod('pymgrid.microgrid.microgrid').Microgrid, mods)
    else:
        o = I.call(mod('pymgrid.modules.module_container').ModuleContainer, mods)
    if clash:
        I.cover('clash')
        I.ensure('a name shared by modules of different kind is rejected', o.raised(NameError))
        return
    I.ensure('every other list is accepted', o.ok)
    if not o.ok:
        return
    c = o.value.modules if grid else o.value
    extra = []
    if grid:
        extra = [nm for nm, l in c.iterdict() if 'balancing' in tags(l)]
        I.ensure('one balancing module is added', len(extra) == 1 and tags(c[extra[0]]) == ['balancing'])
        I.ensure('the given modules are copied', not any(m is s[3] for m in c.to_list() for s in specs))
        I.ensure('number of modules', o.value.n_modules == n + 1 or o.value.n_modules == len(c))
        I.ensure('module list', tags(o.value.module_list) == tags(c.to_list()))
        for nm in exp:
            I.ensure('modules are attributes of the microgrid', tags(getattr(o.value, nm)) == tags(c[nm]))
    else:
        I.ensure('the modules themselves are held', all(any(m is s[3] for m in c.to_list()) for s in specs))
    views(I, c, specs, exp, kind_of, extra)


T = [K + 'get_subcontainers', K + 'ModuleContainer.__init__', K + 'ModuleContainer._set_midlevel', K + 'Container.to_list', K + 'Container.to_dict', K + 'Container.to_tuples',
     K + 'Container.__getitem__', K + 'Container.__getattr__']
contract('C18', 'registration of two modules', targets=T, bounded='all lists of one or two modules of every role, kind and naming', covers=['registered', 'clash'], budget=200)(
    lambda I: run(I, I.choice('n', [1, 2])))
contract('C18', 'registration of three modules', targets=T, bounded='all lists of three modules over two names, three kinds and two roles', covers=['registered', 'clash'], budget=250, max_paths=20000)(
    lambda I: run(I, 3, roles=('fixed', 'controllable'), kinds=('source', 'sink', 'both'), names=('x', 'y')))
contract('C18', 'registration in a microgrid', targets=T + [R + '_get_module_container'], bounded='all lists of two modules over two names, and every role and kind', covers=['registered', 'clash'], budget=250)(
    lambda I: run(I, 2, names=(None, 'x'), grid=True))


@contract('C18', 'registration of longer lists', sym=False, bounded='random lists of up to 14 modules, usual and unusual names, on the real code', random_n=700)
def longer(I):
    n = I.int('n', lo=1, hi=14)
    from ..mg import WORDS
    k = I.choice('style', [0, 1, 2, 3, 4])
    names = [(None, 'x', 'y', 'z'), (None,), ('a', 'b', 'c', 'd', 'e', 'f', 'g', 'h'), tuple(WORDS), ('x',)][k]
    few = k in (0, 4)
    run(I, n, names=names, kinds=tuple(ROLES) if not few else (I.choice('kd', list(ROLES)),), roles=ROLEN if not few else (I.choice('rl', list(ROLEN)),), grid=I.bool('grid'))


@contract('C18', 'malformed modules are rejected', targets=[K + 'get_subcontainers'], covers=['c'], bounded='sampled malformed modules')
def malformed(I):
    C = make_classes()
    k = I.choice('bad', ['neither', 'object', 'role'])
    if k == 'neither':
        m = C['fixed'](I, 'm0', 'fixed', False, False)
    elif k == 'object':
        m = ('x', 3)
    else:
        m = type('Odd', (C['fixed'],), {'module_type': ('odd', 'sometimes'), 'yaml_tag': None})(I, 'm0', 'fixed', True, False)
    o = I.call(mod('pymgrid.modules.module_container').ModuleContainer, [m])
    I.cover('c')
    I.ensure('a module that is neither source nor sink, no module or of no known role is rejected', not o.ok)


@contract('C18', 'built-in modules are registered by what they are', sym=False, bounded='random microgrids of built-in modules', random_n=300)
def builtin(I):
    from ..mg import random_microgrid
    m, P = random_microgrid(I, max_rows=4)
    want = {'LoadModule': ('fixed', 'sinks'), 'RenewableModule': ('flex', 'sources'), 'BatteryModule': ('controllable', 'source_and_sinks'),
            'GensetModule': ('controllable', 'sources'), 'GridModule': ('controllable', 'source_and_sinks'), 'UnbalancedEnergyModule': ('flex', 'source_and_sinks')}
    default = {'LoadModule': 'load', 'RenewableModule': 'renewable', 'BatteryModule': 'battery', 'GensetModule': 'genset', 'GridModule': 'grid'}
    exp = {}
    for g in P['given']:
        nm, md = g if isinstance(g, tuple) else (default[type(g).__name__], g)
        exp.setdefault(nm, []).append(type(md).__name__)
    d = dict(m.modules.iterdict())
    for nm, ts in exp.items():
        I.ensure('kinds under each name', [type(x).__name__ for x in d[nm]] == ts)
    I.ensure('nothing else but the balancing module', sum(len(l) for l in d.values()) == len(P['given']) + 1)
    for md in m.modules.iterlist():
        r, g = want[type(md).__name__]
        for rr in ROLEN:
            for gg in GROUP.values():
                I.ensure('role of built-in modules', (any(x is md for x in getattr(getattr(m.modules, rr), gg).to_list())) == ((rr, gg) == (r, g)))


@contract('C18', 'changing the role of one grid leaves the others alone', sym=False, bounded='pairs of grids with sampled limits', random_n=20)
def one_role(I):
    import numpy as np
    from pymgrid import Microgrid
    from pymgrid.modules import GridModule
    new = lambda k: GridModule(max_import=I.real(f'imp{k}', lo=1, hi=100), max_export=I.real(f'exp{k}', lo=1, hi=100), time_series=np.ones((4, 3)))
    a, b = new(0), new(1)
    before = GridModule.module_type
    which = I.choice('role', ['flex', 'fixed'])
    try:
        getattr(a, 'as_' + which)()
        m = Microgrid([('one', a), ('two', b)])
        I.ensure('the converted grid has its new role', [x is y for x in m.modules.one for y in getattr(m, which).one] == [True])
        I.ensure('the other grid keeps its role', [x is y for x in m.modules.two for y in m.controllable.two] == [True])
        I.ensure('a grid built afterwards has the default role', type(new(2)).module_type == before and 'grid' in Microgrid([new(3)]).controllable)
    finally:
        GridModule.module_type = before


# ------------------------------------------------------------------ lists of any length
def _havocked(I, tag, name, loc):
    """state of one name after arbitrarily many registrations: unused, or registered with one type and a list of earlier modules"""
    from .. import core
    from ..symlist import SymList
    for need in ('fixed', 'flex', 'controllable', 'module_names'):
        if not isinstance(loc.get(need), dict):
            raise core.Unsupported('the registration keeps its state elsewhere')
    ML = mod('pymgrid.modules.module_container').ModuleList
    t = I.choice(tag + '.type', [None] + [(r, g) for r in ROLEN for g in GROUP.values()])
    if t is None:
        return None, None, None
    n = I.int(tag + '.n', lo=1)
    ml = ML([])
    ml.data = SymList.base(tag, n)
    loc[t[0]][t[1]][name] = ml
    loc['module_names'][name] = t
    return t, n, ml


def _cells(loc, name):
    return [(r, g) for r in ROLEN for g in GROUP.values() if name in loc[r][g]]


@contract('C18', 'registration, lists of any length', targets=[K + 'get_subcontainers', K + 'ModuleContainer.__init__', K + 'Container.__getitem__', K + 'Container.to_dict'],
          covers=['registered', 'clash', 'views'], confirm=True, budget=150, max_paths=20000, random_n=1,
          note='loop over the modules by invariant: for every name, unused or registered under one type with the modules seen so far in order; a second name shows that others are untouched')
def anylist(I):
    if not I.symbolic:
        return                # 'registration of longer lists' runs this on the real code
    from .. import core, loopcut
    from ..symlist import SymList, Seg
    C = make_classes()
    S = {}
    role, kind = I.choice('role', ROLEN), I.choice('kind', list(ROLES))
    bare = I.bool('default name')
    x, y = ('abs_' + role if bare else 'x'), 'y'
    m = C[role](I, 'm', role, *ROLES[kind])
    T = (role, GROUP[kind])

    def havoc(loc):
        S['x'], S['y'] = _havocked(I, 'x', x, loc), _havocked(I, 'y', y, loc)

    def leave(e):
        loc = S['loop'].loc
        t, n, ml = S['x']
        I.ensure('names of different kind are rejected', t is None or t == T)
        I.ensure('registered under exactly one type', _cells(loc, x) == [T] and loc['module_names'].get(x) == T)
        got = loc[T[0]][T[1]].get(x)
        I.cover('registered')
        if t is None:
            I.ensure('a new name starts a list', got is not None and len(got.data) == 1 and got.data[0] is m)
            I.ensure('label', tuple(m.name) == (x, 0))
        else:
            p = got.data.parts if isinstance(got.data, SymList) else []
            I.ensure('appended in order', got is ml and len(p) == 2 and isinstance(p[0], Seg) and p[0].name == 'x' and p[1] is m)
            I.ensure('label', m.name[0] == x and I.is_(eq(m.name[1], n)))
        t2, n2, ml2 = S['y']
        if t2 is None:
            I.ensure('other names are untouched', _cells(loc, y) == [] and y not in loc['module_names'])
        else:
            same = loc[t2[0]][t2[1]].get(y) is ml2 and len(ml2.data.parts) == 1 if _cells(loc, y) == [t2] else False
            I.ensure('other names are untouched', same and loc['module_names'].get(y) == t2)
        I.ensure('no other name appears', all(set(loc[r][g]) <= {x, y} for r in ROLEN for g in GROUP.values()))

    arb = loopcut.Arb('modules', lambda: m if bare else (x, m), leave, havoc)
    seq = loopcut.SymSeq('modules', [arb])
    old = loopcut.Loop.begin

    def begin(self, loc):
        S['loop'] = self
        return old(self, loc)
    loopcut.Loop.begin = begin
    try:
        o = I.call(mod('pymgrid.modules.module_container').ModuleContainer, seq)
    finally:
        loopcut.Loop.begin = old
    t, n, ml = S.get('x', (None,) * 3)
    if S.get('loop') is None:
        raise core.Unsupported('the modules are not visited by a for statement')
    if S['loop'].mode == 'body':
        I.cover('clash')
        I.ensure('only names shared by modules of different kind are rejected', o.raised(NameError) and t is not None and t != T)
        return
    I.ensure('every other list is accepted', o.ok)
    if not o.ok:
        return
    c = o.value
    I.cover('views')
    for nm, st in ((x, S['x']), (y, S['y'])):
        if st[0] is None:
            I.ensure('unused names are not known', nm not in c and nm not in c.names())
            continue
        r, g = st[0]
        I.ensure('access by name', c[nm] is st[2] and nm in c and nm in c.names() and dict(c.iterdict())[nm] is st[2])
        I.ensure('access by role', dict(c[r][g].items()).get(nm) is st[2] and dict(c[g][r].items()).get(nm) is st[2])
        for r2 in ROLEN:
            for g2 in GROUP.values():
                if (r2, g2) != (r, g):
                    I.ensure('under exactly one role and kind', nm not in dict(c[r2][g2].items()) and nm not in dict(c[g2][r2].items()))

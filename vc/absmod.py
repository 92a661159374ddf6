"""Modules known only through the contract of BaseMicrogridModule.step (proved for every built-in module in C04).

An AbsModule may provide or absorb anything its contract allows; observation, reward, done and information are arbitrary.
# (the class is real: it goes through ModuleContainer, Microgrid and MicrogridStep unchanged; only step() is the contract)
"""
from .spec import *
from .models import *


def make_classes():
    Base = mod('pymgrid.modules.base').BaseMicrogridModule

    class _Abs(Base):
        yaml_tag = None

        def __init__(self, I, tag, role, src, snk):
            self.I, self.tag, self.src, self.snk = I, tag, src, snk
            self.maxp = I.real(tag + '.maxp', lo=0) if src else 0.0
            self.maxc = I.real(tag + '.maxc', lo=0) if snk else 0.0
            self.obs0 = I.real(tag + '.state')
            self.calls = []
            self.outs = []
            super().__init__(False)

        def __deepcopy__(self, memo):
            new = object.__new__(type(self))
            new.__dict__.update(self.__dict__)
            new.calls, new.outs = list(self.calls), list(self.outs)
            new.original = self
            return new

        def step(self, action, normalized=True):
            I = self.I
            t = f'{self.tag}.{len(self.calls)}'
            self.calls.append((action, normalized))
            role = type(self).module_type[1]
            if role == 'fixed':
                e = I.real(t + '.e', lo=0)
                src = self.src if self.src != self.snk else I.bool(t + '.dir')
            elif role == 'controllable':
                # the request may be clipped, must-run and so on: any feasible response
                src = self.src if self.src != self.snk else I.bool(t + '.dir')
                e = I.real(t + '.e', lo=0)
            else:
                # flexible modules serve a raw request exactly within the limits and clip it to them outside
                a = action
                if a > 0:
                    src, e, lim = True, a, self.maxp
                elif a < 0:
                    src, e, lim = False, -a, self.maxc
                else:
                    src, e, lim = self.src, 0.0, 0.0
                if normalized or (src and not self.src) or (not src and not self.snk):
                    raise AssertionError('request in an unsupported direction')
                if e > lim:
                    e = lim
            info = {'provided_energy' if src else 'absorbed_energy': e}
            if getattr(self, 'extra', False):
                info['extra'] = I.real(t + '.x')
            reward = I.real(t + '.r')
            done = I.bool(t + '.done') if getattr(self, 'may_done', False) else False
            obs = arr(I, [I.real(t + '.obs')])
            self._current_step += 1
            self.outs.append((obs, reward, done, info))
            return obs, reward, done, info

        def _state_dict(self): return {'s': self.obs0}
        def update(self, *a, **k): raise NotImplementedError
        min_obs = property(lambda self: 0.0)
        max_obs = property(lambda self: 1.0)
        min_act = property(lambda self: 0.0)
        max_act = property(lambda self: 1.0)
        max_production = property(lambda self: self.maxp)
        max_consumption = property(lambda self: self.maxc)
        is_source = property(lambda self: self.src)
        is_sink = property(lambda self: self.snk)

    out = {}
    for role in ('fixed', 'flex', 'controllable'):
        out[role] = type('Abs' + role, (_Abs,), {'module_type': ('abs_' + role, role), 'yaml_tag': None})
    return out


ROLES = {'source': (True, False), 'sink': (False, True), 'both': (True, True)}


def abstract_microgrid(I, fixed=(0, 1, 2), ctrl=(0, 1), flex=(0, 1), kinds=('source', 'sink', 'both'), done=False, wrap_names=False, **kw):
    C = make_classes()
    mods = []
    n = dict(fixed=I.choice('nfixed', list(fixed)), controllable=I.choice('nctrl', list(ctrl)), flex=I.choice('nflex', list(flex)))
    for role, k in n.items():
        for j in range(k):
            ks = [x for x in kinds if role == 'flex' or x != 'both']
            kd = I.choice(f'{role}{j}.kind', ks)
            m = C[role](I, f'{role}{j}', role, *ROLES[kd])
            m.may_done = done
            mods.append((f'{role}_{kd}', m))
    if not mods and kw.get('add_unbalanced_module', True) is False:
        raise Skip()
    mg = I.must('construction', mod('pymgrid.microgrid.microgrid').Microgrid, mods, **kw)
    return mg, mods


def control(I, mg, p='c'):
    return {name: [I.real(f'{p}_{name}_{j}') for j, _ in enumerate(lst)] for name, lst in mg.controllable.iterdict()}


def total(xs):
    r = 0.0
    for x in xs:
        r = r + x
    return r

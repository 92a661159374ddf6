"""The part of the pandas interface the converters use, over series of arbitrary length."""
from .series import Series
from .core import Unsupported


class PFrame(Series):
    """DataFrame (ndim 2) or Series (ndim 1) of symbolic length"""

    def __init__(self, dom, cols, names, ndim=2):
        super().__init__(dom, cols, ndim)
        self.columns = list(names)
        if len(self.columns) != len(self.cols):
            raise ValueError('shape of passed values and columns differ')

    @property
    def name(self): return self.columns[0]

    @name.setter
    def name(self, v): self.columns = [v]

    @property
    def iloc(self):
        outer = Series(self.dom, self.cols, self.ndim)

        class Loc:
            def __getitem__(self, k): return outer[k]
        return Loc()

    def squeeze(self, axis=None):
        return PFrame(self.dom, self.cols, self.columns, 1 if len(self.cols) == 1 else 2)

    def to_frame(self, name=None):
        return PFrame(self.dom, self.cols, self.columns if name is None else [name], 2)

    def rename(self, *a, **k):
        if len(a) == 1 and isinstance(a[0], str) and not k:
            return PFrame(self.dom, self.cols, [a[0]], self.ndim)
        raise Unsupported('rename')

    def __getitem__(self, k):
        if isinstance(k, str):
            if k not in self.columns:
                raise KeyError(k)
            return PFrame(self.dom, [self.cols[self.columns.index(k)]], [k], 1)
        if isinstance(k, list) and all(isinstance(x, str) for x in k):
            return PFrame(self.dom, [self.cols[self.columns.index(x)] for x in k], k, 2)
        return super().__getitem__(k)


class Pandas:
    """proxy of the pandas module: identical on ordinary arguments"""

    def __init__(self):
        import pandas
        self._pd = pandas

    def __getattr__(self, n): return getattr(self._pd, n)

    def DataFrame(self, data=None, *a, columns=None, **k):
        if isinstance(data, Series):
            if a or k:
                raise Unsupported('DataFrame arguments')
            return PFrame(data.dom, data.cols, columns if columns is not None else getattr(data, 'columns', None) or range(len(data.cols)), 2)
        if isinstance(data, dict) and any(isinstance(v, Series) for v in data.values()):
            vs = list(data.values())
            return PFrame(vs[0].dom, [v.cols[0] for v in vs], list(data), 2)
        return self._pd.DataFrame(data, *a, columns=columns, **k)

    def concat(self, objs, axis=0, **k):
        objs = list(objs)
        if any(isinstance(o, Series) for o in objs):
            if axis not in (1, 'columns') or k or any(o.dom.id != objs[0].dom.id for o in objs):
                raise Unsupported('concat of symbolic series')
            return PFrame(objs[0].dom, [c for o in objs for c in o.cols], [n for o in objs for n in o.columns], 2)
        return self._pd.concat(objs, axis=axis, **k)

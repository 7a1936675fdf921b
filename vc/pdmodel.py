"""Model of the pandas table operations used by the verified code."""
import z3, builtins
from . import engine as E
from .engine import Num, SBool, Unsupported, cur, num, mark, tobool, ite
from .arrays import *
from .arrays import Arr, Arr2, SList, RowLabels, sub_ix, zi, zlen, nlen, simp_n, sb, SEnum, SOpaque
from .npmodel import ModelNS, asarr, is_sym
from .loader import TypeShadow

class Row:
    """one table row, with labels"""
    def __init__(self, labels, vals=None, get=None):
        self.labels = list(labels)
        self.get = get if get is not None else list(vals).__getitem__
    @property
    def vals(self): return [self.get(j) for j in range(len(self.labels))]
    def __getitem__(self, k):
        if k in self.labels: return self.get(self.labels.index(k))
        raise mark(KeyError(k))
    def to_array(self): return Arr(len(self.labels), get=lambda i: self.get(i.as_long()))
    def __iter__(self): return iter(self.vals)
    def __getattr__(self, k):
        if k in ('labels', 'get'): raise AttributeError(k)
        if k in self.labels: return self[k]
        if k == 'iloc': return self.vals
        if k == 'values': return Arr.of(self.vals)
        if k == 'keys': return lambda: list(self.labels)
        E.noattr(k, 'a row')

class SDF:
    """a table: labelled columns of equal length"""
    is_sym = True
    def __init__(self, cols, n=None, ix=None):
        self.cols = dict(cols)
        if n is None:
            n = next(iter(self.cols.values())).n if self.cols else 0
        self.n = simp_n(n)
        self.ix = ix or RowLabels()
        for k, c in self.cols.items():
            if c.ix is not self.ix:
                c2 = c.copy(); c2.ix = self.ix; c2._aux = dict(c._aux)
                self.cols[k] = c2
        self._v = _tickd()
        self.frozen_kind = None
    @property
    def _ver(self): return (self._v,) + tuple(sorted(c._ver for c in self.cols.values()))
    def symlen(self): return None
    def vc_len(self): return nlen(self.n)
    @property
    def shape(self): return (nlen(self.n), len(self.cols))
    @property
    def columns(self): return Labels(self.cols)
    @columns.setter
    def columns(self, names):
        names = list(names)
        if len(names) != len(self.cols): raise mark(ValueError('Length mismatch'))
        self.cols = dict(zip(names, self.cols.values())); self._v = _tickd()
    def keys(self): return Labels(self.cols)
    def __iter__(self): return iter(list(self.cols))
    def __contains__(self, k): return k in self.cols
    def col(self, k):
        if k not in self.cols: raise mark(KeyError(k))
        return self.cols[k]
    def __getitem__(self, k):
        if isinstance(k, Arr):
            if k.isbool(): return self.rows(k)
            raise Unsupported('table indexed by an array')
        if isinstance(k, Labels): k = list(k)
        if isinstance(k, list):
            return SDF([(c, self.col(c)) for c in k], self.n, self.ix)
        if isinstance(k, slice): return self.rows(k)
        return self.col(k)
    def __getattr__(self, k):
        cols = self.__dict__.get('cols', {})
        if k in cols: return cols[k]
        E.noattr(k, 'a table')
    def __setattr__(self, k, v):
        if k in ('cols', 'n', 'ix', '_v', 'columns', 'frozen_kind'): return object.__setattr__(self, k, v)
        if k in self.cols: self[k] = v; return
        raise Unsupported(f'setting table attribute {k}')
    def __setitem__(self, k, v):
        if isinstance(k, (list, Arr)): raise Unsupported('multi-column assignment')
        if isinstance(v, SList): v = v.arr()
        if isinstance(v, (list, tuple)): v = Arr.of(v)
        if isinstance(v, Arr):
            if v.ix is not None and v.ix is not self.ix: raise Unsupported('column assigned from a table with other row labels')
            check_same_len(self.n, v.n)
            c = v.copy(); c._aux = dict(v._aux)
        elif isinstance(v, Arr2) and len(v.cols) == 1: c = v.cols[0].copy()
        elif isinstance(v, SDF):
            if len(v.cols) > 1: raise mark(ValueError('Cannot set a DataFrame with multiple columns to the single column'))
            raise Unsupported('table assigned to a column')
        else:
            c = Arr.of([v] * self.n) if isinstance(self.n, int) else Arr(self.n, get=lambda i: v)
        c.ix = self.ix
        self.cols[k] = c
        self._v = _tickd()
    def rows(self, key):
        if isinstance(key, slice):
            out = {c: a.slice(key) for c, a in self.cols.items()}
            ix = sub_ix(self.ix, KeyOf(key))
        else:
            if 'where' in key._aux: key = key._aux['where']          # the rows np.where names
            if key.ix is not None and key.ix is not self.ix: raise Unsupported('mask with different row labels')
            out = {c: a[key] for c, a in self.cols.items()}
            ix = sub_ix(self.ix, key)
        for a in out.values(): a.ix = ix; a.view_of = None
        n = next(iter(out.values())).n if out else 0
        return SDF(out, n, ix)
    def row(self, i):
        i = zi(i)
        cs = list(self.cols.values())
        return Row(self.cols, get=lambda j: cs[j].at(i))
    @property
    def iloc(self): return ILoc2(self)
    @property
    def loc(self): return Loc2(self)
    def groupby(self, c): return Grouped(self, c)
    def copy(self, deep=True): return SDF(self.cols, self.n, self.ix)
    def assign(self, **cols):
        d = self.copy()
        for k, v in cols.items(): d[k] = v(d) if callable(v) else v
        return d
    def apply(self, f, axis=0):
        if axis in (0, 'index'):
            out = {}
            for c, a in self.cols.items():
                r = f(a)
                if not isinstance(r, Arr): raise Unsupported('apply reducing columns')
                out[c] = r
            return SDF(out, self.n, self.ix)
        if not (self.n > 0 if isinstance(self.n, int) else cur().decide(self.n > 0)): return SDF(self.cols, self.n, self.ix)   # pandas: no rows, f is not called
        fz = {c: a._frozen() for c, a in self.cols.items()}
        gs = list(fz.values())
        def get(i): return cur().merged(lambda: f(Row(fz, get=lambda j: gs[j](i))))
        r = Arr.of([get(z3.IntVal(i)) for i in range(self.n)]) if isinstance(self.n, int) else Arr(self.n, get=get)
        return r.lab(self.ix)
    def pop(self, k):
        c = self.col(k); del self.cols[k]; self._v = _tickd(); return c
    def reset_index(self, drop=False):
        out = {} if drop else {'index': Arr(self.n, get=lambda i: E.fresh_real('rowlabel')) if not isinstance(self.n, int) else Arr.of([float(i) for i in range(self.n)])}
        for c, a in self.cols.items():
            b = a.copy(); b.ix = None; b._aux = dict(a._aux); out[c] = b
        return SDF(out, self.n, RowLabels(self.ix, None))
    def astype(self, t): return SDF({c: a.astype(t) for c, a in self.cols.items()}, self.n, self.ix)
    def to_array(self):
        r = Arr2(self.n, [nolab(c) for c in self.cols.values()]); r.rowix = self.ix
        return r
    def to_numpy(self): return self.to_array()
    @property
    def values(self): return self.to_array()
    @property
    def index(self): return ModelIndex(self)
    def isna(self): return SDF({c: a.isna() for c, a in self.cols.items()}, self.n, self.ix)
    def dropna(self, axis=0, subset=None, **k):
        if axis != 0 or k: raise E.Unsupported('dropna options')
        cs = list(self.cols) if subset is None else [subset] if isinstance(subset, str) else list(subset)
        keep = None
        for c in cs:
            m = ~self.cols[c].isna()
            keep = m if keep is None else keep & m
        return self.loc[keep, :]
    def drop(self, labels=None, axis=0, columns=None):
        if columns is None and axis == 1: columns = labels
        if columns is None: raise Unsupported('drop rows')
        columns = columns if isinstance(columns, list) else [columns]
        for c in columns: self.col(c)
        return SDF({c: a for c, a in self.cols.items() if c not in columns}, self.n, self.ix)
    def rename(self, columns=None, **k): return SDF({columns.get(c, c): a for c, a in self.cols.items()}, self.n, self.ix)
    def _havoc_new(self, name): raise Unsupported('table changed in a loop')
    def concretize(self, m): return {str(c): a.concretize(m) for c, a in self.cols.items()}
    def to_csv(self, *a, **k):
        cur().effects.append(('to_csv', self, a, k))

def nolab(c):
    b = c.copy(); b.ix = None; b._aux = dict(c._aux)
    return b

class KeyOf:
    def __init__(self, s): self.s = s

_c = [0]
def _tickd():
    _c[0] += 1
    return _c[0]

class Labels(list):
    def __init__(self, it): builtins.list.__init__(self, list(it))
    def tolist(self): return list(self)
    def get_loc(self, k): return self.index(k)

class ModelIndex:
    def __init__(self, df): self.df = df
    def vc_len(self): return nlen(self.df.n)
    def __getattr__(self, k): raise Unsupported(f'row index {k}')

class ILoc2:
    def __init__(self, df): self.df = df
    def __getitem__(self, k):
        df = self.df
        if isinstance(k, tuple):
            r, c = k
            if isinstance(c, int):
                name = list(df.cols)[c]
                a = df.cols[name]
                return a if isinstance(r, slice) and r == slice(None) else a[r]
            if isinstance(c, slice) and c == slice(None): return df.iloc[r]
            names = list(df.cols)[c] if isinstance(c, slice) else [list(df.cols)[x] for x in c]
            sub = SDF([(x, df.cols[x]) for x in names], df.n, df.ix)
            return sub if isinstance(r, slice) and r == slice(None) else sub.iloc[r]
        if isinstance(k, (slice,)): return df.rows(k)
        if isinstance(k, Arr):
            return df.rows(k)
        i = next(iter(df.cols.values())).norm(k)
        return df.row(i)

class Loc2:
    def __init__(self, df): self.df = df
    def __getitem__(self, k):
        df = self.df
        if isinstance(k, tuple):
            r, c = k
            if isinstance(c, slice):
                if c != slice(None): raise Unsupported('label slice')
                sub = df
            elif isinstance(c, list): sub = df[c]
            else:
                a = df.col(c)
                if isinstance(r, slice) and r == slice(None): return a
                if isinstance(r, Arr) and r.isbool():
                    return a[r]
                raise Unsupported('row label lookup')
            if isinstance(r, slice) and r == slice(None): return sub
            if isinstance(r, Arr) and r.isbool(): return sub.rows(r)
            raise Unsupported('row label lookup')
        if isinstance(k, Arr) and k.isbool(): return df.rows(k)
        raise Unsupported('row label lookup')

    def __setitem__(self, k, v):
        df = self.df
        if not (isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], Arr) and k[0].isbool() and isinstance(k[1], str)): raise Unsupported('assignment by row label')
        if is_sym(v) and not isinstance(v, Num): raise Unsupported('assignment by row label')
        m, c = k
        if m.ix is not None and m.ix is not df.ix: raise Unsupported('mask with different row labels')
        g, old = m._frozen(), df.col(c)._frozen()
        get = lambda i: E.ite(sb(g(i)), v, old(i))
        df[c] = Arr.of([get(z3.IntVal(i)) for i in range(df.n)]) if isinstance(df.n, int) else Arr(df.n, get=get)

class Grouped:
    def __init__(self, df, c): self.df, self.c = df, c
    def get_group(self, key):
        df = self.df
        if isinstance(key, tuple) and len(key) == 1: key = key[0]
        mask = (df.col(self.c) == key)
        mask.ix = df.ix
        if isinstance(df.n, int): present = SBool(z3.Or([tobool(x) for x in mask.items()]) if df.n else z3.BoolVal(False))
        else: present = mask.any()
        if not present: raise mark(KeyError(key))
        return df.rows(mask)

def pd_to_numeric(x, errors='raise'):
    if isinstance(x, Arr):
        if getattr(x, 'junk', None) is not None: raise Unsupported('to_numeric of text')
        return x
    raise Unsupported('to_numeric')

def pd_DataFrame(data=None, columns=None, index=None, **k):
    if data is None:
        return SDF({c: Arr.of([]) for c in (columns or [])}, 0)
    if isinstance(data, Arr2):
        cols = list(columns) if columns is not None else list(range(len(data.cols)))
        if len(cols) != len(data.cols): raise mark(ValueError('columns'))
        return SDF({c: a.copy() for c, a in zip(cols, data.cols)}, data.n)
    if isinstance(data, dict):
        out = {}
        n = None
        for c, a in data.items():
            if isinstance(a, (list, tuple)): a = Arr.of(a)
            if isinstance(a, SList): a = a.arr()
            if not isinstance(a, Arr): raise Unsupported('table from scalars')
            if n is None: n = a.n
            else: check_same_len(n, a.n)
            out[c] = a.copy()
        df = SDF(out, n)
        return df if columns is None else df[list(columns)]
    if isinstance(data, (list,)) and columns is not None and all(isinstance(r, (list, tuple)) for r in data):
        return SDF({c: Arr.of([r[j] for r in data]) for j, c in enumerate(columns)}, len(data))
    raise Unsupported('DataFrame construction')

def pd_concat(parts, axis=0, ignore_index=False, **k):
    if axis != 0: raise Unsupported('concat by columns')
    if isinstance(parts, SList):
        raise Unsupported('concat of a symbolic list')
    parts = [p for p in parts]
    keys = []
    for p in parts:
        if isinstance(p, Arr): return concat(parts)
        for c in p.cols:
            if c not in keys: keys.append(c)
    out = {}
    for c in keys:
        arrs = []
        for p in parts:
            if c in p.cols: arrs.append(nolab(p.cols[c]))
            else: arrs.append(Arr.of([float('nan')] * p.n) if isinstance(p.n, int) else Arr(p.n, get=lambda i: float('nan')))
        out[c] = concat(arrs)
    return SDF(out, next(iter(out.values())).n if out else 0)

class _DataFrame:
    def __call__(self, *a, **k): return pd_DataFrame(*a, **k)
    def from_dict(self, d, *a, **k):
        if a or k: raise Unsupported('from_dict options')
        return pd_DataFrame(d)
    def vc_isinstance(self, x): return isinstance(x, SDF)
    def __getattr__(self, k): E.noattr(k, 'DataFrame')
DataFrame = _DataFrame()
SDF.vc_type = DataFrame

class PdModel(ModelNS):
    def __init__(self):
        ModelNS.__init__(self, 'pandas')
        self.DataFrame = DataFrame
        self.to_numeric = pd_to_numeric
        self.concat = pd_concat
        self.isna = self.isnull = lambda x: x.isna() if isinstance(x, (Arr, SDF)) else E.isnan(x)
        self.Series = Series
def Series(x, index=None, **k):
    if isinstance(x, dict): return Row(x.keys(), x.values())
    if isinstance(x, (list, tuple)): return Arr.of(x).lab(RowLabels())
    if isinstance(x, Arr): return x.copy().lab(RowLabels())
    raise Unsupported('Series')

"""The few lines of a raw file that hold its serial number, as pandas.read_csv gives them:
a table of up to four rows (line type, text). Line types are enumerated, texts are opaque."""
import z3
from vc import engine as E
from vc.engine import Num, cur, mark
from vc.idlist import Item, S

class Col:
    __hash__ = None
    def __init__(self, labels, values): self.labels, self.vals = labels, values
    def _mask(self, f): return Mask(self.labels, [f(v) for v in self.vals])
    def __eq__(self, o):
        if not isinstance(o, str) or any(isinstance(v, Item) for v in self.vals): raise E.Unsupported('comparison of a column')
        return self._mask(lambda v: v == o)
    def __ne__(self, o): return ~(self == o)
    def __getitem__(self, k):
        if isinstance(k, Mask):
            if k.labels != self.labels: raise E.Unsupported('alignment')
            return Col(*map(list, zip(*[(l, v) for l, v, m in zip(self.labels, self.vals, k.vals) if m]))) if any(k.vals) else Col([], [])
        if isinstance(k, int):
            if k not in self.labels: raise mark(KeyError(k))
            return self.vals[self.labels.index(k)]
        raise E.Unsupported('column item')
    @property
    def iloc(self): return Place(self.vals)
    @property
    def loc(self): return self
    @property
    def values(self): return Place(self.vals)
    to_numpy = to_list = tolist = lambda self: Place(self.vals)
    @property
    def index(self): return Place(self.labels)
    @property
    def empty(self): return not self.vals
    @property
    def shape(self): return (len(self.vals),)
    def __len__(self): return len(self.vals)
    def __iter__(self): return iter(self.vals)
    def __getattr__(self, k): E.noattr(k, 'a column of header lines')
class Mask(Col):
    def __invert__(self): return Mask(self.labels, [not v for v in self.vals])
    def any(self): return any(self.vals)
    def all(self): return all(self.vals)
    def sum(self): return sum(self.vals)
class Place:
    """by position"""
    def __init__(self, v): self.v = v
    def __getitem__(self, k):
        if not isinstance(k, int): raise E.Unsupported('position')
        if not -len(self.v) <= k < len(self.v): raise mark(IndexError(k))
        return self.v[k]
    def __len__(self): return len(self.v)
    def __iter__(self): return iter(self.v)
    def __getattr__(self, k): E.noattr(k, 'an array of header fields')
class RowPlace(Place):
    def __init__(self, t): self.t = t
    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 2 and isinstance(k[1], int): return Place(self.t.cols[list(self.t.cols)[k[1]]].vals)[k[0]]
        if not isinstance(k, int): raise E.Unsupported('position')
        return {c: Place(v.vals)[k] for c, v in self.t.cols.items()}
class Loc:
    def __init__(self, t): self.t = t
    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 2 and isinstance(k[1], str): return self.t[k[1]][k[0]]
        if isinstance(k, Mask): return self.t[k]
        raise E.Unsupported('table item')
class Table:
    __hash__ = None
    def __init__(self, cols): self.cols = cols
    def __getitem__(self, k):
        if isinstance(k, str):
            if k not in self.cols: raise mark(KeyError(k))
            return self.cols[k]
        if isinstance(k, Mask): return Table({c: v[k] for c, v in self.cols.items()})
        raise E.Unsupported('table item')
    loc = property(lambda s: Loc(s))
    iloc = property(lambda s: RowPlace(s))
    empty = property(lambda s: not len(s))
    shape = property(lambda s: (len(s), len(s.cols)))
    columns = property(lambda s: list(s.cols))
    def __len__(self): return len(next(iter(self.cols.values())))
    def iterrows(self): return iter([(self.cols['SN'].labels[i], self.iloc[i]) for i in range(len(self))])
    def __getattr__(self, k):
        if not k.startswith('_') and k in self.cols: return self.cols[k]
        E.noattr(k, 'the header lines')

def reader(p, box):
    """contract of pandas.read_csv on a raw file, as _read_SN asks: the first lines after the header"""
    def read_csv(fn, *a, **k):
        if a or fn != 'RAWFILE' or k.get('sep', k.get('delimiter')) != ',' or k.get('skiprows') != 3 or k.get('comment') != '#' or list(k.get('names', ())) != ['linetype', 'SN'] or k.get('dtype') not in ('str', str) or k.get('on_bad_lines') != 'skip' or k.get('encoding_errors') != 'ignore' or k.get('nrows') != 4 or set(k) - {'sep', 'delimiter', 'skiprows', 'comment', 'names', 'dtype', 'on_bad_lines', 'encoding_errors', 'nrows'}:
            raise E.Unsupported('way of reading the header lines')
        n = p.choose(6)
        if n == 5: box['rows'] = []; raise mark(ValueError('nothing to read'))
        kinds = [['S', 'C', float('nan')][p.choose(3)] for i in range(n)]
        texts = [Item(z3.Const(f'text_{i}', S)) for i in range(n)]
        box['rows'] = list(zip(kinds, texts))
        return Table({'linetype': Col(list(range(n)), kinds), 'SN': Col(list(range(n)), texts)})
    return read_csv
def read_serial(p, mod, hold, corrupt):
    box = {}
    hold['csv'] = reader(p, box)
    try: r = mod['_read_SN']('RAWFILE')
    except corrupt: r = None
    rows = box['rows']
    s = [t for k, t in rows if k == 'S']
    first = bool(rows) and rows[0][0] == 'S'
    if not s: p.cover('no serial number'); p.prove('a file without a serial number is refused', z3.BoolVal(r is None)); return
    if first: p.cover('serial number'); p.prove('a file that begins with its serial number has one', z3.BoolVal(r is not None))
    if r is not None: p.prove('the serial number is the one in the file', r.t == s[0].t if isinstance(r, Item) else z3.BoolVal(False))

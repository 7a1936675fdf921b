"""Model of the numpy functions used by the verified code, and shadowed builtins."""
import z3, builtins, math, fractions
from . import engine as E
from .engine import Num, SBool, Unsupported, cur, num, mark, tobool
from .arrays import *
from .arrays import Arr, Arr2, SList, zi, zlen, nlen, simp_n, sb
from .loader import TypeShadow, Poison

def is_sym(x): return hasattr(x, 'is_sym')

def elem(f, conc=None):
    def g(x, *a, **k):
        if isinstance(x, SList): x = x.arr()
        if isinstance(x, (list, tuple)): x = Arr.of(x)
        if isinstance(x, Arr): return x.map(lambda v: g(v, *a))
        if isinstance(x, Arr2): return Arr2(x.n, [g(c, *a) for c in x.cols])
        if conc is not None and isinstance(x, (int, float)) and not is_sym(x): return conc(x, *a)
        return f(x, *a)
    return g

def asarr(x):
    if isinstance(x, (Arr, Arr2)): return x
    if isinstance(x, SList): return x.arr()
    if isinstance(x, (list, tuple)):
        if x and all(isinstance(r, (list, tuple)) for r in x):
            k = len(x[0])
            return Arr2(len(x), [Arr.of([r[c] for r in x]) for c in range(k)])
        if x and all(isinstance(r, Arr) and r.concrete for r in x):
            k = x[0].n
            return Arr2(len(x), [Arr.of([r.at(c) for r in x]) for c in range(k)])
        return Arr.of(x)
    if hasattr(x, 'to_array'): return x.to_array()
    raise Unsupported(f'array from {type(x).__name__}')

class ModelNS:
    def __init__(self, name, **k):
        self._name = name
        self.__dict__.update(k)
    def __getattr__(self, k):
        E.noattr(k, self.__dict__.get('_name', '?'))

def np_any(x, *a, **k):
    if isinstance(x, GenLike): x = list(x)
    if isinstance(x, SList): x = x.arr()
    if isinstance(x, (list, tuple)): x = Arr.of(x)
    if isinstance(x, Arr): return x.any()
    return sb(x)
def np_all(x, *a, **k):
    if isinstance(x, SList): x = x.arr()
    if isinstance(x, (list, tuple)): x = Arr.of(x)
    if isinstance(x, Arr): return x.all()
    return sb(x)
class GenLike: pass

def np_where(c, *a):
    if isinstance(c, SList): c = c.arr()
    if isinstance(c, (list, tuple)): c = Arr.of(c)
    if a:
        x, y = a
        if not isinstance(c, Arr): return E.ite(tobool(sb(c)), x, y)
        def pick(v): return (lambda i: v.at(i)) if isinstance(v, Arr) else (lambda i: v)
        px, py = pick(x), pick(y)
        return c.mapi(lambda i, b: E.ite(tobool(sb(b)), px(i), py(i)))
    if isinstance(c, Arr):
        if c.concrete:
            return (Arr.of([i for i, b in enumerate(c.map(sb).forked()) if b]),)
        w = c.sel().arr(); w._aux['where'] = c
        return (w,)
    raise Unsupported('where of a scalar')

def np_argwhere(c):
    w = np_where(c)[0]
    return Arr2(w.n, [w])

def np_diff(x, n=1, prepend=None, append=None):
    if not (isinstance(n, int) and n == 1): raise Unsupported('repeated differences')
    x = asarr(x)
    if prepend is not None or append is not None:
        if isinstance(x, Arr2): raise Unsupported('diff of a matrix')
        x = concat([v for v in (prepend, x, append) if v is not None])
    if isinstance(x, Arr2): raise Unsupported('diff of a matrix')
    if x.concrete:
        its = x.items()
        return Arr.of([b - a for a, b in zip(its, its[1:])])
    g = x._frozen()
    n = simp_n(z3.If(x.n > 0, x.n - 1, z3.IntVal(0)))
    return Arr(n, get=lambda i: num(g(i + 1)) - num(g(i)))

def np_hstack(parts):
    if isinstance(parts, Arr) and parts.concrete: parts = parts.items()
    parts = list(parts)
    if any(isinstance(p, Arr2) for p in parts):
        cols = []
        n = None
        for p in parts:
            p = p if isinstance(p, Arr2) else None
            if p is None: raise Unsupported('hstack of mixed ranks')
            if n is None: n = p.n
            else: check_same_len(n, p.n)
            cols += p.cols
        return Arr2(n, cols)
    return concat(parts)

def np_vstack(parts):
    parts = [asarr(p) for p in parts]
    k = None
    out = []
    for p in parts:
        c = p.cols if isinstance(p, Arr2) else [Arr.of([x]) for x in p.items()]
        if k is None: k = len(c)
        if len(c) != k: raise mark(ValueError('vstack: mismatch'))
        out.append(c)
    cols = [concat([o[j] for o in out]) for j in range(k)]
    return Arr2(cols[0].n, cols)

def np_column_stack(parts):
    return np_hstack([q if isinstance(q, Arr2) else Arr2(asarr(q).n, [asarr(q)]) for q in parts])
def np_concatenate(parts, axis=0):
    parts = [asarr(x) for x in (parts.items() if isinstance(parts, Arr) and parts.concrete else list(parts))]
    if any(isinstance(x, Arr2) for x in parts):
        if not all(isinstance(x, Arr2) for x in parts): raise mark(ValueError('all the input arrays must have same number of dimensions'))
        return np_vstack(parts) if axis == 0 else np_hstack(parts)
    if axis not in (0, -1): raise Unsupported('concatenate along this axis')
    return np_hstack(parts)

def np_append(a, b):
    return concat([asarr(a) if not E._isnumlike(a) else a, asarr(b) if isinstance(b, (list, tuple, SList)) else b])

def np_zeros(n, *a, **k):
    if isinstance(n, (tuple, list)):
        if len(n) == 1: return np_zeros(n[0])
        return Arr2(simp_n(n[0]), [np_zeros(n[0]) for _ in range(int(n[1]))])
    n = simp_n(n)
    return Arr.of([0.0] * n) if isinstance(n, int) else Arr(n, get=lambda i: Num(z3.RealVal(0)))
def np_ones(n, *a, **k):
    n = simp_n(n if not isinstance(n, (list, tuple)) else n[0])
    return Arr.of([1.0] * n) if isinstance(n, int) else Arr(n, get=lambda i: Num(z3.RealVal(1)))
def np_full(n, v, *a, **k):
    n = simp_n(n)
    return Arr.of([v] * n) if isinstance(n, int) else Arr(n, get=lambda i: v)

def np_arange(*a):
    if len(a) == 1: lo, hi, st = 0, a[0], 1
    elif len(a) == 2: (lo, hi), st = a, 1
    else: lo, hi, st = a
    if not is_sym(lo) and not is_sym(hi) and not is_sym(st):
        import numpy as np
        return Arr.of([x.item() for x in np.arange(lo, hi, st)]) if hi - lo < 20000 else LazyRange(lo, hi)
    d = E.num((hi - lo) / st if st != 1 else hi - lo)
    cnt = E.sceil(d)
    t = z3.simplify(cnt.t if cnt.isint else z3.ToInt(cnt.t))
    n = simp_n(z3.If(t > 0, t, z3.IntVal(0)))
    # numpy: integer operands give integers, otherwise floats
    intres = all(num(x).isint for x in (lo, hi, st))
    def get(i):
        v = lo + Num(i) * st
        return v if intres else E.sfloat(v)
    if isinstance(n, int): return Arr.of([get(z3.IntVal(i)) for i in range(n)])
    return Arr(n, get=get)

class LazyRange(Arr):
    def __init__(self, lo, hi):
        Arr.__init__(self, z3.IntVal(hi - lo), get=lambda i: Num(i + lo))
        self.n = z3.IntVal(hi - lo); self.lo, self.hi = lo, hi
    @property
    def concrete(self): return False
    def __contains__(self, v): return bool((num(v) >= self.lo) & (num(v) < self.hi))

def np_round(x, n=0): return elem(lambda v, n=0: E.sround(v, n), lambda v, n=0: round(v, n) if n else float(round(v)))(x, n)

def np_isin(a, b):
    a = asarr(a)
    bs = asarr(b)
    if not bs.concrete: raise Unsupported('isin symbolic set')
    its = bs.items()
    def one(v):
        r = SBool(False)
        for x in its: r = r | eq(v, x)
        return r
    return a.map(one)

def scalar(x): return isinstance(x, (int, float, Num)) and not isinstance(x, bool)
def np_max(x, *a, **k):
    return x if scalar(x) else asarr(x).max()
def np_min(x, *a, **k):
    return x if scalar(x) else asarr(x).min()
def np_abs(x):
    if isinstance(x, Arr): return abs(x)
    if is_sym(x): return abs(x)
    return abs(x)
def np_unique(x, return_index=False):
    raise Unsupported('unique')
def logical(f):
    def g(a, b): return f(a, b)
    return g
def np_isnan(x):
    return elem(lambda v: E.isnan(v))(x)
def np_sqrt(x): return elem(E.usqrt, math.sqrt)(x)
def np_log10(x): return elem(lambda v: E.unary_uf('log10', v), None)(x)
def np_array(x, dtype=None, **k):
    if isinstance(x, (Num, SBool, int, float)): return x
    r = asarr(x)
    if isinstance(r, Arr): r = r.copy()
    if dtype is not None:
        r = r.astype(dtype)
    return r
def np_ndarray(shape):
    return np_zeros([n for n in shape]) if len(shape) > 1 else np_zeros(shape[0])
def np_repeat(x, n):
    return np_full(n, x)
def np_size(x): return asarr(x).size

def np_arctan2(y, x):
    f = z3.Function('arctan2', z3.RealSort(), z3.RealSort(), z3.RealSort())
    g = lambda a, b: Num(f(E.real(num(a).t), E.real(num(b).t)), E._nan(num(a).nan, num(b).nan))
    if isinstance(y, Arr) or isinstance(x, Arr): return (y if isinstance(y, Arr) else np_full(x.n, y))._bin(g, x)
    return g(y, x)

class ErrState:
    def __enter__(self): return self
    def __exit__(self, *a): return False

FLOAT = TypeShadow(float, lambda x=0.0: b_float(x))
INT = TypeShadow(int, lambda x=0, *a: b_int(x, *a))
STR = TypeShadow(str, lambda x='', *a, **k: b_str(x))
BOOL = TypeShadow(bool, lambda x=False: b_bool(x))
LIST = TypeShadow(list, lambda x=(): b_list(x))
class DictShadow(TypeShadow):
    def fromkeys(self, x, *v):
        if hasattr(x, 'vc_distinct') and not v: return Keys(x.vc_distinct())
        return dict.fromkeys(x, *v)
class Keys:
    """the keys of a dict made of a symbolic list"""
    is_sym = True
    def __init__(self, l): self.l = l
    def vc_list(self): return self.l
    def keys(self): return self.l
    def vc_sorted(self): return self.l.vc_sorted()
    def __getattr__(self, k): E.noattr(k, 'a dict')
DICT = DictShadow(dict, lambda *a, **k: dict(*a, **k))
TUPLE = TypeShadow(tuple, lambda x=(): tuple(x))
class SetView:
    """a set of symbolic items: membership only"""
    def __init__(self, of): self.of = of
    def __contains__(self, v): return v in self.of
    def __getattr__(self, k): E.noattr(k, 'a set')
SET = TypeShadow(set, lambda x=(): x.vc_set() if hasattr(x, 'vc_set') else SetView(x) if is_sym(x) else set(x))
BYTES = TypeShadow(bytes, lambda *a: bytes(*a))
_SH = {float: FLOAT, int: INT, str: STR, bool: BOOL, list: LIST, dict: DICT, tuple: TUPLE, set: SET, bytes: BYTES}

def b_len(x):
    if isinstance(x, Arr): return nlen(x.n)
    if isinstance(x, Arr2): return nlen(x.n)
    if isinstance(x, SList): return nlen(x.length())
    if hasattr(x, 'vc_len'): return x.vc_len()
    return builtins.len(x)
def b_int(x, *a):
    if isinstance(x, (Num, SBool)): return E.sint(x)
    if hasattr(x, 'vc_int'): return x.vc_int()
    if isinstance(x, str) and E.SEP0 in x:
        ps = E.strparts(x)
        if len(ps) == 1 and isinstance(ps[0], tuple): return E.sint(ps[0][0])
        raise Unsupported('int of a symbolic string')
    try: return builtins.int(x, *a)
    except (ValueError, OverflowError) as e: raise mark(e)
def b_float(x=0.0):
    if isinstance(x, (Num, SBool)): return E.sfloat(x)
    if hasattr(x, 'vc_float'): return x.vc_float()
    if isinstance(x, Arr) and x.concrete and x.n == 1: return b_float(x.at(0))
    try: return builtins.float(x)
    except ValueError as e: raise mark(e)
def b_str(x=''):
    if isinstance(x, (Num, SBool)): return E.strtoken(x, '')
    if hasattr(x, 'vc_str'): return x.vc_str()
    if is_sym(x): return E.strtoken(x, '')
    return builtins.str(x)
def b_bool(x=False):
    if isinstance(x, SBool): return x
    if isinstance(x, Num): return x != 0
    return builtins.bool(x)
def b_list(x=()):
    if isinstance(x, (Arr,)) : return list(x.items()) if x.concrete else SList(x.n, x.at)
    if isinstance(x, SList): return SList(x.n, x.get, x.tail)
    if hasattr(x, 'vc_list'): return x.vc_list()
    return builtins.list(x)
def b_any(x):
    if isinstance(x, (Arr, SList)): return np_any(x)
    r = SBool(False); sym = False
    for v in x:
        if isinstance(v, (SBool, Num)): r = r | sb(v); sym = True
        elif v: return True
    return r if sym else False
def b_all(x):
    if isinstance(x, (Arr, SList)): return np_all(x)
    r = SBool(True); sym = False
    for v in x:
        if isinstance(v, (SBool, Num)): r = r & sb(v); sym = True
        elif not v: return False
    return r if sym else True
def _mm(pick, bi):
    def f(*a, **k):
        if k: 
            if 'key' in k: raise Unsupported('min/max with key')
        if len(a) == 1:
            x = a[0]
            if getattr(type(x), 'vc_ext', None): return x.vc_ext('max' if pick is E.smax else 'min')
            if isinstance(x, (Arr, SList)): return (x.arr() if isinstance(x, SList) else x)._ext('max' if pick is E.smax else 'min', pick is E.smax)
            a = list(x)
        a = list(a)
        if not any(is_sym(v) for v in a): 
            try: return bi(a)
            except ValueError as e: raise mark(e)
        out = []
        for v in a:
            if isinstance(v, float) and v in (float('inf'), float('-inf')):
                if (v > 0) == (pick is E.smin): continue
                return v
            out.append(v)
        r = out[0]
        for v in out[1:]: r = pick(r, v) if not hasattr(r, 'ite') else E.ite((v < r) if pick is E.smin else (v > r), v, r)
        return r
    return f
b_max = _mm(E.smax, builtins.max)
b_min = _mm(E.smin, builtins.min)
def b_sum(x, s=0):
    if isinstance(x, (Arr, SList)): return (x.arr() if isinstance(x, SList) else x).sum()
    r = s
    for v in x: r = r + v
    return r
def b_abs(x): return builtins.abs(x)
def b_round(x, n=None):
    if is_sym(x):
        if isinstance(x, Arr): return x.round(n or 0)
        r = E.sround(x, n or 0)
        return E.sint(r) if n is None else r
    return builtins.round(x, n) if n is not None else builtins.round(x)
class SymRange:
    is_sym = True
    def __init__(self, lo, n, st=1): self.lo, self.n, self.st = lo, n, st
    def symlen(self): return None if isinstance(self.n, int) else self.n
    def symget(self, k): return self.lo + (k if isinstance(k, Num) else Num(zi(k))) * self.st
    def __iter__(self):
        if isinstance(self.n, int): return iter([self.symget(Num(z3.IntVal(i))) for i in range(self.n)])
        raise Unsupported('iteration over a symbolic range outside a loop')
def b_range(*a):
    if not any(is_sym(x) for x in a): return builtins.range(*[int(x) for x in a])
    if len(a) == 1: lo, hi, st = 0, a[0], 1
    elif len(a) == 2: (lo, hi), st = a, 1
    else: lo, hi, st = a
    if is_sym(st) or st not in (1, -1): raise Unsupported('range step')
    d = num((hi - lo) if st == 1 else (lo - hi)).t
    n = simp_n(z3.If(d > 0, d, z3.IntVal(0)))
    if isinstance(n, int) and not is_sym(lo): return builtins.range(lo, lo + n * st, st)
    return SymRange(lo, n, st)
class SymZip:
    is_sym = True
    def __init__(self, parts):
        self.parts = parts
        self.n = None
        for p in parts:
            n = p.symlen() if hasattr(p, 'symlen') else None
            if n is not None:
                if self.n is None: self.n = n
                else: check_same_len(self.n, n)
            elif hasattr(p, '__len__'): raise Unsupported('zip of symbolic and concrete')
    def symlen(self): return self.n
    def symget(self, k): return tuple(p.symget(k) for p in self.parts)
    def __iter__(self): raise Unsupported('iteration over a symbolic zip outside a loop')
class Counter:
    def __init__(self, s): self.s = s
    def symlen(self): return None
    def symget(self, k): return (k if isinstance(k, Num) else Num(zi(k))) + self.s
def b_enumerate(x, start=0):
    if hasattr(x, 'symlen') and x.symlen() is not None:
        z = SymZip.__new__(SymZip); z.parts = [Counter(start), x]; z.n = x.symlen(); return z
    return builtins.enumerate(x, start)
def b_zip(*a):
    if any(hasattr(x, 'symlen') and x.symlen() is not None for x in a): return SymZip(list(a))
    return builtins.zip(*a)
def b_sorted(x, *a, **k):
    if hasattr(x, 'symlen') and x.symlen() is not None:
        if hasattr(x, 'vc_sorted') and not a and not k: return x.vc_sorted()
        raise Unsupported('sorted of a symbolic sequence')
    x = list(x)
    if any(is_sym(v) for v in x): raise Unsupported('sorted of symbols')
    return builtins.sorted(x, *a, **k)
def b_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    for c in ts:
        r = getattr(c, 'real', c) if isinstance(c, TypeShadow) else c
        if isinstance(r, tuple):
            if b_isinstance(x, r): return True
            continue
        pt = getattr(x, 'pytype', None)
        if pt is not None and r is pt: return True
        if isinstance(x, Num):
            if (r is int and x.isint) or (r is float and not x.isint): return True
            continue
        if isinstance(x, SBool):
            if r is bool: return True
            continue
        if isinstance(x, (SList,)):
            if r is list: return True
            continue
        if hasattr(c, 'vc_isinstance'):
            if c.vc_isinstance(x): return True
            continue
        try:
            if isinstance(x, r): return True
        except TypeError: raise Unsupported(f'isinstance {c}')
    return False
def b_type(x):
    if isinstance(x, Num): return INT if x.isint else FLOAT
    if isinstance(x, SBool): return BOOL
    if isinstance(x, SList): return LIST
    if hasattr(x, 'vc_type'): return x.vc_type
    t = builtins.type(x)
    return _SH.get(t, t)
def b_print(*a, **k): return None
def b_map(f, *a):
    if len(a) == 1 and hasattr(a[0], 'symlen') and a[0].symlen() is not None:
        x = a[0]
        return SList.from_get(x.symlen(), lambda i: f(x.symget(i)))
    return builtins.map(f, *a)

def b_chr(x):
    if isinstance(x, Num): return E.strtoken(x, 'chr')
    return builtins.chr(x)
def b_ord(x):
    if hasattr(x, 'vc_ord'): return x.vc_ord()
    return builtins.ord(x)
BUILTINS = dict(chr=b_chr, ord=b_ord, len=b_len, int=INT, float=FLOAT, str=STR, bool=BOOL, list=LIST, dict=DICT, tuple=TUPLE, set=SET, bytes=BYTES,
                any=b_any, all=b_all, max=b_max, min=b_min, sum=b_sum, round=b_round, range=b_range,
                enumerate=b_enumerate, zip=b_zip, sorted=b_sorted, isinstance=b_isinstance, type=b_type, print=b_print, map=b_map)

class NpModel(ModelNS):
    def __init__(self):
        ModelNS.__init__(self, 'numpy')
        self.nan, self.inf, self.pi, self.NaN = float('nan'), float('inf'), math.pi, float('nan')
        self.any, self.all, self.where, self.argwhere = np_any, np_all, np_where, np_argwhere
        self.diff, self.hstack, self.vstack, self.append, self.concatenate = np_diff, np_hstack, np_vstack, np_append, np_concatenate
        self.column_stack = np_column_stack
        self.zeros, self.ones, self.full, self.arange = np_zeros, np_ones, np_full, np_arange
        self.zeros_like = lambda x, **k: np_zeros(x.n)
        self.round = self.around = np_round
        self.rint = lambda x: np_round(x)
        self.flatnonzero = lambda c: np_where(c)[0]
        self.isnan, self.isin, self.sqrt, self.log10 = np_isnan, np_isin, np_sqrt, np_log10
        self.isinf = elem(lambda v: SBool(False), math.isinf)
        self.isfinite = elem(lambda v: ~E.isnan(v), math.isfinite)
        self.abs = self.absolute = self.fabs = np_abs
        self.max = self.amax = np_max; self.min = self.amin = np_min
        self.trunc = elem(E.strunc, lambda v: float(math.trunc(v)))
        self.fix = self.trunc
        self.floor = elem(E.sfloor, lambda v: float(math.floor(v)))
        self.ceil = elem(E.sceil, lambda v: float(math.ceil(v)))
        self.array = self.asarray = np_array
        self.ndarray = np_ndarray
        self.cumsum = lambda x: asarr(x).cumsum()
        self.sum = lambda x, *a, **k: asarr(x).sum()
        self.mean = lambda x, *a, **k: x if scalar(x) else asarr(x).mean()
        self.std = lambda x, *a, **k: x - x if scalar(x) else asarr(x).std(**({'ddof': 0} | k))
        self.median = lambda x, *a, **k: x if scalar(x) else asarr(x).median()
        self.logical_and = lambda a, b: a & b
        self.logical_or = lambda a, b: a | b
        self.logical_not = lambda a: ~a
        self.repeat = np_repeat
        self.float64 = self.double = FLOAT
        self.int32 = self.int64 = INT
        self.mod = lambda a, b: a % b
        self.minimum = lambda a, b: a._bin(E.smin, b) if isinstance(a, Arr) else E.smin(a, b)
        self.maximum = lambda a, b: a._bin(E.smax, b) if isinstance(a, Arr) else E.smax(a, b)
        self.interp = Poison('numpy.interp')
        self.errstate = lambda **k: ErrState()
        self.linspace = Poison('numpy.linspace')
        self.unique = np_unique
        self.shape = lambda x: x.shape
        self.size = np_size
        self.square = lambda x: x * x
        self.power = lambda a, b: a ** b
        self.arctan2 = np_arctan2
        self.hypot = lambda a, b: np_sqrt(a * a + b * b)
        self.degrees = self.rad2deg = lambda x: x * 180 / math.pi
        self.nanmax = Poison('numpy.nanmax')

"""Lookup of imports made by verified code in the library models."""
import os, types, builtins, time as _time
import z3
from . import engine as E
from .engine import Num, SBool, Unsupported, cur, num, mark, tobool
from .npmodel import NpModel, ModelNS, BUILTINS
from .pdmodel import PdModel
from .arrays import *
from .loader import Poison, TypeShadow

REPO = os.environ.get('VERIF_REPO', '/repo')
_exc = {}
def exceptions():
    """the exception classes, executed from /repo/gemlog/exceptions.py"""
    if not _exc:
        ns = {'__name__': 'gemlog.exceptions'}
        src = open(os.path.join(REPO, 'gemlog', 'exceptions.py')).read()
        exec(compile(src, 'gemlog/exceptions.py', 'exec'), ns)
        for k, v in ns.items():
            if isinstance(v, type) and issubclass(v, BaseException): _exc[k] = v
    return _exc

# ---- UTCDateTime: seconds since 1970 as a real number
def civil_valid(y, mo, d, h, mi, s):
    leap = z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0))
    dim = z3.If(mo == 2, z3.If(leap, z3.IntVal(29), z3.IntVal(28)),
                z3.If(z3.Or(mo == 4, mo == 6, mo == 9, mo == 11), z3.IntVal(30), z3.IntVal(31)))
    return z3.And(y >= 1, y <= 9999, mo >= 1, mo <= 12, d >= 1, d <= dim, h >= 0, h <= 23, mi >= 0, mi <= 59, s >= 0, s <= 59)
I, R = z3.IntSort(), z3.RealSort()
UTCSEC = z3.Function('utc_seconds', I, I, I, I, I, I, R)

class UTC(Num):
    """a UTC instant"""
    __slots__ = ('key',)
    def __init__(self, t, nan=None):
        Num.__init__(self, t, nan); self.key = None
    def _w(self, r): return UTC(r.t, r.nan) if isinstance(r, Num) else r
    def __add__(self, o): return self._w(Num.__add__(self, o))
    def __radd__(self, o): return self._w(Num.__radd__(self, o))
    def __sub__(self, o):
        r = Num.__sub__(self, o)
        return r if isinstance(o, UTC) else self._w(r)
    def ite(self, c, o):
        r = E.ite(c, Num(self.t, self.nan), Num(o.t, o.nan) if isinstance(o, Num) else o)
        return UTC(r.t, r.nan)
    def rite(self, c, o): return E.ite(c, Num(o.t, o.nan) if isinstance(o, Num) else o, Num(self.t, self.nan))
    def isoformat(self): return E.strtoken(self, 'iso')
    def strftime(self, f): return E.strtoken(self, 'strftime:' + f)
    @property
    def timestamp(self): return Num(self.t, self.nan)
    def __getattr__(self, k):
        E.noattr(k, 'a time')

class UTCDateTimeModel(TypeShadow):
    def __init__(self): self.real = UTC
    def __call__(self, *a, **k):
        if k: raise Unsupported('UTCDateTime keywords')
        if len(a) == 1:
            v = a[0]
            if isinstance(v, UTC): return v
            if E._isnumlike(v):
                v = num(v)
                if v.nan is not None and cur().decide(v.nan): raise mark(ValueError('nan time'))
                return UTC(E.real(v.t))
            if isinstance(v, str) and E.SEP0 in v:
                ps = E.strparts(v)
                if len(ps) == 1 and isinstance(ps[0], tuple) and isinstance(ps[0][0], UTC): return ps[0][0]
            raise Unsupported('UTCDateTime of text')
        if len(a) == 6:
            ts = []
            for x in a:
                x = num(x)
                if not x.isint: raise Unsupported('UTCDateTime of non-integers')
                ts.append(x.t)
            if not cur().decide(civil_valid(*ts)): raise mark(ValueError('invalid date'))
            return UTC(UTCSEC(*ts))
        raise Unsupported('UTCDateTime arguments')

class Models:
    def __init__(self, extra=None):
        self.extra = extra or {}
        self.np = NpModel()
        self.pd = PdModel()
        self.obspy = ModelNS('obspy', UTCDateTime=UTCDateTimeModel())
        self.mods = {'numpy': self.np, 'pandas': self.pd, 'obspy': self.obspy,
                     'warnings': WarnModel(), 'time': ModelNS('time', time=lambda: 0.0), 'math': ModelNS('math', pi=3.141592653589793),
                     'sys': ModelNS('sys', argv=['program']), 'pdb': ModelNS('pdb')}
    def __call__(self, mod, attr):
        if attr is None:
            if mod in self.extra: return self.extra[mod]
            return self.mods.get(mod) or ModelNS(mod)
        key = f'{mod}.{attr}'
        if key in self.extra: return self.extra[key]
        if mod in self.extra: return getattr(self.extra[mod], attr)
        if mod in ('gemlog.exceptions', 'exceptions'):
            ex = exceptions()
            if attr in ex: return ex[attr]
        if mod in self.mods: return getattr(self.mods[mod], attr)
        return Poison(key)

class WarnModel(ModelNS):
    def __init__(self): ModelNS.__init__(self, 'warnings')
    def catch_warnings(self, *a, **k): return Ctx()
    def simplefilter(self, *a, **k): pass
    def filterwarnings(self, *a, **k): pass
    def warn(self, *a, **k): pass
class Ctx:
    def __enter__(self): return self
    def __exit__(self, *a): return False

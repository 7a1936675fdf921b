"""Symbolic text: a string known only through the comparisons made on it (z3 sequence theory).
lower() is the identity on a value declared lower-case; a caller that compares without lower() is
therefore verified for arbitrary text only if it says so itself."""
import z3
from . import engine as E
from .engine import SBool, Unsupported, cur

class SStr:
    is_sym = True
    pytype = str
    def __init__(self, t, low=None):
        self.t = t            # z3 string
        self.low = low        # its lower-case form
    @staticmethod
    def fresh(name):
        p = cur()
        nm = p.fresh(name)
        return SStr(z3.String(nm), z3.String(nm + '_lower'))
    def _s(self, o):
        if isinstance(o, SStr): return o.t
        if isinstance(o, str) and E.SEP0 not in o: return z3.StringVal(o)
        return None
    def __eq__(self, o):
        s = self._s(o)
        return SBool(False) if s is None else SBool(self.t == s)
    def __ne__(self, o): return ~(self == o)
    __hash__ = None
    def lower(self):
        if self.low is None: raise Unsupported('lower() of derived text')
        return SStr(self.low, self.low)
    casefold = lower
    def __getitem__(self, k):
        if isinstance(k, slice) and k.step is None:
            a, b = k.start or 0, k.stop
            if isinstance(a, int) and a >= 0 and isinstance(b, int) and b >= 0: return SStr(z3.SubString(self.t, a, b - a))
        raise Unsupported('part of a text')
    def startswith(self, s):
        if isinstance(s, tuple): return SBool(z3.Or([z3.PrefixOf(self._s(x), self.t) for x in s]))
        return SBool(z3.PrefixOf(self._s(s), self.t))
    def endswith(self, s): return SBool(z3.SuffixOf(self._s(s), self.t))
    def __contains__(self, s): return bool(SBool(z3.Contains(self.t, self._s(s))))
    def vc_len(self): return E.Num(z3.Length(self.t))
    def vc_str(self): return self
    def vc_fmt(self, part): return E.strtoken(self, 'text')
    def __format__(self, spec): return E.strtoken(self, 'text')
    def __radd__(self, o): return o + E.strtoken(self, 'text')
    def __add__(self, o): return E.strtoken(self, 'text') + o
    def concretize(self, m):
        v = m.eval(self.t, model_completion=True)
        return v.as_string()
    def same(self, o): return E.tobool(self == o)
    def __getattr__(self, k): E.noattr(k, 'text')

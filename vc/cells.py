"""Cells of a table of texts: opaque, with a blank text and a missing value."""
import z3
from . import engine as E
from .engine import cur, SBool, Num, mark
from .idlist import Item, S
BLANK, NA = z3.Const('blank_text', S), z3.Const('missing', S)
INTOF = z3.Function('int_of_text', S, z3.IntSort())
VALOF = z3.Function('value_of_text', S, z3.RealSort())
def facts(): cur().s.fact(BLANK != NA)
def cell(v):
    if isinstance(v, Cell): return v
    if isinstance(v, str) and v == '': return Cell(BLANK)
    if isinstance(v, float) and v != v: return Cell(NA)
    return None
class Cell(Item):
    def __init__(self, t): self.t = t
    def _b(self, o):
        o = cell(o) if not isinstance(o, Item) else o
        if o is None: raise E.Unsupported('comparison of a cell')
        return o
    def __eq__(self, o):
        o = self._b(o); return SBool(z3.And(self.t == o.t, self.t != NA))
    def __ne__(self, o): return ~(self == o)
    __hash__ = None
    def same(self, o):
        o = cell(o); return z3.BoolVal(False) if o is None else self.t == o.t
    def ite(self, c, o):
        o = cell(o)
        if o is None: raise E.Unsupported('mixed column')
        return Cell(z3.If(E.tobool(c), self.t, o.t))
    def rite(self, c, o):
        o = cell(o)
        if o is None: raise E.Unsupported('mixed column')
        return Cell(z3.If(E.tobool(c), o.t, self.t))
    def vc_isnan(self): return SBool(self.t == NA)
    def vc_replace(self, a, b):
        a, b = cell(a), cell(b)
        if a is None or b is None: raise E.Unsupported('replace')
        return Cell(z3.If(self.t == a.t, b.t, self.t))
    def vc_float(self):
        if cur().check(self.t == BLANK) != z3.unsat: raise E.Unsupported('number of a blank text')
        return Num(VALOF(self.t), self.t == NA)
    def vc_int(self): return Num(INTOF(self.t))
    def vc_str(self): return self
    def __getattr__(self, k): E.noattr(k, 'a cell')

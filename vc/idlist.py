"""Lists of unknown length over opaque items, known through one arbitrary item X: how often X occurs
and (by a prefix count) where.  What is proved for the arbitrary X holds for every item."""
import z3
from . import engine as E
from .engine import cur, SBool, Num
S = z3.DeclareSort('Item')
X = z3.Const('an_item', S)
I = z3.IntSort()

class Item:
    """an opaque text; `match(pattern, text)` and `exact(text)` are uninterpreted"""
    is_sym = True
    def __init__(self, t, text=None): self.t = t
    def __format__(self, s): return E.strtoken(self, s)
    def __add__(self, o): return E.strtoken(self, '') + o
    def __radd__(self, o): return o + E.strtoken(self, '')
    def ite(self, c, o): return Item(z3.If(c, self.t, o.t)) if isinstance(o, Item) else (_ for _ in ()).throw(E.Unsupported('choice of identifiers'))
    def vc_str(self): return self
    def __eq__(self, o):
        if isinstance(o, Item): return SBool(self.t == o.t)
        raise E.Unsupported('comparison of an identifier')
    def __ne__(self, o): return ~(self == o)
    def same(self, o): return self.t == o.t
    __hash__ = None
    def __getattr__(self, k): E.noattr(k, 'an identifier')

class IdList:
    """count: number of occurrences of X; elem(i), pc(i): the items and the occurrences of X before i"""
    is_sym = True
    sorted = unique = False
    def __init__(self, count, name=None, n=None, key=None):
        self.key = key            # items are counted by what `key` makes of them
        self.count, self.name = count, name
        self.n = n
        self._v = 0
        self._it = None
    @staticmethod
    def fresh(name):
        p = cur(); c = z3.Int(p.fresh('count_' + name)); p.assume(c >= 0)
        return IdList(c, name)
    @property
    def _ver(self): return self._v
    def _havoc_new(self, name): return IdList.fresh(name)
    def append(self, v):
        if not isinstance(v, Item): raise E.Unsupported('list item')
        self.count = z3.simplify(self.count + z3.If(self.k(v.t) == X, 1, 0)); self._v += 1; self._it = None; self.unique = self.sorted = False
    def k(self, t): return t if self.key is None else self.key(t)
    def __iadd__(self, o):
        if isinstance(o, list):
            for x in o: self.append(x)
            return self
        if not isinstance(o, IdList) or o.key is not self.key: raise E.Unsupported('list += list')
        self.count = z3.simplify(self.count + o.count); self._v += 1; self._it = None; self.unique = self.sorted = False
        return self
    def extend(self, o): self += o
    def __add__(self, o):
        r = IdList(self.count, key=self.key); r += o; return r
    def vc_distinct(self):
        """each item once"""
        if self.key is not None: raise E.Unsupported('the distinct ones of keyed identifiers')
        r = IdList.fresh('distinct'); r.key = self.key; cur().assume(r.count == z3.If(self.count > 0, 1, 0)); r.unique = True; return r
    vc_set = vc_distinct
    def vc_list(self):
        r = IdList(self.count, key=self.key); r.sorted, r.unique = self.sorted, self.unique; return r
    def vc_comp(self, kind, f, cond):
        """a comprehension that keeps some of the items"""
        if cond is None:
            from .arrays import SList
            return SList.from_get(self.symlen(), lambda i: f(self.symget(i)))
        if self.key is not None: raise E.Unsupported('comprehension over a list of identifiers')
        x = Item(X)
        y = f(x)
        if not (isinstance(y, Item) and z3.eq(y.t, X)): raise E.Unsupported('comprehension over a list of identifiers')
        if not cur().decide(self.count > 0): return IdList(z3.IntVal(0))
        k = cond(x)
        k = k.t if isinstance(k, SBool) else z3.BoolVal(bool(k))
        r = IdList(z3.simplify(z3.If(k, self.count, 0))); r.sorted, r.unique = self.sorted, self.unique; return r
    def vc_sorted(self):
        r = IdList(self.count, key=self.key); r.sorted, r.unique = True, self.unique; return r
    def sort(self): self.sorted = True; self._v += 1; self._it = None
    def sequence(self):
        """the items in order, as they are now"""
        if self._it is None or self._it[0] != self._v:
            p = cur(); nm = p.fresh('seq')
            n = z3.Int(nm + '_n'); p.assume(n >= 0)
            el, pc = z3.Function(nm, I, S), z3.Function(nm + '_pc', I, I)
            p.assume(z3.And(pc(0) == 0, pc(n) == self.count))
            self._it = (self._v, n, el, pc)
        return self._it[1:]
    def symlen(self): return self.sequence()[0]
    def symget(self, k):
        n, el, pc = self.sequence(); k = E.num(k).t; p = cur()
        p.s.fact(z3.And(pc(k + 1) == pc(k) + z3.If(self.k(el(k)) == X, 1, 0), pc(k) >= 0, z3.Implies(z3.And(k >= 0, k < n), pc(k + 1) <= pc(n))))
        return Item(el(k)) if self.key is None else self.mk(el(k))
    def mk(self, t):
        from .paths import Path
        return Path(t)
    def vc_len(self): return Num(self.symlen())
    def __bool__(self): return cur().decide(self.symlen() > 0)
    def __contains__(self, v):
        if not isinstance(v, Item): raise E.Unsupported('membership')
        p = cur()
        if p.decide(v.t == X): return p.decide(self.count > 0)
        return p.decide(z3.Bool(p.fresh('other_item_in_list')))
    def __iter__(self): raise E.Unsupported('iteration over a symbolic list outside a loop')
    def __getattr__(self, k): E.noattr(k, 'a list of identifiers')

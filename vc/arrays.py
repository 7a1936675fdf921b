"""Functional models of one- and two-dimensional arrays, table columns and lists.

A symbolic array is a length term and a function from an index term to a value; a
concrete-length array is a Python list of (possibly symbolic) values.  Universally
quantified facts (membership of a filter, absence of a true element, ...) are kept as
instantiation functions and instantiated at every index term that occurs (engine.Path)."""
import z3
from . import engine as E
from .engine import Num, SBool, Unsupported, cur, num, ite, mark, tobool

def zi(i):
    if isinstance(i, int): return z3.IntVal(i)
    if isinstance(i, Num):
        if not i.isint: raise Unsupported('real index')
        return i.t
    if hasattr(i, 'item') and not z3.is_expr(i): return z3.IntVal(int(i))
    return i

def zlen(n): return z3.IntVal(n) if isinstance(n, int) else n

def nlen(n):
    return n if isinstance(n, int) else Num(n)

def simp_n(n):
    if isinstance(n, Num): n = n.t
    if z3.is_expr(n):
        s = z3.simplify(n)
        if z3.is_int_value(s): return s.as_long()
        return s
    return n

_ver = [0]
def _tick():
    _ver[0] += 1
    return _ver[0]

class SEnum:
    """a value from a finite set of labels (e.g. line types), as an integer code"""
    def __init__(self, t, pytype=bytes): self.t, self.pytype = t, pytype
    def _code(self, o):
        if isinstance(o, bytes) and len(o) == 1: return (z3.IntVal(o[0]), bytes)
        if isinstance(o, str) and len(o) == 1: return (z3.IntVal(ord(o)), str)
        if isinstance(o, SEnum): return (o.t, o.pytype)
        return None
    def __eq__(self, o):
        c = self._code(o)
        if c is None or c[1] is not self.pytype: return SBool(z3.BoolVal(False))
        return SBool(self.t == c[0])
    def __ne__(self, o): return ~(self == o)
    __hash__ = None
    def same(self, o): return tobool(self == o)
    def concretize(self, m):
        v = m.eval(self.t, model_completion=True).as_long()
        return chr(v) if 0 < v < 0x110000 else '?'
    def __getattr__(self, k): E.noattr(k, 'a label')

class Arr:
    elementwise = True
    is_sym = True
    def __init__(self, n, get=None, items=None, tag=''):
        self.n = simp_n(n) if get is not None else len(items)
        self._get = get
        self._items = list(items) if items is not None else None
        if get is not None and isinstance(self.n, int):
            self._items = None
        self._cache = {}
        self._ver = _tick()
        self._aux = {}
        self.tag = tag
        self.view_of = None
        self.ix = None            # row-label identity when this is a pandas column
    # -- construction
    @staticmethod
    def of(items): return Arr(None, items=items)
    @staticmethod
    def fresh(name, n, sort='real', nan=False, inv=None, mk=None):
        """a fresh array; inv(i, v) is assumed of every element in range"""
        p = cur()
        nm = p.fresh(name)
        if isinstance(n, int) and mk is None:
            items = []
            for i in range(n):
                if sort == 'intreal': v = Num(z3.ToReal(z3.Int(f'{nm}[{i}]')), z3.Bool(f'{nm}[{i}]#nan') if nan else None)
                elif sort == 'int': v = Num(z3.Int(f'{nm}[{i}]'), z3.Bool(f'{nm}[{i}]#nan') if nan else None)
                elif sort == 'bool': v = SBool(z3.Bool(f'{nm}[{i}]'))
                else: v = Num(z3.Real(f'{nm}[{i}]'), z3.Bool(f'{nm}[{i}]#nan') if nan else None)
                items.append(v)
                if inv is not None: p.assume(inv(z3.IntVal(i), v))
            return Arr(None, items=items, tag=nm)
        if mk is None:
            S = {'int': z3.IntSort(), 'intreal': z3.IntSort(), 'real': z3.RealSort(), 'bool': z3.BoolSort()}[sort]
            f = z3.Function(nm, z3.IntSort(), S)
            g = z3.Function(nm + '#nan', z3.IntSort(), z3.BoolSort()) if nan else None
            def mk0(i):
                if sort == 'bool': return SBool(f(i))
                return Num(f(i), g(i) if g is not None else None)
        else: mk0 = mk
        nn = zlen(simp_n(n))
        def get(i):
            v = mk0(i)
            if inv is not None:
                cur().s.fact(z3.Implies(z3.And(i >= 0, i < nn), tobool(inv(i, v))))
            return v
        return Arr(n, get=get, tag=nm)
    # -- basics
    @property
    def concrete(self): return isinstance(self.n, int)
    def symlen(self): return None if self.concrete else self.n
    def symget(self, k): return self.at(zi(k))
    def at(self, i):
        """element at index term i (0 <= i < n is the caller's obligation)"""
        i = zi(i)
        ic = z3.simplify(i)
        if not isinstance(self.n, int): cur().index(ic, self.n)
        key = ic.get_id()
        if key in self._cache: return self._cache[key][1]
        if self._items is not None:
            if z3.is_int_value(ic):
                k = ic.as_long()
                if not (0 <= k < len(self._items)):
                    if len(self._items) == 0: raise Unsupported('element of an empty array')
                    v = self._items[0]
                else: v = self._items[k]
            else:
                if not self._items: raise Unsupported('element of an empty array')
                v = self._items[-1]
                for k in range(len(self._items) - 2, -1, -1): v = ite(i == k, self._items[k], v)
        else:
            v = self._get(ic)
        self._cache[key] = (ic, v)
        return v
    def items(self):
        if not self.concrete: raise Unsupported('items of a symbolic array')
        return [self.at(i) for i in range(self.n)]
    def __len__(self):
        if self.concrete: return self.n
        raise Unsupported('len() outside shadowed builtin')
    def __iter__(self):
        if not self.concrete: raise Unsupported('iteration over a symbolic array outside a loop')
        return iter(self.items())
    def lab(self, ix):
        self.ix = ix
        return self
    def map(self, f):
        g = self._frozen()
        return (Arr(self.n, get=lambda i: f(g(i))) if not self.concrete else Arr.of([f(x) for x in self.items()])).lab(self.ix)
    def mapi(self, f):
        g = self._frozen()
        return (Arr(self.n, get=lambda i: f(i, g(i))) if not self.concrete else Arr.of([f(z3.IntVal(k), x) for k, x in enumerate(self.items())])).lab(self.ix)
    def _set(self, get):
        """replace contents"""
        if self.view_of is not None: raise Unsupported('write through an array view')
        self._ver = _tick()
        self._cache = {}
        self._aux = {}
        if self.concrete:
            its = [get(z3.IntVal(i)) for i in range(self.n)]
            self._items = its; self._get = None
        else:
            self._get = get
    def copy(self):
        if self._items is not None: return Arr.of(self._items).lab(self.ix)
        return Arr(self.n, get=self._frozen()).lab(self.ix)
    def _frozen(self):
        """getter of the current contents, unaffected by later writes"""
        g, items, n = self._get, (list(self._items) if self._items is not None else None), self.n
        a = Arr.__new__(Arr)
        a.__dict__.update(self.__dict__)
        a._cache = dict(self._cache); a._aux = {}
        return a.at
    def _havoc(self, name):
        p = cur()
        v = (self.at(0) if self.concrete else self.peek()) if not (self.concrete and self.n == 0) else Num(z3.RealVal(0))
        nm = p.fresh('hv_' + name)
        if isinstance(v, SBool):
            f = z3.Function(nm, z3.IntSort(), z3.BoolSort()); get = lambda i: SBool(f(i))
        else:
            f = z3.Function(nm, z3.IntSort(), z3.RealSort()); g = z3.Function(nm + '#nan', z3.IntSort(), z3.BoolSort())
            get = lambda i: Num(f(i), g(i))
        self._set(get)
    def _havoc_new(self, name):
        p = cur()
        n = z3.Int(p.fresh('hvn_' + name)); p.assume(n >= 0)
        nm = p.fresh('hv_' + name)
        f = z3.Function(nm, z3.IntSort(), z3.RealSort()); g = z3.Function(nm + '#nan', z3.IntSort(), z3.BoolSort())
        return Arr(n, get=lambda i: Num(f(i), g(i)))
    # -- elementwise
    def _bin(self, op, o, sw=False):
        if isinstance(o, Arr) and self.ix is not None and o.ix is not None and self.ix is not o.ix:
            raise Unsupported('arithmetic between columns with different row labels')
        r = self._bin0(op, o, sw)
        if isinstance(r, Arr): r.ix = self.ix if self.ix is not None else getattr(o, 'ix', None)
        return r
    def _bin0(self, op, o, sw=False):
        if isinstance(o, SList): o = o.arr()
        if isinstance(o, list): o = Arr.of(o)
        if isinstance(o, Arr2): return NotImplemented
        if isinstance(o, Arr):
            if self.concrete and o.concrete:
                if self.n == 1 and o.n != 1: return o._bin(op, self.at(0), not sw)
                if o.n == 1 and self.n != 1: return self._bin(op, o.at(0), sw)
                if self.n != o.n: raise mark(ValueError('shape mismatch'))
                return Arr.of([op(b, a) if sw else op(a, b) for a, b in zip(self.items(), o.items())])
            check_same_len(self.n, o.n)
            a0, b0 = self._frozen(), o._frozen()
            return Arr(self.n, get=lambda i: op(b0(i), a0(i)) if sw else op(a0(i), b0(i)))
        a0 = self._frozen()
        if self.concrete: return Arr.of([op(o, a) if sw else op(a, o) for a in self.items()])
        return Arr(self.n, get=lambda i: op(o, a0(i)) if sw else op(a0(i), o))
    def __add__(s, o): return s._bin(lambda a, b: a + b, o)
    def __radd__(s, o): return s._bin(lambda a, b: a + b, o, True)
    def __sub__(s, o): return s._bin(lambda a, b: a - b, o)
    def __rsub__(s, o): return s._bin(lambda a, b: a - b, o, True)
    def __mul__(s, o): return s._bin(lambda a, b: a * b, o)
    def __rmul__(s, o): return s._bin(lambda a, b: a * b, o, True)
    def __truediv__(s, o): return s._bin(lambda a, b: fdiv(a, b), o)
    def __rtruediv__(s, o): return s._bin(lambda a, b: fdiv(a, b), o, True)
    def __mod__(s, o): return s._bin(lambda a, b: a % b, o)
    def __floordiv__(s, o): return s._bin(lambda a, b: a // b, o)
    def __pow__(s, o): return s._bin(lambda a, b: a ** b, o)
    def __rpow__(s, o): return s._bin(lambda a, b: num(a).__rpow__(b) if False else b.__rpow__(a) if hasattr(b, '__rpow__') else a ** b, o, True)
    def __lt__(s, o): return s._bin(lambda a, b: a < b, o)
    def __le__(s, o): return s._bin(lambda a, b: a <= b, o)
    def __gt__(s, o): return s._bin(lambda a, b: a > b, o)
    def __ge__(s, o): return s._bin(lambda a, b: a >= b, o)
    def __eq__(s, o): return s._bin(lambda a, b: eq(a, b), o)
    def __ne__(s, o): return s._bin(lambda a, b: ~eq(a, b), o)
    __hash__ = None
    def __and__(s, o): return s._bin(lambda a, b: sb(a) & sb(b), o)
    __rand__ = __and__
    def __or__(s, o): return s._bin(lambda a, b: sb(a) | sb(b), o)
    __ror__ = __or__
    def __invert__(s): return s.map(lambda a: ~sb(a))
    def __neg__(s): return s.map(lambda a: -a)
    def __abs__(s): return s.map(lambda a: abs(num(a)))
    # augmented assignment mutates (numpy) -- except for column values, handled by the table
    def _iop(self, r):
        if not isinstance(r, Arr): return NotImplemented
        if self.ix is not None: return r         # pandas: rebinding, never aliasing
        self._set(r._frozen() if not r.concrete else (lambda its: (lambda i: its[i.as_long()]))(r.items()))
        return self
    def __iadd__(s, o): return s._iop(s + o)
    def __isub__(s, o): return s._iop(s - o)
    def __imul__(s, o): return s._iop(s * o)
    def __itruediv__(s, o): return s._iop(s / o)
    def __iand__(s, o): return s._iop(s & o)
    def __ior__(s, o): return s._iop(s | o)
    def __bool__(self):
        if self.concrete and self.n == 1: return bool(self.at(0))
        raise Unsupported('truth value of an array')
    # -- indexing
    def norm(self, i, what='index'):
        """normalise a scalar index, raising IndexError on paths where it is out of range"""
        if isinstance(i, bool): raise Unsupported('bool index')
        if isinstance(i, Num) or z3.is_expr(i):
            t = zi(i)
            n = zlen(self.n)
            ok = z3.And(t >= -n, t < n)
            if not cur().decide(ok): raise mark(IndexError(what))
            c = z3.simplify(t)
            if z3.is_int_value(c):
                i = c.as_long()
                return z3.simplify(n + i) if i < 0 else c
            if cur().decide(t >= 0): return t
            return z3.simplify(n + t)
        i = int(i)
        if self.concrete:
            if not (-self.n <= i < self.n): raise mark(IndexError(what))
            return z3.IntVal(i % self.n)
        n = self.n
        if i >= 0:
            if not cur().decide(n > i): raise mark(IndexError(what))
            return z3.IntVal(i)
        if not cur().decide(n >= -i): raise mark(IndexError(what))
        return z3.simplify(n + i)
    def slice(self, s):
        st, en, step = s.start, s.stop, s.step
        if st is None and en is None and step is None and self.ix is None and type(self) is Arr: return self      # a full view shares the storage
        if step is not None and step != 1:
            if step == -1 and st is None and en is None:
                n = zlen(self.n); g = self._frozen()
                if self.concrete: return Arr.of(self.items()[::-1])
                return Arr(self.n, get=lambda i: g(n - 1 - i))
            raise Unsupported('array slice step')
        if self.concrete and all(x is None or isinstance(x, int) for x in (st, en)):
            r = Arr.of(self.items()[st:en]); r.view_of = self
            return r
        n = zlen(self.n)
        def bound(x, d):
            if x is None: return d
            if hasattr(x, '_ver') and isinstance(x, Arr): raise Unsupported('array bound')
            x = zi(x)
            x = z3.If(x < 0, n + x, x)
            return z3.simplify(z3.If(x < 0, z3.IntVal(0), z3.If(x > n, n, x)))
        a, b = bound(st, z3.IntVal(0)), bound(en, n)
        m = z3.simplify(z3.If(b > a, b - a, z3.IntVal(0)))
        g = self._frozen()
        r = Arr(m, get=lambda i: g(i + a))
        r.view_of = self
        return r
    def __getitem__(self, k):
        if isinstance(k, slice): return self.slice(k)
        if isinstance(k, Arr):
            if k.isbool(): return self.filter(k)
            if k.concrete: return Arr.of([self[x] for x in k.items()])
            g = self._frozen()
            r = Arr(k.n, get=lambda j: g(zi(k.at(j))))
            r._aux['gather'] = (self, k)
            return r
        if isinstance(k, SList): return self[k.arr()]
        if isinstance(k, list): return Arr.of([self[x] for x in k])
        if isinstance(k, tuple):
            raise Unsupported('2-d index of a 1-d array')
        if isinstance(k, str): raise Unsupported('string index')
        return self.at(self.norm(k))
    def isbool(self):
        if self.concrete and self.n == 0: return False
        v = self.at(0) if self.concrete else self.peek()
        return isinstance(v, (SBool, bool))
    def sel(self):
        """the increasing enumeration of the true positions of this mask"""
        if 'sel' not in self._aux: self._aux['sel'] = Sel(self)
        return self._aux['sel']
    def alltrue(self):
        """does every element hold (asked of the solver)?"""
        if 'alltrue' not in self._aux:
            p = cur()
            i = z3.Int(p.fresh('each'))
            v = tobool(sb(self.at(i)))
            self._aux['alltrue'] = p.check(z3.Not(z3.Implies(z3.And(i >= 0, i < zlen(self.n)), v))) == z3.unsat
        return self._aux['alltrue']
    def filter(self, mask):
        if self.ix is not None and mask.ix is not None and self.ix is not mask.ix:
            raise Unsupported('mask with different row labels')
        if self.concrete and mask.concrete:
            if mask.n != self.n: raise mark(IndexError('boolean index did not match'))
            return Arr.of([a for a, m in zip(self.items(), mask.forked()) if m]).lab(sub_ix(self.ix, mask))
        check_same_len(self.n, mask.n)
        if cur().ghost.get('trivial_masks') and not cur().inst_depth and mask.alltrue():
            r = self.copy(); r.ix = sub_ix(self.ix, mask)
            return r
        s = mask.sel()
        g = self._frozen()
        r = Arr(s.m, get=lambda j: g(s.idx(j)))
        r._aux['sel_of'] = (self, mask, s)
        r.ix = sub_ix(self.ix, mask)
        return r
    def forked(self):
        """decide every element of a concrete-length mask"""
        if 'forked' not in self._aux: self._aux['forked'] = [bool(x) for x in self.items()]
        return self._aux['forked']
    def __setitem__(self, k, v):
        old = self._frozen()
        if isinstance(k, slice):
            if k.start is None and k.stop is None and k.step is None:
                vv = v if isinstance(v, Arr) else None
                if vv is not None: check_same_len(self.n, vv.n); g = vv._frozen(); self._set(lambda i: g(i))
                else: self._set(lambda i: v)
                return
            raise Unsupported('slice assignment')
        if isinstance(k, Arr) and k.isbool():
            check_same_len(self.n, k.n)
            kf = k._frozen()
            if isinstance(v, Arr):
                src = v._aux.get('sel_of')
                if self.concrete and k.concrete:
                    fk = k.forked(); its = self.items(); vs = v.items(); j = 0
                    if len(vs) != sum(fk): raise mark(ValueError('assign length'))
                    for i, f in enumerate(fk):
                        if f: its[i] = vs[j]; j += 1
                    self._set(lambda i: its[i.as_long()])
                    return
                if src is not None and src[1] is k:
                    # y[w] = f(x[w]) : value at i is that of the filtered array at rank(i)
                    pass
                s = k.sel()
                check_same_len(v.n, s.m)
                vf = v._frozen()
                self._set(lambda i: ite(tobool(kf(i)), vf(s.rank(i)), old(i)))
                return
            self._set(lambda i: ite(tobool(kf(i)), v, old(i)))
            return
        if isinstance(k, Arr):
            raise Unsupported('assignment at an index array')
        j = self.norm(k)
        if self.concrete:
            its = self.items(); its[j.as_long()] = v
            self._set(lambda i: its[i.as_long()])
            return
        self._set(lambda i: ite(i == j, v, old(i)))
    # -- aggregates
    def any(self):
        if self.concrete: return SBool(z3.Or([tobool(sb(x)) for x in self.items()]) if self.n else z3.BoolVal(False))
        if 'any' not in self._aux:
            p = cur()
            b = z3.Bool(p.fresh('any'))
            w = z3.Int(p.fresh('w'))
            g = self._frozen()
            n = self.n
            p.s.fact(z3.Implies(b, z3.And(w >= 0, w < n)))
            fw = tobool(sb(g(w)))
            p.s.fact(z3.Implies(b, fw))
            p.universal(lambda i: z3.Implies(z3.And(z3.Not(b), i >= 0, i < n), z3.Not(tobool(sb(g(i))))), n)
            self._aux['any'] = b
            self._aux['any_w'] = w
            p.ghost.setdefault('wits', []).append(w)
        return SBool(self._aux['any'])
    def all(self): return ~((~self).any())
    def peek(self):
        """a typical element, only to learn what kind of value this array holds"""
        if 'peek' not in self._aux:
            p = cur()
            d = z3.Int('peek!')
            p.s.push(); p.inst_depth += 1
            log, p.s.log = p.s.log, []
            try: v = self._get(d) if self._items is None else self._items[0]
            finally:
                p.inst_depth -= 1; p.s.pop(); p.s.log = log
            self._aux['peek'] = v
        return self._aux['peek']
    def mayNaN(self):
        if self.concrete: return any(getattr(num(x), 'nan', None) is not None for x in self.items() if E._isnumlike(x))
        v = self.peek()
        return isinstance(v, Num) and v.nan is not None
    def someNaN(self):
        """may an element be NaN (asked of the solver)?"""
        if not self.mayNaN(): return False
        p = cur()
        if p.inst_depth: return True
        i = z3.Int(p.fresh('each'))
        v = num(self.at(i))
        return v.nan is not None and p.check(z3.And(i >= 0, i < zlen(self.n), v.nan)) != z3.unsat
    def anynan(self):
        return self.map(lambda v: E.isnan(v)).any()
    def _agg(self, name, facts=None, sort='real'):
        if name not in self._aux:
            p = cur()
            nanf = tobool(self.anynan()) if self.someNaN() else None
            if nanf is not None and self.ix is not None: raise Unsupported(f'{name} of a column that may hold NaN')
            e = zlen(self.n) == 0
            nanf = e if nanf is None else z3.Or(e, nanf)
            v = Num(z3.Real(p.fresh(name)), None if name == 'sum' else nanf)
            self._aux[name] = v
            cur().ghost.setdefault('aggs', []).append((name, self._frozen(), self.n, v))
            if facts: facts(v)
        return self._aux[name]
    def sum(self, *a, **k):
        if self.concrete:
            r = 0
            for x in self.items(): r = r + (x.num() if isinstance(x, SBool) else x)
            return r
        if self.isbool():
            s = self.sel()
            s.idx(z3.IntVal(0))
            return Num(s.m)
        return self._agg('sum')
    def mean(self, *a, **k):
        if self.concrete:
            if self.n == 0: return float('nan')
            return self.sum() / self.n
        return self._agg('mean')
    def std(self, *a, ddof=None, **k):
        if (1 if ddof is None and self.ix is not None else ddof or 0) != 0: raise Unsupported('sample standard deviation')
        if self.concrete:
            if self.n == 0: return float('nan')
            m = self.mean()
            v = 0
            for x in self.items(): v = v + (x - m) * (x - m)
            return E.usqrt(num(v) / self.n)
        return self._agg('std', lambda v: cur().assume(v.t >= 0))
    def median(self, *a, **k):
        if self.concrete and self.n == 1: return self.at(0)
        return self._agg('median')
    def _ext(self, name, lt):
        if self.concrete:
            if self.n == 0: raise mark(ValueError('zero-size array to reduction'))
            r = self.at(0)
            for x in self.items()[1:]: r = (E.smax if lt else E.smin)(r, x)
            return r
        p = cur()
        if not p.decide(self.n > 0): raise mark(ValueError('zero-size array to reduction'))
        if name not in self._aux:
            g = self._frozen(); n = self.n
            nanf = None
            if self.someNaN():
                if self.ix is not None: raise Unsupported(f'{name} of a column that may hold NaN')
                nanf = tobool(self.anynan())
            w = z3.Int(p.fresh('w' + name))
            p.assume(z3.And(w >= 0, w < n))
            v = num(g(w))
            self._aux[name] = Num(v.t, nanf)
            def uni(i):
                x = num(g(i))
                a, b = (x.t, v.t) if x.t.sort() == v.t.sort() else (E.real(x.t), E.real(v.t))
                c = z3.And(i >= 0, i < n)
                if nanf is not None: c = z3.And(c, z3.Not(nanf))
                return z3.Implies(c, a <= b if lt else a >= b)
            p.universal(uni, n)
            self._aux[name + '_w'] = w
            p.ghost.setdefault('wits', []).append(w)
        return self._aux[name]
    def max(self, *a, **k): return self._ext('max', True)
    def min(self, *a, **k): return self._ext('min', False)
    def cumsum(self):
        if self.concrete:
            out, r = [], 0
            for x in self.items():
                r = (x.num() if isinstance(x, SBool) else x) + r
                out.append(num(r))
            return Arr.of(out).lab(self.ix)
        p = cur()
        v0 = self.peek()
        isint = isinstance(v0, SBool) or num(v0).isint
        nm = p.fresh('cumsum')
        NF = z3.Function(nm + '#nan', z3.IntSort(), z3.BoolSort()) if self.mayNaN() else None
        C = z3.Function(nm, z3.IntSort(), z3.IntSort() if isint else z3.RealSort())
        g = self._frozen(); n = self.n
        seen = set()
        def get(i):
            k = i.get_id()
            if k not in seen:
                seen.add(k)
                a = num(g(i))
                t = a.t if isint else E.real(a.t)
                na = a.nan if a.nan is not None else z3.BoolVal(False)
                if NF is not None and self.ix is not None: t = z3.If(na, z3.IntVal(0) if isint else z3.RealVal(0), t)
                p.s.fact(z3.Implies(z3.And(i > 0, i < n), C(i) == C(i - 1) + t))
                p.s.fact(z3.Implies(i == 0, C(i) == t))
                if NF is not None:
                    if self.ix is not None: p.s.fact(NF(i) == na)        # pandas skips NaN
                    else: p.s.fact(NF(i) == z3.If(i == 0, na, z3.Or(NF(i - 1), na)))
            return Num(C(i), NF(i) if NF is not None else None)
        r = Arr(n, get=get).lab(self.ix)
        r._aux['cumsum_of'] = self
        return r
    def diff(self, *a):
        """pandas Series.diff: same length, NaN first"""
        g = self._frozen()
        if self.concrete:
            its = self.items()
            return (Arr.of([float('nan')] + [x - y for x, y in zip(its[1:], its)]) if its else Arr.of([])).lab(self.ix)
        def get(i):
            d = E.sfloat(num(g(i)) - num(g(i - 1)))
            return Num(d.t, E._nan(d.nan, i == 0))
        return Arr(self.n, get=get).lab(self.ix)
    def argmax(self): raise Unsupported('argmax')
    # -- array/Series methods
    def astype(self, t):
        nm = getattr(t, 'real', t)
        nm = getattr(nm, '__name__', nm)
        nm = str(nm)
        if any(x in nm for x in ('32', '16', '8', 'uint', 'single', 'half')) and nm != 'int32': raise Unsupported(f'lossy conversion astype({nm})')
        if 'float' in nm or nm == 'double': return self.map(lambda v: v if isinstance(v, SOpaque) else v.vc_float() if hasattr(v, 'vc_float') else E.sfloat(v))
        if 'int' in nm: return self.map(lambda v: v.vc_int() if hasattr(v, 'vc_int') else E.sint(v))
        if 'bool' in nm: return self.map(sb)
        if nm in ('str', 'object'): return self
        raise Unsupported(f'astype {t}')
    def round(self, n=0): return self.map(lambda v: E.sround(v, n))
    def reshape(self, *s):
        s = s[0] if len(s) == 1 and isinstance(s[0], (list, tuple)) else s
        if len(s) == 2 and s[1] == 1: return Arr2(self.n, [self])
        raise Unsupported('reshape')
    def tolist(self): return self
    def to_numpy(self): return self
    def flatten(self): return self
    @property
    def values(self): return self
    @property
    def shape(self): return (nlen(self.n),)
    @property
    def size(self): return nlen(self.n)
    @property
    def ndim(self): return 1
    @property
    def iloc(self): return ILoc1(self)
    @property
    def loc(self): return self
    def isna(self): return self.map(lambda v: E.isnan(v) if not (v is None) else SBool(True))
    isnull = isna
    def replace(self, a, b=None, **k):
        if k or isinstance(a, (list, dict)) or hasattr(b, 'is_sym') and not isinstance(b, Num): raise Unsupported('replace')
        return self.map(lambda v: v.vc_replace(a, b) if hasattr(v, 'vc_replace') else E.ite(E.num(v) == a, b, v) if not isinstance(a, str) else v if not isinstance(v, str) else (b if v == a else v))
    def notna(self): return ~self.isna()
    def abs(self): return abs(self)
    def between(self, lo, hi, inclusive='both'):
        if inclusive == 'both': return (self >= lo) & (self <= hi)
        raise Unsupported('between')
    def apply(self, f): return self.map(f)
    def sort(self): raise Unsupported('in-place sort')
    def count(self): return nlen(self.n)
    def __contains__(self, v):
        return bool((self == v).any())
    def item(self): return self[0]
    def __getattr__(self, k):
        E.noattr(k, 'an array')
    def concretize(self, m):
        n = self.n
        if not self.concrete:
            n = m.eval(self.n, model_completion=True).as_long()
        n = min(n, 60)
        out = []
        for i in range(n):
            if self._items is not None: out.append(E.concretize(self._items[i], m))
            else: out.append(E.concretize(self._get(z3.IntVal(i)), m))
        return out

def sub_ix(ix, key):
    """row labels of a selection of rows"""
    if ix is None: return None
    k = ('rows', id(key))
    if k not in ix.subs: ix.subs[k] = (RowLabels(ix, key), key)
    return ix.subs[k][0]

class RowLabels:
    """identity of a pandas row index, with its provenance (ghost): which rows of which
    earlier table these rows are"""
    def __init__(self, parent=None, key=None):
        self.subs = {}
        self.parent, self.key = parent, key
    def up(self, j):
        """position in the parent of the j-th row"""
        j = zi(j)
        if self.key is None: return j
        if isinstance(self.key, Arr):
            if self.key.concrete: raise Unsupported('provenance of a concrete selection')
            return self.key.sel().idx(j)
        raise Unsupported('provenance of a slice')
    def down(self, i):
        i = zi(i)
        if self.key is None: return i
        if isinstance(self.key, Arr):
            if self.key.concrete: raise Unsupported('provenance of a concrete selection')
            return self.key.sel().rank(i)
        raise Unsupported('provenance of a slice')
    def chain(self, root):
        out, x = [], self
        while x is not root:
            out.append(x)
            x = x.parent
            if x is None: raise Unsupported('rows of unknown provenance')
        return out
    def origin(self, j, root):
        for x in self.chain(root): j = x.up(j)
        return j
    def locate(self, i, root):
        for x in reversed(self.chain(root)): i = x.down(i)
        return i

class SOpaque:
    """a value about which nothing is known except identity"""
    def __init__(self, name): self.name = name
    def same(self, o): return z3.BoolVal(self is o)
    def __getattr__(self, k):
        E.noattr(k, 'opaque ' + str(self.__dict__.get('name')))

def fdiv(a, b):
    return num(a) / num(b)

def eq(a, b):
    r = (a == b)
    if isinstance(r, SBool): return r
    if isinstance(r, bool): return SBool(r)
    return r if r is not NotImplemented else SBool(False)

def sb(x):
    if isinstance(x, SBool): return x
    if isinstance(x, bool): return SBool(x)
    import numpy as _np
    if isinstance(x, _np.bool_): return SBool(bool(x))
    if isinstance(x, Num): return x != 0
    raise Unsupported(f'not a truth value: {type(x).__name__}')

def check_same_len(a, b):
    a, b = zlen(simp_n(a)), zlen(simp_n(b))
    if z3.eq(a, b): return
    if cur().inst_depth: return
    if not cur().decide(a == b): raise mark(ValueError('shape mismatch'))

class ILoc1:
    def __init__(self, a): self.a = a
    def __getitem__(self, k): return self.a[k]

class Sel:
    """order-preserving enumeration of the true positions of a mask"""
    def __init__(self, mask):
        p = cur()
        self.mask = mask
        self.g = mask._frozen()
        self.n = zlen(mask.n)
        nm = p.fresh('sel')
        self.m = z3.Int(nm + '_m')
        self.IDX = z3.Function(nm + '_idx', z3.IntSort(), z3.IntSort())
        self.RK = z3.Function(nm + '_rank', z3.IntSort(), z3.IntSort())
        p.s.fact(self.m >= 0, self.m <= self.n)
        self.js = {}
        self.ranked = set()
        p.universal(self._complete, self.n)
        p.__dict__.setdefault('sels', []).append(self)
    def _complete(self, i):
        k = i.get_id()
        if k in self.ranked: return None
        self.ranked.add(k)
        r = self.RK(i)
        cur().later(r, self.m)
        return z3.Implies(z3.And(i >= 0, i < self.n, tobool(sb(self.g(i)))),
                          z3.And(r >= 0, r < self.m, self.IDX(r) == i))
    def _note(self, j):
        k = j.get_id()
        if k in self.js: return
        p = cur()
        x = self.IDX(j)
        p.s.fact(z3.Implies(z3.And(j >= 0, j < self.m), z3.And(x >= j, x < self.n, self.n - x >= self.m - j)))
        for k2, j2 in list(self.js.items()):
            p.s.fact(z3.Implies(z3.And(j >= 0, j2 >= 0, j < self.m, j2 < self.m), z3.And((j < j2) == (x < self.IDX(j2)), (j == j2) == (x == self.IDX(j2)))))
        self.js[k] = j
    def idx(self, j):
        j = zi(j)
        p = cur()
        self._note(j)
        x = self.IDX(j)
        p.s.fact(z3.Implies(z3.And(j >= 0, j < self.m), tobool(sb(self.g(x)))))
        p.index(x, self.n)
        return x
    def rank(self, i):
        i = zi(i)
        f = self._complete(i)
        if f is not None: cur().s.fact(f)
        r = self.RK(i)
        self._note(r)
        return r
    def arr(self): return Arr(self.m, get=lambda j: Num(self.idx(j)))

class Arr2:
    """two-dimensional array with a fixed number of columns"""
    elementwise = True
    is_sym = True
    rowix = None              # labels of the table the rows came from
    def __init__(self, n, cols):
        self.n, self.cols = simp_n(n), list(cols)
        self._v = _tick()
    @property
    def _ver(self): return (self._v,) + tuple(c._ver for c in self.cols)
    @property
    def concrete(self): return isinstance(self.n, int)
    def symlen(self): return None if self.concrete else self.n
    def symget(self, k): return Arr.of([c.at(zi(k)) for c in self.cols])
    def __iter__(self):
        if not self.concrete: raise Unsupported('iteration over symbolic matrix')
        return iter([self.symget(i) for i in range(self.n)])
    @property
    def shape(self): return (nlen(self.n), len(self.cols))
    @property
    def ndim(self): return 2
    def _havoc_new(self, name):
        p = cur()
        n = z3.Int(p.fresh('hvn_' + name)); p.assume(n >= 0)
        cols = []
        for c in range(len(self.cols)):
            nm = p.fresh('hv_' + name)
            f = z3.Function(nm, z3.IntSort(), z3.RealSort())
            cols.append(Arr(n, get=lambda i, f=f: Num(f(i))))
        return Arr2(n, cols)
    def _havoc(self, name):
        for c in self.cols: c._havoc(name)
    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 2:
            r, c = k
            if isinstance(c, slice):
                if c == slice(None): return self[r]
                cols = self.cols[c]
                return Arr2(None or self.n, cols)[r] if not (isinstance(r, slice) and r == slice(None)) else Arr2(self.n, cols)
            if isinstance(c, (list, Arr)): raise Unsupported('column list')
            col = self.cols[int(c) if not isinstance(c, Num) else c.__index__()]
            return col[r]
        if isinstance(k, (slice, Arr)):
            cols = [c[k] for c in self.cols]
            return Arr2(cols[0].n, cols)
        if isinstance(k, SList): return self[k.arr()]
        i = self.cols[0].norm(k)
        return Arr.of([c.at(i) for c in self.cols])
    def __setitem__(self, k, v):
        self._v = _tick()
        if isinstance(k, tuple) and len(k) == 2:
            r, c = k
            if isinstance(c, slice) and c == slice(None):
                vs = v.items() if isinstance(v, Arr) else v
                for col, x in zip(self.cols, vs): col[r] = x
                return
            col = self.cols[int(c)]
            if isinstance(v, Arr) and isinstance(r, slice): v = v.copy()
            col[r] = v
            return
        raise Unsupported('matrix assignment')
    def copy(self): return Arr2(self.n, [c.copy() for c in self.cols])
    @property
    def T(self): raise Unsupported('transpose')
    def __len__(self):
        if self.concrete: return self.n
        raise Unsupported('len of a symbolic matrix')
    def concretize(self, m): return [c.concretize(m) for c in self.cols]
    def __getattr__(self, k):
        E.noattr(k, 'a matrix')

class SList:
    """a Python list of symbolic length: an abstract prefix plus appended values"""
    is_sym = True
    def __init__(self, n, get, tail=()):
        self.n, self.get = simp_n(n), get
        self.tail = list(tail)
        self._v = _tick()
    @staticmethod
    def abstract(name):
        p = cur()
        n = z3.Int(p.fresh('len_' + name)); p.assume(n >= 0)
        def get(i): raise Unsupported(f'element of a list built in a loop ({name})')
        r = SList(n, get)
        r.name = name
        return r
    @staticmethod
    def from_get(n, get): return SList(n, get)
    @property
    def _ver(self): return self._v
    def _havoc_new(self, name): return SList.abstract(name)
    def append(self, v): self.tail.append(v); self._v = _tick()
    def __iadd__(self, o):
        if isinstance(o, (list, tuple)):
            self.tail.extend(o); self._v = _tick(); return self
        raise Unsupported('list += symbolic')
    def extend(self, o): self.__iadd__(o)
    def length(self): return simp_n(zlen(self.n) + len(self.tail))
    def symlen(self):
        n = self.length()
        return None if isinstance(n, int) else n
    def symget(self, k): return self.at(zi(k))
    def at(self, i):
        i = zi(i)
        ic = z3.simplify(i)
        if not self.tail: return self.get(ic)
        n = zlen(self.n)
        if z3.is_int_value(ic) and isinstance(self.n, int):
            k = ic.as_long()
            return self.get(ic) if k < self.n else self.tail[k - self.n]
        v = self.get(ic) if not (isinstance(self.n, int) and self.n == 0) else self.tail[0]
        for j, x in enumerate(self.tail): v = ite(ic == n + j, x, v)
        return v
    def __iter__(self):
        n = self.length()
        if isinstance(n, int): return iter([self.at(i) for i in range(n)])
        raise Unsupported('iteration over a symbolic list outside a loop')
    def __getitem__(self, k):
        if isinstance(k, slice):
            return self.arr().slice(k)
        if isinstance(k, (Num, int)) and not isinstance(k, bool):
            a = Arr(self.length(), get=self.at) 
            return self.at(a.norm(k, 'list index'))
        raise Unsupported('list index')
    def __setitem__(self, k, v):
        if not isinstance(k, (Num, int)) or isinstance(k, bool): raise Unsupported('list index')
        n = self.length()
        i = zi(Arr(n, get=self.at).norm(k, 'list index'))
        old = SList(self.n, self.get, self.tail)
        self.n, self.tail, self.get = n, [], lambda j: ite(zi(j) == i, v, old.at(j))
        self._v = _tick()
    def arr(self):
        n = self.length()
        if isinstance(n, int): return Arr.of([self.at(i) for i in range(n)])
        return Arr(n, get=self.at)
    def __len__(self):
        n = self.length()
        if isinstance(n, int): return n
        raise Unsupported('len of a symbolic list')
    def __add__(self, o):
        if isinstance(o, list): return SList(self.n, self.get, self.tail + o)
        if isinstance(o, SList): return slist_concat(self, o)
        raise Unsupported('list + symbolic')
    def __radd__(self, o):
        if isinstance(o, list): return slist_concat(SList(0, None, o), self)
        raise Unsupported('list + symbolic')
    def __bool__(self): return cur().decide(zlen(self.length()) > 0)
    def __contains__(self, v): return bool((self.arr() == v).any())
    def __getattr__(self, k):
        E.noattr(k, 'a symbolic list')
    def concretize(self, m): return self.arr().concretize(m)

def slist_concat(a, b):
    na = zlen(a.length())
    n = simp_n(na + zlen(b.length()))
    def get(i):
        ic = z3.simplify(i)
        c = z3.simplify(ic < na)
        if z3.is_true(c): return a.at(ic)
        if z3.is_false(c): return b.at(ic - na)
        return ite(c, a.at(ic), b.at(ic - na))
    return SList(n, get)

def concat(parts):
    """concatenation of 1-d arrays"""
    parts = [Arr.of(p) if isinstance(p, (list, tuple)) else p.arr() if isinstance(p, SList) else p if isinstance(p, Arr) else Arr.of([p]) for p in parts]
    if all(p.concrete for p in parts): return Arr.of([x for p in parts for x in p.items()])
    offs = []; o = z3.IntVal(0)
    for p in parts:
        offs.append(o); o = z3.simplify(o + zlen(p.n))
    fz = [p._frozen() for p in parts]
    def get(i):
        v = None
        for p, f, of in reversed(list(zip(parts, fz, offs))):
            if p.concrete and p.n == 0: continue
            if v is None: v = f(z3.simplify(i - of))
            else:
                c = z3.simplify(i < of + zlen(p.n))
                if z3.is_true(c): v = f(z3.simplify(i - of))
                elif z3.is_false(c): pass
                else: v = ite(c, f(z3.simplify(i - of)), v)
        return v
    return Arr(o, get=get)

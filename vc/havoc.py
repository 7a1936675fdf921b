"""An unconstrained value: every operation on it yields another, every test may go either way.
Used for state a property does not constrain (over-approximation: sound for safety clauses)."""
from . import engine as E
from .engine import cur, Unsupported

class Any:
    """havoc object; `hooks` {attribute: callable or value} give some parts a contract"""
    def __init__(self, name='any', hooks=None, limit=3):
        d = object.__getattribute__(self, '__dict__')
        d['_name'], d['_hooks'], d['_sub'], d['_limit'] = name, hooks or {}, {}, limit
    def _any(self, *a, **k): return Any(self._name)
    def __getattr__(self, k):
        if k.startswith('__') or k in E.PROBES: raise AttributeError(k)
        if k in self._hooks: return self._hooks[k]
        if k not in self._sub: self._sub[k] = Any(f'{self._name}.{k}')
        return self._sub[k]
    def __setattr__(self, k, v): self._sub[k] = v
    def __call__(self, *a, **k): return Any(self._name + '()')
    def __bool__(self): return bool(E.fresh_bool('nd'))
    def _cmp(self, o): return Any('test')
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = _cmp
    __hash__ = object.__hash__
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __mod__ = __floordiv__ = __pow__ = __neg__ = __iadd__ = _any
    __and__ = __or__ = __rand__ = __ror__ = __invert__ = __xor__ = _any
    def __getitem__(self, k): return Any(self._name + '[]')
    def __setitem__(self, k, v): pass
    def __delitem__(self, k): pass
    def __contains__(self, x): return bool(E.fresh_bool('nd_in'))
    def vc_any(self): return Any(self._name)
    def _len(self):
        n = E.fresh_int('ndlen'); cur().assume(n.t >= 0); return n
    def __iter__(self): raise Unsupported('iteration over unconstrained ' + self._name)
    def symlen(self): return self._len()
    def symget(self, k): return Any(self._name + '[k]')
    def _havoc_new(self, name): return Any(name)
    def __format__(self, s): return E.strtoken(self, 'fmt')
    def __str__(self): return E.strtoken(self, 'str')

class Prefixed:
    """a literal followed by an arbitrary text"""
    is_sym = True
    __hash__ = None
    def __init__(self, pre, text): self.pre, self.text = pre, text
    def __eq__(self, o):
        if not isinstance(o, str) or E.SEP0 in o: raise Unsupported('comparison of texts')
        return self.text == o[len(self.pre):] if o.startswith(self.pre) else E.SBool(False)
    def __ne__(self, o): return ~(self == o)
    def __str__(self): return self.pre + str(self.text)
    def __format__(self, s): return self.pre + format(self.text, s)
    def vc_str(self): return str(self)
    def __getattr__(self, k): E.noattr(k, 'a text')

class Text:
    """an arbitrary text, known only through its comparisons (case-folded comparisons are related)"""
    is_sym = True
    def __init__(self, name, fold=None):
        self._name, self._fold = name, fold
    def __getattr__(self, k): E.noattr(k, 'a text')
    def upper(self): return Text(self._name, 'upper')
    def lower(self): return Text(self._name, 'lower')
    def casefold(self): return Text(self._name, 'lower')
    def strip(self): raise Unsupported('strip of an arbitrary text')
    def _flag(self, key, folded):
        p = cur()
        tab = p.ghost.setdefault(('text', self._name), {})
        import z3
        if (key, folded) not in tab:
            b = z3.Bool(f'{self._name}=={"fold:" if folded else ""}{key}')
            for (k2, f2), b2 in tab.items():
                if f2 == folded: p.assume(z3.Not(z3.And(b, b2)))
                elif folded and k2.lower() == key: p.assume(z3.Implies(b2, b))
                elif folded: p.assume(z3.Not(z3.And(b2, b)))
                elif not folded and k2 == key.lower(): p.assume(z3.Implies(b, b2))
                else: p.assume(z3.Not(z3.And(b, b2)))
            tab[(key, folded)] = b
        return tab[(key, folded)]
    def is_(self, s):
        import z3
        if self._fold == 'upper' and s != s.upper() or self._fold == 'lower' and s != s.lower(): return z3.BoolVal(False)
        return self._flag(s.lower() if self._fold else s, bool(self._fold))
    def __eq__(self, o):
        if o is self: return True
        if isinstance(o, str): return E.SBool(self.is_(o))
        if not isinstance(o, Text): return False
        raise Unsupported('comparison of arbitrary texts')
    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r
    __hash__ = None
    def __radd__(self, o): return Prefixed(o, self) if isinstance(o, str) else NotImplemented
    def __format__(self, s): return E.strtoken(self, 'fmt')
    def __str__(self): return E.strtoken(self, 'str')
    def __bool__(self): return bool(E.SBool(__import__('z3').Not(self.is_(''))))

# ---- builtins and numpy accept unconstrained values
from . import npmodel as N
def _has(a): return any(isinstance(x, Any) for x in a) or any(isinstance(x, (list, tuple)) and any(isinstance(y, Any) for y in x) for x in a)
def lift(f, make=lambda: Any('value')):
    def g(*a, **k):
        return make() if _has(a) or _has(k.values()) else f(*a, **k)
    return g
def _nd_bool(): return E.fresh_bool('nd')
def _nd_num(): return E.fresh_real('nd')
for _sh in (N.FLOAT, N.INT, N.STR): _sh.conv = lift(_sh.conv)
N.BOOL.conv = lift(N.BOOL.conv, _nd_bool)
_len0 = N.BUILTINS['len']
def _len(x): return x._len() if isinstance(x, Any) else _len0(x)
N.BUILTINS['len'] = _len
for _k in ('max', 'min', 'sum', 'round', 'sorted'): N.BUILTINS[_k] = lift(N.BUILTINS[_k])
for _k in ('any', 'all'): N.BUILTINS[_k] = lift(N.BUILTINS[_k], _nd_bool)
N.LIST.conv = lift(N.LIST.conv)

class HNp(N.NpModel):
    """numpy where an unconstrained argument gives an unconstrained result"""
    def __getattribute__(self, k):
        f = N.NpModel.__getattribute__(self, k)
        if k.startswith('_') or not callable(f) or isinstance(f, (N.TypeShadow, type)) or hasattr(f, '__self__'): return f
        if k in ('isnan', 'isinf', 'any', 'all', 'isfinite'): return lift(f, _nd_bool)
        return lift(f)
    def __getattr__(self, k):
        if k.startswith('__'): raise AttributeError(k)
        try: return N.NpModel.__getattr__(self, k)
        except E.Unsupported: return Any('numpy.' + k)

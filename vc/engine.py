"""pyvc: a small deductive verifier for the Python functions of /repo.

The text that is verified is the text that runs: on every run the source file is
read from /repo, parsed, mechanically instrumented (see loader.py) and executed by
CPython itself on symbolic values.  Every data-dependent branch forks, all paths
are explored, calls to functions under contract are replaced by their contracts,
loops over symbolic sequences are cut by loop contracts, and every contract clause
becomes an obligation discharged by an SMT solver.
"""
import time, sys, fractions
import z3

RLIMIT = 40_000_000          # deterministic resource limit per query
WALL_MS = 60_000

class Signal(BaseException):
    """base of the verifier's own control flow; never caught by verified code"""
class PathEnd(Signal):
    pass
class Unsupported(Signal):
    pass
class Enough(Signal):
    pass
class Restart(Signal):
    pass

import os
DEBUG = bool(os.environ.get('VC_DEBUG'))
RUN_SECONDS = 300             # wall limit of one run (deterministic limits below are the usual bound)
CUR = None                   # current Path

def cur():
    if CUR is None:
        raise Unsupported('symbolic operation outside a path')
    return CUR

# ------------------------------------------------------------------ solving
STATS = {'queries': 0, 'solver_s': 0.0, 'unknown': 0}

def _mk_solver():
    s = z3.Solver()
    s.set('rlimit', RLIMIT)
    s.set('timeout', WALL_MS)
    return s

def cvc5_check(smt2, seconds):
    import subprocess, tempfile, os
    fd, fn = tempfile.mkstemp(suffix='.smt2')
    try:
        os.write(fd, smt2.encode()); os.close(fd)
        t = time.time()
        try: out = subprocess.run(['cvc5', '--lang=smt2', f'--tlimit={seconds * 1000}', fn], capture_output=True, text=True, timeout=seconds + 5).stdout
        except Exception: out = ''
        STATS['solver_s'] += time.time() - t
        return out.strip().split('\n')[0] if out.strip() else 'unknown'
    finally: os.unlink(fn)

class SolverProxy:
    """z3 solver that can record the facts added during a merged sub-exploration"""
    def __init__(self):
        self._s = _mk_solver()
        self.log = None
        self.pending = []
    def add(self, *fs):
        if self.log is not None: self.log.extend(fs)
        self._s.add(*fs)
    def fact(self, *fs):
        """a definitional fact: valid regardless of the branch it was met on"""
        if self.pending: self.pending[-1].extend(fs)
        self._s.add(*fs)
    def push(self):
        self.pending.append([])
        self._s.push()
    def pop(self):
        self._s.pop()
        fs = self.pending.pop()
        if fs: self.fact(*fs)
    def __getattr__(self, k): return getattr(self._s, k)

class Obligation:
    def __init__(self, name):
        self.name = name
        self.instances = 0
        self.failed = []      # list of dicts (path info, model)
        self.unknown = []
    @property
    def status(self):
        if self.failed: return 'failed'
        if self.unknown: return 'unknown'
        return 'discharged'

class Run:
    """exploration of one function (or lemma) under its contract"""
    def __init__(self, name, body, max_paths=4000, path_filter=None, max_decisions=400, want_smt=None):
        self.name, self.body = name, body
        self.obl = {}
        self.max_paths = max_paths
        self.max_decisions = max_decisions
        self.paths = 0
        self.completed = 0      # paths that reached the end of the body
        self.cut = 0            # paths ended at a loop cut / infeasible
        self.unsupported = None
        self.loop_havoc = {}    # persistent across restarts: loop id -> set of object keys
        self.covers = set()
        self.solver_s = 0.0
        self.queries = 0
        self.functions = set()
        self.want_smt = want_smt
        self.smt = []
        self.deadline = time.time() + RUN_SECONDS
    def explore(self):
        global CUR
        t_all = time.time()
        work = [[]]
        restarts = 0
        while work:
            prefix = work.pop()
            self.paths += 1
            if self.paths > self.max_paths:
                self.unsupported = 'path limit'
                break
            p = Path(self, prefix)
            CUR = p
            try:
                self.body(p)
                self.completed += 1
            except PathEnd:
                self.cut += 1
            except Restart:
                restarts += 1
                if restarts > 20:
                    self.unsupported = 'restart limit'; break
                work = [[]]; self.obl = {}; self.paths = 0; self.completed = 0; self.cut = 0; self.covers=set()
                CUR = None
                continue
            except Unsupported as e:
                self.unsupported = str(e) or 'unsupported'
                break
            except Enough:
                break
            except RecursionError:
                self.unsupported = 'recursion limit'
                break
            finally:
                CUR = None
            work.extend(p.alternatives)
        self.wall = time.time() - t_all
        return self

class Path:
    def __init__(self, run, prefix):
        self.run = run
        self.prefix = prefix
        self.decisions = []
        self.alternatives = []
        self.s = SolverProxy()
        self.counter = {}
        self.universals = {}          # space -> functions idx -> formula
        self.queue = []
        self.terms = {}               # index terms seen
        self.inst_depth = 0
        self.strtab = []
        self.trace = []
        self.ghost = {}
        self.inputs = {}              # name -> value used for countermodels
        self.effects = []
        self._seen = []
        self.last_check = None
    # ---- fresh symbols (deterministic names per path)
    def fresh(self, base):
        k = self.counter.get(base, 0)
        self.counter[base] = k + 1
        return f'{base}!{k}'
    # ---- facts
    def assume(self, f, check=False):
        f = tobool(f)
        if z3.is_true(f): return
        key = f.get_id()
        self._keep(f)
        self.s.add(f)
        if z3.is_false(z3.simplify(f)): raise PathEnd()
        if check and self.check() == z3.unsat: raise PathEnd()
    def _keep(self, f):
        self._seen.append(f)
    def check(self, *extra, ms=1500):
        if time.time() > self.run.deadline: raise Unsupported('time limit of this run')
        t = time.time()
        self.s._s.set('timeout', ms)
        r = self.s.check(*extra)
        dt = time.time() - t
        STATS['queries'] += 1; STATS['solver_s'] += dt
        self.run.queries += 1; self.run.solver_s += dt
        if r == z3.unknown: STATS['unknown'] += 1
        return r
    def decide(self, t, why=''):
        t = z3.simplify(t)
        if z3.is_true(t): return True
        if z3.is_false(t): return False
        k = len(self.decisions)
        if k < len(self.prefix):
            d = self.prefix[k]
        else:
            if k > self.run.max_decisions: raise Unsupported('too many decisions on a path')
            if getattr(self, '_cond_log', None) is not None:      # merged call: explore both sides
                self.decisions.append(True); self.alternatives.append(self.decisions[:-1] + [False])
                self._cond_log.append(t); self.s.add(t)
                return True
            rt = self.check(t)
            rf = self.check(z3.Not(t)) if rt != z3.unsat else z3.sat
            if rt == z3.unsat and rf == z3.unsat: raise PathEnd()
            if rt == z3.unsat:
                # forced; record so replay is deterministic
                d = False
            elif rf == z3.unsat:
                d = True
            else:
                d = True
                self.alternatives.append(self.decisions + [False])
        self.decisions.append(d)
        f = t if d else z3.Not(t)
        if getattr(self, '_cond_log', None) is not None: self._cond_log.append(f)
        self.s.add(f)
        return d
    def choose(self, n, why=''):
        """nondeterministic choice among n alternatives"""
        for i in range(n - 1):
            b = z3.Bool(self.fresh('choice'))
            if self.decide(b): return i
        return n - 1
    def merged(self, thunk, limit=200):
        """value of thunk() with the branches taken inside merged into one if-then-else
        (thunk must be free of side effects)"""
        saved = (self.decisions, self.prefix, self.alternatives, self.s.log)
        results = []
        work = [[]]
        n = 0
        try:
            while work:
                n += 1
                if n > limit: raise Unsupported('too many branches in a merged call')
                pre = work.pop()
                self.decisions, self.prefix, self.alternatives = [], pre, []
                self._conds = []
                log = self.s.log = []
                outer_conds = getattr(self, '_cond_log', None)
                self._cond_log = []
                self.s.push()
                try:
                    try:
                        r = thunk()
                        conds = list(self._cond_log)
                        results.append((z3.And(conds) if conds else z3.BoolVal(True), r, [f for f in log if not any(f is c for c in conds)]))
                    except PathEnd:
                        pass
                finally:
                    self.s.pop()
                    self._cond_log = outer_conds
                work.extend(self.alternatives)
        finally:
            self.decisions, self.prefix, self.alternatives, self.s.log = saved
        if not results: raise PathEnd()
        # facts added under a branch hold under that branch
        for c, r, facts in results:
            for f in facts:
                self.s.add(f if z3.is_true(c) else z3.Implies(c, f))
        v = results[-1][1]
        for c, r, _ in reversed(results[:-1]): v = ite(c, r, v)
        return v
    # ---- universals, instantiated at every index term met in their index space
    # (a space is the set of positions of the sequences of one length term)
    def universal(self, f, n=None):
        sp = self._space(n)
        self.universals.setdefault(sp, []).append(f)
        for t in list(self.terms.get(sp, {}).values()): self._inst(f, t)
        self._drain()
    def _space(self, n):
        if n is None: return None
        if isinstance(n, int): return n
        if isinstance(n, Num): n = n.t
        if hasattr(n, 'n'): return self._space(n.n)
        self._keep(n)
        return ('n', n.get_id())
    def _inst(self, f, t):
        if self.inst_depth >= 1: return
        self.inst_depth += 1
        try:
            g = f(t)
            if g is not None:
                g = tobool(g)
                if not z3.is_true(g): self.s.fact(g)
        finally:
            self.inst_depth -= 1
    def index(self, t, n=None):
        """note an index term of a space"""
        if n is None or self.inst_depth >= 1: return
        if isinstance(t, int): t = z3.IntVal(t)
        sp = self._space(n)
        d = self.terms.setdefault(sp, {})
        k = t.get_id()
        if k in d: return
        d[k] = t
        for f in list(self.universals.get(sp, ())): self._inst(f, t)
        self._drain()
    def later(self, t, n):
        """an index term met while instantiating: noted once that is finished"""
        self.queue.append((t, n))
        self._keep(t)
    def _drain(self):
        while self.queue and self.inst_depth == 0:
            t, n = self.queue.pop()
            self.index(t, n)
    # ---- obligations
    def prove(self, name, f, extra=None):
        name = f'{self.run.name}/{name}'
        o = self.run.obl.setdefault(name, Obligation(name))
        o.instances += 1
        f = tobool(f)
        if z3.is_true(z3.simplify(f)):
            return True
        neg = z3.Not(f)
        r = self.check(neg, ms=4000)
        model = self.s.model() if r == z3.sat else None
        if r == z3.unknown:
            if DEBUG:
                print('      hard:', name, flush=True)
                if os.environ.get('VC_DUMP'): open('/tmp/q_%d.smt2' % len(os.listdir('/tmp')), 'w').write('; ' + name + '\n' + self._smt2(neg)); print('      assertions', len(self.s.assertions()), {k: [str(x).replace(chr(10), ' ')[:80] for x in v.values()] for k, v in self.terms.items()} if os.environ.get('VC_TERMS') else '')
            r, model = self.hard_check(neg)
        if self.run.want_smt is not None and r == z3.unsat:
            self.run.smt.append((name, self._smt2(neg)))
        if r == z3.unsat: return True
        info = {'decisions': list(self.decisions), 'trace': list(self.trace)}
        if r == z3.sat:
            m = model
            info['model'] = self.extract(m)
            info['z3model'] = str(m)[:6000]
            o.failed.append(info)
        else:
            info['reason'] = 'all back ends gave up'
            o.unknown.append(info)
        # a run whose contract already broke need not be explored to the end
        if sum(len(q.failed) + len(q.unknown) for q in self.run.obl.values()) >= 4: raise Enough()
        return False
    def hard_check(self, neg):
        """a fresh solver, then cvc5, on one query"""
        for ms in (12000, 40000):
            if ms > 12000:
                r = cvc5_check(s2.to_smt2(), 15)
                self.run.cvc5 = getattr(self.run, 'cvc5', 0) + 1
                if r == 'unsat': return z3.unsat, None
                if any(q.unknown for q in self.run.obl.values()): break
            t = time.time()
            s2 = z3.Solver(); s2.set('timeout', ms); s2.set('rlimit', RLIMIT)
            for a in self.s.assertions(): s2.add(a)
            s2.add(neg)
            r = s2.check()
            dt = time.time() - t
            STATS['queries'] += 1; STATS['solver_s'] += dt; self.run.queries += 1; self.run.solver_s += dt
            if r != z3.unknown: return r, (s2.model() if r == z3.sat else None)
        return z3.unknown, None
    def fail(self, name, why=''):
        """an obligation that fails by reaching here (if the path is feasible)"""
        self.trace.append(why)
        return self.prove(name, z3.BoolVal(False))
    def _smt2(self, neg):
        s2 = z3.Solver()
        for a in self.s.assertions(): s2.add(a)
        s2.add(neg)
        return s2.to_smt2()
    def cover(self, name):
        if name in self.run.covers: return
        if self.check() != z3.unsat: self.run.covers.add(name)
    def extract(self, m):
        out = {}
        for k, v in self.inputs.items():
            try: out[k] = concretize(v, m)
            except Exception as e: out[k] = f'<{e}>'
        return out

# ------------------------------------------------------------------ values
def frac(x):
    if isinstance(x, bool): return fractions.Fraction(int(x))
    if isinstance(x, int): return fractions.Fraction(x)
    return fractions.Fraction(repr(float(x)))

def zreal(x):
    f = frac(x)
    return z3.RealVal(str(f.numerator) + '/' + str(f.denominator))

def tobool(f):
    if isinstance(f, SBool): return f.t
    if isinstance(f, bool): return z3.BoolVal(f)
    if z3.is_expr(f): return f
    import numpy as _np
    if isinstance(f, _np.bool_): return z3.BoolVal(bool(f))
    raise Unsupported(f'not a formula: {f!r}')

def isconc(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool) or isinstance(x, bool)

class SBool:
    __slots__ = ('t',)
    is_sym = True
    def __init__(self, t): self.t = t if z3.is_expr(t) else z3.BoolVal(bool(t))
    def __bool__(self): return cur().decide(self.t)
    def __and__(self, o): return _bop(z3.And, self, o)
    __rand__ = __and__
    def __or__(self, o): return _bop(z3.Or, self, o)
    __ror__ = __or__
    def __xor__(self, o): return _bop(z3.Xor, self, o)
    __rxor__ = __xor__
    def __invert__(self): return SBool(z3.Not(self.t))
    def __eq__(self, o):
        if isinstance(o, (SBool, bool)): return SBool(self.t == tobool(o))
        return self.num() == o
    def __ne__(self, o): return ~(self == o)
    __hash__ = None
    def num(self): return Num(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))
    def __add__(self, o): return self.num() + o
    __radd__ = __add__
    def __mul__(self, o): return self.num() * o
    __rmul__ = __mul__
    def __sub__(self, o): return self.num() - o
    def __rsub__(self, o): return o - self.num()
    def __lt__(self, o): return self.num() < o
    def __gt__(self, o): return self.num() > o
    def __repr__(self): return f'SBool({self.t})'

def _bop(op, a, b):
    if hasattr(b, 'elementwise'): return NotImplemented
    if isinstance(b, Num): b = b != 0
    return SBool(op(tobool(a), tobool(b)))

def sand(*xs): return z3.And(*[tobool(x) for x in xs])
def sor(*xs): return z3.Or(*[tobool(x) for x in xs])
def simplies(a, b): return z3.Implies(tobool(a), tobool(b))

PROBES = {'same', 'ix', 'vc_any', 'ite', 'rite', 'elementwise', 'symlen', 'symget', 'is_sym', 'concretize', '_ver', '_havoc', '_havoc_new', 'junk', 'pytype', 'to_array', 'arr', 'vc_sorted'}
def noattr(k, what):
    """attribute lookup that no model provides"""
    if k in PROBES or k.startswith('vc_') or k.startswith('__'): raise AttributeError(k)
    raise Unsupported(f'attribute {k} of {what}')

class Num:
    """mathematical int or real, with an optional not-a-number flag"""
    __slots__ = ('t', 'nan')
    is_sym = True
    def __init__(self, t, nan=None):
        self.t = t
        self.nan = nan
    @property
    def isint(self): return self.t.sort() == z3.IntSort()
    # arithmetic
    def __add__(self, o): return _arith('+', self, o)
    def __radd__(self, o): return _arith('+', o, self)
    def __sub__(self, o): return _arith('-', self, o)
    def __rsub__(self, o): return _arith('-', o, self)
    def __mul__(self, o):
        if type(o) is list: return self.__rmul__(o)
        return _arith('*', self, o)
    def __rmul__(self, o):
        if type(o) is list and len(o) == 1 and self.isint and self.nan is None and not z3.is_int_value(z3.simplify(self.t)):
            from .arrays import SList
            v = o[0]
            return SList(z3.If(self.t > 0, self.t, z3.IntVal(0)), lambda i: v)
        return _arith('*', o, self)
    def __truediv__(self, o): return _arith('/', self, o)
    def __rtruediv__(self, o): return _arith('/', o, self)
    def __mod__(self, o): return _arith('%', self, o)
    def __rmod__(self, o):
        if isinstance(o, str): raise Unsupported('percent formatting of a symbol')
        return _arith('%', o, self)
    def __floordiv__(self, o): return _arith('//', self, o)
    def __rfloordiv__(self, o): return _arith('//', o, self)
    def __neg__(self): return Num(-self.t, self.nan)
    def __pos__(self): return self
    def __abs__(self): return Num(z3.If(self.t >= 0, self.t, -self.t), self.nan)
    def __pow__(self, k):
        if isinstance(k, int) and 0 <= k <= 6:
            r = Num(z3.IntVal(1)) if self.isint else Num(z3.RealVal(1))
            for _ in range(k): r = r * self
            return Num(r.t, self.nan)
        if isinstance(k, float) and k == 0.5:
            return usqrt(self)
        raise Unsupported(f'power {k}')
    def __rpow__(self, b):
        return unary_uf('pow_%g' % b if isinstance(b, (int, float)) else 'pow_%s' % b, self)
    # comparison
    def __lt__(self, o): return _cmp('<', self, o)
    def __le__(self, o): return _cmp('<=', self, o)
    def __gt__(self, o): return _cmp('>', self, o)
    def __ge__(self, o): return _cmp('>=', self, o)
    def __eq__(self, o): return _cmp('==', self, o)
    def __ne__(self, o): return _cmp('!=', self, o)
    __hash__ = None
    def __bool__(self):
        b = self.t != 0
        if self.nan is not None: b = z3.Or(b, self.nan)
        return cur().decide(b)
    def __repr__(self): return f'Num({self.t})'
    def __format__(self, spec): return strtoken(self, spec)
    def __str__(self): return strtoken(self, '')
    def __index__(self):
        c = z3.simplify(self.t)
        if z3.is_int_value(c): return c.as_long()
        raise Unsupported('symbolic value used as a concrete index')
    def __int__(self): raise Unsupported('int() on symbolic outside shadowed builtin')
    def __float__(self): raise Unsupported('float() of symbol')
    def round(self, n=0): return sround(self, n)
    def astype(self, t): return sint(self) if t in (int, 'int', 'int32', 'int64') else sfloat(self)
    def item(self): return self
    def __getattr__(self, k):
        noattr(k, 'a number')

def num(x, nanok=True):
    if isinstance(x, Num): return x
    if isinstance(x, SBool): return x.num()
    if isinstance(x, bool): return Num(z3.IntVal(int(x)))
    if isinstance(x, int): return Num(z3.IntVal(x))
    if isinstance(x, float):
        if x != x: return Num(z3.RealVal(0), z3.BoolVal(True))
        if x in (float('inf'), float('-inf')): raise Unsupported('infinite operand')
        return Num(zreal(x))
    if isinstance(x, fractions.Fraction): return Num(z3.RealVal(str(x)))
    if z3.is_expr(x) and z3.is_arith(x): return Num(x)
    import numpy as _np
    if isinstance(x, _np.generic): return num(x.item())
    raise Unsupported(f'not a number: {type(x).__name__} {x!r}'[:200])

def real(t):
    if t.sort() != z3.IntSort(): return t
    if z3.is_int_value(t): return z3.RealVal(t.as_long())
    return z3.ToReal(t)
def asint(t):
    """the integer term of a real term that is an integer by construction, else None"""
    if z3.is_app_of(t, z3.Z3_OP_TO_REAL): return t.arg(0)
    if z3.is_rational_value(t) and t.denominator_as_long() == 1: return z3.IntVal(t.numerator_as_long())
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        a, b = asint(t.arg(1)), asint(t.arg(2))
        if a is not None and b is not None: return z3.If(t.arg(0), a, b)
    return None

def _nan(a, b):
    if a is None: return b
    if b is None: return a
    return z3.Or(a, b)

def _isnumlike(o):
    import numpy as _np
    return isinstance(o, (Num, SBool, int, float, bool, fractions.Fraction, _np.generic)) or (z3.is_expr(o) and z3.is_arith(o))

def _arith(op, a, b):
    if not _isnumlike(a) or not _isnumlike(b): return NotImplemented
    for x, y, sw in ((a, b, 0), (b, a, 1)):
        if isinstance(x, float) and x in (float('inf'), float('-inf')):
            if op in '+-':
                return x if not (op == '-' and sw) else -x
            raise Unsupported('arithmetic with infinity')
    a, b = num(a), num(b)
    nan = _nan(a.nan, b.nan)
    x, y = a.t, b.t
    if op in '+-*':
        if x.sort() != y.sort() or x.sort() == z3.RealSort():
            a1, b1 = (x if x.sort() == z3.IntSort() else asint(x)), (y if y.sort() == z3.IntSort() else asint(y))
            if a1 is not None and b1 is not None:
                return Num(z3.ToReal(a1 + b1 if op == '+' else a1 - b1 if op == '-' else a1 * b1), nan)
        if x.sort() != y.sort(): x, y = real(x), real(y)
        r = x + y if op == '+' else x - y if op == '-' else x * y
        return Num(r, nan)
    if op == '/':
        return Num(real(x) / real(y), nan)
    if op in ('%', '//'):
        if x.sort() == z3.IntSort() and y.sort() == z3.IntSort():
            yc = z3.simplify(y)
            if z3.is_int_value(yc) and yc.as_long() > 0:
                return Num(x % y if op == '%' else x / y, nan)
            return _symdiv(op, x, y, nan)
        yc = z3.simplify(real(y))
        a1 = x if x.sort() == z3.IntSort() else asint(x)
        if a1 is not None and z3.is_rational_value(yc) and yc.as_fraction() > 0 and yc.as_fraction().denominator == 1:
            k = z3.IntVal(int(yc.as_fraction()))
            return Num(z3.ToReal(a1 % k if op == '%' else a1 / k), nan)
        if z3.is_rational_value(yc) and yc.as_fraction() > 0:
            q = z3.ToInt(real(x) / yc)
            if op == '//': return Num(z3.ToReal(q), nan)
            return Num(real(x) - yc * z3.ToReal(q), nan)
        raise Unsupported('mod by symbol')
    raise Unsupported(op)

def _symdiv(op, x, y, nan):
    """floor division of integers by a positive symbol: the quotient is named, with its defining facts"""
    p = cur()
    if not p.decide(y > 0): raise Unsupported('division by a symbol that may not be positive')
    d = p.ghost.setdefault('quotients', {})
    x, y = z3.simplify(x), z3.simplify(y)
    k = (x.get_id(), y.get_id())
    if k not in d:
        q = z3.Int(p.fresh('quotient')); d[k] = (q, y, x)
        p.s.fact(z3.And(q * y <= x, x < q * y + y))
    q = d[k][0]
    return Num(q if op == '//' else x - q * y, nan)

def _cmp(op, a, b):
    if b is None:
        return SBool(z3.BoolVal(op == '!='))
    if isinstance(b, str): return SBool(z3.BoolVal(op == '!='))
    if not _isnumlike(b): return NotImplemented
    if isinstance(b, float) and b in (float('inf'), float('-inf')):
        pos = b > 0
        v = {'<': pos, '<=': pos, '>': not pos, '>=': not pos, '==': False, '!=': True}[op]
        if a.nan is None: return SBool(z3.BoolVal(v))
        return SBool(z3.BoolVal(True) if op == '!=' else z3.And(z3.Not(a.nan), z3.BoolVal(v)))
    b = num(b)
    x, y = a.t, b.t
    if x.sort() != y.sort() or x.sort() == z3.RealSort():
        a1, b1 = (x if x.sort() == z3.IntSort() else asint(x)), (y if y.sort() == z3.IntSort() else asint(y))
        if a1 is not None and b1 is not None: x, y = a1, b1
    if x.sort() != y.sort(): x, y = real(x), real(y)
    r = {'<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: x > y, '>=': lambda: x >= y,
         '==': lambda: x == y, '!=': lambda: x != y}[op]()
    nan = _nan(a.nan, b.nan)
    if nan is None: return SBool(r)
    if op == '!=': return SBool(z3.Or(nan, r))
    return SBool(z3.And(z3.Not(nan), r))

# ---------------------------------------------- numeric helpers / uninterpreted
def ufun(name, *sorts):
    return z3.Function(name, *sorts)

def unary_uf(name, x):
    x = num(x)
    f = ufun(name, z3.RealSort(), z3.RealSort())
    return Num(f(real(x.t)), x.nan)

def usqrt(x):
    x = num(x)
    f = ufun('sqrt', z3.RealSort(), z3.RealSort())
    v = f(real(x.t))
    cur().s.fact(z3.Implies(real(x.t) >= 0, z3.And(v >= 0, v * v == real(x.t))))
    return Num(v, x.nan)

def sint(x, *a):
    """int(): truncation toward zero"""
    x = num(x)
    if x.nan is not None and cur().decide(x.nan):
        raise mark(ValueError('cannot convert float NaN to integer'))
    if x.isint: return Num(x.t)
    k = asint(x.t)
    if k is not None: return Num(k)
    return Num(z3.If(x.t >= 0, z3.ToInt(x.t), -z3.ToInt(-x.t)))
def sfloor(x):
    x = num(x)
    if x.isint or asint(x.t) is not None: return x
    return Num(z3.ToReal(z3.ToInt(x.t)), x.nan)
def sceil(x):
    x = num(x)
    if x.isint or asint(x.t) is not None: return x
    return Num(z3.ToReal(-z3.ToInt(-x.t)), x.nan)
def strunc(x):
    x = num(x)
    if x.isint or asint(x.t) is not None: return x
    return Num(z3.ToReal(z3.If(x.t >= 0, z3.ToInt(x.t), -z3.ToInt(-x.t))), x.nan)
def sfloat(x):
    x = num(x)
    return Num(real(x.t), x.nan)
def sround(x, n=0):
    """round half to even at n decimals"""
    x = num(x)
    if (x.isint or asint(x.t) is not None) and n >= 0: return x
    p = 10 ** n
    y = real(x.t) * z3.RealVal(p)
    fl = z3.ToInt(y)
    d = y - z3.ToReal(fl)
    half = z3.RealVal('1/2')
    r = z3.If(d < half, fl, z3.If(d > half, fl + 1, z3.If(fl % 2 == 0, fl, fl + 1)))
    return Num(z3.ToReal(r) / z3.RealVal(p), x.nan)
def smin(a, b):
    a, b = num(a), num(b)
    x, y = a.t, b.t
    if x.sort() != y.sort(): x, y = real(x), real(y)
    return Num(z3.If(y < x, y, x), _nan(a.nan, b.nan))
def smax(a, b):
    a, b = num(a), num(b)
    x, y = a.t, b.t
    if x.sort() != y.sort(): x, y = real(x), real(y)
    return Num(z3.If(y > x, y, x), _nan(a.nan, b.nan))

def ite(c, a, b):
    """elementwise if-then-else on values"""
    c = tobool(c)
    cs = z3.simplify(c)
    if z3.is_true(cs): return a
    if z3.is_false(cs): return b
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
        return SBool(z3.If(c, tobool(a), tobool(b)))
    if hasattr(a, 'ite'): return a.ite(c, b)
    if hasattr(b, 'rite'): return b.rite(c, a)
    if _isnumlike(a) and _isnumlike(b):
        a, b = num(a), num(b)
        x, y = a.t, b.t
        if x.sort() != y.sort(): x, y = real(x), real(y)
        na = a.nan if a.nan is not None else z3.BoolVal(False)
        nb = b.nan if b.nan is not None else z3.BoolVal(False)
        nan = None if (a.nan is None and b.nan is None) else z3.If(c, na, nb)
        return Num(z3.If(c, x, y), nan)
    if a is b: return a
    raise Unsupported(f'if-then-else of {type(a).__name__} and {type(b).__name__}')

def isnan(x):
    if hasattr(x, 'vc_isnan'): return x.vc_isnan()
    if isinstance(x, str): return SBool(z3.BoolVal(False))
    if isinstance(x, float): return SBool(z3.BoolVal(x != x))
    x = num(x)
    return SBool(x.nan if x.nan is not None else z3.BoolVal(False))

def same(a, b):
    """spec equality: equal as values, NaN equals NaN"""
    if hasattr(a, 'same'): return a.same(b)
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)): return tobool(a) == tobool(b)
    if isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)):
        return z3.BoolVal(type(a) == type(b) and a == b)
    a, b = num(a), num(b)
    x, y = a.t, b.t
    if x.sort() != y.sort(): x, y = real(x), real(y)
    na = a.nan if a.nan is not None else z3.BoolVal(False)
    nb = b.nan if b.nan is not None else z3.BoolVal(False)
    return z3.And(na == nb, z3.Or(na, x == y))

# ---------------------------------------------- fresh symbols
def fresh_int(name): return Num(z3.Int(cur().fresh(name)))
def fresh_real(name, nan=False):
    nm = cur().fresh(name)
    return Num(z3.Real(nm), z3.Bool(nm + '#nan') if nan else None)
def fresh_bool(name): return SBool(z3.Bool(cur().fresh(name)))

# ---------------------------------------------- strings
SEP0, SEP1 = '\x01', '\x02'
def strtoken(v, spec):
    p = cur()
    p.strtab.append((v, spec))
    return f'{SEP0}{len(p.strtab) - 1}{SEP1}'
def pathjoin(*a):
    """os.path.join; symbolic parts are taken to be neither empty nor absolute"""
    r = None
    for x in a:
        t = x if isinstance(x, str) else format(x, '')
        if r is None: r = t
        elif t.startswith('/'): r = t
        elif r == '' or r.endswith('/'): r += t
        else: r += '/' + t
    return r
class SBytes:
    """bytes with symbolic parts"""
    is_sym = True
    def __init__(self, s): self.s = s
    def __getattr__(self, k): noattr(k, 'bytes')
def strparts(s):
    """split a string with tokens into literal pieces and (value, spec) pairs"""
    out = []
    i = 0
    while i < len(s):
        j = s.find(SEP0, i)
        if j < 0: out.append(s[i:]); break
        if j > i: out.append(s[i:j])
        k = s.index(SEP1, j)
        out.append(cur().strtab[int(s[j + 1:k])])
        i = k + 1
    return out

# ---------------------------------------------- exceptions
def mark(e):
    """mark an exception as a modelled (intended) one"""
    if isinstance(e, type): e = e()
    try: e._vc_ok = True
    except Exception: pass
    return e

# ---------------------------------------------- countermodels
def concretize(v, m):
    if isinstance(v, Num):
        if v.nan is not None and z3.is_true(m.eval(v.nan, model_completion=True)): return float('nan')
        r = m.eval(v.t, model_completion=True)
        if z3.is_int_value(r): return r.as_long()
        if z3.is_rational_value(r):
            f = r.as_fraction()
            return float(f) if f.denominator != 1 else int(f)
        if z3.is_algebraic_value(r): return float(r.approx(12).as_fraction())
        return str(r)
    if isinstance(v, SBool): return z3.is_true(m.eval(v.t, model_completion=True))
    if z3.is_expr(v):
        r = m.eval(v, model_completion=True)
        if z3.is_int_value(r): return r.as_long()
        if z3.is_rational_value(r): return float(r.as_fraction())
        if z3.is_bool(r): return z3.is_true(r)
        return str(r)
    if isinstance(v, dict): return {k: concretize(x, m) for k, x in v.items()}
    if isinstance(v, (list, tuple)): return [concretize(x, m) for x in v]
    if hasattr(v, 'concretize'): return v.concretize(m)
    return v

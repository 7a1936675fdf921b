"""C06 - resampling is regular, faithful, and never crosses a data gap."""
import z3
from vc import engine as E
from vc.engine import Num, SBool, cur, num, tobool, mark
from vc.arrays import Arr, Arr2, Sel, zi, zlen
from vc.loader import LoopContract
from vc.npmodel import ModelNS
from vc.havoc import HNp

EXPLAIN = ('_interp_time proved for any number of samples and any times (defined or not): by a contract over its loop, the iteration k passes to the spline exactly the k-th uninterrupted run of defined samples - consecutive, '
           'successive intervals above 0 and at most 25 ms, not extensible at either end, values from the same rows - every run of at least 10 ms has its iteration, and the trace it appends is the rounded spline at its own times, on the 10 ms grid, '
           'starting and ending within 5 ms of or inside its run and within 25 ms of both ends. _merge_gaps proved through one arbitrary instant: recorded samples keep their value, other samples appear only inside gaps of at most 31 ms.')
I, B, R = z3.IntSort(), z3.BoolSort(), z3.RealSort()
TM, TN, PV = z3.Function('sample_time', I, R), z3.Function('sample_time_undefined', I, B), z3.Function('sample_value', I, I)
MAXSTEP = z3.RealVal('0.025')
def rv(x): return z3.RealVal(x)

def prove(pr):
    pr.assume_note('times are real numbers (machine rounding of sums and comparisons of float64 times is not modelled; the bounded oracle runs on float64)',
                   'scipy CubicSpline is a function determined by the points it is given, defined when their times increase strictly and there are at least two; numpy round is to nearest, halves to even',
                   'obspy Trace holds the array it is given; starttime, delta set its times',
                   'obspy contracts in _merge_gaps: merge(method=1) joins traces of one channel keeping, at every instant recorded by any of them, the value of one of them; split() gives the maximal contiguous pieces in time order; '
                   'merge(fill_value="interpolate") of two disjoint traces fills only between them; merge() of traces that agree where they overlap is their union',
                   'sample values read from a raw file are numbers (C02)')
    box = {}
    ex = {'scipy': ModelNS('scipy', interpolate=ModelNS('scipy.interpolate', CubicSpline=lambda *a, **k: Spline(box, *a, **k))),
          'scipy.interpolate': ModelNS('scipy.interpolate', CubicSpline=lambda *a, **k: Spline(box, *a, **k)),
          'obspy': ModelNS('obspy', Stream=lambda *a, **k: Out(box, *a, **k), Trace=lambda *a, **k: Tr(box, *a, **k), UTCDateTime=lambda x: x)}
    m = pr.module('core', stubs={'_breakpoint': lambda *a: None}, extra=ex, loops={'_interp_time#for0': Runs(box)})
    pr.run('_interp_time', lambda p: resample(p, m, box), ['gemlog.core._interp_time'], covers=['trace', 'short run', 'no defined time', 'done'])
    b2 = {}
    ex2 = {'obspy': ModelNS('obspy', Stream=lambda traces=(): JStream.of(b2, () if traces is None else traces))}
    m2 = pr.module('core', stubs={'_breakpoint': lambda *a: None}, extra=ex2, loops={'_merge_gaps#for0': Joins(b2)})
    pr.run('_merge_gaps', lambda p: joining(p, m2, b2), ['gemlog.core._merge_gaps'], covers=['bridged', 'kept apart', 'done'])

# ------------------------------------------------------------------ resampling
class Spline:
    def __init__(self, box, x, y, *a, **k):
        if a or k: raise E.Unsupported('spline options')
        if not isinstance(x, Arr) or not isinstance(y, Arr): raise E.Unsupported('spline points')
        p = self.p = cur()
        self.x, self.y = x, y
        self.F = z3.Function(p.fresh('spline'), R, R)
        box['splines'].append(self)
    def __call__(self, t, *a, **k):
        if a or k: raise E.Unsupported('spline options')
        if isinstance(t, Arr): return t.map(lambda v: Num(self.F(E.real(num(v).t))))
        return Num(self.F(E.real(num(t).t)))
    def __getattr__(self, k): E.noattr(k, 'a spline')
class Stats:
    def __getattr__(self, k): E.noattr(k, 'trace statistics')
class Tr:
    def __init__(self, box, data=None, header=None):
        if data is None: raise E.Unsupported('trace without data')
        self.data = data
        self.stats = Stats()
        if header is not None:
            if not isinstance(header, dict): raise E.Unsupported('trace header')
            self.stats.__dict__.update(header)
    def __getattr__(self, k): E.noattr(k, 'a trace')
class Out:
    """a stream being built"""
    def __init__(self, box, traces=None):
        self.box = box
        self.added = []
        for t in traces or []: self.append(t)
    @property
    def _ver(self): return len(self.added)
    def append(self, t):
        if not isinstance(t, Tr): raise E.Unsupported('something else is added to the stream')
        self.added.append(t); return self
    def __iadd__(self, o):
        if isinstance(o, Out):
            for t in o.added: self.append(t)
            return self
        return self.append(o)
    def __add__(self, o):
        r = Out(self.box, self.added)
        r += o
        return r
    def extend(self, l):
        for t in l: self.append(t)
    def __getattr__(self, k): E.noattr(k, 'a stream')

def pos(S, v):
    """position among the samples of defined time from which this time was taken, and its row"""
    t = z3.simplify(v)
    if z3.is_app_of(t, z3.Z3_OP_TO_REAL): t = t.arg(0)
    if z3.is_app(t) and t.decl() in (TM, PV): return t.arg(0)
    if z3.is_app_of(t, z3.Z3_OP_ITE): return z3.If(t.arg(0), pos(S, t.arg(1)), pos(S, t.arg(2)))
    raise E.Unsupported('spline points of unknown provenance')

class Spec:
    """the sequence of samples of defined time, T(0) ... T(N-1)"""
    def __init__(self, p, n):
        self.p = p
        S = None
        i = z3.Int(p.fresh('row'))
        for s in getattr(p, 'sels', []):
            if not z3.eq(z3.simplify(zlen(s.n)), z3.simplify(n)): continue
            f = z3.Implies(z3.And(i >= 0, i < n), tobool(s.g(i)) == z3.Not(TN(i)))
            if p.check(z3.Not(f)) == z3.unsat: S = s; break
        if S is None: raise E.Unsupported('selection of the samples of defined time not recognised')
        self.S, self.N = S, S.m
    def row(self, j): return self.S.idx(z3.simplify(j))
    def T(self, j): return TM(self.row(j))
    def good(self, j):
        d = self.T(j + 1) - self.T(j)
        return z3.And(d > 0, d <= MAXSTEP)
    def others(self): return [s for s in self.p.sels if s is not self.S]
    def note(self, j):
        """instantiate what is known of the breaks at this position"""
        j = z3.simplify(j)
        self.row(j); self.row(j + 1)
        for s in self.others(): self.p.index(j, s.n); s.rank(j)
    def every(self, f):
        for s in self.others(): self.p.universal(f, s.n)

def resample(p, m, box):
    n = z3.Int('n_samples'); p.assume(n >= 0)
    box.clear(); box.update(p=p, n=n, splines=[])
    p.ghost['trivial_masks'] = True
    data = Arr2(n, [Arr.fresh('sample_count', n, 'real'), Arr(n, get=lambda i: Num(z3.ToReal(PV(i)))), Arr(n, get=lambda i: Num(TM(i), TN(i)))])
    p.inputs['times'] = data.cols[2]; p.inputs['values'] = data.cols[1]
    p.inputs['n_samples'] = Num(n)
    i = z3.Int('some_row'); p.assume(z3.Implies(n > 0, z3.And(i >= 0, i < n)))
    box['some'] = i
    data.cols[2].at(i)
    try: out = m['_interp_time'](data)
    except E.Signal: raise
    except Exception as e:
        if not getattr(e, '_vc_ok', False): raise
        p.fail('resampling does not fail', f'{type(e).__name__}: {e}')
        return
    if not isinstance(out, Out): raise E.Unsupported('the result is not a stream')
    if 'out' in box:
        p.cover('done')
        p.prove('the stream built is returned', z3.BoolVal(out is box['out'] and out._ver == box['final']))
    else:
        p.cover('no defined time')
        sp = Spec(p, n)
        p.index(i, n)
        p.prove('nothing is returned only when no sample has a defined time', z3.Implies(n > 0, TN(i)))
        p.prove('a trace is made only of a run', z3.BoolVal(not out.added))

class Runs(LoopContract):
    def __init__(self, box): self.b = box
    def owns(self, v): return v == 'output'
    def out(self, env):
        o = [v for v in env.values() if isinstance(v, Out)]
        if len(o) != 1: raise E.Unsupported('the stream being built')
        return o[0]
    def entry(self, L, env):
        b, p = self.b, self.b['p']
        o = b['out'] = self.out(env)
        p.prove('the stream starts empty', z3.BoolVal(not o.added))
        if b['splines']: raise E.Unsupported('spline made before the loop')
        sp = b['sp'] = Spec(p, b['n'])
        K = zlen(L.items.symlen()) if hasattr(L.items, 'symlen') and L.items.symlen() is not None else None
        if K is None: raise E.Unsupported('loop over something else')
        # one arbitrary maximal run [a, e]
        N = sp.N
        a, e = z3.Int('run_start'), z3.Int('run_end')
        b['a'], b['e'] = a, e
        p.assume(z3.And(a >= 0, a <= e, e < N))
        sp.note(a); sp.note(e); sp.note(a - 1)
        p.assume(z3.Or(a == 0, z3.Not(sp.good(a - 1))))
        p.assume(z3.Or(e == N - 1, z3.Not(sp.good(e))))
        sp.every(lambda c: z3.Implies(z3.And(c >= a, c < e), sp.good(c)))
        w = None
        for s in sp.others():
            if p.check(s.m + 1 != K) == z3.unsat: w = z3.If(a == 0, z3.IntVal(0), s.rank(z3.simplify(a - 1)) + 1); b['breaks'] = s; break
        if w is None: raise E.Unsupported('the loop is not over the runs')
        b['w'] = z3.simplify(w)
        p.prove('every run has its iteration', z3.And(b['w'] >= 0, b['w'] < K))
    def havoc(self, L, v, val):
        if v == 'output' and isinstance(val, Out):
            val.added.clear(); return val
        return NotImplemented
    def assume(self, L, env, k):
        b = self.b
        b['splines'].clear(); b['out'].added.clear()
        b['final'] = 0
    def begin(self, L, env, x):
        # lemma (induction on c): without a break between positions u and c, T(u) <= T(c)
        b, p = self.b, self.b['p']
        sp, s = b['sp'], b['breaks']
        k = num(L.k).t
        u = z3.simplify(z3.If(k == 0, z3.IntVal(0), s.idx(z3.simplify(k - 1)) + 1))
        v = z3.simplify(z3.If(k == s.m, sp.N - 1, s.idx(z3.simplify(k))))
        c = z3.Int(p.fresh('c'))
        sp.note(c); sp.note(u); sp.note(v)
        p.prove('lemma: no break inside a run', z3.Implies(z3.And(u <= c, c < v), sp.good(c)))
        p.prove('lemma: times increase inside a run', z3.And(sp.T(u) <= sp.T(u), z3.Implies(z3.And(u <= c, c < v, sp.T(u) <= sp.T(c)), sp.T(u) <= sp.T(z3.simplify(c + 1)))))
        p.assume(z3.Implies(u <= v, sp.T(u) <= sp.T(v)))
    def end(self, L, env, k1):
        b, p = self.b, self.b['p']
        sp, a, e, k = b['sp'], b['a'], b['e'], E.asint(num(L.k).t) if E.asint(num(L.k).t) is not None else num(L.k).t
        if self.out(env) is not b['out']: raise E.Unsupported('another stream')
        new = b['out'].added
        mine = k == b['w']
        s = b['breaks']
        # what is known of the limits of this iteration
        for t in (k - 1, k): s.idx(z3.simplify(t))
        T = sp.T
        p.prove('at most one trace per run', z3.BoolVal(len(new) <= 1))
        if not new:
            p.cover('short run')
            p.prove('only a run shorter than 10 ms is left out', z3.Implies(mine, T(e) - T(a) < rv('0.01')))
            return
        p.cover('trace')
        tr = new[0]
        st = tr.stats.__dict__
        if len(b['splines']) != 1: raise E.Unsupported('splines of this iteration')
        f = b['splines'][0]
        X, Y = f.x, f.y
        M = zlen(X.n)
        p.prove('as many values as times', zlen(Y.n) == M)
        p.prove('the spline is made of at least two samples', M >= 2)
        J = z3.Int(p.fresh('J'))
        row = lambda v: pos(sp.S, v)
        def position(t):
            r = row(num(t).t)
            if z3.is_app(r) and r.decl() == sp.S.IDX: return z3.simplify(r.arg(0))
            return sp.S.rank(r)
        P0, P1 = position(X.at(z3.IntVal(0))), position(X.at(z3.simplify(M - 1)))
        PJ, PK = position(X.at(J)), position(X.at(z3.simplify(J + 1)))
        for q in (P0, P1, PJ, PK, P0 - 1): sp.note(q)
        rng = z3.And(J >= 0, J < M - 1)
        p.prove('the samples of a run are samples of defined time', z3.And(P0 >= 0, P1 < sp.N, sp.row(P0) == row(num(X.at(0)).t)))
        p.prove('the samples of a run are consecutive', z3.Implies(rng, z3.And(PK == PJ + 1, PJ >= P0, PK <= P1)))
        p.prove('successive intervals of a run are above 0 and at most 25 ms', z3.Implies(rng, sp.good(PJ)))
        p.prove('the run starts after a break', z3.Or(P0 == 0, z3.Not(sp.good(P0 - 1))))
        p.prove('the run ends before a break', z3.Or(P1 == sp.N - 1, z3.Not(sp.good(P1))))
        p.prove('each value belongs to its time', z3.Implies(z3.And(J >= 0, J < M), row(num(Y.at(J)).t) == row(num(X.at(J)).t)))
        p.prove('the iteration of a run is about that run', z3.Implies(mine, z3.And(P0 == a, P1 == e)))
        # the trace
        if 'starttime' not in st or not ('delta' in st or 'sampling_rate' in st): p.fail('the trace has a start time and an interval'); return
        s0 = E.real(num(st['starttime']).t)
        dt = st['delta'] if 'delta' in st else 1 / num(st['sampling_rate'])
        p.prove('samples are 10 ms apart', num(dt).t == rv('0.01'))
        h = s0 * 100
        p.prove('samples lie on the 10 ms grid', h == z3.ToReal(z3.ToInt(h)))
        D = tr.data
        if not isinstance(D, Arr): raise E.Unsupported('trace data')
        Ln = zlen(D.n)
        q = z3.Int(p.fresh('q'))
        tq = s0 + z3.ToReal(q) / 100
        inn = z3.And(q >= 0, q < Ln)
        first, last = T(P0), T(P1)
        p.prove('the trace is not empty', Ln >= 1)
        end = s0 + z3.ToReal(Ln - 1) / 100
        p.prove('no sample is more than 5 ms outside its run', z3.And(s0 >= first - rv('0.005'), end <= last + rv('0.005')))
        p.prove('the run is covered to within 25 ms of both ends', z3.And(s0 <= first + MAXSTEP, end >= last - MAXSTEP))
        v = num(D.at(q))
        want = E.sround(Num(f.F(tq)))
        p.prove('each sample is the rounded spline at its own time', z3.Implies(inn, E.real(v.t) == E.real(want.t)))
    def exit(self, L, env):
        self.b['out'].added.clear()

# ------------------------------------------------------------------ joining
TAU = z3.Int('instant')               # one arbitrary instant, in units of 10 ms
REC, VAL = z3.Bool('recorded'), z3.Real('recorded_value')
S_, E_ = z3.Function('piece_start', I, I), z3.Function('piece_end', I, I)

class JTime:
    """the time of a sample, in units of 10 ms"""
    def __init__(self, t): self.t = t
    def __sub__(self, o):
        if isinstance(o, JTime): return Num(z3.ToReal(self.t - o.t) / 100)
        raise E.Unsupported('shifted time')
    def _c(self, o):
        if isinstance(o, JTime): return o.t
        raise E.Unsupported('comparison of a time')
    def __lt__(self, o): return SBool(self.t < self._c(o))
    def __le__(self, o): return SBool(self.t <= self._c(o))
    def __gt__(self, o): return SBool(self.t > self._c(o))
    def __ge__(self, o): return SBool(self.t >= self._c(o))
    def __getattr__(self, k): E.noattr(k, 'a time')
class JStats:
    def __init__(self, tr):
        self.starttime, self.endtime = JTime(tr.s), JTime(tr.e)
        self.delta, self.sampling_rate = 0.01, 100.0
        self.npts = Num(tr.e - tr.s + 1)
    def __getattr__(self, k): E.noattr(k, 'trace statistics')
class JTrace:
    """a contiguous trace: first and last sample, and its value at the instant (if it has it)"""
    def __init__(self, s, e, v): self.s, self.e, self.v, self.stats = s, e, v, None; self.stats = JStats(self)
    def has(self): return z3.And(self.s <= TAU, TAU <= self.e)
    def ite(self, c, o): return JTrace(z3.If(c, self.s, o.s), z3.If(c, self.e, o.e), z3.If(c, self.v, o.v))
    def vc_len(self): return Num(self.e - self.s + 1)
    def copy(self): return JTrace(self.s, self.e, self.v)
    def __getattr__(self, k): E.noattr(k, 'a trace')

class JStream:
    """a stream seen through one instant: whether some trace has it, with which value; and its last trace"""
    def __init__(self, box, kind, cov, val, last=None, items=None, n=None, off=0):
        self.b, self.kind, self.cov, self.val, self.last, self.items, self.n, self.off = box, kind, cov, val, last, items, n, off
        self._v = 0
    @property
    def _ver(self): return self._v
    @staticmethod
    def of(box, l):
        if isinstance(l, JStream): return l.copy()
        if isinstance(l, JTrace): l = [l]
        if not isinstance(l, (list, tuple)) or not all(isinstance(t, JTrace) for t in l): raise E.Unsupported('stream of something else')
        r = JStream(box, 'built', z3.BoolVal(False), z3.RealVal(0), None, [])
        for t in l: r._add(t)
        return r
    def copy(self): return JStream(self.b, self.kind, self.cov, self.val, self.last, list(self.items) if self.items is not None else None, self.n, self.off)
    def _add(self, t):
        p = cur()
        if self.kind not in ('built',): raise E.Unsupported('addition to a stream that was joined')
        p.prove('traces put together agree where they overlap', z3.Implies(z3.And(self.cov, t.has()), self.val == t.v))
        self.val = z3.If(t.has(), t.v, self.val); self.cov = z3.Or(self.cov, t.has())
        self.last = t
        if self.items is not None: self.items.append(t)
        self._v += 1
        return self
    def __iadd__(self, o):
        if isinstance(o, JTrace): return self._add(o)
        if isinstance(o, JStream) and o.items is not None:
            for t in o.items: self._add(t)
            return self
        raise E.Unsupported('sum of streams')
    def __add__(self, o):
        r = self.copy(); r += o; return r
    def append(self, t): self._add(t); return self
    def extend(self, l):
        for t in (l.items if isinstance(l, JStream) else l): self._add(t)
    # -- obspy
    def sort(self, *a, **k): return self
    def split(self):
        if self.kind in ('raw', 'apart'): return JStream(self.b, 'raw', self.cov, self.val)       # pieces of possibly overlapping traces, in any order
        if self.kind == 'merged':
            return pieces(self.b, self.cov, self.val)
        if self.kind == 'built' and self.items is not None: return self.copy()
        raise E.Unsupported('split of an unjoined stream')
    def merge(self, method=0, fill_value=None, interpolation_samples=0, **k):
        p = cur()
        if k or interpolation_samples != 0: raise E.Unsupported('merge options')
        if fill_value is None:
            if self.kind == 'raw':
                if method == 1: self.kind = 'merged'; return self
                # other methods drop recorded samples where traces disagree
                keep = z3.Bool(p.fresh('kept'))
                self.cov = z3.And(self.cov, keep); self.kind = 'merged'
                return self
            if self.kind == 'built': self.kind = 'merged'; return self       # the traces agree: their union
            if self.kind == 'pieces': self.kind = 'merged'; return self
            raise E.Unsupported('merge of a merged stream')
        if fill_value == 'interpolate' and self.kind == 'built' and self.items is not None and len(self.items) == 2:
            a, c = self.items
            if not p.decide(c.s > a.e): raise E.Unsupported('interpolation over overlapping traces')
            v = z3.Real(p.fresh('interpolated'))
            t = JTrace(a.s, c.e, z3.If(z3.And(a.e < TAU, TAU < c.s), v, z3.If(a.has(), a.v, c.v)))
            self.items[:] = [t]; self.last = t
            self.val = z3.If(t.has(), t.v, self.val); self.cov = z3.Or(self.cov, t.has())
            self._v += 1
            return self
        # anything may be filled in
        x = z3.Bool(p.fresh('filled'))
        v = z3.Real(p.fresh('filled_value'))
        self.val = z3.If(self.cov, self.val, v); self.cov = z3.Or(self.cov, x); self.kind = 'merged'
        self._v += 1
        return self
    # -- list behaviour
    def vc_len(self):
        if self.kind == 'pieces': return Num(z3.simplify(self.n - self.off))
        if self.kind == 'built' and self.items is not None: return len(self.items)
        raise E.Unsupported('number of traces')
    def symlen(self): return z3.simplify(self.n - self.off) if self.kind == 'pieces' else None
    def symget(self, k): return self.piece(zi(k) + self.off)
    def __iter__(self):
        if self.kind == 'built' and self.items is not None: return iter(list(self.items))
        raise E.Unsupported('iteration over a stream')
    def piece(self, j):
        j = z3.simplify(j)
        b, p = self.b, cur()
        known = b.setdefault('known', {})
        if j.get_id() not in known:
            known[j.get_id()] = j
            ok = lambda x: z3.And(x >= 0, x < self.n)
            p.s.fact(z3.Implies(ok(j), z3.And(S_(j) <= E_(j), z3.Implies(z3.And(S_(j) <= TAU, TAU <= E_(j)), REC))))
            for i in list(known.values()):
                p.s.fact(z3.Implies(z3.And(ok(i), ok(j), i < j), E_(i) + 1 < S_(j)), z3.Implies(z3.And(ok(i), ok(j), j < i), E_(j) + 1 < S_(i)))
                p.s.fact(z3.Implies(i == j, z3.And(S_(i) == S_(j), E_(i) == E_(j))))
        return JTrace(S_(j), E_(j), VAL)
    def __getitem__(self, k):
        p = cur()
        if self.kind == 'pieces':
            if isinstance(k, slice):
                if k.step not in (None, 1): raise E.Unsupported('slice of a stream')
                if k.start in (None, 0) and k.stop == 1:
                    if not p.decide(self.n - self.off > 0): return JStream.of(self.b, [])
                    return JStream.of(self.b, [self.piece(z3.IntVal(self.off))])
                if isinstance(k.start, int) and k.start > 0 and k.stop is None:
                    if not p.decide(self.n - self.off >= k.start): return JStream.of(self.b, [])
                    r = self.copy(); r.off = self.off + k.start; return r
                raise E.Unsupported('slice of a stream')
            if isinstance(k, (int, Num)):
                i = zi(k) + self.off
                if not p.decide(z3.And(i >= self.off, i < self.n)): raise mark(IndexError('list index out of range'))
                return self.piece(i)
        if self.kind == 'built' and k == -1:
            if self.last is None: raise mark(IndexError('list index out of range'))
            return self.last
        if self.kind == 'built' and self.items is not None and isinstance(k, int):
            if not -len(self.items) <= k < len(self.items): raise mark(IndexError('list index out of range'))
            return self.items[k]
        raise E.Unsupported('item of a stream')
    def __setitem__(self, k, t):
        if self.kind == 'built' and k == -1 and isinstance(t, JTrace) and self.last is not None:
            # what only the replaced trace had is lost
            p = cur()
            lost = self.last.has()
            other = z3.Bool(p.fresh('in_another_trace'))
            self.val = z3.If(t.has(), t.v, self.val)
            self.cov = z3.Or(z3.And(self.cov, z3.Or(z3.Not(lost), other)), t.has())
            if self.items is not None: self.items[-1] = t
            self.last = t; self._v += 1
            return
        raise E.Unsupported('replacement of a trace')
    def __bool__(self):
        n = self.vc_len()
        return bool(n) if isinstance(n, int) else cur().decide(n.t > 0)
    def __getattr__(self, k): E.noattr(k, 'a stream')

def pieces(b, cov, val):
    """the contiguous pieces of a joined stream"""
    p = cur()
    if b.get('pieces') is not None:          # the joined result: only what it holds matters
        return JStream(b, 'final', cov, val)
    if not (z3.eq(cov, REC) and z3.eq(val, VAL)): 
        p.prove('joining keeps every recorded sample', z3.And(cov == REC, z3.Implies(REC, val == VAL)))
    n = z3.Int('n_pieces'); p.s.fact(n >= 0)
    st = b['pieces'] = JStream(b, 'pieces', cov, val, n=n)
    j = b['j'] = z3.Int('piece_of_instant')
    p.s.fact(z3.Implies(REC, z3.And(j >= 0, j < n, S_(j) <= TAU, TAU <= E_(j))))
    st.piece(j)
    return st

def bridged(b, upto):
    """the instant lies in a gap of at most 31 ms between pieces g and g + 1 <= upto"""
    g = b['g']
    return z3.And(g >= 0, g + 1 <= upto, E_(g) < TAU, TAU < S_(g + 1), S_(g + 1) - E_(g) <= 3)

class Joins(LoopContract):
    def __init__(self, box): self.b = box
    def owns(self, v): return v == self.b.get('name')
    def stream(self, env):
        o = [k for k, v in env.items() if isinstance(v, JStream) and v.kind == 'built' and (k == self.b.get('name') or 'name' not in self.b)]
        if len(o) != 1: raise E.Unsupported('the stream being built')
        self.b['name'] = o[0]
        return env[o[0]]
    def hold(self, p, o, i, name):
        """after piece i"""
        b = self.b
        st = b['pieces']
        st.piece(i); st.piece(b['j'])
        upto = z3.And(REC, b['j'] <= i)
        known = bridged(b, i)
        f = [('recorded samples are kept with their value', z3.Implies(upto, z3.And(o.cov, o.val == VAL))),
             ('other samples lie only inside gaps of at most 31 ms', z3.Implies(o.cov, z3.Or(upto, self.gap(i)))),
             ('the last trace ends where the last piece ends', z3.And(o.last.e == E_(i), o.last.s <= S_(i)) if o.last is not None else z3.BoolVal(False)),
             ('the last trace agrees with the stream', z3.Implies(o.last.has(), z3.And(o.cov, o.last.v == o.val)) if o.last is not None else z3.BoolVal(False))]
        return f
    def gap(self, i): return z3.And(z3.Bool('in_short_gap'), z3.Int('gap_index') + 1 <= i)
    def entry(self, L, env):
        b, p = self.b, self.b['p']
        o = self.stream(env)
        b['g'] = z3.Int('gap_index')
        st = b.get('pieces')
        if st is None: raise E.Unsupported('pieces of the stream')
        K = zlen(L.items.symlen()) if hasattr(L.items, 'symlen') and L.items.symlen() is not None else None
        if K is None:
            if not p.decide(st.n == 0): raise E.Unsupported('loop over something else')
            p.prove('joining nothing gives nothing', z3.Not(o.cov))
            return
        p.prove('every further piece has its iteration', z3.Implies(st.n >= 1, K == st.n - 1))
        if not p.decide(st.n >= 1): p.prove('joining nothing gives nothing', z3.Not(o.cov)); return
        # the gap that holds the instant, if any: defined by what it is
        g = b['g']
        st.piece(g); st.piece(g + 1)
        p.s.fact(z3.Bool('in_short_gap') == z3.And(z3.Not(REC), z3.Or(z3.Bool('gap_exists'))))
        p.s.fact(z3.Implies(z3.Bool('gap_exists'), z3.And(g >= 0, g + 1 < st.n, E_(g) < TAU, TAU < S_(g + 1), S_(g + 1) - E_(g) <= 3)))
        for nm, f in self.hold(p, o, z3.IntVal(0), 'entry'): p.prove(nm, f)
    def havoc(self, L, v, val):
        b = self.b
        if v == b.get('name') and isinstance(val, JStream):
            p = cur()
            cov, v_ = z3.Bool(p.fresh('joined_has')), z3.Real(p.fresh('joined_value'))
            s, e, lv = z3.Int(p.fresh('last_start')), z3.Int(p.fresh('last_end')), z3.Real(p.fresh('last_value'))
            val.cov, val.val, val.items = cov, v_, None
            val.last = JTrace(s, e, lv)
            return val
        return NotImplemented
    def at(self, L):
        k = num(L.k).t
        return z3.simplify(k)
    def assume(self, L, env, k):
        b, p = self.b, self.b['p']
        st = b['pieces']
        o = self.stream(env)
        if not p.decide(st.n >= 1): p.assume(z3.Not(o.cov)); return
        for nm, f in self.hold(p, o, z3.simplify(num(k).t if isinstance(k, Num) else zi(k)), 'assume'): p.assume(f)
        p.s.fact(o.last.s <= o.last.e)
    def end(self, L, env, k1):
        b, p = self.b, self.b['p']
        o = self.stream(env)
        i = z3.simplify(num(L.k).t + 1)
        st = b['pieces']
        g = b['g']
        # the gap before piece i is the only one this iteration may bridge
        st.piece(i - 1); st.piece(i)
        here = z3.And(z3.Not(REC), E_(i - 1) < TAU, TAU < S_(i), S_(i) - E_(i - 1) <= 3)
        p.s.fact(z3.Implies(here, z3.And(z3.Bool('gap_exists'), g == i - 1)))
        p.cover('bridged' if p.decide(S_(i) - E_(i - 1) <= 3) else 'kept apart')
        for nm, f in self.hold(p, o, i, 'end'): p.prove(nm, f)
    def exit(self, L, env): self.b['exited'] = True

def joining(p, m, b):
    b.clear(); b['p'] = p
    st = JStream(b, 'raw', REC, VAL)
    p.inputs['instant'] = Num(TAU)
    try: out = m['_merge_gaps'](st)
    except E.Signal: raise
    except Exception as e:
        if not getattr(e, '_vc_ok', False): raise
        p.fail('joining does not fail', f'{type(e).__name__}: {e}')
        return
    if not isinstance(out, JStream): raise E.Unsupported('the result is not a stream')
    p.cover('done')
    p.prove('every recorded sample is kept unchanged', z3.Implies(REC, z3.And(out.cov, out.val == VAL)))
    g = z3.Int('gap_index')
    p.prove('only gaps of at most 31 ms are bridged', z3.Implies(z3.And(out.cov, z3.Not(REC)), z3.And(z3.Bool('in_short_gap'), E_(g) < TAU, TAU < S_(g + 1), S_(g + 1) - E_(g) <= 3)))

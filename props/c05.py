"""C05 - sample times come from a vetted GPS fit, or the file is refused."""
import z3
from vc import engine as E
from vc.engine import Num, SBool, cur, num, tobool, same, mark
from vc.arrays import Arr, Arr2, zlen, zi, nlen, RowLabels
from vc.pdmodel import SDF
from vc.loader import LoopContract
from vc.npmodel import ModelNS, NpModel, asarr
from .rawframe import GCOLS

EXPLAIN = ('_robust_regress proved by induction over its own recursive call, for any number of fixes: the fit is of exactly the points given, the next stage gets exactly the fixes that are not outliers of this one, at least one fewer, '
           'and the result is a fit of what is left, within the limits; _detect_step and _calculate_drift proved against that contract for any GPS table and data span, with GPS required or not; '
           '_apply_segments proved for any number of files and samples by a loop contract; _assign_times and _convert_one_file proved to evaluate exactly that for sample, metadata and header times')
I, B, R = z3.IntSort(), z3.BoolSort(), z3.RealSort()
INF = float('inf')
DEFAULT = z3.RealVal('0.001024')
GALL = GCOLS + ['t']
MCOLS = ['millis', 'batt', 'temp']
COEF = ['drift_deg0', 'drift_deg1', 'drift_deg2', 'drift_deg3']
def rl(x): return E.real(num(x).t)

def prove(pr):
    pr.assume_note('numpy polyfit returns the coefficients, lowest degree first, of the least-squares polynomial of the points it is given, or raises (ill-conditioned fits raise, as warnings are turned into errors around it)',
                   'counts and times are real numbers (machine rounding of float64 residuals and polynomials is not modelled; the bounded oracle runs on float64)',
                   'fixes of a file have a count and a time (C03); a header row of an unread file has NaN limits (C04)',
                   '_read_several fills the header row of a file from the drift estimate (C04)')
    np_ = Np()
    for deg, mad in ((3, 0.01), (1, INF)):
        box0 = {}
        m = pr.module('core', stubs={'_breakpoint': lambda *a: None}, extra={'numpy': np_}, loops={'_robust_regress#while0': Stages(box0)})
        pr.run(f'_robust_regress[degree={deg}]', lambda p, a=(m, np_, deg, mad, box0): regress(p, *a), ['gemlog.core._robust_regress'], covers=['next stage', 'final stage', 'refused'])
    hold = {}
    m2 = pr.module('core', stubs={'_breakpoint': lambda *a: None, '_robust_regress': lambda *a, **k: hold['rr'](*a, **k)})
    pr.run('_detect_step', lambda p: step(p, m2, hold), ['gemlog.core._detect_step'], covers=['step', 'no step'])
    for require in (True, False):
        pr.run(f'_calculate_drift[require_gps={require}]', lambda p, r=require: drift(p, m2, hold, r), ['gemlog.core._calculate_drift', 'gemlog.core._detect_step'],
               covers=['accepted', 'no GPS', 'poor fit', 'no fit'] + (['short GPS', 'step'] if require else []))
    pr.run('_apply_fit', lambda p: fit(p, m2), ['gemlog.core._apply_fit'], covers=['done'])
    for kind in ('array', 'column'):
        box = {}
        m3 = pr.module('core', stubs={'_breakpoint': lambda *a: None}, loops={'_apply_segments#for0': Rows(box)})
        pr.run(f'_apply_segments[{kind}]', lambda p, a=(m3, box, kind): segments(p, *a), ['gemlog.core._apply_segments', 'gemlog.core._apply_fit'], covers=['covered', 'uncovered'])
    h4 = {}
    call = lambda n: (lambda *a, **k: h4[n](*a, **k))
    m4 = pr.module('core', stubs={n: call(n) for n in ('_breakpoint', '_apply_segments', '_reformat_GPS', '_find_breaks', '_interp_time')})
    pr.run('_assign_times', lambda p: assign(p, m4, h4), ['gemlog.core._assign_times'], covers=['done', 'refused'])
    h5 = {}
    call5 = lambda n: (lambda *a, **k: h5[n](*a, **k))
    os_ = ModelNS('os', path=ModelNS('os.path', exists=lambda f: h5['exists'], split=lambda f: ('', f), join=E.pathjoin, basename=lambda f: f))
    m5 = pr.module('core', stubs={n: call5(n) for n in ('_breakpoint', '_read_several', '_interp_time')}, extra={'os': os_})
    for require in (True, False):
        pr.run(f'_convert_one_file[require_gps={require}]', lambda p, r=require: single(p, m5, h5, r), ['gemlog.core._convert_one_file', 'gemlog.core._apply_fit'], covers=['written', 'refused'])

# ------------------------------------------------------------------ regression
class Poly:
    """a polynomial, lowest degree first"""
    def __init__(self, c, *a, **k):
        if a or k: raise E.Unsupported('polynomial domain')
        self.c = asarr(c).items()
        self.coef = asarr(c)
    def __call__(self, x):
        f = lambda v: poly([num(c) for c in self.c], num(v))
        return asarr(x).map(f) if not E._isnumlike(x) else f(x)
    def __getattr__(self, k): E.noattr(k, 'a polynomial')
def poly(c, x):
    """canonical value of the polynomial with coefficients c (lowest first) at x"""
    r, pw = rl(c[0]), None
    for a in c[1:]:
        pw = rl(x) if pw is None else pw * rl(x)
        r = r + rl(a) * pw
    return Num(r)
class Np(NpModel):
    def __init__(self):
        NpModel.__init__(self)
        self.hook = None
        fit = lambda x, y, deg, *a, **k: self.hook(x, y, deg, a, k)
        val = lambda x, c: Poly(c)(x)
        self.polynomial = ModelNS('numpy.polynomial', Polynomial=Poly, polynomial=ModelNS('numpy.polynomial.polynomial', polyfit=fit, polyval=val, Polynomial=Poly))
        self.polyfit = lambda x, y, deg, *a, **k: fit(x, y, deg, *a, **k)[::-1]
        self.polyval = lambda c, x: Poly(asarr(c)[::-1])(x)

def points(p, lo=0):
    n = z3.Int('n_fixes'); p.assume(n >= lo)
    ix = RowLabels()
    x, y = Arr.fresh('fix_count', n, 'real').lab(ix), Arr.fresh('fix_time', n, 'real').lab(ix)
    p.inputs.update(n_fixes=Num(n), fix_counts=x, fix_times=y)
    return n, x, y

def same_col(p, a, b, what):
    """two columns hold the same values"""
    if not isinstance(a, Arr): raise E.Unsupported(what)
    j = z3.Int(p.fresh('each'))
    p.prove(what, z3.And(zlen(a.n) == zlen(b.n), z3.Implies(z3.And(j >= 0, j < zlen(b.n)), same(a.at(j), b.at(j)))))

def unify(p, name, spec, v):
    """the aggregate of columns with the same contents is the same"""
    for (nm, g, n, r) in p.ghost.get('aggs', []):
        if nm != name or r is v: continue
        if not z3.eq(z3.simplify(zlen(n)), z3.simplify(zlen(spec.n))) and p.check(zlen(n) != zlen(spec.n)) != z3.unsat: continue
        j = z3.Int(p.fresh('each'))
        if p.check(z3.Not(z3.Implies(z3.And(j >= 0, j < zlen(n)), same(g(j), spec.at(j))))) == z3.unsat: p.assume(z3.Implies(zlen(n) > 0, rl(r) == rl(v)))

def settle(p, *ts):
    """instantiate everything known at these positions and at every witness at hand (facts are guarded by their ranges)"""
    for t in list(ts) + list(p.ghost.get('wits', [])):
        for fs in list(p.universals.values()):
            for f in list(fs): p._inst(f, t)
    p._drain()

class Stage:
    """residuals and outliers of a fit, as the property defines them"""
    def __init__(self, p, x, y, c, MAD, z=4):
        self.p, self.x, self.y, self.n = p, x, y, zlen(x.n)
        self.res = Arr(x.n, get=lambda i: Num(rl(y.at(i)) - rl(poly(c, num(x.at(i))))))
        v = self.res.std()
        unify(p, 'std', self.res, v)
        self.std = rl(v)
        a = lambda i: E.real(abs(num(self.res.at(i))).t)
        self.abs = a
        self.far = lambda i: a(i) > z * self.std
        self.off = (lambda i: z3.BoolVal(False)) if MAD == INF else (lambda i: a(i) > z3.RealVal(repr(MAD)))
        self.some = tobool(Arr(x.n, get=lambda i: SBool(self.far(i))).any())
    def out(self, i): return z3.If(self.some, self.far(i), self.off(i))

def regress(p, m, np_, deg, MAD, box):
    n, x, y = points(p)
    st = dict(p=p, n=n, x=x, y=y, deg=deg, MAD=MAD, fits=[])
    box.clear(); box.update(st=st)
    rec = []
    def polyfit(a, b, d, args, kw):
        if args or kw: raise E.Unsupported('polyfit options')
        if isinstance(d, Num): raise E.Unsupported('polynomial degree')
        if p.choose(2, 'polyfit'): raise mark(TypeError('expected non-empty vector for x'))
        p.assume(st['n'] > 0)
        c = [E.fresh_real(f'fit_deg{k}') for k in range(int(d) + 1)]
        st['fits'].append((a, b, int(d), c))
        return Arr.of(c)
    np_.hook = polyfit
    DEF = dict(degree=3, MAD=0.01, z=4, recursive_depth=INF, verbose=False)
    names = list(DEF)
    def again(x2, y2, *a, **k):
        opt = {**DEF, **dict(zip(names, a)), **k}
        p.prove('the next stage fits the same degree with the same limits, to any depth', z3.BoolVal(opt['degree'] == deg and opt['MAD'] == MAD and opt['z'] == 4 and opt['recursive_depth'] == INF))
        next_stage(st, x2, y2)
        r = tuple(Tok() for _ in range(6)); rec.append(r)
        return r
    f = m['_robust_regress']
    m.ns['_robust_regress'] = again
    try: out = f(x, y, degree=deg, MAD=MAD)
    except E.Signal: raise
    except Exception as e:
        if not getattr(e, '_vc_ok', False): raise
        p.cover('refused')
        p.prove('only a fit that cannot be made fails', z3.BoolVal(not st['fits'] and not rec))
        return
    finally: m.ns['_robust_regress'] = f
    if not isinstance(out, (tuple, list)) or len(out) != 6: p.fail('six results', str(type(out))); return
    if rec:
        p.prove('the result is that of the last stage', z3.BoolVal(all(a is b for a, b in zip(out, rec[-1])) and len(rec) == 1))
        return
    p.cover('final stage')
    fits = st['fits']
    if len(fits) != 1: p.fail('one fit per stage', f'{len(fits)} fits'); return
    n, x, y = st['n'], st['x'], st['y']
    a, b, d, c = fits[0]
    p.prove('the fit has the degree asked for', z3.BoolVal(d == deg))
    same_col(p, a, x, 'the fit is of exactly the counts kept'); same_col(p, b, y, 'the fit is of exactly the times kept')
    reg, cnt, mad, resid, xx, yy = out
    its = asarr(reg).items()
    p.prove('the coefficients returned are those of the fit, highest degree first', z3.And(z3.BoolVal(len(its) == deg + 1), *[rl(u) == rl(v) for u, v in zip(its, c[::-1])]))
    p.prove('the number of fixes kept is returned', rl(cnt) == z3.ToReal(n))
    same_col(p, xx, x, 'the counts kept are returned'); same_col(p, yy, y, 'the times kept are returned')
    sp = Stage(p, x, y, c, MAD)
    same_col(p, resid, sp.res, 'the residuals returned are those of the fit')
    i = z3.Int('some_fix'); p.assume(z3.And(i >= 0, i < n)); settle(p, i)
    p.prove('no outlier is left', z3.Not(sp.out(i)))
    p.prove('the largest residual is returned', z3.And(sp.abs(i) <= rl(mad), z3.Or([rl(mad) == sp.abs(w) for w in p.ghost.get('wits', [])] or [z3.BoolVal(False)])))

def next_stage(st, x2, y2):
    """x2, y2 are exactly the fixes of this stage that are not outliers of its fit, at least one fewer"""
    p, n, x, y = st['p'], st['n'], st['x'], st['y']
    p.cover('next stage')
    if len(st['fits']) != 1: p.fail('one fit per stage', f"{len(st['fits'])} fits"); raise E.PathEnd()
    a, b, d, c = st['fits'][0]
    p.prove('the fit has the degree asked for', z3.BoolVal(d == st['deg']))
    same_col(p, a, x, 'the fit is of exactly the counts kept'); same_col(p, b, y, 'the fit is of exactly the times kept')
    sp = Stage(p, x, y, c, st['MAD'])
    pick = lambda v: (v._aux.get('sel_of') or (None, None, None))[2] if isinstance(v, Arr) else None
    s, s2 = pick(x2), pick(y2)
    if s is None or s2 is None: raise E.Unsupported('how the fixes of the next stage are chosen')
    i = z3.Int('some_fix'); p.assume(z3.And(i >= 0, i < n))
    settle(p, i)
    p.prove('the next stage drops only outliers', z3.Or(tobool(s.g(i)), sp.out(i)))
    p.prove('the next stage drops every outlier', z3.Implies(sp.out(i), z3.Not(tobool(s.g(i)))))
    j = z3.Int('some_kept'); p.assume(z3.And(j >= 0, j < s.m))
    if s2 is not s:
        p.prove('counts and times of the same fixes are kept', z3.And(s.n == s2.n, tobool(s.g(i)) == tobool(s2.g(i))))
        p.assume(z3.And(s.m == s2.m, s.idx(j) == s2.idx(j)))          # the enumeration of a set of positions is unique
    p.prove('the next stage gets the fixes kept', z3.And(zlen(x2.n) == s.m, zlen(y2.n) == s.m, same(x2.at(j), x.at(s.idx(j))), same(y2.at(j), y.at(s.idx(j)))))
    p.prove('a stage removes at least one fix', z3.Or([z3.And(w >= 0, w < n, z3.Not(tobool(s.g(w)))) for w in p.ghost.get('wits', [])] or [z3.BoolVal(False)]))

class Stages(LoopContract):
    """the stages written as a loop: each iteration starts from any fixes at all"""
    def __init__(self, box): self.b = box
    def owns(self, v): return v in (self.b['st'].get('nx'), self.b['st'].get('ny'))
    def entry(self, L, env):
        st = self.b['st']
        nx, ny = [k for k, v in env.items() if v is st['x']], [k for k, v in env.items() if v is st['y']]
        mod = getattr(L, 'names', None)
        if not nx or not ny: raise E.Unsupported('the fixes of the first stage')
        if mod is not None:
            nx, ny = [k for k in nx if k in mod], [k for k in ny if k in mod]
        if len(nx) != 1 or len(ny) != 1: raise E.Unsupported('the fixes of a stage')
        st['nx'], st['ny'] = nx[0], ny[0]
        if st['fits']: raise E.Unsupported('fit before the loop')
        p = st['p']
        n = z3.Int(p.fresh('n_left')); p.assume(n >= 0)
        ix = RowLabels()
        st['next'] = (n, Arr.fresh('count_left', n, 'real').lab(ix), Arr.fresh('time_left', n, 'real').lab(ix))
    def havoc(self, L, v, val):
        st = self.b['st']
        if v == st.get('nx'): return st['next'][1]
        if v == st.get('ny'): return st['next'][2]
        if isinstance(val, float) and val == INF: return val
        return NotImplemented
    def assume(self, L, env, k):
        st = self.b['st']
        st['n'], st['x'], st['y'] = st['next']
        st['fits'].clear()
    def end(self, L, env, k1):
        st = self.b['st']
        next_stage(st, env[st['nx']], env[st['ny']])
class Tok:
    def __getattr__(self, k): E.noattr(k, 'a result of the next stage')

# ------------------------------------------------------------------ acceptance
class RR:
    """contract of _robust_regress"""
    def __init__(self, p, x, y): self.p, self.x, self.y, self.calls = p, x, y, {}
    def __call__(self, x, y, degree=3, MAD=0.01, z=4, recursive_depth=INF, verbose=False):
        p = self.p
        if degree not in (1, 3): p.fail('a cubic or a linear fit', str(degree)); raise E.PathEnd()
        same_col(p, x, self.x, 'counts of the fixes are regressed'); same_col(p, y, self.y, 'times of the fixes are regressed')
        p.prove('limits of the regression', z3.BoolVal(z == 4 and recursive_depth == INF and MAD == (0.01 if degree == 3 else INF)))
        if degree in self.calls: raise E.Unsupported('regression repeated')
        if p.choose(2, f'regression {degree}'):
            self.calls[degree] = None
            raise mark(TypeError('expected non-empty vector for x'))
        n = zlen(self.x.n)
        k = Arr.fresh(f'kept{degree}', n, 'bool').lab(self.x.ix)
        xx, yy = self.x[k], self.y[k]
        p.assume(zlen(xx.n) > 0)
        c = Arr.of([E.fresh_real(f'reg{degree}_{i}') for i in range(degree + 1)])
        res = Arr.fresh(f'resid{degree}', xx.n, 'real').lab(xx.ix)
        mad = E.fresh_real(f'mad{degree}')
        w = z3.Int(p.fresh('worst'))
        p.assume(z3.And(w >= 0, w < zlen(xx.n), rl(mad) == E.real(abs(num(res.at(w))).t)))
        p.universal(lambda i: z3.Implies(z3.And(i >= 0, i < zlen(xx.n)), E.real(abs(num(res.at(i))).t) <= rl(mad)), zlen(xx.n))
        if degree == 3: p.assume(rl(mad) <= z3.RealVal('0.01'))
        self.calls[degree] = dict(reg=c, m=zlen(xx.n), mad=mad, res=res, xx=xx, yy=yy)
        return (c, nlen(xx.n), mad, res, xx, yy)

def step(p, m, hold):
    n, x, y = points(p, 1)
    rr = hold['rr'] = RR(p, x, y)
    try: r = m['_detect_step'](x, y)
    except E.Signal: raise
    except Exception as e:
        if not getattr(e, '_vc_ok', False): raise
        p.prove('only a regression that cannot be made fails', z3.BoolVal(rr.calls.get(1, 0) is None)); return
    c = rr.calls.get(1)
    p.prove('a linear trend is used', z3.BoolVal(bool(c) and 3 not in rr.calls))
    if not c: return
    jump = jumps(c)
    if tobool_py(p, r):
        p.cover('step')
        b = tobool(jump.any()); settle(p)
        p.prove('a step is a jump of more than 0.25 s between successive fixes', b)
    else:
        p.cover('no step')
        j = z3.Int('some_fix'); p.assume(z3.And(j >= 0, j < c['m'] - 1)); settle(p, j)
        p.prove('without a step no residual jumps by more than 0.25 s', z3.Not(tobool(jump.at(j))))
def jumps(c):
    res, m = c['res'], c['m']
    d = lambda i: rl(res.at(z3.simplify(i + 1))) - rl(res.at(i))
    q = z3.RealVal('0.25')
    k = z3.simplify(m - 1)
    return Arr(k, get=lambda i: SBool(z3.Or(d(i) > q, d(i) < -q)))
def tobool_py(p, r):
    return bool(r) if isinstance(r, (bool, SBool)) else bool(SBool(tobool(r)))

def extent(p, a):
    """largest minus smallest value"""
    n = zlen(a.n)
    lo, hi = E.fresh_real('least').t, E.fresh_real('greatest').t
    u, v = z3.Int(p.fresh('at_least')), z3.Int(p.fresh('at_greatest'))
    p.assume(z3.Implies(n >= 1, z3.And(u >= 0, u < n, v >= 0, v < n, lo == rl(a.at(u)), hi == rl(a.at(v)))))
    p.universal(lambda i: z3.Implies(z3.And(i >= 0, i < n), z3.And(lo <= rl(a.at(i)), rl(a.at(i)) <= hi)), n)
    settle(p, u, v)
    return hi - lo

def drift(p, m, hold, require):
    n, x, y = points(p)
    nd = z3.Int('n_samples'); p.assume(nd >= 1)
    ms = Arr.fresh('sample_count', nd, 'real')
    D = Arr2(nd, [ms, Arr.fresh('sample_value', nd, 'real')])
    p.inputs.update(n_samples=Num(nd), first_count=ms.at(0), last_count=ms.at(nd - 1))
    first, last = rl(ms.at(0)), rl(ms.at(nd - 1))
    p.assume(first <= last)
    has_t = not p.choose(2, 'no GPS columns')
    if has_t:
        ix = x.ix
        cols = {c: Arr.fresh('gps_' + c, n, 'real') for c in GALL}
        cols['msPPS'], cols['t'] = x, y
        G = SDF(cols, n, ix)
    else:
        p.assume(n == 0)
        G = SDF({c: Arr.of([]) for c in GCOLS}, 0)
    rr = hold['rr'] = RR(p, x, y)
    CR = m.get('CorruptRawFile')
    try: h = m['_calculate_drift']({'data': D, 'gps': G, 'metadata': None}, 'FILE0000.077', require)
    except E.Signal: raise
    except Exception as e:
        if not getattr(e, '_vc_ok', False): raise
        why, h = e, None
    lin, cub = rr.calls.get(1, 0), rr.calls.get(3, 0)
    some = n >= 1
    span = (last - first) * DEFAULT
    gspan = extent(p, y) if has_t else z3.RealVal(0)
    enough = z3.And(some, span < 2 * (gspan + z3.RealVal('0.000000001')))
    if lin:
        jump = jumps(lin)
        jumping = tobool(jump.any()); settle(p)
    if cub:
        kspan = extent(p, cub['xx'])
        good = z3.And(cub['m'] >= 10, rl(cub['mad']) <= z3.RealVal('0.01'), last - first <= 2 * kspan)
    else: good = z3.BoolVal(False)
    if h is None:
        p.prove('a file is refused only when GPS is required', z3.BoolVal(require))
        p.prove('a refused file raises a corrupt-file error', z3.BoolVal(isinstance(why, CR) or lin is None))
        ok = z3.And(enough, z3.Not(jumping) if lin else z3.BoolVal(lin == 0), good if cub != 0 else z3.BoolVal(False))
        if lin is None: pass
        elif lin == 0:
            p.cover('no GPS' if p.check(some) == z3.unsat else 'short GPS')
            p.prove('a file with enough GPS is not refused untried', z3.Not(enough))
        elif cub == 0:
            p.cover('step')
            p.prove('a file is refused before fitting only for a step', jumping)
        elif cub is None: p.cover('no fit')
        else:
            p.cover('poor fit')
            p.prove('a well-fitted file is not refused', z3.Not(good))
        return
    c = [h.get(k) for k in COEF]
    if any(v is None for v in c): p.fail('drift coefficients are reported', str([k for k in COEF if h.get(k) is None])); return
    c = [rl(v) for v in c]
    if 'start_ms' not in h or 'end_ms' not in h: p.fail('the range of counts is reported', ''); return
    p.prove('the first count is reported', rl(h['start_ms']) == first)
    p.prove('the last count is reported', rl(h['end_ms']) == last)
    if require:
        p.cover('accepted')
        p.prove('an accepted file has GPS', some)
        p.prove('an accepted file\'s data span less than twice its GPS span', enough)
        p.prove('an accepted file was checked for steps', z3.BoolVal(bool(lin)))
        if lin:
            j = z3.Int('some_fix'); p.assume(z3.Implies(lin['m'] >= 2, z3.And(j >= 0, j < lin['m'] - 1))); settle(p, j)
            p.prove('an accepted file has no step of more than 0.25 s', z3.Implies(lin['m'] >= 2, z3.Not(tobool(jump.at(j)))))
        p.prove('an accepted file has a cubic fit', z3.BoolVal(bool(cub)))
        if cub:
            p.prove('an accepted fit keeps at least 10 fixes', cub['m'] >= 10)
            i = z3.Int('some_kept'); p.assume(z3.And(i >= 0, i < cub['m'])); settle(p, i)
            p.prove('an accepted fit passes within 10 ms of every fix kept', E.real(abs(num(cub['res'].at(i))).t) <= z3.RealVal('0.01'))
            p.prove('the fixes kept still span half of the data', last - first <= 2 * kspan)
    usable = z3.And(enough, good) if cub else z3.BoolVal(False)
    fitted = z3.And([c[i] == rl(cub['reg'].at(3 - i)) for i in range(4)]) if cub else z3.BoolVal(False)
    if cub: p.prove('the coefficients reported are those of the fit when it is usable', z3.Implies(usable, fitted))
    if not require:
        p.prove('a fit is tried whenever there is enough GPS', z3.Or(z3.Not(enough), z3.BoolVal(cub != 0)))
        flat = z3.And(c[3] == 0, c[2] == 0, c[1] == DEFAULT)
        p.prove('without a usable fit, 1.024 ms per count', z3.Or(usable, flat))
        if has_t:
            sp = Arr(n, get=lambda i: Num(rl(y.at(i)) - DEFAULT * rl(x.at(i))))
            mean = sp.mean(); unify(p, 'mean', sp, mean)
            p.prove('without a usable fit, anchored at the mean of the fixes', z3.Or(usable, z3.Not(some), c[0] == rl(mean)))
        p.cover('no GPS' if not has_t else 'no fit' if cub is None else 'accepted' if cub and p.check(z3.Not(usable)) == z3.unsat else 'poor fit')
        p.prove('without any fix, time starts at zero', z3.Or(some, c[0] == 0))

# ------------------------------------------------------------------ evaluation
def header(p, lo=0):
    n = z3.Int('n_files'); p.assume(n >= lo)
    c = {k: Arr.fresh(k, n, 'real') for k in COEF}
    c['start_ms'] = Arr.fresh('start_ms', n, 'real', nan=True); c['end_ms'] = Arr.fresh('end_ms', n, 'real', nan=True)
    c['file'] = Arr(n, get=lambda i: E.strtoken(FileName(i), ''))
    return SDF(c, n)
def value(H, i, x):
    """time of count x by row i"""
    return poly([num(H.cols[k].at(i)) for k in COEF], num(x))
def covers(H, i, x):
    s, e = num(H.cols['start_ms'].at(i)), num(H.cols['end_ms'].at(i))
    return z3.And(z3.Not(s.nan), z3.Not(e.nan), rl(s) <= rl(x), rl(x) <= rl(e))

def fit(p, m):
    n = z3.Int('n'); p.assume(n >= 1)
    H = header(p, 1)
    x = Arr.fresh('count', n, 'real')
    y = m['_apply_fit'](x, H.row(z3.IntVal(0)))
    j = z3.Int('some_count'); p.assume(z3.And(j >= 0, j < n))
    p.cover('done')
    p.prove('the time is the cubic polynomial of the count', z3.And(zlen(y.n) == n, same(y.at(j), value(H, z3.IntVal(0), x.at(j)))))

def segments(p, m, box, kind):
    n = z3.Int('n_counts'); p.assume(n >= 1)
    H = header(p)
    x = Arr.fresh('count', n, 'real')
    if kind == 'column': x.ix = RowLabels()
    j = z3.Int('some_count'); p.assume(z3.And(j >= 0, j < n))
    r = z3.Int('its_file')
    X = x.at(j)
    cov = not p.choose(2, 'outside all files')
    nf = zlen(H.n)
    if cov:
        p.assume(z3.And(r >= 0, r < nf, covers(H, r, X)))
    p.inputs.update(n_files=Num(nf), count=X, file=Num(r))
    for c in H.cols.values(): p.index(r, nf)
    p.universal(lambda i: z3.Implies(z3.And(i >= 0, i < nf, i != r if cov else z3.BoolVal(True)), z3.Not(covers(H, i, X))), nf)
    box.clear(); box.update(p=p, H=H, x=x, j=j, r=r, cov=cov, n=n)
    y = m['_apply_segments'](x, H)
    if not isinstance(y, Arr): raise E.Unsupported('result')
    p.cover('covered' if cov else 'uncovered')
    p.prove('one time per count', zlen(y.n) == n)
    v = num(y.at(j))
    nan = tobool(E.isnan(v))
    if cov: p.prove('the time is that of the file whose counts contain it', z3.And(z3.Not(nan), rl(v) == rl(value(H, r, X))))
    else: p.prove('a count outside every file has no time', nan)

class FileName:
    def __init__(self, i): self.i = i

class Rows(LoopContract):
    def __init__(self, box): self.b = box
    def state(self, env):
        b = self.b
        ys = {k: v for k, v in env.items() if isinstance(v, Arr) and v is not b['x'] and v.n is not None and z3.eq(z3.simplify(zlen(v.n)), z3.simplify(b['n']))}
        return ys
    def owns(self, v): return v == self.b.get('name')
    def want(self, v, k):
        b = self.b
        v = num(v); nan = tobool(E.isnan(v))
        if not b['cov']: return nan
        X = b['x'].at(b['j'])
        return z3.If(b['r'] < k, z3.And(z3.Not(nan), rl(v) == rl(value(b['H'], b['r'], X))), nan)
    def entry(self, L, env):
        b, p = self.b, self.b['p']
        ys = self.state(env)
        if len(ys) != 1: raise E.Unsupported('the times being filled in')
        b['name'] = next(iter(ys))
        n = L.items.symlen() if hasattr(L.items, 'symlen') else None
        if n is None and hasattr(L.items, 'n'): n = L.items.n
        if n is None: raise E.Unsupported('loop over something else')
        p.prove('every file is looked at', zlen(n) == zlen(b['H'].n))
        p.prove('times start undefined', self.want(env[b['name']].at(b['j']), z3.IntVal(0)))
    def havoc(self, L, v, val):
        b = self.b
        if v != b.get('name'): return NotImplemented
        f, g = z3.Function(b['p'].fresh('t_so_far'), I, R), z3.Function(b['p'].fresh('t_so_far_nan'), I, B)
        val._set(lambda i: Num(f(i), g(i)))
        return val
    def assume(self, L, env, k):
        b, p = self.b, self.b['p']
        p.assume(self.want(env[b['name']].at(b['j']), num(k).t))
        p.index(z3.simplify(num(k).t), zlen(b['H'].n))
    def end(self, L, env, k1):
        b, p = self.b, self.b['p']
        p.prove('a file sets exactly the times of its own counts', self.want(env[b['name']].at(b['j']), num(k1).t))

SEG, SEGN = z3.Function('piecewise_time', R, R), z3.Function('outside_all_files', R, B)
def seg(v):
    v = num(v)
    t = rl(v)
    n = SEGN(t)
    return Num(SEG(t), n if v.nan is None else z3.Or(v.nan, n))

def tables(p, lo):
    nd, nm = z3.Int('n_samples'), z3.Int('n_metadata'); p.assume(z3.And(nd >= lo, nm >= 0))
    ms, v = Arr.fresh('sample_count', nd, 'real'), Arr.fresh('sample_value', nd, 'real')
    M = SDF({c: Arr.fresh('m_' + c, nm, 'real', nan=c != 'millis') for c in MCOLS}, nm)
    return nd, nm, ms, v, M

def assign(p, m, hold):
    H = header(p, 1)
    nd, nm, ms, v, M = tables(p, 1)
    ng = z3.Int('n_gps'); p.assume(ng >= 1)
    G = SDF({c: Arr.fresh('g_' + c, ng, 'real') for c in GALL}, ng)
    D = Arr2(nd, [ms, v])
    L = {'header': H, 'metadata': M, 'gps': G, 'data': D, 'problems': []}
    millis = M.cols['millis']._frozen(); ms0, v0 = ms._frozen(), v._frozen()
    s0, e0 = H.cols['start_ms']._frozen(), H.cols['end_ms']._frozen()
    out = Tok()
    got = {}
    def asg(x, model):
        p.prove('times come from the header\'s segments', z3.BoolVal(isinstance(model, SDF) and all(k in model.cols for k in COEF + ['start_ms', 'end_ms'])))
        for k in COEF + ['start_ms', 'end_ms']:
            q = z3.Int(p.fresh('row')); p.prove(f'segments: {k} as estimated', z3.Implies(z3.And(q >= 0, q < zlen(H.n)), same(model.cols[k].at(q), H0[k](q))))
        if not isinstance(x, Arr): raise E.Unsupported('counts')
        r = x.map(seg); r.ix = None
        return r
    H0 = {k: H.cols[k]._frozen() for k in H.cols}
    def interp(d, *a, **k):
        if a or k: raise E.Unsupported('resampling options')
        got['D'] = d; return out
    def breaks(l):
        if p.choose(2, 'breaks'): raise mark(IndexError('no break'))
        return Tok()
    hold.update(_breakpoint=lambda *a: None, _apply_segments=asg, _reformat_GPS=lambda g: Tok(), _find_breaks=breaks, _interp_time=interp)
    try: r = m['_assign_times'](L)
    except E.Signal: raise
    except Exception as e:
        if not getattr(e, '_vc_ok', False): raise
        p.cover('refused')
        p.prove('a failure is a corrupt-file error', z3.BoolVal(isinstance(e, m.get('CorruptRawFile')))); return
    p.cover('done')
    Lr = r[0] if isinstance(r, tuple) else r
    check_times(p, Lr, got, nd, nm, ms0, v0, millis, out, seg)
    i = z3.Int('some_row'); p.assume(z3.And(i >= 0, i < zlen(H.n)))
    Hr = Lr['header']
    for k, src in (('t1', s0), ('t2', e0)):
        p.prove(f'header {k} is the time of its own count', same(Hr.cols[k].at(i), seg(src(i))) if k in getattr(Hr, 'cols', {}) else z3.BoolVal(False))

def check_times(p, Lr, got, nd, nm, ms0, v0, millis, out, f):
    M = Lr['metadata']
    a = z3.Int('some_metadata'); p.assume(z3.Implies(nm >= 1, z3.And(a >= 0, a < nm)))
    p.prove('metadata times are those of their counts', z3.And(zlen(M.n) == nm, z3.Implies(nm >= 1, same(M.cols['t'].at(a), f(millis(a))))) if 't' in getattr(M, 'cols', {}) else z3.BoolVal(False))
    d = got.get('D')
    ok = isinstance(d, Arr2) and len(d.cols) == 3
    p.prove('samples are resampled from count, value and time', z3.BoolVal(ok))
    if not ok: return
    j = z3.Int('some_sample'); p.assume(z3.And(j >= 0, j < nd))
    p.prove('every sample has its own time', z3.And(zlen(d.n) == nd, same(d.cols[2].at(j), f(ms0(j))), same(d.cols[1].at(j), v0(j)), same(d.cols[0].at(j), ms0(j))))
    p.prove('the resampled samples are the data', z3.BoolVal(Lr['data'] is out))

class Written:
    def __init__(self): self.w = []
    def write(self, *a, **k): self.w.append((a, k))
    def __getattr__(self, k): E.noattr(k, 'a stream')

def single(p, m, hold, require):
    H = header(p, 1); p.assume(zlen(H.n) == 1)
    nd, nm, ms, v, M = tables(p, 0)
    D = Arr2(nd, [ms, v])
    H0 = {k: H.cols[k]._frozen() for k in H.cols}
    L = {'header': H, 'metadata': M, 'gps': None, 'data': D, 'problems': []}
    millis, ms0, v0 = M.cols['millis']._frozen(), ms._frozen(), v._frozen()
    out, got = Written(), {}
    hold['exists'] = not p.choose(2, 'missing')
    def rs(l, *a, **k):
        p.prove('the file asked for is read', z3.BoolVal(isinstance(l, list) and l == ['raw/FILE0000.077'] and not a and k.get('require_gps', True) == require))
        return L
    def interp(d, *a, **k):
        if a or k: raise E.Unsupported('resampling options')
        got['D'] = d; return out
    hold.update(_breakpoint=lambda *a: None, _read_several=rs, _interp_time=interp)
    try: m['_convert_one_file']('raw/FILE0000.077', 'out.mseed', require_gps=require)
    except E.Signal: raise
    except Exception as e:
        if not getattr(e, '_vc_ok', False): raise
        p.cover('refused')
        ok = isinstance(e, m.get('CorruptRawFile')) if hold['exists'] else True
        p.prove('a file that was not accepted is refused with a corrupt-file error', z3.BoolVal(ok))
        p.prove('only a missing or refused file is not converted', z3.Or(z3.BoolVal(not hold['exists']), nd == 0))
        p.prove('nothing is written for it', z3.BoolVal(not out.w))
        return
    p.cover('written')
    p.prove('a refused file is not converted', nd >= 1)
    p.prove('the output is written once', z3.BoolVal(len(out.w) == 1 and out.w[0][0][:1] == ('out.mseed',)))
    f = lambda x: poly([num(H0[k](z3.IntVal(0))) for k in COEF], num(x))
    L['data'] = out if L['data'] is D and got.get('D') is not None else L['data']
    check_times(p, L, got, nd, nm, ms0, v0, millis, out, f)

"""C13 - array analysis windows, pairs and slowness are exact."""
import re, z3
from vc import npmodel
from vc import engine as E
from vc.engine import Num, SBool, cur, num, tobool, same
from vc.arrays import Arr, Arr2, SList
from vc.npmodel import ModelNS
from vc.loader import LoopContract
from vc.libmodels import UTC
from vc.havoc import Any, HNp
from vc.idlist import IdList, Item, X, S
from vc import matrix

EXPLAIN = ('apply_function_windows, _validate_inputs, xcorr_one_day, _check_input_IDs, _unique, xcorr_function, loop_through_days and the window loop of invert_for_slowness proved for all inputs and all iterations; '
           'invert_for_slowness for 3 to 5 stations (bounded in the number of stations), each with arbitrary coordinates, order and number of windows; the whole chain bounded, by the oracle')
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
rv = lambda s: z3.RealVal(s)

def prove(pr):
    pr.assume_note('Stream.slice(a, b, nearest_sample=False) gives exactly the samples with a <= time <= b', 'times and lengths are real numbers (nanosecond rounding of window starts not modelled)',
                   're.fullmatch/re.search are functions of pattern and text', 'matrix products are associative and inv(A) A = 1 for invertible A', 'arctan2 and sqrt are the mathematical functions', 'obspy correlate(a, b, n) and xcorr_max give shift and value of the largest correlation of a and b within n samples')
    box, hold = {}, {}
    st = {'_validate_inputs': lambda *a, **k: hold['validate'](*a, **k), 'upsample_stream': lambda *a, **k: hold['upsample'](*a, **k),
          'apply_function_windows': lambda *a, **k: hold['apply'](*a, **k), 'xcorr_function': 'XCORR'}
    win = pr.module('xcorr', loops={'apply_function_windows#for0': Windows(box)})
    pr.run('apply_function_windows', lambda p: windows(p, win, box), ['gemlog.xcorr.apply_function_windows'], covers=['one window', 'several windows', 'missing quantity', 'late quantity', 'done'])
    for bad in (None, 'fl', 'fh', 'win', 'overlap', 'up'):
        pr.run(f'_validate_inputs[{bad or "numbers"}]', lambda p, bad=bad: validate(p, win, bad), ['gemlog.xcorr._validate_inputs'], covers=['refused'] + ([] if bad else ['accepted']))
    day = pr.module('xcorr', stubs=st, extra={'pandas': ModelNS('pandas', DataFrame=ModelNS('DataFrame', from_dict=lambda d: ('frame', d)))})
    pr.run('xcorr_one_day', lambda p: one_day(p, day, hold), ['gemlog.xcorr.xcorr_one_day'], covers=['upsampled', 'as recorded', 'defaults'])
    ids = pr.module('xcorr', extra={'re': ReModel(box), 'gemlog.gem_network._unique': lambda l: uniq(l)},
                    loops={'*#for*': Listing(box)})
    for a in ('none', 'empty', 'list'):
        for b in ('none', 'list'):
            pr.run(f'_check_input_IDs[{a},{b}]', lambda p, a=a, b=b: check_ids(p, ids, box, a, b), ['gemlog.xcorr._check_input_IDs'], covers=['done'])
    net = pr.module('gem_network', loops={'_unique#for0': Unique(box)})
    pr.run('_unique', lambda p: unique(p, net, box), ['gemlog.gem_network._unique'], covers=['done'])
    for n in (3, 4, 5):
        for late in (False, True):
            np = HNp(); np.linalg = matrix.Linalg()
            inv = pr.module('xcorr', extra={'re': re, 'numpy': np}, loops={'invert_for_slowness#for*': Invert(box)})
            pr.run(f'invert_for_slowness[{n} stations, {"shuffled" if late else "sorted"}]', lambda p, n=n, late=late, inv=inv: invert(p, inv, box, n, late), ['gemlog.xcorr.invert_for_slowness'], covers=['done'])
    cc = ModelNS('cross_correlation', correlate=lambda *a, **k: hold['correlate'](*a, **k), xcorr_max=lambda *a, **k: hold['max'](*a, **k))
    xf = pr.module('xcorr', extra={'obspy.signal.cross_correlation': cc, 'obspy.signal.cross_correlation.correlate': cc.correlate, 'obspy.signal.cross_correlation.xcorr_max': cc.xcorr_max}, loops={'xcorr_function#for*': Pairs(box)})
    for one in (False, True):
        pr.run(f'xcorr_function[{"one sensor" if one else "any number of sensors"}]', lambda p, one=one: pairs(p, xf, box, hold, one), ['gemlog.xcorr.xcorr_function'], covers=['last pair', 'default shift', 'given shift'] + ([] if one else ['inner pair']))
    np2 = HNp()
    ex = lambda f: lambda l, *a: f(l[0], l[1]) if isinstance(l, list) and len(l) == 2 and all(isinstance(x, T) for x in l) else (_ for _ in ()).throw(E.Unsupported('max of times'))
    np2.max, np2.min = ex(lambda a, b: T(z3.If(a.t >= b.t, a.t, b.t))), ex(lambda a, b: T(z3.If(a.t <= b.t, a.t, b.t)))
    ob = ModelNS('obspy', UTCDateTime=lambda x: hold['time'](x), read=lambda *a, **k: hold['read'](*a, **k), Stream=lambda *a: St.make(*a))
    lt = pr.module('xcorr', extra={'numpy': np2, 'obspy': ob, 'traceback': ModelNS('traceback', format_exc=lambda: ''), 'pandas': ModelNS('pandas', DataFrame=ModelNS('DataFrame', from_dict=lambda d: hold['table'](d)), concat=lambda *a, **k: hold['concat'](*a, **k))},
                   stubs={'_check_input_IDs': lambda *a, **k: hold['ids'](*a, **k)}, loops={'loop_through_days#while0': DayStarts(box), 'loop_through_days#for2': Days(box)})
    pr.run('loop_through_days', lambda p: days(p, lt, box, hold), ['gemlog.xcorr.loop_through_days'], covers=['day', 'last day', 'failed day', 'joined', 'nothing'])

# ------------------------------------------------------------------ windows
has = {k: z3.Function('has_' + k, I, B) for k in 'ab'}
val = {k: z3.Function('val_' + k, I, R) for k in 'ab'}
class WinStream:
    def __init__(self, b): self.b = b
    def __getitem__(self, i):
        if i != 0: raise E.Unsupported('another trace')
        return ModelNS('trace', stats=ModelNS('stats', starttime=UTC(self.b['t1']), endtime=UTC(self.b['t2'])))
    def slice(self, a, b, nearest_sample=True, **k):
        if nearest_sample is not False or k: raise E.Unsupported('slice options')
        return ('slice', a, b)
    def __getattr__(self, k): E.noattr(k, 'a stream')

def windows(p, mod, b):
    b.clear()
    t1, T, L, o = z3.Reals('start_time data_length win_length overlap')
    p.assume(z3.And(L > 0, T >= L, o >= 0, o < 1))
    p.inputs.update(data_length=Num(T), win_length=Num(L), overlap=Num(o))
    b.update(p=p, t1=t1, t2=t1 + T, T=T, L=L, o=o, calls=0, args=object())
    def f(s, args):
        b['calls'] += 1
        i = b['i']
        p.prove('the function gets the caller\'s arguments', z3.BoolVal(args is b['args']))
        if not (isinstance(s, tuple) and s[0] == 'slice'): raise E.Unsupported('argument of the window function')
        s0 = start(b, i)
        a, e = num(s[1]).t, num(s[2]).t
        p.prove('the window starts with its first sample', z3.And(a <= s0, a >= s0 - rv('1/100000')))
        p.prove('the window ends before the sample that starts the next stretch', z3.And(e < s0 + b['L'], e >= s0 + b['L'] - rv('1/100000')))
        p.prove('windows have equal length', e - a == b['L'])
        return {k: Num(val[k](i)) for k in 'ab' if p.decide(has[k](i))}
    r = mod['apply_function_windows'](WinStream(b), f, Num(L), Num(o), b['args'])
    if 'n' not in b: raise E.Unsupported('window loop')
    n = b['n']
    p.prove('there is a window', n >= 1)
    rows(p, b, r, n, final=True)
    p.cover('done')

def start(b, i):
    """start of window i"""
    n = b['n']
    return b['t1'] + z3.If(n > 1, z3.ToReal(i) * (b['T'] - b['L']) / z3.ToReal(z3.If(n > 1, n - 1, z3.IntVal(1))), rv(0))
def rows(p, b, d, n, final=False):
    """rows 0..n-1 of the table d are those of windows 0..n-1"""
    j = z3.Int(p.fresh('row')); p.assume(z3.And(j >= 0, j < n))
    g = lambda x: x.arr() if isinstance(x, SList) else Arr.of(x) if isinstance(x, list) else x
    zl = lambda a: z3.IntVal(a.n) if isinstance(a.n, int) else a.n
    p.prove('results are a table by name', z3.BoolVal(isinstance(d, dict) and set(d) <= {'t_mid', 'a', 'b'} and 't_mid' in d))
    for k in b['unseen']: p.assume(z3.Implies(j < b['before'], z3.Not(has[k](j))))
    t = g(d['t_mid'])
    p.prove('one mid time per window', zl(t) == n)
    p.prove('the mid time of each window', num(t.at(j)).t == start(b, j) + b['L'] / 2)
    for k in 'ab':
        if k in d:
            a = g(d[k])
            p.prove('one value per window', zl(a) == n)
            v = num(a.at(j))
            p.prove('each window\'s own value, missing ones undefined', z3.And((v.nan if v.nan is not None else z3.BoolVal(False)) == z3.Not(has[k](j)), z3.Implies(has[k](j), E.real(v.t) == val[k](j))))
        else:
            p.prove('no quantity is dropped', z3.Not(has[k](j)))
class Windows(LoopContract):
    def __init__(self, box): self.b = box
    def owns(self, v): return v == 'output_dict'
    def entry(self, L, env):
        b, p = self.b, self.b['p']
        n = b['n'] = z3.IntVal(L.n) if isinstance(L.n, int) else L.n
        T, W, o = b['T'], b['L'], b['o']
        if not p.decide(n > 1):
            p.cover('one window'); p.prove('one window only if it reaches the end of the recording', T - W <= rv('1/500000') * W)
        else:
            p.cover('several windows')
            m = z3.ToReal(n - 1)
            p.prove('the windows overlap by at least the requested fraction', m * (W * (1 - o)) >= (T - W) - rv('1/500000') * W)
            p.prove('and by no more than needed', (m - 1) * (W * (1 - o)) < T - W)
        p.prove('the last window ends with the recording', z3.Implies(n > 1, start(b, n - 1) + W == b['t2']))
        d = env['output_dict']
        p.prove('no rows before the first window', z3.BoolVal(isinstance(d, dict) and list(d) == ['t_mid'] and isinstance(d['t_mid'], list) and not d['t_mid']))
    def havoc(self, L, v, val_):
        if v != 'output_dict': return NotImplemented
        b, p = self.b, self.b['p']
        k = L.k.t
        d = {'t_mid': SList(k, lambda j: UTC(start(b, j) + b['L'] / 2))}
        b['unseen'] = []
        for q in 'ab':
            if p.choose(2): b['unseen'].append(q)
            else: d[q] = SList(k, lambda j, q=q: Num(val[q](j), z3.Not(has[q](j))))
        return d
    def assume(self, L, env, k): self.b['before'] = k.t; self.b['i'] = k.t; self.b['calls'] = 0
    def end(self, L, env, k1):
        b, p = self.b, self.b['p']
        p.prove('the function runs once per window', z3.BoolVal(b['calls'] == 1))
        if 'a' in b['unseen'] and 'a' in env['output_dict']: p.cover('late quantity')
        if 'a' not in b['unseen'] and p.check(z3.Not(has['a'](b['i']))) == z3.sat: p.cover('missing quantity')
        rows(p, b, env['output_dict'], k1.t)
    def exit(self, L, env): self.b['before'] = self.b['n']

# ------------------------------------------------------------------ validation
class Junk:
    """not a number"""
    def _c(self, o): raise E.mark(TypeError("'<' not supported"))
    __lt__ = __le__ = __gt__ = __ge__ = _c
    def __format__(self, s): return 'junk'
    def __getattr__(self, k): E.noattr(k, 'a value that is not a number')
def validate(p, mod, bad):
    v = {k: Junk() if k == bad else E.fresh_real(k, nan=True) for k in ('fl', 'fh', 'win', 'overlap', 'up')}
    p.inputs.update({k: x for k, x in v.items() if k != bad})
    try: mod['_validate_inputs'](v['fl'], v['fh'], v['win'], v['overlap'], v['up'])
    except E.Signal: raise
    except Exception as e:
        if not getattr(e, '_vc_ok', False): raise
        p.cover('refused')
        if bad is None:
            g = {k: x.t for k, x in v.items()}
            p.prove('valid values are accepted', z3.Or([x.nan for x in v.values()] + [g['fl'] < 0, g['fh'] < 0, g['fl'] >= g['fh'], g['win'] <= 0, g['overlap'] < 0, g['overlap'] >= 1, g['up'] < 1]))
        return
    p.cover('accepted')
    p.prove('values that are not numbers are refused', z3.BoolVal(bad is None))
    if bad: return
    ok = lambda k, c: z3.And(z3.Not(v[k].nan), c(v[k].t))
    nn = lambda k: z3.Or(v[k].nan, v[k].t >= 0)
    p.prove('invalid filter corners are refused', z3.And(nn('fl'), nn('fh'), z3.Or(v['fl'].nan, v['fh'].nan, v['fl'].t < v['fh'].t)))
    p.prove('invalid window lengths are refused', ok('win', lambda t: t > 0))
    p.prove('invalid overlaps are refused', ok('overlap', lambda t: z3.And(t >= 0, t < 1)))
    p.prove('invalid upsampling ratios are refused', ok('up', lambda t: t >= 1))

DEFAULT = {'fl': 5, 'fh': 40, 'win_length_sec': 5, 'overlap': 0, 'upsample_ratio': 1}
def one_day(p, mod, hold):
    log = []
    args, use = {}, {}
    for k in DEFAULT:
        c = p.choose(3)
        if c == 0: args[k] = use[k] = E.fresh_real(k)
        else:
            use[k] = DEFAULT[k]
            if c == 1: args[k] = None
    if not [k for k in args if args[k] is not None]: p.cover('defaults')
    hold['validate'] = lambda *a, **k: log.append(('validate', a, k))
    up = Any('upsampled', hooks={'filter': lambda *a, **k: log.append(('filter', a, k))})
    st = Any('recorded', hooks={'filter': lambda *a, **k: log.append(('filter', a, k))})
    def upsample(s, n):
        log.append(('upsample', (s, n), {})); return up
    hold['upsample'] = upsample
    def ap(*a, **k):
        log.append(('apply', a, k)); return {}
    hold['apply'] = ap
    r = mod['xcorr_one_day'](st, args)
    eq = lambda a, b: tobool(E.same(a, b))
    def normal(a, k):
        k = dict(k)
        if not a and 'type' in k: a = (k.pop('type'),)
        for o, d in (('corners', 4), ('zerophase', False)):
            if o in k and k[o] == d: k.pop(o)
        return a, k
    p.prove('inputs are validated first', z3.BoolVal(bool(log) and log[0][0] == 'validate' and len(log[0][1]) == 5 and not log[0][2]))
    if not (log and log[0][0] == 'validate' and len(log[0][1]) == 5): return
    p.prove('the values used are the ones validated', z3.And([eq(a, use[k]) for a, k in zip(log[0][1], DEFAULT)]))
    ups = [x for x in log if x[0] == 'upsample']
    target = up if ups else st
    p.cover('upsampled' if ups else 'as recorded')
    one = eq(use['upsample_ratio'], 1)
    p.prove('data are upsampled once, by the requested ratio, when one is requested', z3.And(z3.BoolVal(len(ups) <= 1 and all(x[1][0] is st for x in ups)), *[eq(x[1][1], use['upsample_ratio']) for x in ups], one if not ups else z3.BoolVal(True)))
    fs = [(n, *normal(a, k)) for n, a, k in log if n == 'filter']
    p.prove('the data are filtered once in the requested band', z3.BoolVal(len(fs) == 1 and fs[0][1] == ('bandpass',) and set(fs[0][2]) == {'freqmin', 'freqmax'}))
    if len(fs) == 1 and set(fs[0][2]) == {'freqmin', 'freqmax'}: p.prove('filter corners', z3.And(eq(fs[0][2]['freqmin'], use['fl']), eq(fs[0][2]['freqmax'], use['fh'])))
    a = [x for x in log if x[0] == 'apply']
    p.prove('the windows are analysed once', z3.BoolVal(len(a) == 1))
    if len(a) == 1:
        pos = dict(zip(('st', 'f', 'win_length_sec', 'overlap', 'args'), a[0][1])); pos.update(a[0][2])
        p.prove('windowing gets the requested data, function, length and overlap', z3.And(z3.BoolVal(pos.get('st') is target and pos.get('f') == 'XCORR' and pos.get('args') is args), eq(pos.get('win_length_sec', -1), use['win_length_sec']), eq(pos.get('overlap', -1), use['overlap'])))

# ------------------------------------------------------------------ identifiers
match, exact = z3.Function('matches', S, S, B), z3.Function('is_exact', S, B)
EXACT = r'\w{0,2}\.\w{1,5}\.\w{0,2}\.\w{3}'
class Match: pass
class ReModel:
    def __init__(self, b): self.b = b
    def fullmatch(self, pat, text, *f):
        if pat != EXACT or f or not isinstance(text, Item): raise E.Unsupported('regular expression')
        return Match() if cur().decide(exact(text.t)) else None
    def match(self, pat, text, *f):
        if pat in (EXACT + r'\Z', EXACT + r'$'): return self.fullmatch(EXACT, text, *f)
        raise E.Unsupported('regular expression')
    def search(self, pat, text, *f):
        if f or not isinstance(pat, Item) or not isinstance(text, Item): raise E.Unsupported('regular expression')
        e, t = self.b.get('ex'), pat.t
        if e is not None and z3.is_app(t) and z3.eq(t.decl(), e.f):
            # one of the excluded patterns
            i = t.arg(0)
            cur().s.fact(z3.Implies(z3.And(i >= 0, i < e.n, match(t, text.t)), EXC(text.t, e.n)))
        return Match() if cur().decide(match(pat.t, text.t)) else None
    def __getattr__(self, k): E.noattr(k, 're')
def uniq(l):
    if not isinstance(l, IdList): raise E.Unsupported('unique')
    r = IdList.fresh('unique'); cur().assume(r.count == z3.If(l.count > 0, 1, 0)); return r
class Seq:
    """a caller's list of texts"""
    def __init__(self, name): self.f, self.n = z3.Function(name, I, S), z3.Int('n_' + name); cur().assume(self.n >= 0)
    def symlen(self): return self.n
    def symget(self, k): return Item(self.f(num(k).t))
    def vc_len(self): return Num(self.n)
    def __bool__(self): return cur().decide(self.n > 0)
    def __getattr__(self, k): E.noattr(k, 'a list of texts')
    def __iter__(self): raise E.Unsupported('iteration over a symbolic list outside a loop')

GIV = z3.Function('selected_by_first', I, B)          # X is selected by one of the first k given texts
PART = z3.Function('matched_in_first', I, I, B)       # given k: X occurs among the first j IDs found and matches it
EXC = z3.Function('excluded_by_first', S, I, B)       # the ID is excluded by one of the first k patterns
def check_ids(p, mod, b, how, exc):
    b.clear()
    found = IdList.fresh('found_file'); b.update(p=p, found=found)
    df = ModelNS('table', ID=found)
    given = None if how == 'none' else [] if how == 'empty' else Seq('given')
    ex = None if exc == 'none' else Seq('excluded')
    b['given'], b['ex'] = given, ex
    infile = found.count > 0
    if isinstance(given, Seq): p.assume(given.n >= 1)
    if ex is not None:
        # an excluded ID is excluded by some pattern
        w = z3.Int('excluding'); p.s.fact(z3.Implies(EXC(X, ex.n), z3.And(w >= 0, w < ex.n, match(ex.f(w), X)))); p.index(w, ex.n)
    out = mod['_check_input_IDs'](df, given, ex)
    if not isinstance(out, IdList):
        if isinstance(out, list): r = IdList(z3.Sum([z3.If(x.t == X, 1, 0) for x in out] + [z3.IntVal(0)]))
        else: raise E.Unsupported('list of IDs')
        out = r
    sel = GIV(given.n) if isinstance(given, Seq) else infile
    if isinstance(ex, Seq): sel = z3.And(sel, z3.Not(EXC(X, ex.n)))
    p.prove('exactly the selected channels', (out.count > 0) == sel)
    p.prove('without duplicates', out.count <= 1)
    p.cover('done')
def idl(v):
    if isinstance(v, list) and all(isinstance(x, Item) for x in v): return IdList(z3.Sum([z3.If(x.t == X, 1, 0) for x in v] + [z3.IntVal(0)]))
    if isinstance(v, IdList): return v
    raise E.Unsupported('list of IDs')
class Listing(LoopContract):
    """a loop of `_check_input_IDs` or of a function it calls, recognised by what it goes through:
    the given texts, the IDs found (within the given texts), the excluded patterns, or the selected IDs"""
    def __init__(self, b): self.b = b
    def pick(self, items, env):
        b = self.b
        src = items if isinstance(items, (Seq, IdList)) else items.parts[-1] if isinstance(items, npmodel.SymZip) and len(items.parts) == 2 else None
        if src is None: return None
        if src is b['given']: return Given(b, src)
        if src is b['ex']: return Excluding(b, src)
        if not isinstance(src, IdList): return None
        return (Found if b.get('in_given') is not None else Remaining)(b, src)
class ListContract(LoopContract):
    """acc: the list being built, empty on entry (or the one an outer loop builds)"""
    outer = None
    def __init__(self, b, src): self.b, self.src = b, src
    def entry(self, L, env):
        c = [v for v in L.names if v in env and (isinstance(env[v], list) and not env[v] or self.outer and env[v] is self.b.get(self.outer))]
        if len(c) != 1: raise E.Unsupported('list built by the loop')
        self.acc = c[0]; self.start(L, env)
    def owns(self, v): return v == self.acc
    def havoc(self, L, v, val):
        if v != self.acc: return NotImplemented
        r = self.b[self.name] = IdList.fresh(self.name); return r
    def got(self, env): return idl(env[self.acc]).count
class Given(ListContract):
    """acc holds X iff one of the first k given texts selects it"""
    name = 'output'
    def start(self, L, env): self.b['p'].s.fact(z3.Not(GIV(0)))
    def assume(self, L, env, k):
        self.k = k.t
        self.b['p'].assume((self.got(env) > 0) == GIV(k.t))
    def begin(self, L, env, x): self.b['in_given'] = self.k
    def end(self, L, env, k1):
        b, p = self.b, self.b['p']; k = self.k; g = self.src.f(k)
        this = z3.If(exact(g), g == X, z3.And(b['found'].count > 0, match(g, X)))
        p.s.fact(GIV(k + 1) == z3.Or(GIV(k), this))
        p.prove('a text adds exactly the IDs it selects', (self.got(env) > 0) == GIV(k1.t))
    def exit(self, L, env): self.b['in_given'] = None
class Found(ListContract):
    name, outer = 'matched', 'output'
    def start(self, L, env):
        b = self.b; self.g = b['given'].f(b['in_given']); self.gk = b['in_given']
        self.c0 = self.got(env); b['p'].s.fact(z3.Not(PART(self.gk, 0)))
        b['p'].prove('the texts are searched for among the IDs found', (self.src.count > 0) == (b['found'].count > 0))
    def assume(self, L, env, k):
        self.j = k.t
        self.b['p'].assume((self.got(env) > 0) == z3.Or(self.c0 > 0, PART(self.gk, k.t)))
    def begin(self, L, env, x): self.fid = L.vc.iter_get(self.src, L.k)
    def end(self, L, env, k1):
        p = self.b['p']
        p.s.fact(PART(self.gk, self.j + 1) == z3.Or(PART(self.gk, self.j), z3.And(self.fid.t == X, match(self.g, X))))
        p.prove('an ID found is added iff it matches', (self.got(env) > 0) == z3.Or(self.c0 > 0, PART(self.gk, k1.t)))
    def exit(self, L, env):
        # all IDs found have been seen: X occurs among them iff it was found
        p = self.b['p']; n = L.n; n = z3.IntVal(n) if isinstance(n, int) else n
        p.s.fact(PART(self.gk, n) == z3.And(self.src.count > 0, match(self.g, X)))
class Remaining(ListContract):
    name = 'remaining'
    def start(self, L, env): pass
    def assume(self, L, env, k):
        p = self.b['p']; n, el, pc = self.seq = self.src.sequence()
        p.s.fact(pc(0) == 0)
        p.assume(self.got(env) == z3.If(EXC(X, self.b['ex'].n), z3.IntVal(0), pc(k.t)))
    def end(self, L, env, k1):
        p = self.b['p']; n, el, pc = self.seq
        p.prove('an ID is dropped iff an excluded pattern matches it', self.got(env) == z3.If(EXC(X, self.b['ex'].n), z3.IntVal(0), pc(k1.t)))
class Excluding(LoopContract):
    """a flag says whether one of the first k patterns matches the ID; a loop without a flag goes on only while none does"""
    def __init__(self, b, src): self.b, self.src = b, src
    def entry(self, L, env):
        p = self.b['p']
        ids = {id(env[v]): env[v] for v in L.names if v not in L.target and isinstance(env.get(v), Item)}
        if len(ids) != 1: raise E.Unsupported('loop over patterns')
        self.id = next(iter(ids.values())).t
        fl = [v for v in L.names if v in L.stored and v not in L.target and v in env and isinstance(env[v], (bool, SBool))]
        if len(fl) > 1: raise E.Unsupported('loop over patterns')
        self.flag = fl[0] if fl else None
        # kept: the flag may say "is excluded" or "is not"
        self.neg = bool(fl) and isinstance(env[fl[0]], bool) and env[fl[0]]
        p.s.fact(z3.Not(EXC(self.id, 0)))
        if fl: p.prove('no ID is excluded before the first pattern', z3.Not(self.val(env)))
    def val(self, env):
        v = tobool(env[self.flag])
        return z3.Not(v) if self.neg else v
    def owns(self, v): return v == self.flag
    def havoc(self, L, v, val): return E.fresh_bool('excluded_so_far') if v == self.flag else NotImplemented
    def so_far(self, env, k): return self.val(env) == EXC(self.id, k) if self.flag else z3.Not(EXC(self.id, k))
    def assume(self, L, env, k): self.k = k.t; self.b['p'].assume(self.so_far(env, k.t))
    def begin(self, L, env, x):
        # definition; a pattern among those seen is among all of them
        p, t, k = self.b['p'], self.id, self.k
        p.s.fact(EXC(t, k + 1) == z3.Or(EXC(t, k), match(self.src.f(k), t)))
        p.s.fact(z3.Implies(z3.And(EXC(t, k + 1), k < self.src.n), EXC(t, self.src.n)))
    def end(self, L, env, k1):
        self.b['p'].prove('a pattern excludes exactly the IDs it matches', self.so_far(env, k1.t))

def unique(p, mod, b):
    b.clear(); src = IdList.fresh('list'); b.update(p=p, src=src)
    r = mod['_unique'](src)
    p.prove('every item exactly once', idl(r).count == z3.If(src.count > 0, 1, 0))
    p.cover('done')
class Unique(LoopContract):
    def __init__(self, b): self.b = b
    def owns(self, v): return v == 'unique_list'
    def entry(self, L, env): self.b['p'].prove('empty at first', idl(env['unique_list']).count == 0); self.b['p'].s.fact(self.b['src'].sequence()[2](0) == 0)
    def havoc(self, L, v, val): return IdList.fresh('unique') if v == 'unique_list' else NotImplemented
    def assume(self, L, env, k):
        pc = self.b['src'].sequence()[2]
        self.b['p'].assume(z3.And(env['unique_list'].count == z3.If(pc(k.t) > 0, 1, 0), pc(k.t) >= 0))
    def end(self, L, env, k1):
        self.b['p'].prove('items seen so far exactly once', idl(env['unique_list']).count == z3.If(self.b['src'].sequence()[2](k1.t) > 0, 1, 0))

# ------------------------------------------------------------------ slowness
class Strs(list):
    """a column of texts"""
    def __eq__(self, s): return [x == s for x in self]
    __hash__ = None
class Loc:
    """table of station coordinates: concrete codes, arbitrary coordinates"""
    def __init__(self, rows): self.rows = rows
    @property
    def shape(self): return (len(self.rows), len(self.rows[0]) if self.rows else 0)
    def __len__(self): return len(self.rows)
    def _col(self, k):
        if not all(k in r for r in self.rows): raise E.Unsupported('column ' + k)
        v = [r[k] for r in self.rows]
        return Strs(v) if all(isinstance(x, str) for x in v) else v
    def __getattr__(self, k):
        if k in ('network', 'station', 'location', 'x', 'y', 'ID'): return self._col(k)
        E.noattr(k, 'the coordinate table')
    def __getitem__(self, k):
        if isinstance(k, str): return self._col(k)
        raise E.Unsupported('coordinate table index')
    def __setitem__(self, k, v):
        if k != 'ID' or len(v) != len(self.rows): raise E.Unsupported('coordinate column')
        for r, x in zip(self.rows, v): r['ID'] = x
    def copy(self, *a): return Loc([dict(r) for r in self.rows])
    @property
    def iloc(self):
        class X_:
            def __getitem__(s, k):
                if isinstance(k, tuple): k = k[0]
                return Loc([dict(self.rows[int(i)]) for i in (k.items() if isinstance(k, Arr) else k)])
        return X_()
    @property
    def loc(self):
        class X_:
            def __getitem__(s, k):
                if isinstance(k, tuple) and isinstance(k[0], int): return self.rows[k[0]][k[1]]
                raise E.Unsupported('coordinate lookup')
        return X_()
    def sort_values(self, by, ignore_index=False):
        if by != 'ID' or not ignore_index: raise E.Unsupported('sort')
        return Loc(sorted(self.rows, key=lambda r: r['ID']))
class XC:
    """table of lags"""
    def __init__(self, cols, n): self.cols, self.n = cols, n
    def keys(self): return list(self.cols)
    @property
    def columns(self): return list(self.cols)
    @property
    def shape(self): return (Num(self.n), len(self.cols))
    def vc_len(self): return Num(self.n)
    def __getitem__(self, k):
        if k in self.cols: return self.cols[k]
        raise E.mark(KeyError(k))
    def __setitem__(self, k, v): self.cols[k] = v
    def __contains__(self, k): return k in self.cols
    def copy(self, *a): return XC(dict(self.cols), self.n)
    def __getattr__(self, k): E.noattr(k, 'the lag table')

def invert(p, mod, b, n, late):
    b.clear()
    ids = [f'XP.S{q}.{q % 2 or ""}' for q in range(n)]
    order = list(range(n))
    if late: order = order[1:][::-1] + order[:1]
    x = {i: E.fresh_real('x') for i in ids}; y = {i: E.fresh_real('y') for i in ids}
    m = z3.Int('n_windows'); p.assume(m >= 0)
    sx, sy = z3.Function('sx', I, R), z3.Function('sy', I, R)
    b.update(p=p, sx=sx, sy=sy, m=m)
    seq = [ids[i] for i in order]
    cols = {'t_mid': Any('t'), 'mean_coef': Any('c')}
    for q, i in enumerate(seq):
        j = seq[(q + 1) % n]
        cols['rms_' + i] = Any('rms')
        dx, dy = x[i].t - x[j].t, y[i].t - y[j].t
        cols[f'lag_{i}_{j}'] = Arr(m, get=lambda k, dx=dx, dy=dy: Num(dx * sx(k) + dy * sy(k)))
        cols[f'r_{i}_{j}'] = Any('r')
    cols['consistency'] = Any('ok')
    rows = [dict(zip(('network', 'station', 'location'), i.split('.')), x=x[i], y=y[i], z=0.) for i in ids]
    rows.insert(1, dict(network='XP', station='OTHER', location='', x=E.fresh_real('xo'), y=E.fresh_real('yo'), z=0.))
    if late: rows = rows[::-1]
    # non-degenerate: some three stations are not in line
    cr = lambda i, j, k: (x[j].t - x[i].t) * (y[k].t - y[i].t) - (x[k].t - x[i].t) * (y[j].t - y[i].t)
    tri = [cr(ids[0], ids[j], ids[k]) for j in range(1, n) for k in range(j + 1, n)]
    def ls(g, v):
        """least-squares solution when the lags are those of a plane wave"""
        G, k = g, b['k']
        if not (g.concrete and len(g.cols) == 2 and v.concrete and v.n == g.n): raise E.Unsupported('shape of the system')
        gx, gy = [num(c).t for c in g.cols[0].items()], [num(c).t for c in g.cols[1].items()]
        for r in range(g.n):
            p.prove('each lag is paired with its own baseline', num(v.at(r)).t == gx[r] * sx(k) + gy[r] * sy(k))
        if not b.get('rank'):
            b['rank'] = True
            for t in tri:
                s = z3.Solver(); s.set('timeout', 20000)
                s.add(t != 0); [s.add(gx[r] * gy[q] - gx[q] * gy[r] == 0) for r in range(g.n) for q in range(r + 1, g.n)]
                p.prove('the baselines used span the array', z3.BoolVal(s.check() == z3.unsat))
        return Arr.of([Num(sx(k)), Num(sy(k))])
    matrix.HOOK[0] = ls
    r = mod['invert_for_slowness'](XC(cols, m), Loc(rows))
    if not isinstance(r, XC): raise E.Unsupported('result')
    if 'k' not in b: raise E.Unsupported('window loop')
    p.prove('slowness and back-azimuth are reported', z3.BoolVal('slowness' in r.cols and 'backazimuth' in r.cols))
    j = z3.Int(p.fresh('w')); p.assume(z3.And(j >= 0, j < m))
    spec(b, r.cols['backazimuth'], r.cols['slowness'], j)
    p.cover('done')
def spec(b, baz, slo, j, prove=True):
    sx, sy = b['sx'](j), b['sy'](j)
    A = z3.Function('arctan2', R, R, R)
    f1 = num(baz.at(j)).t == A(-sx, -sy) * 180 / E.zreal(3.141592653589793)
    f2 = same(slo.at(j), E.usqrt(Num(sx * sx + sy * sy)))
    if not prove: return z3.And(f1, f2)
    b['p'].prove('back-azimuth of the wave', f1); b['p'].prove('slowness of the wave', f2)
class Invert(LoopContract):
    def __init__(self, b): self.b = b
    def assume(self, L, env, k):
        b, p = self.b, self.b['p']; b['k'] = k.t
        if not (isinstance(env['backazimuth'], Arr) and isinstance(env['slowness'], Arr)): raise E.Unsupported('results')
        fb, fs = env['backazimuth']._frozen(), env['slowness']._frozen()
        mk = lambda f: type('F', (), {'at': staticmethod(f)})
        b['old'] = mk(fb), mk(fs)
        p.universal(lambda j: z3.Implies(z3.And(j >= 0, j < k.t), spec(b, mk(fb), mk(fs), j, False)), b['m'])
    def end(self, L, env, k1):
        b, p = self.b, self.b['p']
        j = z3.Int(p.fresh('w')); p.assume(z3.And(j >= 0, j < k1.t)); p.index(j, b['m'])
        p.assume(z3.Implies(j < b['k'], spec(b, *b['old'], j, False)))
        spec(b, env['backazimuth'], env['slowness'], j)
    def exit(self, L, env):
        b, p = self.b, self.b['p']
        b['k'] = b['m']

# ------------------------------------------------------------------ pairs of sensors
CODE = {c: z3.Function(c + '_code', I, S) for c in ('network', 'station', 'location')}
STD, SHIFT, BEST = z3.Function('std', I, R), z3.Function('best_shift', I, I, I), z3.Function('best_value', I, I, R)
SUMS, SUMV = z3.Function('sum_of_shifts', I, R), z3.Function('sum_of_values', I, R)
class Sensor:
    def __init__(self, b, i): self.b, self.i = b, i
    @property
    def stats(self): return ModelNS('stats', delta=Num(self.b['dt']), **{c: Item(f(self.i)) for c, f in CODE.items()})
    @property
    def data(self): return SensorData(self.i)
    def std(self, *a): return Num(STD(self.i)) if not a else (_ for _ in ()).throw(E.Unsupported('std'))
    def __getattr__(self, k): E.noattr(k, 'a trace')
class SensorData:
    def __init__(self, i): self.i = i
    def __getattr__(self, k): E.noattr(k, 'the data of a trace')
class Sensors:
    is_sym = True
    def __init__(self, b): self.b = b
    def vc_len(self): return Num(self.b['n'])
    def symlen(self): return self.b['n']
    def symget(self, k): return Sensor(self.b, num(k).t)
    def __getitem__(self, i):
        if not isinstance(i, (int, Num)) or isinstance(i, bool): raise E.Unsupported('stream slice')
        p, n, i = cur(), self.b['n'], num(i).t
        p.prove('every sensor index exists', z3.And(i < n, i >= -n))
        return Sensor(self.b, z3.simplify(z3.If(i < 0, i + n, i)))
    def detrend(self, *a, **k): return self
    def taper(self, *a, **k): return self
    def __iter__(self): raise E.Unsupported('iteration over a stream outside a loop')
    def __getattr__(self, k): E.noattr(k, 'a stream')
class Row:
    """the quantities of one window: those the loop accumulates, and the ones written since its invariant"""
    is_sym = True
    def __init__(self, plain): self.plain, self.stores, self._v = dict(plain), [], 0
    @property
    def _ver(self): return self._v
    def _havoc_new(self, name): raise E.Unsupported('row of a window')
    def __getitem__(self, k):
        if k in self.plain: return self.plain[k]
        raise E.Unsupported('quantity of a window')
    def get(self, k, d=None): return self.plain[k] if k in self.plain else (_ for _ in ()).throw(E.Unsupported('quantity of a window'))
    def __setitem__(self, k, v):
        if E.SEP0 in k: self.stores.append((E.strparts(k), v))
        else: self.plain[k] = v
        self._v += 1
    def update(self, o):
        for k, v in o.items(): self[k] = v
    def __getattr__(self, k): E.noattr(k, 'the quantities of a window')
def pairs(p, mod, b, hold, one):
    b.clear()
    n, dt, ms = z3.Int('n_sensors'), z3.Real('dt'), z3.Real('maxshift')
    p.assume(z3.And(n == 1 if one else n >= 2, dt > 0, ms >= 0))
    b.update(p=p, n=n, dt=dt)
    p.s.fact(z3.And(SUMS(0) == 0, SUMV(0) == 0))
    given = p.choose(3)
    args = [{}, {'maxshift_seconds': None, 'quiet': True}, {'maxshift_seconds': Num(ms), 'quiet': False}][given]
    b['limit'] = ms if given == 2 else z3.RealVal(1)
    p.cover('given shift' if given == 2 else 'default shift')
    def corr(x, y, shift, *a, **k):
        if a or any(k.get(q, d) != d for q, d in (('demean', True), ('normalize', 'naive'), ('method', 'auto'))): raise E.Unsupported('correlate')
        if not isinstance(x, SensorData) or not isinstance(y, SensorData): raise E.Unsupported('correlate')
        s = num(shift); t = E.real(s.t)
        p.prove('shifts up to the allowed one are tried', z3.And(z3.BoolVal(s.isint), 2 * (t * dt - b['limit']) <= dt, 2 * (b['limit'] - t * dt) <= dt))
        return ('correlation', x.i, y.i)
    def best(c, abs_max=True, *a, **k):
        if a or k or not (isinstance(c, tuple) and c[0] == 'correlation'): raise E.Unsupported('xcorr_max')
        p.prove('the largest correlation is meant, not the largest anticorrelation', z3.BoolVal(abs_max is False))
        return Num(SHIFT(c[1], c[2])), Num(BEST(c[1], c[2]))
    hold['correlate'], hold['max'] = corr, best
    r = mod['xcorr_function'](Sensors(b), args)
    if not isinstance(r, Row) or r.stores: raise E.Unsupported('result')
    p.prove('the quantities of a window', z3.BoolVal(set(r.plain) == {'mean_coef', 'consistency'}))
    if set(r.plain) != {'mean_coef', 'consistency'}: return
    N_ = z3.ToReal(n)
    p.prove('mean correlation', num(r.plain['mean_coef']).t * N_ == SUMV(n))
    p.prove('consistent to a sample per pair', tobool(r.plain['consistency']) == z3.And(SUMS(n) <= N_ * N_, -SUMS(n) <= N_ * N_))
class Pairs(LoopContract):
    """one sensor and the next, the last with the first; what is accumulated is recognised by what one pair adds to it"""
    def __init__(self, b): self.b, self.form = b, {}
    def entry(self, L, env):
        b = self.b
        row = [v for v in L.names if type(env.get(v)) is dict and set(env[v]) <= {'mean_coef', 'consistency'} and v != 'args']
        if len(row) != 1: raise E.Unsupported('what the loop over pairs carries')
        self.row = row[0]
        number = lambda x: isinstance(x, (int, float, Num)) and not isinstance(x, bool)
        self.acc = [v for v in L.names if v in L.stored and v not in L.target and v in env and number(env[v])]
        self.keys = [k for k in env[self.row] if number(env[self.row][k])]
        self.all = list(env[self.row])
        for a in [('variable', v) for v in self.acc] + [('entry', k) for k in self.keys]:
            self.form.setdefault(a, ('shift' if a[1] == 'consistency' else 'value', True))
        b['p'].prove('sums start at zero', z3.And([num(env[v]).t == 0 for v in self.acc] + [num(env[self.row][k]).t == 0 for k in self.keys]))
        n = L.n; b['p'].prove('every sensor is first of one pair', (z3.IntVal(n) if isinstance(n, int) else n) == b['n'])
    def owns(self, v): return v == self.row or v in self.acc
    def havoc(self, L, v, val):
        if v in self.acc: return E.fresh_real('sum') if self.form['variable', v] else val
        if v == self.row: return Row({**{k: val[k] for k in self.all}, **{k: E.fresh_real('sum') for k in self.keys if self.form['entry', k]}})
        return NotImplemented
    def value(self, env, a): return E.real(num(env[a[1]] if a[0] == 'variable' else env[self.row].plain[a[1]]).t)
    def state(self, env, k):
        N_ = z3.ToReal(self.b['n']); r = []
        for a, f in self.form.items():
            x = self.value(env, a)
            if f is None: r.append(x == self.old[a]); continue
            what, scaled = f
            r.append((x * N_ if scaled else x) == (SUMS if what == 'shift' else SUMV)(k))
        return z3.And(r)
    def assume(self, L, env, k):
        self.k = k.t; self.old = {a: self.value(env, a) for a in self.form}; self.b['p'].assume(self.state(env, k.t))
    def end(self, L, env, k1):
        b, p, i, n = self.b, self.b['p'], self.k, self.b['n']
        j = z3.If(i + 1 < n, i + 1, 0)
        r = env[self.row]
        p.cover('last pair' if p.decide(i + 1 == n) else 'inner pair')
        N_, sh, best = z3.ToReal(n), z3.ToReal(SHIFT(i, j)), BEST(i, j)
        p.s.fact(SUMS(i + 1) == SUMS(i) + sh); p.s.fact(SUMV(i + 1) == SUMV(i) + best)
        p.s.fact(z3.And(sh / N_ * N_ == sh, best / N_ * N_ == best))
        if not isinstance(r, Row): raise E.Unsupported('row of a window')
        for a in self.form:
            d = self.value(env, a) - self.old[a]
            adds = [(w, s) for w, x in (('shift', sh), ('value', best)) for s in (True, False) if p.check(z3.Not(d == (x / N_ if s else x))) == z3.unsat]
            if p.check(d != 0) == z3.unsat: adds = [None]      # not changed by the loop
            if adds and self.form[a] not in adds: self.form[a] = adds[0]; raise E.Restart()
        p.prove('only sums and the quantities of the pair are written', z3.BoolVal(set(r.plain) == set(self.all)))
        p.prove('sums over the pairs', self.state(env, k1.t))
        ID = lambda i: [x for c in ('network', 'station', 'location') for x in ('.', CODE[c](i))][1:]
        want = {'rms': (['rms_', *ID(i)], STD(i)), 'lag': (['lag_', *ID(i), '_', *ID(j)], sh * b['dt']), 'correlation': (['r_', *ID(i), '_', *ID(j)], best)}
        p.prove('one rms, lag and correlation per pair', z3.BoolVal(len(r.stores) == 3))
        for what, (key, v) in want.items():
            got = [s for s in r.stores if s[0] and s[0][0] == key[0]]
            if len(got) != 1: p.prove(f'{what} of the pair', z3.BoolVal(False)); continue
            parts, x = got[0]
            same_key = len(parts) == len(key) and all(isinstance(q, str) == isinstance(w, str) and (q == w if isinstance(q, str) else isinstance(q[0], Item) and q[1] == '') for q, w in zip(parts, key))
            p.prove(f'{what} under the names of the two sensors', z3.And([q[0].t == w for q, w in zip(parts, key) if not isinstance(w, str)]) if same_key else z3.BoolVal(False))
            p.prove(f'{what} of the pair', E.real(num(x).t) == v)

# ------------------------------------------------------------------ days
class T(UTC):
    """an instant that can be rounded down to its day"""
    __slots__ = ()
    def _w(self, r): return T(r.t, r.nan) if isinstance(r, Num) else r
    def replace(self, **k):
        if k != {'hour': 0, 'minute': 0, 'second': 0} and k != {'hour': 0, 'minute': 0, 'second': 0, 'microsecond': 0}: raise E.Unsupported('replace')
        p = cur(); t = E.real(self.t); r = z3.Function('midnight', R, R)(t); p.s.fact(z3.And(r <= t, r > t - 86400)); return T(r)
class Sel_:
    """the selected IDs"""
    def __init__(self, b): self.b = b
    def __contains__(self, x):
        if isinstance(x, Tok) and x.kind == 'id': return self.b['p'].decide(x.tr.sel)
        raise E.Unsupported('membership of IDs')
    def __iter__(self): return iter(['ID'])
    def vc_any(self): return Any('IDs')
class Tok:
    def __init__(self, kind, tr): self.kind, self.tr = kind, tr
class Tr:
    def __init__(self): self.sel = z3.Bool(cur().fresh('selected'))
    @property
    def id(self): return Tok('id', self)
    def __getattr__(self, k): E.noattr(k, 'a trace')
class St:
    is_sym = True
    def __init__(self, b, only=False): self.b, self.only, self._v = b, only, 0
    box = None
    @staticmethod
    def make(*a):
        if not a: return St(St.box)
        if isinstance(a[0], tuple) and a[0][0] == 'kept': return St(St.box, True)
        raise E.Unsupported('stream of traces')
    @property
    def _ver(self): return self._v
    def _havoc_new(self, name): return St(self.b)
    def __iadd__(self, o): return St(self.b)
    def merge(self, *a, **k): return self
    def trim(self, a, b, *c, **k):
        p = self.b['p']
        if self.b['k'] is None or c or k: raise E.Unsupported('trim')
        p.prove('data of the current and later days are kept', z3.And(num(a).t <= self.b['start'](self.b['k']), num(b).t >= self.b['t2']))
        return self
    def slice(self, a, b, *c, **k):
        if c or k: raise E.Unsupported('slice')
        return ('day', self.only, a, b)
    def vc_comp(self, kind, f, cond):
        p = self.b['p']; t = Tr()
        keep = cond is None or bool(cond(t))
        if keep and f(t) is not t: raise E.Unsupported('traces')
        p.prove('a trace is kept iff its channel is selected', t.sel == z3.BoolVal(bool(keep)))
        return ('kept',)
    def __getattr__(self, k): E.noattr(k, 'a stream')

def days(p, mod, b, hold):
    b.clear(); St.box = b
    A, Z, lo, hi = z3.Reals('t1 t2 first last')
    p.assume(lo <= hi)
    t1, t2 = z3.If(A >= lo, A, lo), z3.If(Z <= hi, Z, hi)
    b.update(p=p, t1=t1, t2=t2, k=None, calls=[])
    p.assume(t1 <= t2)
    hold['time'] = lambda x: {'T1': T(A), 'T2': T(Z)}[x] if x in ('T1', 'T2') else (_ for _ in ()).throw(E.Unsupported('time'))
    def read(fn, headonly=False):
        if headonly and p.choose(2, 'unreadable'): raise E.mark(Exception('unreadable'))
        return Any('file')
    hold['read'] = read
    mk = lambda: Any('files', hooks={'t1': Any('t1', hooks={'min': lambda: T(lo)}), 't2': Any('t2', hooks={'max': lambda: T(hi)})})
    hold['table'] = lambda d: mk()
    IDs = Sel_(b)
    def ids(df, i, e):
        p.prove('the requested channels are selected', z3.BoolVal(i == 'IDS' and e == 'EXCLUDED'))
        return IDs
    hold['ids'] = ids
    mod.ns['sorted'] = lambda x, *a, **k: x if x is IDs else sorted(x, *a, **k)
    args = object()
    def function(s, a):
        p.prove('the function gets the caller\'s arguments', z3.BoolVal(a is args))
        if not (isinstance(s, tuple) and s[0] == 'day'): raise E.Unsupported('data of a day')
        k = b['k']
        p.prove('only selected channels are analysed', z3.BoolVal(s[1]))
        p.prove('each day starts where the previous one ended', num(s[2]).t == b['start'](k))
        p.prove('each day ends where the next one starts, the last one at the end', num(s[3]).t == z3.If(k + 1 < b['n'], b['start'](k + 1), t2))
        if p.choose(2, 'fails'): raise E.mark(Exception('analysis failed'))
        r = object(); b['calls'].append(r); return r
    def concat(l, ignore_index=False, **k):
        p.prove('the results of all days are joined in order', z3.BoolVal(l is b.get('out') and not k))
        p.cover('joined'); return ('joined', l)
    hold['concat'] = concat
    try: r = mod['loop_through_days'](function, Any('filenames'), 'T1', 'T2', 'IDS', exclude_IDs='EXCLUDED', quiet=True, args=args)
    except E.Signal: raise
    except Exception as e:
        if not getattr(e, '_vc_ok', False): raise
        p.prove('refused only before anything is analysed', z3.BoolVal(b['k'] is None)); return
    if r is None: p.cover('nothing')
    else: p.prove('the joined results are returned', z3.BoolVal(isinstance(r, tuple) and r[0] == 'joined'))
class DayStarts(LoopContract):
    """day_starts: strictly increasing, the first is t1, all others before t2"""
    def __init__(self, b): self.b = b
    def owns(self, v): return v == 'day_starts'
    def entry(self, L, env):
        b, p = self.b, self.b['p']
        d = env['day_starts']
        p.prove('the first day starts with the data', z3.And(z3.BoolVal(isinstance(d, list) and len(d) == 1), num(d[0]).t == b['t1'] if isinstance(d, list) and d else z3.BoolVal(False)))
    def havoc(self, L, v, val):
        if v != 'day_starts': return NotImplemented
        b, p = self.b, self.b['p']
        f = b['f'] = z3.Function('day', I, R)
        n = b['n0'] = z3.Int(p.fresh('n_days')); p.assume(n >= 1)
        p.s.fact(f(0) == b['t1'])
        p.assume(z3.Implies(n > 1, f(n - 1) < b['t2']))
        return SList(n, lambda i: T(f(i)))
    def assume(self, L, env, k):
        b = self.b
        b['start'], b['n'] = b['f'], b['n0']
    def end(self, L, env, k1):
        b, p = self.b, self.b['p']
        d = env['day_starts']
        n = d.length(); n = z3.IntVal(n) if isinstance(n, int) else n
        p.prove('one day is added at a time', n == b['n0'] + 1)
        a, z = num(d.at(n - 2)).t, num(d.at(n - 1)).t
        p.prove('days follow one another', z3.And(a < z, z < b['t2'], z <= a + 86402))
class Days(LoopContract):
    def __init__(self, b): self.b = b
    def owns(self, v): return v in ('output_list', 'files_read')
    def entry(self, L, env):
        b, p = self.b, self.b['p']
        n = z3.IntVal(L.n) if isinstance(L.n, int) else L.n
        p.prove('every day is analysed', n == b['n'])
        p.prove('no results yet', z3.BoolVal(env['output_list'] == []))
    def havoc(self, L, v, val):
        if v == 'output_list': return SList.abstract('results')
        if v == 'files_read': return Any('files_read')
        return NotImplemented
    def assume(self, L, env, k):
        b, p = self.b, self.b['p']; b['k'] = k.t; b['calls'].clear(); b['out'] = env['output_list']
        # monotone, as established day by day
        p.s.fact(z3.Implies(z3.And(k.t >= 0, k.t + 1 < b['n']), z3.And(b['f'](k.t) < b['f'](k.t + 1), b['f'](k.t + 1) < b['t2'])))
    def end(self, L, env, k1):
        b, p = self.b, self.b['p']
        p.cover('day' if b['calls'] else 'failed day')
        if p.check(k1.t == b['n']) == z3.sat: p.cover('last day')
        p.prove('each day contributes its own result once', z3.BoolVal(env['output_list'] is b['out'] and len(b['out'].tail) == len(b['calls']) and all(x is y for x, y in zip(b['out'].tail, b['calls']))))

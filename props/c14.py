"""C14 - noise models report consistent spectra and units."""
import z3
from vc import engine as E
from vc.engine import Num, SBool, cur, num, tobool, same
from vc.arrays import Arr
from vc.npmodel import ModelNS
from vc.symstr import SStr

EXPLAIN = ('gem_noise, ims_noise and _noise_spectrum_helper proved for every model name, version and spectrum type (symbolic text), every table, every list of frequencies (and none, or one number) and every band: '
           'which table column, which power, which transformation, which unit names and which arguments are refused; the spline and its integral are library contracts, checked numerically by the oracle')
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()

class Table:
    """a noise table: columns by name"""
    def __init__(self, p, name, cols):
        self.p, self.name, self.cols = p, name, cols
        self.n = z3.Int(p.fresh('rows')); p.assume(self.n >= 2)
        self.arr = {c: Arr.fresh(f'{name}_{c}', self.n) for c in cols}
    def __getitem__(self, c):
        if isinstance(c, str) and c in self.arr: return self.arr[c]
        raise E.Unsupported('table column')
    def __getattr__(self, c):
        if c in self.__dict__.get('arr', {}): return self.arr[c]
        E.noattr(c, 'a table')

class Spline:
    """contract of the cubic interpolator through (x, y): a function of the argument alone, undefined
    outside the table unless extrapolating"""
    def __init__(self, b, x, y, extrapolate=True, *a, **k):
        if a or k: raise E.Unsupported('spline options')
        p = b['p']
        self.b, self.ex = b, extrapolate
        i = z3.Int(p.fresh('row')); t = b['table']
        p.assume(z3.And(i >= 0, i < t.n))
        if not isinstance(x, Arr) or not isinstance(y, Arr): raise E.Unsupported('spline arguments')
        p.prove('the tabulated frequencies are used', z3.And(same(x.at(i), t['f'].at(i)), E.num(x.n).t == t.n if not isinstance(x.n, int) else z3.BoolVal(False)))
        p.prove('the tabulated power spectral density is interpolated', same(y.at(i), b['power'](i)))
        self.lo, self.hi = num(t['f'].at(z3.IntVal(0))).t, num(t['f'].at(t.n - 1)).t
    P = staticmethod(lambda v: z3.Function('psd', R, R)(v))
    def value(self, v):
        v = num(v)
        out = z3.Or(E.real(v.t) < self.lo, E.real(v.t) > self.hi)
        r = self.P(E.real(v.t))
        nan = out if self.ex is False else z3.And(out, z3.BoolVal(False))
        if self.ex is not False: r = z3.If(out, z3.Function('extrapolated', R, R)(E.real(v.t)), r)
        return Num(r, E._nan(v.nan, nan))
    def __call__(self, v):
        if isinstance(v, Arr): return v.map(self.value)
        if isinstance(v, list): return Arr.of(v).map(self.value)
        return self.value(v)
    def integrate(self, a, b, extrapolate=None):
        if extrapolate is not None: raise E.Unsupported('integrate options')
        self.b['band'] = (a, b)
        return integral(self, a, b)
    def __getattr__(self, k): E.noattr(k, 'a spline')
def integral(s, a, b):
    a, b = num(a), num(b)
    x, y = E.real(a.t), E.real(b.t)
    out = z3.Or(x < s.lo, x > s.hi, y < s.lo, y > s.hi)
    return Num(z3.Function('integral', R, R, R)(x, y), out)

class Out:
    def __init__(self, s): self.s = s
    def vc_float(self): return self.s
class Version(SStr):
    """text that may or may not be a number"""
    def __init__(self, p):
        SStr.__init__(self, z3.String('version'))
        self.isnum, self.val = z3.Bool('version_is_number'), z3.Real('version_value')
    def vc_float(self):
        if not cur().decide(self.isnum): raise E.mark(ValueError('could not convert string to float'))
        return Num(self.val)

def prove(pr):
    pr.assume_note('scipy CubicSpline is a function through exactly the given points, undefined (NaN) outside them when extrapolate=False, and its integrate() is its integral (oracle: compared numerically on the packaged tables)',
                   'sqrt, log10 and powers of ten are the mathematical functions', 'lower() gives the lower-case form of a text')
    box = {}
    rd = lambda fn, *a, **k: read(box, fn, *a, **k)
    import os.path as osp
    ex = {'os': ModelNS('os', path=ModelNS('os.path', join=E.pathjoin, dirname=lambda f: 'PKG')),
          'pandas': ModelNS('pandas', read_csv=rd),
          'scipy': ModelNS('scipy', interpolate=ModelNS('scipy.interpolate', CubicSpline=lambda *a, **k: Spline(box, *a, **k)),
                           integrate=ModelNS('scipy.integrate', quad=lambda f, a, b: quad(box, f, a, b))),
          'scipy.interpolate': ModelNS('scipy.interpolate', CubicSpline=lambda *a, **k: Spline(box, *a, **k)),
          'scipy.integrate': ModelNS('scipy.integrate', quad=lambda f, a, b: quad(box, f, a, b))}
    mod = pr.module('gemlog_aux', extra=ex, stubs={'__file__': 'PKG/gemlog_aux.py'})
    for fn in ('gem_noise', 'ims_noise'):
        for fq in ('none', 'array', 'list', 'number'):
            for band in ('none', 'min', 'max', 'both'):
                pr.run(f'{fn}[{fq},{band}]', lambda p, fn=fn, fq=fq, band=band: noise(p, mod, box, fn, fq, band), [f'gemlog.gemlog_aux.{fn}', 'gemlog.gemlog_aux._noise_spectrum_helper'],
                       covers=['power', 'amplitude', 'dB', 'refused type', 'refused model'] + (['low', 'med', 'high'] if fn == 'ims_noise' else ['gem']))
        pr.run(f'{fn}[defaults]', lambda p, fn=fn: noise(p, mod, box, fn, 'default', 'default'), [f'gemlog.gemlog_aux.{fn}'], covers=['power'])

def quad(b, f, x, y):
    """numerical quadrature of the interpolated spectrum misses its integral by several percent on wide bands"""
    raise E.Unsupported('adaptive quadrature (not the exact integral)')

def read(b, fn, *a, **k):
    p = b['p']
    if b['fn'] == 'gem_noise':
        p.prove('the Gem table is read', z3.BoolVal(isinstance(fn, str) and fn.endswith('data/noise/Gem_v0.98_Noise_spec.txt') and not a and not k))
        t = Table(p, 'gem', ['f', 'amp'])
        b['power'] = lambda i: num(t['amp'].at(i)) * num(t['amp'].at(i))
    else:
        p.prove('the IMS table is read', z3.BoolVal(isinstance(fn, str) and fn.endswith('data/noise/IMSNOISE_MIN_MED_MAX.txt') and not a and k.get('names') == ['f', 'min', 'med', 'max'] and k.get('sep') == r'\s+' and set(k) <= {'names', 'sep'}))
        t = Table(p, 'ims', ['f', 'min', 'med', 'max'])
        def power(i):
            m = b['model'].low
            lo, me = z3.Or(m == 'low', m == 'min'), z3.Or(m == 'med', m == 'medium')
            f = lambda c: num(E.unary_uf('pow_10', num(t[c].at(i))))
            return E.ite(lo, f('min'), E.ite(me, f('med'), f('max')))
        b['power'] = power
    b['table'] = t
    i, j = z3.Ints('ti tj')
    F = t['f']
    p.assume(num(F.at(z3.IntVal(0))).t <= num(F.at(t.n - 1)).t)
    return t

def noise(p, mod, b, fn, fq, band):
    b.clear(); b.update(p=p, fn=fn, band=None)
    kw = {}
    st = SStr.fresh('spectype')
    if band != 'default':
        kw['freq_min'] = E.fresh_real('freq_min') if band in ('min', 'both') else None
        kw['freq_max'] = E.fresh_real('freq_max') if band in ('max', 'both') else None
        if band == 'both': p.assume(kw['freq_min'].t <= kw['freq_max'].t)
    if fq != 'default':
        kw['spectype'] = st
        if fq == 'none': kw['freq'] = None
        elif fq == 'array':
            n = z3.Int('n_freq'); p.assume(n >= 0); kw['freq'] = Arr.fresh('freq', n)
        elif fq == 'list': kw['freq'] = [E.fresh_real('f0'), E.fresh_real('f1')]
        else: kw['freq'] = E.fresh_real('freq')
        if fn == 'gem_noise': b['version'] = kw['version'] = Version(p)
        else: b['model'] = kw['model'] = SStr.fresh('model')
    else:
        st = SStr(z3.StringVal('power'), z3.StringVal('power'))
        b['model'] = SStr(z3.StringVal('low'), z3.StringVal('low'))
    L = st.low
    isp, isa, isd = L == 'power', z3.SubString(L, 0, 3) == 'amp', L == 'db'
    if fq == 'default': known = z3.BoolVal(True)
    elif fn == 'gem_noise': known = z3.And(b['version'].isnum, b['version'].val >= z3.RealVal('0.97'))
    else:
        m = b['model'].low
        known = z3.Or([m == x for x in ('low', 'min', 'med', 'medium', 'high', 'hi', 'max')])
    p.inputs.update({k: v for k, v in kw.items() if isinstance(v, (Num, SStr))}); p.inputs['lower'] = SStr(L)
    if fn == 'ims_noise' and fq != 'default': p.inputs['model_lower'] = SStr(b['model'].low)
    try: r = mod[fn](**kw)
    except E.Signal: raise
    except Exception as e:
        if not getattr(e, '_vc_ok', False): raise
        if p.decide(known): p.cover('refused type')
        else: p.cover('refused model')
        p.prove('only unknown models, versions and spectrum types are refused', z3.Or(z3.Not(known), z3.Not(z3.Or(isp, isa, isd))))
        return
    p.prove('unknown models and versions are refused', known)
    p.prove('unknown spectrum types are refused', z3.Or(isp, isa, isd))
    if fn == 'ims_noise' and fq != 'default':
        m = b['model'].low
        for c, xs in (('low', ('low', 'min')), ('med', ('med', 'medium')), ('high', ('high', 'hi', 'max'))):
            if p.check(z3.Or([m == x for x in xs])) == z3.sat: p.run.covers.add(c)
    else: p.cover('gem')
    t = b['table']
    P = Spline.P
    lo, hi = num(t['f'].at(z3.IntVal(0))).t, num(t['f'].at(t.n - 1)).t
    at = lambda v: Num(P(E.real(num(v).t)), E._nan(num(v).nan, z3.Or(E.real(num(v).t) < lo, E.real(num(v).t) > hi)))
    if p.decide(isp): tr, units = (lambda v: v), ('Pa^2/Hz', 'Pa^2'); p.cover('power')
    elif p.decide(isa): tr, units = E.usqrt, ('Pa/sqrt(Hz)', 'Pa'); p.cover('amplitude')
    else: tr, units = (lambda v: num(E.unary_uf('log10', v)) * 10), ('dB Pa/sqrt(Hz)', 'dB Pa'); p.cover('dB')
    p.prove('unit of the spectrum', z3.BoolVal(r['spectrum_units'] == units[0]))
    p.prove('unit of the band noise', z3.BoolVal(r['noise_units'] == units[1]))
    p.prove('type and band are reported as requested', z3.BoolVal((r['type'] is st or fq == 'default' and r['type'] == 'power') and (r['freq_min'] is kw.get('freq_min')) and (r['freq_max'] is kw['freq_max'] if 'freq_max' in kw else r['freq_max'] == 50)))
    want = kw.get('freq')
    if want is None: want = t['f']
    spec, fr = r['spectrum'], r['freqs']
    if isinstance(want, list):
        want = Arr.of(want)
        if isinstance(fr, list): fr = Arr.of(fr)
    if isinstance(want, Arr):
        if not isinstance(spec, Arr) or not isinstance(fr, Arr): raise E.Unsupported('kind of result')
        nn = (lambda a: z3.IntVal(a.n) if isinstance(a.n, int) else a.n)
        p.prove('one value per requested frequency', z3.And(nn(spec) == nn(want), nn(fr) == nn(want)))
        idx = [z3.IntVal(0), z3.IntVal(1)] if want.concrete else [z3.Int(p.fresh('i'))]
        for i in idx:
            if not want.concrete: p.assume(z3.And(i >= 0, i < nn(want)))
            p.prove('the requested frequencies are reported', same(fr.at(i), want.at(i)))
            p.prove('the spectrum is the interpolated power in the requested form', same(spec.at(i), tr(at(want.at(i)))))
    else:
        p.prove('the requested frequencies are reported', same(fr, want))
        p.prove('the spectrum is the interpolated power in the requested form', same(spec, tr(at(want))))
    nz = r['noise']
    if band == 'both':
        p.prove('the band noise is the integral over the band in the requested form', same(nz, tr(integral(type('S', (), {'lo': lo, 'hi': hi}), kw['freq_min'], kw['freq_max']))))
    else:
        p.prove('without a band the band noise is undefined', tobool(E.isnan(nz)))

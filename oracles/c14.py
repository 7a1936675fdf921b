import sys, os, math, random
sys.path.insert(0, os.path.dirname(__file__))
from orc import *
import numpy as np

MODELS = {'low': 'min', 'min': 'min', 'med': 'med', 'medium': 'med', 'high': 'max', 'hi': 'max', 'max': 'max'}
_tab = {}
def table(fn, col):
    """the packaged table, read here independently: frequencies, power"""
    if (fn, col) not in _tab:
        import gemlog
        d = os.path.join(os.path.dirname(gemlog.__file__), 'data', 'noise')
        if fn == 'gem':
            rows = [[float(v) for v in l.split(',')] for l in open(os.path.join(d, 'Gem_v0.98_Noise_spec.txt')).read().split('\n')[1:] if l.strip()]
            _tab[fn, col] = np.array([r[0] for r in rows]), np.array([r[1] for r in rows]) ** 2
        else:
            rows = [[float(v) for v in l.split()] for l in open(os.path.join(d, 'IMSNOISE_MIN_MED_MAX.txt')) if l.strip()]
            j = ['min', 'med', 'max'].index(col) + 1
            _tab[fn, col] = np.array([r[0] for r in rows]), 10 ** np.array([r[j] for r in rows])
    return _tab[fn, col]
_coef = {}
def spline(fn, col):
    """not-a-knot cubic spline through the table (piecewise coefficients)"""
    if (fn, col) not in _coef:
        from scipy.interpolate import CubicSpline
        x, y = table(fn, col)
        c = CubicSpline(x, y)
        _coef[fn, col] = x, c.c
    return _coef[fn, col]
def value(fn, col, v):
    x, c = spline(fn, col)
    if not (x[0] <= v <= x[-1]): return math.nan
    i = min(max(int(np.searchsorted(x, v, 'right')) - 1, 0), len(x) - 2)
    d = v - x[i]
    return ((c[0][i] * d + c[1][i]) * d + c[2][i]) * d + c[3][i]
def band(fn, col, a, b):
    if b < a: return -band(fn, col, b, a)
    x, c = spline(fn, col)
    if not (x[0] <= a and b <= x[-1]): return math.nan
    tot = 0.
    for i in range(len(x) - 1):
        lo, hi = max(a, x[i]), min(b, x[i + 1])
        if hi <= lo: continue
        F = lambda d: (((c[0][i] / 4 * d + c[1][i] / 3) * d + c[2][i] / 2) * d + c[3][i]) * d
        tot += F(hi - x[i]) - F(lo - x[i])
    return tot
def tr(form, v):
    if math.isnan(v): return v
    if form == 'power': return v
    if form == 'amp': return math.sqrt(v) if v >= 0 else math.nan
    return 10 * math.log10(v) if v > 0 else (-math.inf if v == 0 else math.nan)
def same(a, b, form, scale=0.):
    a, b = float(a), float(b)
    if math.isnan(b) or math.isnan(a): return math.isnan(a) == math.isnan(b)
    if a == b: return True
    return abs(a - b) <= (1e-6 if form == 'dB' else 1e-7 * abs(b) + scale)
def number(s):
    try: return float(s)
    except (ValueError, TypeError): return math.nan

def check(case):
    import gemlog.gemlog_aux as x
    fn, form = case['fn'], case['spectype']
    L = form.lower()
    kind = 'power' if L == 'power' else 'amp' if L[:3] == 'amp' else 'dB' if L == 'db' else None
    kw = {k: case[k] for k in ('freq_min', 'freq_max') if k in case}
    fq = case.get('freq')
    if case.get('as_array') and isinstance(fq, list): fq = np.array(fq, dtype=float)
    if 'freq' in case: kw['freq'] = fq
    if fn == 'gem':
        col, known = 'amp', number(case['version']) >= .97
        f = lambda: x.gem_noise(spectype=form, version=case['version'], **kw)
        what = f"gem_noise(version={case['version']!r}, spectype={form!r}, {kw})"
    else:
        col = MODELS.get(case['model'].lower()); known = col is not None
        f = lambda: x.ims_noise(case['model'], spectype=form, **kw)
        what = f"ims_noise({case['model']!r}, spectype={form!r}, {kw})"
    what = what[:300]
    try: r = f()
    except KeyboardInterrupt: raise
    except BaseException as e:
        return [] if not (known and kind) else [('refused', f'{what} raised {e!r}')]
    if not known: return [('accepted:model', f'{what} accepted an unknown model or version')]
    if not kind: return [('accepted:type', f'{what} accepted an unknown spectrum type')]
    out = []
    u = {'power': ('Pa^2/Hz', 'Pa^2'), 'amp': ('Pa/sqrt(Hz)', 'Pa'), 'dB': ('dB Pa/sqrt(Hz)', 'dB Pa')}[kind]
    if (r['spectrum_units'], r['noise_units']) != u: out.append(('units', f"{what}: units {r['spectrum_units']!r}, {r['noise_units']!r}; expected {u}"))
    if r['type'] != form or r['freq_min'] != case.get('freq_min') or r['freq_max'] != case.get('freq_max', 50): out.append(('echo', f"{what}: reports type {r['type']!r}, band {r['freq_min']}..{r['freq_max']}"))
    want = list(table(fn, col)[0]) if case.get('freq') is None else case['freq']
    fr = np.atleast_1d(np.asarray(r['freqs'], dtype=float)); sp = np.atleast_1d(np.asarray(r['spectrum'], dtype=float))
    w = want if isinstance(want, list) else [want]
    if len(fr) != len(w) or any(a != b for a, b in zip(fr, w)): out.append(('freqs', f'{what}: frequencies {list(fr)[:5]}'))
    elif sp.shape != fr.shape: out.append(('length', f'{what}: {sp.shape} values for {len(w)} frequencies'))
    else:
        for a, v in zip(sp, w):
            e = tr(kind, value(fn, col, v))
            if not same(a, e, kind):
                out.append(('spectrum', f'{what}: spectrum at {v} Hz is {a}, expected {e}')); break
    lo, hi = case.get('freq_min'), case.get('freq_max', 50)
    e = math.nan if lo is None or hi is None else tr(kind, band(fn, col, lo, hi))
    if not same(r['noise'], e, kind, 1e-30): out.append(('noise', f"{what}: band noise {r['noise']}, expected {e}"))
    return out

def gen(rng, ctx):
    types = ['power', 'amp', 'dB', 'amplitude', 'Power', 'AMP', 'db', 'DB', 'Amp. density']
    models = ['low', 'min', 'med', 'medium', 'high', 'hi', 'max', 'LOW', 'Min', 'Med', 'MEDIUM', 'HIGH', 'Hi', 'Max']
    badm = ['', 'lo', 'mean', 'median', 'hig', 'minimum', 'maximum', 'l', 'noise', ' low', 'gem'] + [s for s in ctx.strs if len(s) < 10 and s.lower() not in MODELS][:30]
    badt = ['', 'pow', 'powe', 'am', 'a', 'decibel', 'psd', 'power ', 'dBs', 'd', 'xamp', 'rms'] + [s for s in ctx.strs if len(s) < 10 and s.lower() not in ('power', 'db') and s.lower()[:3] != 'amp'][:30]
    vers = ['1.0', '0.97', '0.98', '1.01', '0.970', '2', '10.0', 1.0, 0.97, 1]
    badv = ['0.96', '0.9', '0.85C', '', 'x', '0.969999', '-1', '0', 0.96, 'nan', '1.0.1', 'v1.0']
    def freqs(fn):
        x = table(fn, 'amp' if fn == 'gem' else 'min')[0]
        lo, hi = float(x[0]), float(x[-1])
        return [None, [1.0], [lo, hi], [lo - 1e-6, hi + 1e-6, 0.5], [0., 1e-4, .1, 1., 5., 9.9, 20., 49.9, 51.], sorted(rng.uniform(lo, hi) for _ in range(20)), [rng.uniform(-1, 60) for _ in range(15)],
                [float(x[3]), float(x[4]), (float(x[3]) + float(x[4])) / 2], []], lo, hi
    for fn in ('gem', 'ims'):
        fs, lo, hi = freqs(fn)
        bands = [{}, {'freq_min': .1, 'freq_max': 9.}, {'freq_min': lo, 'freq_max': hi}, {'freq_min': lo}, {'freq_min': 1., 'freq_max': None}, {'freq_min': None, 'freq_max': None}, {'freq_min': None, 'freq_max': 5.},
                 {'freq_min': .17, 'freq_max': .19}, {'freq_min': lo - 1e-3, 'freq_max': 5.}, {'freq_min': 1., 'freq_max': hi + 1e-3}, {'freq_min': 2., 'freq_max': 2.}, {'freq_min': 0, 'freq_max': 5}, {'freq_min': 1, 'freq_max': 5}, {'freq_min': .02, 'freq_max': .5}]
        names = [{'version': v} for v in vers] if fn == 'gem' else [{'model': m} for m in models]
        bad = [{'version': v} for v in badv] if fn == 'gem' else [{'model': m} for m in badm]
        n = 0
        for nm in names:
            for ty in types:
                n += 1
                for b in ([bands[0], bands[1 + n % (len(bands) - 1)]] if not ctx.thorough else bands):
                    c = dict(kind=fn, fn=fn, spectype=ty, **nm, **b)
                    f = fs[n % len(fs)]
                    yield dict(c, freq=f, as_array=bool(n % 2))
        for b in bands:
            for ty in ('power', 'amp', 'dB'):
                for nm in names[::4]: yield dict(kind=fn + ' band', fn=fn, spectype=ty, **nm, **b)
        for f in fs + [1., .25, hi, 70.]:
            for ty in ('power', 'amp', 'dB'):
                for nm in names[::5]: yield dict(kind=fn + ' freq', fn=fn, spectype=ty, freq=f, as_array=True, freq_min=.1, freq_max=5., **nm)
        for nm in bad:
            for ty in ('power', 'amp', 'dB'): yield dict(kind=fn + ' unknown', fn=fn, spectype=ty, **nm)
        for ty in badt: yield dict(kind=fn + ' type', fn=fn, spectype=ty, **names[0], freq=[1.])
        for _ in range(ctx.n(60, 600)):
            a, b = sorted([rng.uniform(lo, hi), rng.uniform(lo, hi)])
            yield dict(kind=fn + ' random', fn=fn, spectype=rng.choice(types), freq=[rng.uniform(lo - .1, hi + 1) for _ in range(rng.randint(1, 30))], as_array=True, freq_min=a, freq_max=b, **rng.choice(names))

def from_model(ob, m):
    for fn in ('gem', 'ims'):
        for ty in [m.get('spectype'), 'power', 'amp', 'dB']:
            if not isinstance(ty, str): continue
            for nm in ([{'version': v} for v in ('1.0', '0.97', '0.96')] if fn == 'gem' else [{'model': v} for v in (m.get('model'), 'low', 'med', 'high', 'x') if isinstance(v, str)]):
                for b in ({}, {'freq_min': 1., 'freq_max': 5.}): yield dict(kind='model', fn=fn, spectype=ty, freq=[.1, 1., 60.], **nm, **b)

if __name__ == '__main__':
    main(check, gen, from_model, rule='distinct (model or version, spectrum type, frequencies, band) calls compared with the packaged tables',
         bound='all model names and aliases, 10 versions, 9 type spellings, 9 frequency lists, 14 bands, unknown names from a list and from the source')

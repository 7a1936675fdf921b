import sys, os, math, random
sys.path.insert(0, os.path.dirname(__file__))
import numpy as np
from orc import *
import gemsim as S
CORR = 8.93
DT = S.DT

# ---- reference semantics of the property
class Marginal(Exception): pass
def near(a, b, tol):
    if abs(a - b) <= tol: raise Marginal
def lsq(x, y, deg):
    """least-squares polynomial, as a function; None when it is not determined"""
    if len(set(x)) <= deg: return None
    x0, y0, s = x.mean(), y.mean(), max(np.ptp(x), 1e-9) / 2
    A = np.vander((x - x0) / s, deg + 1)
    if np.linalg.cond(A) > 1e7: raise Marginal
    c = np.linalg.lstsq(A, y - y0, rcond=None)[0]
    return lambda v: np.polyval(c, (np.asarray(v, float) - x0) / s) + y0
def robust(x, y, deg, mad, log=None):
    while True:
        if not len(x): return None
        f = lsq(x, y, deg)
        if f is None: return None
        r = y - f(x)
        a, sd = np.abs(r), r.std()
        if sd > 0 and (np.abs(a - 4 * sd) < 1e-6 + 1e-4 * sd).any(): raise Marginal
        if sd < 2e-6 and len(x) > 1 and deg == 3: raise Marginal         # only rounding noise is left to judge by
        out = a > 4 * sd
        if not out.any():
            if mad < 1 and (np.abs(a - mad) < 2e-6).any(): raise Marginal
            out = a > mad
        if not out.any(): return f, x, y, r
        if log is not None: log.append(out.sum())
        x, y = x[~out], y[~out]

def verdict(x, y, first, last):
    """(accepted, fit usable, time function) with GPS required; the fit is what a lenient read would use"""
    if not len(x): return False, None, lambda v: 0.001024 * np.asarray(v, float)
    flat = lambda v: 0.001024 * np.asarray(v, float) + (y - 0.001024 * x).mean()
    span, gspan = 0.001024 * (last - first), y.max() - y.min()
    near(span, 2 * gspan, 1e-4)
    if not span < 2 * gspan: return False, None, flat
    ok = True
    r = robust(x, y, 1, np.inf)
    if r is None: ok = False
    else:
        j = np.abs(np.diff(r[3]))
        if (np.abs(j - .25) < 1e-5).any(): raise Marginal
        if (j > .25).any(): ok = False
    r = robust(x, y, 3, 0.01)
    if r is None: return False, None, flat
    near(last - first, 2 * np.ptp(r[1]), 1e-3)
    if len(r[1]) < 10 or last - first > 2 * np.ptp(r[1]): return False, None, flat
    return ok, r, r[0]

# ---- building files
def build(case, names=None):
    """write the files of a case; per file: fix counts and times, sample counts"""
    fmt = case['fmt']; R = S.ROLL[fmt]
    out = []
    for i, f in enumerate(case['files']):
        rng = random.Random(f['seed'])
        fn = f'FILE{i:04d}.' + ('TXT' if fmt == '0.8' else '077')
        per = DT * (1 + f['drift'])
        recs, _ = S.recording(rng, seconds=f['sec'], start_ms=f['start'], t0=f['t0'], fmt=fmt, period=per, no_gps=f.get('nogps', False), samples=(lambda k: 5) if fmt not in ('0.8', '0.85') else (lambda k: 5 * k),
                              meta_every=f.get('meta', 3.0), gps_from=f.get('from', 0.0), gps_to=f.get('to', 1e9))
        g = [r for r in recs if r[0] == 'G']
        for r in g:
            if f.get('jit'): r[1] = shifted(r[1], rng.uniform(-1, 1) * f['jit'], R, fmt)
        for (pos, kind, amount) in f.get('odd', []):
            if not g: continue
            k = int(pos * len(g)) if isinstance(pos, float) else pos
            k = max(-len(g), min(len(g) - 1, k))
            if kind == 'count': g[k][1] = shifted(g[k][1], amount, R, fmt)
            elif kind == 'time': settime(g[k], amount)
            elif kind == 'step':
                for r in g[k:]: r[1] = shifted(r[1], amount, R, fmt)
            elif kind == 'ramp':
                for q, r in enumerate(g): r[1] = shifted(r[1], amount * (q / len(g)) ** 2, R, fmt)
            elif kind == 'reverse':
                ts = [r[3:9] for r in g]
                for r, t in zip(g, ts[::-1]): r[3:9] = t
        if f.get('thin'):
            keep = set(id(r) for q, r in enumerate(g) if q % f['thin'] == 0)
            recs = [r for r in recs if r[0] != 'G' or id(r) in keep]; g = [r for r in g if id(r) in keep]
        S.write(fn, fmt, '077', recs)
        out.append((fn, f, recs))
    return out
def shifted(ms, d, R, fmt):
    v = (ms + d) % R
    return round(v, 3) % R if fmt in ('0.91', '1.10') else int(round(v)) % R
def settime(r, d):
    t = S.fix_time(dict(zip(['year', 'month', 'day', 'hour', 'minute', 'second'], r[3:9]))) + d
    r[3:9] = list(S.utc(t))
def truth(recs, R):
    un = S.unroll([r[1] for r in recs], R, 0)
    x = np.array([u for u, r in zip(un, recs) if r[0] == 'G'], float)
    y = np.array([S.fix_time(dict(zip(['year', 'month', 'day', 'hour', 'minute', 'second'], r[3:9]))) for r in recs if r[0] == 'G'], float)
    d = np.array([u for u, r in zip(un, recs) if r[0] == 'D'], float) + CORR
    m = np.array([u for u, r in zip(un, recs) if r[0] == 'M'], float)
    return x, y, d, m

def coef(h, v):
    v = np.asarray(v, float)
    return float(h['drift_deg0']) + float(h['drift_deg1']) * v + float(h['drift_deg2']) * v ** 2 + float(h['drift_deg3']) * v ** 3

def check(case):
    try: return {'regress': check_regress, 'drift': check_drift, 'gem': check_gem, 'segments': check_segments, 'table': check_table}[case['kind']](case)
    except Marginal: return []

def check_regress(case):
    import gemlog.core as c
    import pandas as pd
    f = getattr(c, '_robust_regress', None)
    if f is None: raise OracleSkip
    rng = np.random.default_rng(case['seed'])
    n = case['n']
    x = np.cumsum(rng.uniform(.5, 1.5, n)) * 976.56 + case['x0']
    y = case['y0'] + .001024 * x + case['curve'] * ((x - x[0]) / 1e6) ** 2 + rng.normal(0, case['noise'], n)
    for (k, a) in case['odd']: y[k % n] += a
    try: ref = robust(x, y, 3, .01)
    except Marginal: return []
    try: r = f(pd.Series(x), pd.Series(y))
    except Exception as e: return [] if ref is None else [('regression fails', f'{type(e).__name__}: {e} for {n} fixes of which {len(ref[1])} remain')]
    if ref is None: return []
    bad = []
    kx = np.asarray(r[4], float)
    if len(kx) != len(ref[1]) or not np.array_equal(kx, ref[1]): bad.append(('kept fixes', f'{n} fixes with outliers {case["odd"]}: keeps {len(kx)}, the rule keeps {len(ref[1])}'))
    else:
        reg = np.asarray(r[0], float)
        if len(reg) != 4: bad.append(('degree', f'{len(reg)} coefficients'))
        elif np.abs(np.polyval(reg, kx) - ref[0](kx)).max() > 3e-5: bad.append(('fit', f'coefficients differ from the least-squares cubic of the fixes kept by {np.abs(np.polyval(reg, kx) - ref[0](kx)).max()} s'))
        if r[1] != len(kx): bad.append(('count', f'{r[1]} fixes reported, {len(kx)} kept'))
        if abs(r[2] - np.abs(ref[3]).max()) > 3e-5: bad.append(('largest residual', f'{r[2]} reported, {np.abs(ref[3]).max()}'))
    return bad

def check_drift(case):
    import gemlog.core as c
    f = getattr(c, '_read_several', None)
    if f is None: raise OracleSkip
    fmt, require = case['fmt'], case['require']; R = S.ROLL[fmt]
    files = build(case)
    fn, spec, recs = files[0]
    x, y, d, m = truth(recs, R)
    ok, fit, time = verdict(x, y, d[0], d[-1])
    L = f([fn], require_gps=require, **({'version': fmt} if fmt in ('0.85', '0.8') else {}))
    P = list(L['problems'])
    what = f'{fmt}, {len(x)} fixes over {y[-1] - y[0] if len(y) else 0:.0f} s, data over {(d[-1] - d[0]) * DT:.1f} s, {spec.get("odd")}'
    if P and not require: return [('refused', f'{what}: refused though GPS is not required: {P}')]
    if require and bool(P) == ok: return [('refused' if ok else 'accepted', f'{what}: ' + (f'refused: {P}' if ok else 'accepted, though it does not meet the conditions'))]
    if P: return []
    bad = []
    h = L['header'].iloc[0]
    sh = round((float(h['start_ms']) - d[0]) / R) * R
    if abs(float(h['start_ms']) - d[0] - sh) > 1e-6 or abs(float(h['end_ms']) - d[-1] - sh) > 1e-6: bad.append(('range', f'{what}: header counts {h["start_ms"]}..{h["end_ms"]}'))
    t, want = coef(h, d + sh), time(d)
    if np.abs(t - want).max() > 1e-4: bad.append(('coefficients', f'{what}: times by the drift coefficients differ from the ' + ('fit of the fixes kept' if fit else 'default drift') + f' by {np.abs(t - want).max():.6f} s'))
    if case.get('single') and len(files) == 1:
        g = getattr(c, '_convert_one_file', None)
        if g is None: return bad
        import obspy
        try: g(fn, 'out.mseed', require_gps=require)
        except Exception as e: return bad + [('single file', f'{what}: {type(e).__name__}: {e}')]
        st = obspy.read('out.mseed')
        bad += traces(st, want, np.arange(1, len(d) + 1) * 5 if fmt not in ('0.8', '0.85') else np.arange(len(d)) * 5, 'single file ' + what)
    return bad

def traces(st, t, v, what):
    bad = []
    a, b = min(float(tr.stats.starttime.timestamp) for tr in st), max(float(tr.stats.endtime.timestamp) for tr in st)
    if abs(a - t[0]) > .021 or abs(b - t[-1]) > .031: bad.append(('sample times', f'{what}: data from {a - t[0]:+.3f} s after the first sample to {b - t[-1]:+.3f} s after the last'))
    for tr in st:
        tt = float(tr.stats.starttime.timestamp) + np.arange(tr.stats.npts) * tr.stats.delta
        w = (tt >= t[0]) & (tt <= t[-1])
        e = np.abs(tr.data[w] - np.interp(tt[w], t, v))
        if len(e) and e.max() > 1.6: bad.append(('sample times', f'{what}: samples are off by {e.max() / 5 * .01:.3f} s')); break
    return bad

def check_table(case):
    """_calculate_drift on a table of fixes: few fixes, wide spacings, backward steps, slight cubic terms"""
    import gemlog.core as c, inspect
    import pandas as pd
    f = getattr(c, '_calculate_drift', None)
    if f is None or len(inspect.signature(f).parameters) != 3: raise OracleSkip
    n, rng = case['n'], np.random.default_rng(case['seed'])
    x = case['x0'] + np.arange(n) * case['gap'] + np.round(rng.uniform(-.3, .3, n) * case['gap'])
    u = (x - x[0]) / max(x[-1] - x[0], 1) * 2 - 1
    y = 1592630400. + .001024 * (x - x[0]) + case['sq'] * u ** 2 + case['cub'] * u ** 3 + rng.uniform(-1, 1, n) * case['noise']
    for k, a in case['steps']: y[k % n:] += a
    for k, a in case['odd']: y[k % n] += a
    first, last = x[0] - case['before'] * np.ptp(x), x[-1] + case['after'] * np.ptp(x)
    L = {'gps': pd.DataFrame({'msPPS': x, 'msLag': 0., 'year': 2020., 'month': 6., 'day': 20., 'hour': 0., 'minute': 0., 'second': 0., 'lat': 40., 'lon': -105., 't': y}), 'data': np.array([[first, 1.], [(first + last) / 2, 2.], [last, 3.]])}
    ok, fit, time = verdict(x, y, first, last)
    what = f'{n} fixes {case["gap"]} counts apart, steps {case["steps"]}, outliers {case["odd"]}, curvature {case["sq"]}, {case["cub"]}'
    try: h = f(L, 'FILE0000.077', case['require'])
    except c.CorruptRawFile as e: return [('refused', f'{what}: refused: {e}')] if ok or not case['require'] else []
    except Exception as e: return [('refused', f'{what}: {type(e).__name__}: {e}')] if ok or not case['require'] else []
    if case['require'] and not ok: return [('accepted', f'{what}: accepted, though it does not meet the conditions')]
    if h['start_ms'] != first or h['end_ms'] != last: return [('range', f'{what}: header counts {h["start_ms"]}..{h["end_ms"]}, data {first}..{last}')]
    v = np.linspace(first, last, 7)
    e = np.abs(coef(h, v) - time(v)).max()
    return [('coefficients', f'{what}: times by the drift coefficients differ from the ' + ('fit of the fixes kept' if fit else 'default drift') + f' by {e:.6f} s')] if e > 1e-4 else []

def check_gem(case):
    import gemlog
    fmt = case['fmt']; R = S.ROLL[fmt]; require = case['require']
    os.mkdir('raw'); os.chdir('raw')
    files = build(case); os.chdir('..')
    ref = []
    for fn, spec, recs in files:
        x, y, d, m = truth(recs, R)
        ref.append((verdict(x, y, d[0], d[-1]), x, y, d, m))
    keep = [i for i, r in enumerate(ref) if r[0][0] or not require]
    try: L = gemlog.read_gem('raw', SN='077', bitweight=1, require_gps=require)
    except gemlog.CorruptRawFile as e:
        return [('refused', f'read_gem refuses {len(keep)} acceptable file(s) of {len(ref)}: {e}')] if keep else []
    if not keep: return [('accepted', 'read_gem accepts files of which none meets the conditions')]
    H, M = L['header'], L['metadata']
    bad, k, ts, vs = [], 0, [], []
    for i, (v, x, y, d, m) in enumerate(ref):
        h = H.iloc[i]
        if i not in keep:
            if not math.isnan(float(h['t1'])) or not math.isnan(float(h['t2'])): bad.append(('header times', f'refused file {i} has times {h["t1"]}..{h["t2"]}'))
            continue
        sh = float(h['start_ms']) - d[0]
        for key, j in (('t1', 0), ('t2', -1)):
            if not abs(float(h[key]) - v[2](d[j])) <= 2e-4: bad.append(('header times', f'file {i} of {len(ref)}: header {key} {h[key]}, by the fit {float(v[2](d[j]))}'))
        mm = M.iloc[k:k + len(m)]; k += len(m)
        got, cnt = mm['t'].to_numpy(float), mm['millis'].to_numpy(float)
        inside = (m >= d[0]) & (m <= d[-1])
        other = [(float(H.iloc[q]['start_ms']), float(H.iloc[q]['end_ms'])) for q in keep if q != i]
        for g, c_, u, ins in zip(got, cnt, m, inside):
            if ins:
                if any(a <= c_ <= b for a, b in other): continue
                if not abs(g - v[2](u)) <= 2e-4: bad.append(('metadata times', f'file {i} of {len(ref)}: metadata time {g}, by its own fit {float(v[2](u))}')); break
            elif not any(a <= c_ <= b for a, b in other) and not math.isnan(g): bad.append(('metadata times', f'file {i}: metadata outside all files has time {g}')); break
        ts.append(v[2](d)); vs.append(np.arange(1, len(d) + 1) * 5 if fmt not in ('0.8', '0.85') else np.arange(len(d)) * 5)
    if bad: return bad
    order = all(a[-1] < b[0] for a, b in zip(ts, ts[1:]))
    if order:
        st = L['data']
        for t, v in zip(ts, vs):
            part = st.slice(*[__import__('obspy').UTCDateTime(float(q)) for q in (t[0] - .004, t[-1] + .004)])
            if not part: bad.append(('sample times', 'no samples at the times of a file')); break
            if len(ts) == 1 or all(min(abs(t[0] - u[-1]), abs(t[-1] - u[0])) > .05 for u in ts if u is not t): bad += traces(part, t, v, f'{len(files)} file(s)')
    return bad

def check_segments(case):
    import gemlog.core as c
    import pandas as pd
    f = getattr(c, '_apply_segments', None)
    if f is None: raise OracleSkip
    rng = np.random.default_rng(case['seed'])
    n = case['n']
    e = np.sort(rng.choice(np.arange(0, 40 * n + 40), 2 * n, replace=False)).astype(float) * 25
    a, b = e[::2].copy(), e[1::2].copy()
    for k in case['unread']: a[k % n] = b[k % n] = np.nan
    H = pd.DataFrame({'start_ms': a, 'end_ms': b, **{f'drift_deg{k}': rng.normal(size=n) * [1e9, 1e-3, 1e-10, 1e-16][k] for k in range(4)}})
    x = np.sort(np.concatenate([rng.uniform(-100, 40 * n * 25 + 1100, case['m']), a[~np.isnan(a)], b[~np.isnan(b)]]))
    y = np.asarray(f(pd.Series(x) if case['series'] else x, H), float)
    want = np.full(len(x), np.nan)
    for i in range(n):
        w = (x >= a[i]) & (x <= b[i]); want[w] = coef(H.iloc[i], x[w])
    if len(y) != len(x): return [('segments', f'{len(y)} times for {len(x)} counts')]
    bad = [j for j in range(len(x)) if not (math.isnan(y[j]) and math.isnan(want[j]) or abs(y[j] - want[j]) <= 1e-5)]
    return [('segments', f'count {x[bad[0]]} of {n} files {list(zip(a, b))[:4]}: time {y[bad[0]]}, should be {want[bad[0]]}')] if bad else []

def one(rng, **k):
    f = {'sec': rng.choice([14, 20, 30, 45]), 'start': rng.randrange(3000), 't0': 1592630400.0 + rng.random() * 1e6, 'drift': rng.choice([0, 2e-5, -3e-5]), 'seed': rng.randrange(10**9), 'jit': rng.choice([0, .2, .5, 1.5])}
    f.update(k); return f

def gen(rng, ctx):
    fm = ['0.91', '0.9', '1.10', '0.85C', '0.85', '0.8']
    N = ctx.n(60, 700)
    for it in range(N):
        n = rng.choice([5, 9, 10, 11, 12, 15, 20, 40, 120])
        yield {'kind': 'regress', 'seed': rng.randrange(10**9), 'n': n, 'x0': rng.choice([0, 100, 8e6]), 'y0': rng.choice([1.5926304e9, 0]), 'curve': rng.choice([0, 2e-3, 1e-1]),
               'noise': rng.choice([1e-4, 1e-3, 3e-3, 6e-3]), 'odd': [[rng.randrange(n), rng.choice([.012, .02, -.05, 1, -1, 86400, .009])] for _ in range(rng.choice([0, 1, 2, 4]))]}
        yield {'kind': 'segments', 'seed': rng.randrange(10**9), 'n': rng.choice([1, 2, 3, 8]), 'm': rng.choice([1, 5, 40]), 'series': it % 2 == 0, 'unread': [rng.randrange(8) for _ in range(rng.choice([0, 0, 1, 2]))]}
        n = rng.choice([7, 8, 9, 10, 11, 12, 16, 20, 25, 60])
        t = {'kind': 'table', 'seed': rng.randrange(10**9), 'n': n, 'gap': rng.choice([976, 20000, 600000]), 'x0': rng.choice([0, 1000, 5000000]), 'sq': 0, 'cub': 0, 'noise': rng.choice([2e-4, 1e-3]), 'steps': [], 'odd': [], 'before': rng.choice([0, .02, .2]), 'after': rng.choice([0, .02, .2]), 'require': it % 4 != 1}
        k = it % 7
        if k == 1: t.update(sq=rng.choice([.2, .5, 2, -3]))
        elif k == 2: t.update(steps=[[rng.randrange(1, n), rng.choice([.3, -.3, .5, -.5, 2, -2])]], n=rng.choice([n, 40, 100]))
        elif k == 3: t.update(cub=rng.choice([.005, .02, .05, -.1]), n=rng.choice([n, 60]))
        elif k == 4: t.update(odd=[[rng.randrange(n), rng.choice([.02, -.05, .6, 1, -1, 3600])] for _ in range(rng.choice([1, 2, 3]))], n=n + rng.choice([0, 1, 2, 20]))
        elif k == 5: t.update(before=rng.choice([.3, .8, 1.1]), after=rng.choice([0, .3, 1.1]))
        elif k == 6: t.update(noise=rng.choice([.004, .008, .012, .05]), require=it % 2 == 0)
        yield t
        fmt = fm[it % 6]
        k = it % 15
        f = one(rng)
        if fmt in ('0.9', '0.85', '0.8', '0.85C'): f['jit'] = 0
        req = it % 4 != 3
        late = rng.choice([20, 30, 45, 60])
        if k == 0: pass
        elif k == 1: f.update(sec=late, odd=[[0, 'time', rng.choice([86400, 3600, 10000])]], to=rng.choice([late * .45, late * .9]), meta=10.0)
        elif k == 2: f.update(sec=60, odd=[[-1, 'time', rng.choice([1, 86400])], [0, 'time', -rng.choice([1, 86400])]], **{'from': 0, 'to': rng.choice([24, 34, 50])})
        elif k == 3: f.update(sec=rng.choice([30, 45]), odd=[[rng.choice([.3, .5, .8]), 'step', rng.choice([150, 230, 260, 300, -260, -1000])]])
        elif k == 4: f.update(sec=30, to=rng.choice([5, 10, 13, 14, 15.5, 16.5, 20]))
        elif k == 5: f.update(sec=30, odd=[[rng.random(), 'count', rng.choice([9, 11, 14, 40, -25, 200])] for _ in range(rng.choice([1, 2, 3]))])
        elif k == 6: f.update(sec=rng.choice([10, 11, 12, 14]), odd=[[rng.random(), 'count', rng.choice([20, 40, -60])] for _ in range(rng.choice([0, 1, 2]))])
        elif k == 7: f.update(nogps=True)
        elif k == 8: f.update(sec=30, odd=[[0, 'reverse', 0]])
        elif k == 9: f.update(sec=30, odd=[[0, 'ramp', rng.choice([20, 60, 200, -100])]])
        elif k == 10: f.update(sec=40, odd=[[q, 'count', rng.choice([8, 15, 30, -30])] for q in rng.sample(range(40), rng.choice([2, 6, 12]))])
        elif k == 11: f.update(sec=rng.choice([24, 40]), thin=rng.choice([2, 3, 4]))
        elif k == 12: f.update(sec=60, odd=[[q, 'time', rng.choice([1, 60])] for q in rng.choice([[0], [-1], [0, 1], [-1, -2], [0, 1, -1]])], to=rng.choice([28, 31, 31.5, 33, 60]), meta=20.0)
        elif k == 13: f.update(sec=30, jit=rng.choice([3, 8, 12]) if fmt in ('0.91', '1.10') else 0)
        elif k == 14: f.update(sec=20, **{'from': rng.choice([3, 8, 9, 11]), 'to': 19.5})
        yield {'kind': 'drift', 'fmt': fmt, 'files': [f], 'require': req, 'single': it % 5 == 2 and fmt not in ('0.85', '0.8')}
        if k in (2, 12) : yield {'kind': 'drift', 'fmt': '0.91', 'files': [one(rng, sec=60, odd=[[q, 'time', 1] for q in range(rng.choice([1, 2]))] + ([[-1, 'time', 1]] if rng.random() < .5 else []), to=rng.choice([30.5, 31.5, 32.5]), meta=20.0)], 'require': True}
        if it % 3 == 0:
            t = 1592630400.0 + rng.random() * 1e6
            fs, start = [], rng.randrange(3000)
            for q in range(rng.choice([1, 2, 3, 4])):
                sec = rng.choice([14, 16, 20])
                g = one(rng, sec=sec, t0=t, start=start, jit=0, drift=[2e-5, -3e-5, 0][q % 3])
                w = rng.random()
                if w < .15: g['nogps'] = True
                elif w < .3: g['to'] = 5
                elif w < .4: g['odd'] = [[.5, 'step', 400]]
                fs.append(g)
                gap = rng.choice([0, 3, 40])
                t += sec + gap
                start = int(start + (sec + gap) / DT) % 8192 if rng.random() < .6 else rng.randrange(8192)
            if rng.random() < .7 or len(fs) == 1: yield {'kind': 'gem', 'fmt': fmt if fmt != '0.8' else '0.9', 'files': fs, 'require': True}
            else:
                for g in fs: g.pop('odd', None); g.pop('nogps', None)
                yield {'kind': 'gem', 'fmt': fmt if fmt != '0.8' else '0.9', 'files': fs, 'require': False}

if __name__ == '__main__':
    main(check, gen, None, rule='distinct fix series, headers and raw files', bound='5-140 fixes with up to 12 outliers; recordings of 10-60 s with outlying, stepped, reversed, missing or late fixes; lists of up to 4 files; headers of up to 8 files')

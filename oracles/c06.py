import sys, os, math, random
sys.path.insert(0, os.path.dirname(__file__))
import numpy as np
from orc import *

def core():
    import gemlog.core as c
    return c

def series(case):
    """times (None = undefined) and values"""
    rng = random.Random(case['seed'])
    t, out = case['t0'], []
    iv = {i: d for i, d in case['intervals']}
    for i in range(case['n']):
        out.append(t + case['jit'] * (rng.random() - .5))
        t += iv.get(i, case['dt'])
    for i in case['nan']:
        if i < len(out): out[i] = float('nan')
    v, x = [], 0
    for i in range(case['n']):
        x = rng.randint(-case['amp'], case['amp']) if case['rough'] else max(-2 ** 23, min(2 ** 23, x + rng.randint(-case['amp'], case['amp'])))
        v.append(x)
    return np.array(out), np.array(v, dtype=float)

def runs_of(t, p):
    ok = ~np.isnan(t); t, p = t[ok], p[ok]
    d = np.diff(t)
    if np.any(np.abs(d - .025) < 2e-6) or np.any((d != 0) & (np.abs(d) < 1e-4)): raise OracleSkip
    cut = [0] + [i + 1 for i in range(len(d)) if not 0 < d[i] <= .025] + [len(t)]
    return [(t[a:b], p[a:b]) for a, b in zip(cut, cut[1:])]

def check(case):
    c = core()
    import scipy.interpolate, obspy
    k = case['kind']
    if k == 'interp':
        t, p = series(case)
        R = runs_of(t, p)
        if not R or all(len(r[0]) == 0 for r in R): raise OracleSkip
        what = f'{len(t)} samples from {t[~np.isnan(t)][0]!r} in {len(R)} run(s), intervals {case["intervals"][:5]}, undefined {case["nan"][:4]}'
        D = np.vstack((np.arange(len(t)), p, t)).T
        try: st = c._interp_time(D)
        except Exception as e: return [('crash', f'{what}: {type(e).__name__}: {e}')]
        bad = []
        used = {}
        for tr in st:
            s = tr.stats
            if abs(s.delta - .01) > 1e-12 or s.npts == 0: return [('regular', f'{what}: trace with interval {s.delta} and {s.npts} samples')]
            ns = s.starttime.ns; us = round(ns / 1000)
            if us % 10000 or abs(ns - us * 1000) > 300: return [('grid', f'{what}: trace starts at {s.starttime!r}, off the 0.01 s grid')]
            T = np.round(us / 1e6 + np.arange(s.npts) * .01, 2)
            v = np.asarray(tr.data)
            best = None
            for i, (rt, rp) in enumerate(R):
                if len(rt) < 2 or i in used: continue
                if T[0] < rt[0] - .0050005 or T[-1] > rt[-1] + .0050005: continue
                f = scipy.interpolate.CubicSpline(rt, rp)
                tol = .5 + 1e-6 * float(np.max(np.abs(rp)) + 1) + 1e-6 * float(np.max(np.abs(np.diff(rp))))
                if v.dtype.kind == 'i': e = np.max(np.abs(f(T) - v)) / tol
                else: e = float('inf')
                later = i > max(used, default=-1)
                if best is None or (e > 1, not later, e) < best[2]: best = (e, i, (e > 1, not later, e))
            if best is None: return [('span', f'{what}: a trace of {s.npts} samples from {T[0]!r} to {T[-1]!r} lies in no uninterrupted run (or only one that gives another trace); runs {[(float(r[0][0]), float(r[0][-1])) for r in R][:6]}')]
            if best[0] > 1: return [('value', f'{what}: trace from {T[0]!r} to {T[-1]!r} differs from the rounded spline of its run')]
            used[best[1]] = T
        for i, (rt, rp) in enumerate(R):
            if rt[-1] - rt[0] < .0100005: continue
            if i not in used: return [('lost', f'{what}: the run of {len(rt)} samples from {float(rt[0])!r} to {float(rt[-1])!r} is not in the output')]
            T = used[i]
            if T[0] > rt[0] + .0250005 or T[-1] < rt[-1] - .0250005: return [('cover', f'{what}: the run from {float(rt[0])!r} to {float(rt[-1])!r} is only covered from {T[0]!r} to {T[-1]!r}')]
        return bad
    if k == 'merge':
        st = obspy.Stream()
        rec = {}
        base = case['t0']
        rng = random.Random(case['seed'])
        for off, n in case['traces']:
            d = np.array([rng.randint(-2 ** 23, 2 ** 23) for _ in range(n)], dtype='int32')
            if case['same']: d = np.array([(off + i) * 37 % 1001 for i in range(n)], dtype='int32')
            tr = obspy.Trace(d); tr.stats.delta = .01; tr.stats.channel = 'HDF'; tr.stats.station = 'STA'; tr.stats.network = 'XX'
            tr.stats.starttime = base + off * .01 if case['float'] else obspy.UTCDateTime(ns=round(base * 100 + off) * 10 ** 7)
            for i in range(n): rec.setdefault(off + i, set()).add(int(d[i]))
            st += tr
        what = f'traces (start in samples, length) {case["traces"]}'
        try: out = c._merge_gaps(st)
        except Exception as e: return [('merge crash', f'{what}: {type(e).__name__}: {e}')]
        got = {}
        for tr in out:
            if np.ma.isMaskedArray(tr.data): return [('masked', f'{what}: masked samples')]
            if tr.stats.delta != .01 or tr.id != 'XX.STA..HDF': return [('codes', f'{what}: {tr}')]
            o = round((tr.stats.starttime.ns / 1e9 - base) * 100)
            for i, x in enumerate(np.asarray(tr.data)):
                if o + i in got: return [('merged twice', f'{what}: sample {o + i} is in two traces')]
                got[o + i] = x
        for i, vs in rec.items():
            if i not in got: return [('recorded lost', f'{what}: the sample recorded at {i} is lost')]
            if int(got[i]) not in vs or got[i] != int(got[i]): return [('recorded changed', f'{what}: the sample recorded at {i} is {sorted(vs)}, becomes {got[i]}')]
        ri = sorted(rec)
        import bisect
        for i in got:
            if i in rec: continue
            j = bisect.bisect(ri, i)
            if j == 0 or j == len(ri): return [('outside', f'{what}: sample {i} outside the recorded ones')]
            if ri[j] - ri[j - 1] > 3: return [('bridged', f'{what}: the gap from {ri[j - 1]} to {ri[j]} is bridged')]
            if not min(min(rec[ri[j]]), min(rec[ri[j - 1]])) - 1 <= got[i] <= max(max(rec[ri[j]]), max(rec[ri[j - 1]])) + 1: return [('bridge value', f'{what}: sample {i} in a short gap is {got[i]}')]
        return []
    raise OracleSkip

T0S = [1600000000.0, 1600000000.005, 1592630482.3371, 1600000000.015, 1500000000.025, 1600000000.99, 1600000000.9951, 100000.005, 1577836799.98, 1.7e9 + 1 / 3]
def case(t0, n, iv=(), nan=(), dt=.01, jit=0., amp=1000, rough=False, seed=0):
    return {'kind': 'interp', 't0': t0, 'n': n, 'intervals': [list(x) for x in iv], 'nan': list(nan), 'dt': dt, 'jit': jit, 'amp': amp, 'rough': rough, 'seed': seed}
def gen(rng, ctx):
    for i in (0, 1, 50, 97, 98):
        for d in (.0249, .0251, .03, .05, 1, 3600, -.003, -.004, -.015, -.5, -100, 0.):
            yield case(1600000000.003, 100, [(i, d)])
    for t0 in T0S: yield case(t0, 60); yield case(t0, 60, dt=.0100003, jit=.0004); yield case(t0, 60, [(20, .1005)], dt=.0099997)
    for q in range(0, 40): yield case(1600000000 + q * .00025, 30, seed=q)
    for n in (1, 2, 3, 4):
        yield case(1600000000., n)
        yield case(1600000000., n, dt=.006)
        yield case(1600000000., 40 + n, [(39, 1.)]); yield case(1600000000., 40 + n, [(39, 1.)], dt=.0061)
        yield case(1600000000., 40 + n, [(n - 1, 1.)]); yield case(1600000000., 60 + n, [(29, 1.), (29 + n, 2.)])
        yield case(1600000000., 60 + n, [(29, 1.), (29 + n, 2.)], dt=.0047)
    yield case(1600000000., 50, nan=range(0, 10)); yield case(1600000000., 50, nan=range(40, 50)); yield case(1600000000., 50, nan=[20]); yield case(1600000000., 50, nan=[20, 21])
    for tr in ([[0, 10], [10, 10]], [[0, 10], [11, 10]], [[0, 10], [12, 10]], [[0, 10], [13, 10]], [[0, 10], [14, 5]], [[0, 10], [9, 5]], [[0, 10], [5, 10]], [[100, 10], [0, 10]], [[100, 10], [0, 10], [10, 5]], [[0, 100], [20, 10]], [[0, 1], [2, 1], [5, 1]],
               [[0, 5], [7, 5], [14, 5], [1000, 3]], [[0, 10], [30, 10], [12, 5]], [[0, 5]], [[0, 10], [20, 10], [10, 10]], [[50, 20], [10, 50]]):
        for same in (0, 1):
            for fl in (0, 1): yield {'kind': 'merge', 't0': 1600000000.37, 'traces': tr, 'same': same, 'float': fl, 'seed': 1}
    yield {'kind': 'merge', 't0': 1600000000., 'traces': [], 'same': 0, 'float': 0, 'seed': 1}
    for i in range(ctx.n(260, 6000)):
        n = rng.choice([20, 60, 200, 1000])
        iv = sorted({rng.randrange(n): rng.choice([.02, .0245, .0255, .03, .04, .1, .5049, 1, 60, 7200, -.002, -.0099, -.02, -.3, -30, 0., rng.uniform(-.1, .1)]) for _ in range(rng.choice([0, 0, 1, 2, 5, 12]))}.items())
        nan = sorted(rng.sample(range(n), rng.choice([0, 0, 1, 4]))) if rng.random() < .7 else list(range(*sorted(rng.sample(range(n), 2))))
        yield case(rng.choice(T0S + [rng.uniform(1e9, 2e9), round(rng.uniform(1e9, 2e9), 3)]), n, iv, nan, rng.choice([.01, .01, .01 * (1 + rng.uniform(-1e-4, 1e-4)), .012, .005, .02]), rng.choice([0, 0, .0005, .002]), rng.choice([1] * all(d > 0 for _, d in iv) + [1000, 2 ** 22]), rng.random() < .4, rng.randrange(10 ** 6))
        if i % 2 == 0:
            trs, o = [], 0
            for _ in range(rng.randint(1, 6)):
                m = rng.choice([1, 2, 5, 20])
                trs.append([o, m]); o += m + rng.choice([0, 0, 1, 2, 3, 4, 100] + ([-1, -3, -30, -200] if rng.random() < .3 else []))
            if rng.random() < .15: rng.shuffle(trs)
            yield {'kind': 'merge', 't0': rng.choice([1600000000.37, 1592630482.]), 'traces': trs, 'same': rng.randint(0, 1), 'float': rng.randint(0, 1), 'seed': rng.randrange(10 ** 6)}
if __name__ == '__main__': main(check, gen, None, rule='time series with gaps, backward steps, repeated and undefined times, runs of every length at both ends; streams of up to 7 traces with gaps, overlaps and any order', bound='up to 1000 samples, traces of up to 100 samples')

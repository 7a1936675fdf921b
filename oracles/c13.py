import sys, os, math, random, re
sys.path.insert(0, os.path.dirname(__file__))
from orc import *
import numpy as np

T0 = '2020-05-01T00:00:00'
def wave(seed, n, dt, shift, fl, fh):
    """band-limited random signal sampled at dt, delayed by `shift` seconds (any real number)"""
    r = np.random.RandomState(seed)
    t = np.arange(n) * dt - shift
    y = np.zeros(n)
    for _ in range(40):
        f = r.uniform(fl, fh)
        y += np.cos(2 * np.pi * f * t + r.uniform(0, 6.3))
    return y * 100
def expected_windows(T, L, o):
    """starts of the windows, from the statement: equal spacing, first to last sample, fewest that overlap enough"""
    q = (T - L) / (L * (1 - o))
    n = 1 + max(0, math.ceil(q - 1e-6))
    alt = {n}
    if abs(q - round(q)) < 1e-5: alt |= {1 + max(0, round(q)), 1 + max(0, math.ceil(q))}
    return alt
def nan(x):
    try: return math.isnan(x)
    except TypeError: return False

def check(case):
    import obspy, pandas as pd, gemlog.xcorr as x
    k = case['kind']
    if k == 'windows':
        n, dt, L, o = case['npts'], case['dt'], case['win'], case['overlap']
        t0 = obspy.UTCDateTime(T0) + case.get('offset', 0)
        tr = obspy.Trace(np.arange(n, dtype=float)); tr.stats.delta = dt; tr.stats.starttime = t0
        T = tr.stats.endtime - t0
        calls = []
        def f(st, args):
            i = len(calls)
            calls.append((st[0].stats.starttime - t0, np.array(st[0].data), args) if len(st) else (None, np.array([]), args))
            d = {}
            if i % 3 != 1: d['a'] = i * 10.
            if i >= case.get('late', 2): d['b'] = -i * 1.
            d['c'] = i + .5
            return d
        tag = object()
        what = f'apply_function_windows({n} samples at {dt} s, window {L} s, overlap {o})'
        r = x.apply_function_windows(obspy.Stream([tr]), f, L, o, {'tag': tag})
        m = len(calls)
        if m not in expected_windows(T, L, o): return [('count', f'{what}: {m} windows, expected {sorted(expected_windows(T, L, o))}')]
        for i, (s, data, args) in enumerate(calls):
            st = i * (T - L) / (m - 1) if m > 1 else 0.
            lo, hi = math.ceil((st + 1e-5) / dt), math.ceil((st + L - 1e-5) / dt)     # samples certainly inside
            lo2, hi2 = math.ceil((st - 1e-5) / dt), math.ceil((st + L + 1e-5) / dt)
            got = [int(v) for v in data]
            if not got or not (lo2 <= got[0] <= lo) or not (min(hi, n) - 1 <= got[-1] <= min(hi2, n) - 1) or got != list(range(got[0], got[-1] + 1)):
                return [('window', f'{what}: window {i} of {m} has samples {got[:1]}..{got[-1:]}, expected {lo}..{min(hi, n) - 1}')]
            if not math.isclose(st, 0, abs_tol=1e-9) and abs(st / dt - round(st / dt)) < 1e-9 and got[0] != round(st / dt): return [('window', f'{what}: window {i} starts at sample {got[0]}, expected {round(st / dt)}')]
            q, dl = L / dt, (st / dt) % 1
            if abs(q - round(q)) < 1e-9 and (min(dl, 1 - dl) * dt < 1e-8 or .01 < dl < .99) and st + L < T + dt / 2 and len(got) != round(q):
                return [('window length', f'{what}: window {i} of {m} has {len(got)} samples, expected {round(q)}')]
            if args.get('tag') is not tag: return [('args', f'{what}: arguments not passed on')]
        want = {'a': [i * 10. if i % 3 != 1 else math.nan for i in range(m)], 'c': [i + .5 for i in range(m)]}
        if m > case.get('late', 2): want['b'] = [-i * 1. if i >= case.get('late', 2) else math.nan for i in range(m)]
        if set(r) != set(want) | {'t_mid'}: return [('columns', f'{what}: columns {sorted(r)}')]
        for q, w in want.items():
            g = list(r[q])
            if len(g) != m or any((nan(a) != nan(b)) or (not nan(a) and a != b) for a, b in zip(g, w)): return [('rows', f'{what}: column {q} = {g[:6]}, expected {w[:6]}')]
        for i in range(m):
            st = i * (T - L) / (m - 1) if m > 1 else 0.
            if len(r['t_mid']) != m or abs((obspy.UTCDateTime(r['t_mid'][i]) - t0) - (st + L / 2)) > 1e-5: return [('mid', f'{what}: mid time of window {i} is {r["t_mid"][i]}')]
        return []
    if k in ('validate', 'one_day'):
        v = {q: (math.nan if s == 'nan' else math.inf if s == 'inf' else s) for q, s in case['args'].items()}
        num = lambda s: isinstance(s, (int, float)) and not isinstance(s, bool)
        use = dict({'fl': 5, 'fh': 40, 'win_length_sec': 5, 'overlap': 0, 'upsample_ratio': 1}, **{q: s for q, s in v.items() if s is not None or k == 'validate'})
        fl, fh, w, o, u = (use[q] for q in ('fl', 'fh', 'win_length_sec', 'overlap', 'upsample_ratio'))
        isn = lambda s: num(s) and math.isnan(s)
        bad = not all(num(s) for s in (fl, fh, w, o, u)) or fl < 0 or fh < 0 or fl >= fh or not w > 0 or not 0 <= o < 1 or not u >= 1
        may = isn(fl) or isn(fh) or any(num(s) and math.isinf(s) for s in (fl, fh, w, o, u))       # not settled by the statement
        try:
            if k == 'validate': x._validate_inputs(fl, fh, w, o, u)
            else:
                st = obspy.Stream()
                for i in range(3):
                    tr = obspy.Trace(wave(5, 1200, .01, .1 * i, 5, 20)); tr.stats.delta = .01; tr.stats.station = f'A{i}'; st.append(tr)
                r = x.xcorr_one_day(st, v)
        except KeyboardInterrupt: raise
        except BaseException as e: return [] if bad or may else [('refused', f'{k} {case["args"]} raised {e!r}')]
        if bad and not may: return [('accepted', f'{k} accepted invalid values {case["args"]}')]
        if k == 'one_day':
            n = len(r)
            T = 11.99 if u == 1 else (math.ceil(1199 * u) - 1) * .01 / u
            if n not in expected_windows(T, w, o): return [('day windows', f'xcorr_one_day({case["args"]}): {n} windows, expected {expected_windows(T, w, o)}')]
            step = .01 / u
            for c in r.columns:
                if c.startswith('lag_'):
                    for s in r[c]:
                        if abs(s / step - round(s / step)) > 1e-6: return [('resolution', f'xcorr_one_day({case["args"]}): lag {s} is not a multiple of the sample interval {step}')]
        return []
    if k == 'pairs':
        from obspy.signal.cross_correlation import correlate
        rg = np.random.default_rng(case['seed']); n, m, dt, ms = case['n'], case['npts'], case['dt'], case['maxshift']
        sig = rg.normal(size=m + 200)
        st = obspy.Stream()
        for q in range(n):
            d = case['lags'][q]
            tr = obspy.Trace((case['signs'][q] * (1 + q) * sig[100 - d:100 - d + m] + case['noise'] * rg.normal(size=m)).astype('float64'))
            tr.stats.update(dict(network='XP', station=f'S{case["seed"] % 7}{q}', location=str(q % 2), channel='HDF', delta=dt)); st.append(tr)
        ref = st.copy(); ref.detrend('linear'); ref.taper(.05, 'hann')
        args = {} if ms is None else {'maxshift_seconds': ms}
        r = x.xcorr_function(st, dict(args, quiet=True))
        what = f"xcorr_function({ {q: v for q, v in case.items() if q != 'kind'} })"[:400]
        lim = (1 if ms is None else ms) / dt
        if abs(lim % 1 - .5) < 1e-6: raise OracleSkip
        lim = round(lim); ID = [f'{t.stats.network}.{t.stats.station}.{t.stats.location}' for t in ref]
        want, S, V = {}, 0, 0
        for i in range(n):
            j = (i + 1) % n
            c = correlate(ref[i].data, ref[j].data, lim)
            if len(c) != 2 * lim + 1: raise OracleSkip
            o = np.sort(c)
            if n > 1 and len(c) > 1 and o[-1] - o[-2] < 1e-9: raise OracleSkip
            s = int(np.argmax(c)) - lim; S += s; V += c.max()
            want.update({f'rms_{ID[i]}': float(np.std(ref[i].data)), f'lag_{ID[i]}_{ID[j]}': s * dt, f'r_{ID[i]}_{ID[j]}': float(c.max())})
        want['mean_coef'] = V / n
        if set(r) != set(want) | {'consistency'}: return [('pairs', f'{what}: quantities {sorted(r)}, expected {sorted(want)} and consistency')]
        for q, w in want.items():
            if not abs(r[q] - w) <= 1e-9 * max(1, abs(w)): return [('pairs', f'{what}: {q} is {r[q]}, expected {w}')]
        if bool(r['consistency']) != (abs(S) <= n * n) and abs(abs(S) - n * n) > 1e-6: return [('pairs', f'{what}: consistency is {r["consistency"]} with lags summing to {S} samples over {n} sensors')]
        return []
    if k == 'ids':
        df = pd.DataFrame({'ID': case['found']})
        ex = lambda s: re.fullmatch(r'\w{0,2}\.\w{1,5}\.\w{0,2}\.\w{3}', s) is not None
        given, exc = case['IDs'], case['exclude']
        if not given: want = set(case['found'])
        else:
            want = set()
            for g in given:
                g = str(g)
                want |= {g} if ex(g) else {q for q in case['found'] if re.search(g, q)}
        want = {q for q in want if not any(re.search(e, q) for e in (exc or []))}
        got = list(x._check_input_IDs(df, given, exc))
        if sorted(got) != sorted(want): return [('ids', f'IDs {given} minus {exc} among {case["found"]}: {got}, expected {sorted(want)}')]
        return []
    if k == 'invert':
        r = random.Random(case['seed'])
        n = case['n']
        ids = [f'XP.{s}.{l}' for s, l in r.sample([(f'S{i:02d}', r.choice(['', '01', '02'])) for i in range(20)], n)]
        pos = {i: (r.uniform(-1, 1) * case['size'], r.uniform(-1, 1) * case['size'] * case.get('narrow', 1)) for i in ids}
        slow = [(case['s'], case['az']), (.3, 17.), (3.1, -170.)] + [(r.uniform(.2, 4), r.uniform(-180, 180)) for _ in range(3)]
        lags = {'t_mid': list(range(len(slow)))}
        for i, a in enumerate(ids):
            b = ids[(i + 1) % n]
            lags['rms_' + a] = [1.] * len(slow)
            lags[f'lag_{a}_{b}'] = [-s * math.sin(math.radians(z)) * (pos[a][0] - pos[b][0]) - s * math.cos(math.radians(z)) * (pos[a][1] - pos[b][1]) for s, z in slow]
            lags[f'r_{a}_{b}'] = [1.] * len(slow)
        rows = [dict(x=pos[i][0], y=pos[i][1], z=0., network=i.split('.')[0], station=i.split('.')[1], location=i.split('.')[2]) for i in ids]
        rows += [dict(x=9., y=9., z=0., network='XP', station=f'Z{q}', location='') for q in range(case.get('extra', 0))]
        r.shuffle(rows)
        G = np.array([[pos[a][0] - pos[b][0], pos[a][1] - pos[b][1]] for a, b in zip(ids, ids[1:])])
        if np.linalg.cond(G) > 5000: raise OracleSkip
        res = x.invert_for_slowness(pd.DataFrame(lags), pd.DataFrame(rows))
        for i, (s, z) in enumerate(slow):
            if abs(res['slowness'][i] - s) > 1e-6 * s: return [('slowness', f'plane wave of slowness {s} over {n} stations: {res["slowness"][i]}')]
            if abs((res['backazimuth'][i] - z + 180) % 360 - 180) > 1e-4: return [('azimuth', f'plane wave from {z} degrees over {n} stations: {res["backazimuth"][i]}')]
        return []
    if k == 'xcorr':
        dt, fl, fh, L, o = case['dt'], case['fl'], case['fh'], case['win'], case['overlap']
        chans = case['channels']           # [id, shift]
        t0 = obspy.UTCDateTime(T0) + case['start']
        n = int(round(case['length'] / dt)) + 1
        os.makedirs('in')
        files = []
        for q, (cid, shift) in enumerate(chans):
            net, sta, loc, cha = cid.split('.')
            y = wave(case['seed'], n, dt, shift, fl * 1.2, fh * .8)
            cuts = [0] + sorted(int(c / dt) for c in case.get('cuts', [])) + [n]
            for a, b in zip(cuts, cuts[1:]):
                tr = obspy.Trace(y[a:b].copy()); tr.stats.update(dict(network=net, station=sta, location=loc, channel=cha, delta=dt)); tr.stats.starttime = t0 + a * dt
                fn = f'in/{q}_{a:08d}.mseed'; tr.write(fn, format='MSEED'); files.append(fn)
        random.Random(case['seed']).shuffle(files)
        kw = {}
        if 't1' in case: kw['t1'] = str(t0 + case['t1'])
        if 't2' in case: kw['t2'] = str(t0 + case['t2'])
        r = x.xcorr_all(files, IDs=case.get('IDs'), exclude_IDs=case.get('exclude'), fl=fl, fh=fh, win_length_sec=L, overlap=o, upsample_ratio=case.get('up', 1), quiet=True, **kw)
        what = f"xcorr_all({ {q: v for q, v in case.items() if q != 'kind'} })"[:500]
        sel = sorted(c for c, _ in chans if (not case.get('IDs') or any((g == c) if g.count('.') == 3 else re.search(g, c) for g in case['IDs'])) and not any(re.search(e, c) for e in case.get('exclude') or []))
        sh = dict(chans)
        short = ['.'.join(c.split('.')[:3]) for c in sel]
        cols = {'t_mid', 'mean_coef', 'consistency'} | {'rms_' + s for s in short} | {f'lag_{a}_{b}' for a, b in zip(short, short[1:] + short[:1])} | {f'r_{a}_{b}' for a, b in zip(short, short[1:] + short[:1])}
        if r is None: return [('nothing', f'{what}: no result')]
        if set(r.columns) != cols: return [('columns', f'{what}: columns {sorted(r.columns)}, expected {sorted(cols)}')]
        a, z = t0 + case.get('t1', 0), min(t0 + (n - 1) * dt, t0 + case.get('t2', 1e9))
        days = [a]
        while True:
            nx = obspy.UTCDateTime(days[-1].date) + 86400
            if nx - days[-1] < 3: nx += 86400
            if nx >= z: break
            days.append(nx)
        ends = days[1:] + [z]
        mids = []
        for d, e in zip(days, ends):
            s0 = t0 + math.ceil(round((d - t0) / dt, 4)) * dt
            s1 = t0 + math.floor(round((e - t0) / dt, 4)) * dt
            T = s1 - s0
            if case.get('up', 1) != 1: T -= dt / case['up']
            if T < L: continue
            m = min(expected_windows(T, L, o)) if len(expected_windows(T, L, o)) == 1 else None
            if m is None: raise OracleSkip
            mids += [s0 + (i * (T - L) / (m - 1) if m > 1 else 0) + L / 2 for i in range(m)]
        got = [obspy.UTCDateTime(t) for t in r['t_mid']]
        if len(got) != len(mids) or any(abs(p - q) > 2e-4 for p, q in zip(got, mids)):
            return [('windows', f'{what}: {len(got)} windows {[str(t) for t in got[:2]]}..{[str(t) for t in got[-2:]]}, expected {len(mids)}: {[str(t) for t in mids[:2]]}..{[str(t) for t in mids[-2:]]}')]
        for p, q, ip, iq in zip(short, short[1:] + short[:1], sel, sel[1:] + sel[:1]):
            want = sh[ip] - sh[iq]
            for i, v in enumerate(r[f'lag_{p}_{q}']):
                if abs(v - want) > .6 * dt / case.get('up', 1): return [('lag', f'{what}: lag between {p} and {q} in window {i} is {v}, expected {want}')]
        return []
    raise RuntimeError(k)

def gen(rng, ctx):
    for n, dt, L, o in [(501, .01, 5, 0), (501, .01, 5, .5), (1001, .01, 5, 0), (1001, .01, 5, .5), (1002, .01, 5, 0), (1000, .01, 5, 0), (1500, .01, 5, 0), (1501, .01, 5, .9), (751, .01, 5, .5), (502, .01, 5, .75), (3000, .01, 4, .3), (101, 1., 10, .25),
                        (101, 1., 100, 0), (102, 1., 100, 0), (201, .5, 7, 0), (86401, 1., 3600, 0), (1201, .005, 1, .3), (777, .02, 3.3, .37), (601, .01, 6, 0), (601, .01, 3, 0), (901, .01, 3, 2 / 3), (1001, .01, 10, .99), (1051, .01, 10, .95)]:
        for late in (0, 2, 5): yield dict(kind='windows', npts=n, dt=dt, win=L, overlap=o, late=late, offset=rng.choice([0, .003, 7.77]))
    for _ in range(ctx.n(40, 400)):
        dt = rng.choice([.01, .02, .1, 1.]); L = rng.choice([1, 2, 5, 7.5, 10]) * dt * 100
        yield dict(kind='windows', npts=rng.randint(int(L / dt) + 2, int(L / dt) * 8), dt=dt, win=L, overlap=rng.choice([0, .1, .25, .5, .8, rng.random() * .95]), late=rng.randint(0, 4), offset=rng.random() * 1000)
    for q in range(ctx.n(24, 300)):
        n = [1, 2, 3, 4, 3, 5, 6, 3][q % 8]
        yield dict(kind='pairs', seed=rng.randint(0, 10**6), n=n, npts=rng.randint(150, 400), dt=rng.choice([.01, .02, .005, .03]), maxshift=rng.choice([None, .2, .057, .5, .128, .333]) if q % 4 else rng.choice([.057, .128, .333]),
                   lags=[rng.randint(-14, 14) for _ in range(n)], signs=[rng.choice([1, 1, -1]) for _ in range(n)], noise=rng.choice([0, .3, 2]))
    good = {'fl': 5, 'fh': 20, 'win_length_sec': 5, 'overlap': .5, 'upsample_ratio': 2}
    vals = {'fl': [-1, -1e-9, 0, 20, 21, 'nan', 'x', None], 'fh': [-5, 0, 5, 4, 'nan', 'x', None, 40], 'win_length_sec': [0, -5, -1e-9, 'nan', 'x', None, 1e-3, 2.5],
            'overlap': [-.1, -1e-9, 0, .99, 1, 1.5, 'nan', 'x', None], 'upsample_ratio': [0, .5, .999, 1, 1.5, 'nan', 'x', None, -1, 4]}
    yield dict(kind='validate', args=good)
    for q, vs in vals.items():
        for v in vs: yield dict(kind='validate', args=dict(good, **{q: v}))
    for q in good:
        for q2 in good:
            if q < q2: yield dict(kind='validate', args=dict(good, **{q: rng.choice(vals[q]), q2: rng.choice(vals[q2])}))
    yield dict(kind='one_day', args={})
    for q, vs in vals.items():
        for v in vs:
            if q == 'win_length_sec' and v == 1e-3 or q == 'fl' and v == 0 or q == 'overlap' and v == .99: continue
            if not (q == 'fh' and v == 40): yield dict(kind='one_day', args={q: v})
    for u in (1, 2, 4, 1.5, .5):
        for extra in ({}, {'overlap': .5}, {'overlap': 0}, {'win_length_sec': 3}): yield dict(kind='one_day', args=dict(extra, upsample_ratio=u, fh=30))
    found = ['XP.PARK..HDF', 'XP.PARK.01.HDF', 'XP.PAR.02.HDF', '.077..HDF', 'AM.R0077.00.HDF', 'XP.PARK..HDF', 'XP.PARK.01.HHZ']
    pats = ['PARK', 'XP.PARK..HDF', 'XP.NONE..HDF', 'P.R', 'HDF', '077', 77, '^XP', 'HDF$', 'XP.PARK..HDF|077', r'XP\.PARK', '01', '.', 'XP.PARK.01.HD', '.077..HDF', 'XP.PARK.01.H[HD][ZF]', 'XP.PARK.01.HDFX', '400', 'XP.PARK..HDF$', 'PARK\\.\\.HDF']
    for p in pats:
        for e in (None, [], ['01'], ['PARK', 'AM'], ['XP.PARK..HDF'], ['400']): yield dict(kind='ids', found=found, IDs=[p], exclude=e)
    for _ in range(ctx.n(100, 1000)):
        yield dict(kind='ids', found=rng.sample(found, rng.randint(1, 7)) + rng.sample(found, rng.randint(0, 3)), IDs=rng.choice([None, [], rng.sample(pats, rng.randint(1, 5))]), exclude=rng.choice([None, [], [str(s) for s in rng.sample(pats, rng.randint(1, 2)) if s not in ('.',)]]))
    for n in range(3, 9):
        for s in range(ctx.n(8, 60)): yield dict(kind='invert', n=n, seed=rng.randint(0, 10 ** 9), size=rng.choice([.02, .3, 5.]), s=rng.uniform(.2, 4), az=rng.choice([0., 90., 180., -90., 45., -135.5]), extra=rng.choice([0, 1, 3]), narrow=[1, 1, .05, .003][s % 4])
    C = [['XP.A1..HDF', 0.], ['XP.B2..HDF', .05], ['XP.C3.01.HDF', -.12], ['XP.D4..HDF', .31]]
    base = dict(kind='xcorr', dt=.01, fl=4., fh=20., win=4.9, overlap=.3, start=3600., length=30., channels=C, seed=3)
    yield base
    yield dict(base, IDs=['A1', 'C3', 'B2'], overlap=0)
    yield dict(base, IDs=['XP.C3.01.HDF', 'XP'], exclude=['B2'])
    yield dict(base, cuts=[11., 20.5], t1=5.01, t2=26.5)
    yield dict(base, up=4, channels=[['XP.A1..HDF', 0.], ['XP.B2..HDF', .0525], ['XP.C3.01.HDF', -.1175]])
    yield dict(base, up=2, IDs=['A1', 'B2', 'D4'], overlap=.6)
    slow = dict(kind='xcorr', dt=2., fl=.03, fh=.12, win=3000., overlap=.37, channels=[['XP.A1..HDF', 0.], ['XP.B2..HDF', 0.], ['XP.C3.01.HDF', 0.]], seed=4)
    yield dict(slow, start=6 * 3600., length=30 * 3600., cuts=[18 * 3600.])
    yield dict(slow, start=0., length=49 * 3600., cuts=[24 * 3600., 48 * 3600.], overlap=0.1)
    yield dict(slow, start=20 * 3600. + 10, length=70 * 3600., cuts=[3000., 40000., 100000.], exclude=['B2'], win=4001.)
    if ctx.thorough:
        for _ in range(12): yield dict(slow, start=rng.randint(0, 80000) * 1., length=rng.randint(20000, 300000) * 1., cuts=[rng.randint(100, 19000) * 1.], win=rng.choice([3000., 2222., 5000.]), overlap=rng.choice([0, .5, .41]))
        for _ in range(20): yield dict(base, length=rng.uniform(10, 60), seed=rng.randint(1, 99), overlap=rng.random() * .9, win=rng.choice([4.9, 3.33, 6.01]))

def from_model(ob, m):
    if 'win_length' in m:
        L = float(m['win_length']) or 1; o = float(m.get('overlap', 0)); T = float(m['data_length'])
        s = 5. / L
        yield dict(kind='windows', npts=max(502, min(20000, int(T * s / .01) + 1)), dt=.01, win=5., overlap=min(max(o, 0), .98), late=2)
    for q in ('fl', 'fh', 'win', 'overlap', 'up'):
        if q in m:
            f = lambda v: 'nan' if isinstance(v, float) and math.isnan(v) else v
            yield dict(kind='validate', args={'fl': f(m.get('fl', 5)), 'fh': f(m.get('fh', 20)), 'win_length_sec': f(m.get('win', 5)), 'overlap': f(m.get('overlap', 0)), 'upsample_ratio': f(m.get('up', 1))})
            break

if __name__ == '__main__':
    main(check, gen, from_model, rule='distinct recordings, windows, ID lists, parameter values, arrays and multi-day conversions',
         bound='recordings up to 70 h, 3-8 stations, ID lists over 7 channels, listed invalid values')

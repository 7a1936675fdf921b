import sys, os, math, random
sys.path.insert(0, os.path.dirname(__file__))
import numpy as np, pandas as pd
from orc import *
import gemsim as S

COLS = ['msPPS', 'msLag', 'year', 'month', 'day', 'hour', 'minute', 'second', 'lat', 'lon']
GOOD = [500., 70., 2020., 6., 20., 5., 21., 22., 43.6, -116.2]
RANGES = {'lat': (-90, 90), 'lon': (-180, 180), 'msLag': (0, 1000), 'year': (2014, 2040), 'month': (1, 12), 'day': (1, 31),
          'hour': (0, 24), 'minute': (0, 60), 'second': (0, 60)}

def same(a, b): return (a != a and b != b) or a == b
def nn(v): return float('nan') if v is None else float(v)
def core():
    import gemlog.core as c
    return c
def need(c, *names):
    for n in names:
        if not hasattr(c, n): raise OracleSkip
    return [getattr(c, n) for n in names]

def in_bounds(g):
    for k, (lo, hi) in RANGES.items():
        v = g[k]
        if v != v or not lo <= v <= hi: return False
    return g['lat'] != 0 and g['lon'] != 0 and g['second'] == math.floor(g['second'])

def fixes_expected(rows):
    out = []
    for r in rows:
        g = dict(zip(COLS, map(nn, r)))
        if S.valid_fix(g): out.append((g, S.fix_time(g)))
    return out

def compare(G, rows, key, R, what):
    exp = fixes_expected(rows)
    if len(G) != len(exp):
        return [(key + ':set', f'{what}: {len(G)} fixes used, {len(exp)} valid; recorded {rows}')]
    bad = []
    for k, (g, t) in enumerate(exp):
        row = G.iloc[k]
        for c in COLS[1:]:
            if not same(float(row[c]), g[c]): bad.append((key + ':field', f'{what}: fix {k} has {c}={row[c]}, recorded {g[c]}')); break
        if abs(float(row['t']) - t) > 1e-3: bad.append((key + ':time', f"{what}: fix {k} has time {float(row['t'])}, its fields denote {t}; recorded {g}"))
        if abs((float(row['msPPS']) - g['msPPS'] + R / 2) % R - R / 2) > 1e-6:
            bad.append((key + ':millis', f"{what}: fix {k} has count {row['msPPS']}, its line {g['msPPS']} (mod {R})"))
    return bad

def check(case):
    c = core()
    k = case['kind']
    rows = case['rows']
    if k == 'bounds':
        f, = need(c, '_gps_in_bounds')
        G = pd.DataFrame([[nn(v) for v in r] for r in rows], columns=COLS)
        v = list(f(G))
        exp = [in_bounds(dict(zip(COLS, map(nn, r)))) for r in rows]
        bad = [i for i in range(len(rows)) if bool(v[i]) != exp[i]]
        return [('bounds', f'_gps_in_bounds says {bool(v[i])} for {rows[i]}') for i in bad[:1]]
    fmt = case['fmt']
    R = S.ROLL[fmt]
    if k == 'process':
        f, = need(c, '_process_gemlog_data')
        vers = '0.9' if fmt == '0.91' else fmt
        byt = case['bytes']
        nm = {'0.8': 11}.get(fmt, 13)
        recs = []
        seq = [('M', [100.] + [1.] * 11), ('D', [100., 5.])]
        for i, r in enumerate(rows):
            seq.append(('G', [nn(v) for v in r]))
            if i % 3 == 2: seq.append(('D', [110. + 10 * i, 1.]))
        seq.append(('M', [130.] + [1.] * 11))
        if not byt and any(v[0] != v[0] for t, v in seq): raise OracleSkip
        cols = {j: [] for j in range(1, 13)}
        lt, saw = [], []
        for t, v in seq:
            lt.append(t.encode() if byt else t)
            saw.append(v[0])
            full = v + [0. if byt else float('nan')] * 13
            if t == 'D':
                full = [v[0], v[1]] if byt or fmt in ('0.8', '0.85') else [v[1]]
                full = full + [0. if byt else float('nan')] * 13
            for j in range(1, 13): cols[j].append(full[j - 1])
        df = pd.DataFrame({j: cols[j] for j in range(2 if byt else 1, 13)})
        df['linetype'] = lt
        df['millis-sawtooth'] = saw
        try:
            out = f(df, case.get('offset', 0), version=vers, require_gps=case['require'])
        except c.CorruptRawFileNoGPS:
            if fixes_expected(rows): return [('process:refused', f'refused for lack of GPS; recorded {rows}')]
            return [] if case['require'] else [('process:refused', 'refused for lack of GPS though GPS is not required')]
        return compare(out['gps'], rows, 'process', R, f'_process_gemlog_data({vers})')
    recs, _ = S.recording(random.Random(1), seconds=case.get('seconds', 3), fmt=fmt, no_gps=True, start_ms=10)
    pos = case.get('pos') or [0.5] * len(rows)
    n0 = len(recs)
    ins = sorted(zip([int(x * n0) for x in pos], range(len(rows))))
    out, prev = [], 0
    order = []
    for at, i in ins:
        out += recs[prev:at]; prev = at
        row = [nn(v) for v in rows[i]]
        if any(v != v for v in row[2:7]) and fmt not in ('0.8', '0.85'): continue   # not a well-formed line (C01)
        out.append(['G'] + row); order.append(rows[i])
    recs = out + recs[prev:]
    fn = os.path.abspath('FILE0000.077' if fmt != '0.8' else 'FILE0000.TXT')
    S.write(fn, fmt, '077', recs)
    if k == 'file':
        f, = need(c, '_read_single')
        try: out = f(fn, version={'0.91': '0.9'}.get(fmt, fmt), require_gps=case['require'])
        except (c.CorruptRawFileNoGPS, c.CorruptRawFile) as e:
            if isinstance(e, c.CorruptRawFileNoGPS) or not fixes_expected(order):
                if fixes_expected(order): return [('file:refused', f'refused for lack of GPS; recorded {order}')]
                return [] if case['require'] else [('file:refused', f'refused though GPS is not required: {e!r}')]
            return [('file:refused', f'readable file refused: {e!r}; fixes {order}')]
        return compare(out['gps'], order, 'file', R, f'_read_single({fmt})')
    if k == 'public':
        import gemlog
        try: out = gemlog.read_gem('.', SN='077', require_gps=case['require'])
        except Exception as e:
            if fixes_expected(order) and not case['require']: return [('public:refused', f'read_gem failed: {e!r}; fixes {order}')]
            return []
        G = out['gps']
        exp = fixes_expected(order)
        if len(G) != len(exp): return [('public:set', f'read_gem: {len(G)} fixes used, {len(exp)} valid; recorded {order}')]
        for j, (g, t) in enumerate(exp):
            row = G.iloc[j]
            if abs(float(row['t']) - t) > 1e-3: return [('public:time', f"read_gem: fix {j} at {row['t']}, recorded {g}")]
            for cc in ('lat', 'lon'):
                if float(row[cc]) != g[cc]: return [('public:field', f'read_gem: fix {j} {cc}={row[cc]}, recorded {g}')]
        return []

def variants(rng, ctx):
    fixed = []
    for r in _variants(rng, ctx):
        if r is None: break
        fixed.append(r)
    rng.shuffle(fixed)
    yield from fixed
    it = _variants(rng, ctx)
    while next(it) is not None: pass
    yield from it

def _variants(rng, ctx):
    """rows that differ from a good fix in one or two fields"""
    vals = {}
    for c, (lo, hi) in RANGES.items():
        v = [lo, hi, lo - 1, hi + 1, lo - .5, hi + .5, (lo + hi) // 2, 0, float('nan'), lo + 1, hi - 1, -1e6, 1e6, lo - 1e-6, hi + 1e-6]
        v += [x for x in ctx.nums if lo - 2 * (hi - lo) <= x <= hi + 2 * (hi - lo)]
        vals[c] = v
    for v in (0.5, 22.25, 59.99, 60.0, 23.0): vals['second'].append(v)
    for c in ('year', 'month', 'day', 'hour', 'minute'): vals[c] = [x for x in vals[c] if x != x or x == int(x)]
    for c in RANGES:
        for v in dict.fromkeys(vals[c]):
            r = list(GOOD); r[COLS.index(c)] = v; yield r
    for md in [(2, 29, 2020), (2, 29, 2021), (2, 30, 2020), (4, 31, 2020), (6, 31, 2022), (9, 31, 2033), (11, 31, 2021), (2, 29, 2100), (2, 28, 2023), (12, 31, 2040),
               (1, 1, 2014), (1, 31, 2014), (12, 31, 2016), (6, 30, 2015), (2, 29, 2024), (2, 29, 2036), (2, 29, 2030)]:
        for hms in [(0, 0, 0), (23, 59, 59), (24, 0, 0), (23, 60, 0), (23, 59, 60), (12, 30, 0)]:
            yield [500., 70., md[2], md[0], md[1], *hms, 43.6, -116.2]
    for lat, lon in [(89.9, 179.9), (-89.9, -179.9), (43.6, -90.5), (-45.2, 100.), (0.0001, 0.0001), (-0.001, 5), (90, 180), (-90, -180), (5, 91), (91, 5), (0, 5), (5, 0)]:
        yield [500., 70., 2020, 6, 20, 5, 21, 22, lat, lon]
    yield None
    while True:
        r = list(GOOD)
        for _ in range(rng.choice([0, 1, 1, 2])):
            c = rng.choice(list(RANGES)); r[COLS.index(c)] = rng.choice(vals[c])
        r[COLS.index('day')] = rng.choice([r[COLS.index('day')], rng.randint(1, 31)])
        r[COLS.index('month')] = rng.choice([r[COLS.index('month')], rng.randint(1, 12)])
        r[0] = float(rng.randint(0, 8191)); r[1] = rng.choice([r[1], rng.randint(0, 1000)])
        yield r

def ser(r): return [None if v != v else v for v in r]

def gen(rng, ctx):
    rows = []
    it = variants(rng, ctx)
    for _ in range(ctx.n(1400, 6000)): rows.append(ser(next(it)))
    for i in range(0, len(rows), 20): yield {'kind': 'bounds', 'rows': rows[i:i + 20]}
    good = ser(GOOD)
    chunk = 35
    fm = ['1.10', '0.9', '0.85C', '0.85', '0.8']
    n = 0
    for i in range(0, len(rows), chunk):
        for byt in (True, False):
            n += 1
            fmt = fm[n % 5] if not byt else fm[n % 3]
            yield {'kind': 'process', 'fmt': fmt, 'bytes': byt, 'require': bool(n % 2), 'rows': [good] + rows[i:i + chunk] + [good], 'offset': rng.choice([0, 100, 8192, 70001])}
    for r in rows[:ctx.n(60, 400)]:
        yield {'kind': 'process', 'fmt': '0.9', 'bytes': True, 'require': n % 2 == 0, 'rows': [r]}
        n += 1
    ff = ['0.91', '1.10', '0.85C', '0.9', '0.85', '0.8']
    for i in range(0, min(len(rows), ctx.n(700, 4000)), chunk):
        n += 1
        rr = [good] + rows[i:i + chunk]
        rng.shuffle(rr)
        yield {'kind': 'file', 'fmt': ff[n % 6], 'require': bool(n % 2), 'rows': rr, 'pos': [rng.random() for _ in rr]}
    for i in range(0, min(len(rows), ctx.n(120, 1200)), chunk * 2):
        n += 1
        rr = [good] + rows[i:i + chunk]
        yield {'kind': 'public', 'fmt': ff[n % 6], 'require': False, 'rows': rr, 'pos': [rng.random() for _ in rr]}

def from_model(ob, model):
    def clean(row):
        g = []
        for j, c in enumerate(COLS):
            v = row.get(c, GOOD[j])
            v = GOOD[j] if isinstance(v, str) else v
            g.append(v)
        return g
    rows = []
    if isinstance(model.get('row'), dict): rows.append(clean(model['row']))
    for r in rows:
        yield {'kind': 'bounds', 'rows': [r]}
        for fmt, byt in (('0.9', True), ('1.10', True), ('0.85', False), ('0.8', False), ('0.9', False)):
            for extra in ([], [ser(GOOD)]):
                yield {'kind': 'process', 'fmt': fmt, 'bytes': byt, 'require': False, 'rows': [r] + extra}

if __name__ == '__main__':
    main(check, gen, from_model, rule='distinct case descriptions', bound='tables of up to 37 fixes differing from a valid fix in up to two fields; boundary values and constants harvested from the source')

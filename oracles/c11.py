import sys, os, math, random, json, string
sys.path.insert(0, os.path.dirname(__file__))
from orc import *
import numpy as np
import pandas as pd
import obspy

U = obspy.UTCDateTime
def iso(s): return str(U(1.6e9) + s)
def med(v):
    v = sorted(v); n = len(v)
    return v[n // 2] if n % 2 else (v[n // 2 - 1] + v[n // 2]) / 2
def sd(v):
    m = math.fsum(v) / len(v)
    return math.sqrt(math.fsum((x - m) ** 2 for x in v) / len(v))
def survivors(rows, N=5):
    """indices left; the exclusion is repeated until it discards nothing"""
    idx = list(range(len(rows)))
    while idx:
        keep = idx
        ok = None
        for c in (0, 1):
            v = [rows[i][c] for i in idx]
            m, t = med(v), N * (1e-5 + sd(v))
            for x in v:
                if abs(abs(x - m) - t) < 1e-9 * (abs(x) + t): raise OracleSkip
            s = {i for i in idx if abs(rows[i][c] - m) < t}
            ok = s if ok is None else ok & s
        keep = [i for i in idx if i in ok]
        if len(keep) == len(idx): break
        idx = keep
    return idx

def write_gps(fn, rows):
    with open(fn, 'w') as f:
        f.write('year,date,lat,lon,t\n')
        for la, lo, t in rows: f.write(f'2020,{t / 86400 + 1:.6f},{la!r},{lo!r},{iso(t)}\n')
def make(case):
    for d, files in case['folders'].items():
        os.makedirs(d, exist_ok=True)
        for fn, rows in files.items():
            if fn.endswith('gps_folder.txt'): os.makedirs(os.path.join(d, fn)); continue
            write_gps(os.path.join(d, fn), rows)
    for fn, rows in case.get('loose', {}).items(): write_gps(fn, rows)
def sources(case, sn):
    """the GPS rows of one instrument: the latest file of each folder, or the files listed, in order"""
    out = []
    if isinstance(case['where'], str): items = sorted(case['folders'])
    else: items = case['where']
    for it in items:
        if it in case['folders']:
            fs = sorted(f for f in case['folders'][it] if f.split('gps')[0] == sn and f.endswith('txt'))
            if fs: out += case['folders'][it][fs[-1]]
        else:
            if it.split('/')[-1].split('gps')[0] == sn:
                d, b = os.path.split(it)
                out += case['loose'][it] if it in case.get('loose', {}) else case['folders'][d][b]
    return out
def serials(case):
    s = set()
    if isinstance(case['where'], str):
        for d in case['folders']: s |= {f.split('gps')[0] for f in case['folders'][d]}
    else:
        for it in case['where']:
            if it in case['folders']: s |= {f.split('gps')[0] for f in case['folders'][it]}
            else: s.add(it.split('/')[-1].split('gps')[0])
    return sorted(x for x in s if (case.get('inc') is None or x in case['inc']) and (case.get('exc') is None or x not in case['exc']))
def table_text(t):
    lines = ([','.join(t['header'])] if t.get('header') else []) + [','.join(r) for r in t['rows']]
    return '\n'.join(lines) + '\n'
def table_rows(t):
    """[(SN, network, station, location, elevation)] the table means"""
    cols = [h.lower() for h in t['header']] if t.get('header') else ['sn', 'network', 'station', 'location', 'elevation'][:len(t['rows'][0])]
    out = []
    for r in t['rows']:
        d = dict(zip(cols, r))
        e = d.get('elevation', '')
        out.append((d['sn'], d.get('network', ''), d['station'], d.get('location', ''), float(e) if e else -9999.))
    return out
def near(a, b): return abs(float(a) - float(b)) <= 1e-11 * max(1, abs(float(b)))
def expect(case):
    lo = -math.inf if case.get('t1') is None else case['t1']
    hi = math.inf if case.get('t2') is None else case['t2']
    rows = []
    tab = {}
    for r in (table_rows(case['table']) if case.get('table') else []): tab.setdefault(r[0], r)
    for sn in serials(case):
        src = sources(case, sn)
        left = [src[i] for i in survivors(src)] if src else []
        left = [r for r in left if lo <= r[2] <= hi]
        if not left: continue
        la, lg = [r[0] for r in left], [r[1] for r in left]
        q = {'SN': sn, 'lat': math.fsum(la) / len(la), 'lon': math.fsum(lg) / len(lg), 'lat_SE': sd(la) / math.sqrt(len(la)), 'lon_SE': sd(lg) / math.sqrt(len(lg)),
             'starttime': U(iso(min(r[2] for r in left))), 'endtime': U(iso(max(r[2] for r in left))), 'num_samples': len(left)}
        c = tab.get(sn, (sn, '', '', '', -9999.))
        q['elevation'] = c[4]
        if case.get('table'): q.update(network=c[1], station=c[2], location=c[3])
        rows.append(q)
    return rows
def compare(got, want, text, table):
    out = []
    need = ['SN', 'lat', 'lon', 'lat_SE', 'lon_SE', 'starttime', 'endtime', 'num_samples', 'elevation'] + (['network', 'station', 'location'] if table else [])
    miss = [c for c in need if c not in got.columns]
    if miss: return [(text + 'columns', f'summary lacks {miss}')]
    if [str(s) for s in got['SN']] != [w['SN'] for w in want]:
        return [(text + 'rows', f'summary has rows for {list(got["SN"])}, should be {[w["SN"] for w in want]}')]
    for i, w in enumerate(want):
        for k in need[1:]:
            g = got[k].iloc[i]
            if k in ('starttime', 'endtime'): ok = U(g) == w[k]
            elif k in ('network', 'station', 'location'): ok = ('' if (isinstance(g, float) and math.isnan(g)) else str(g)) == w[k]
            elif k.endswith('_SE'): ok = g != '' and abs(float(g) - w[k]) <= 1e-12 + 1e-6 * w[k]
            else: ok = near(g, w[k])
            if not ok: out.append((text + k, f'{k} of instrument {w["SN"]} is {g!r}, should be {w[k]!r}'))
    return out
def inventory(want):
    """the inventory the command writes repeats the rows of its summary"""
    import obspy
    got = {}
    for net in obspy.read_inventory('out.xml'):
        for sta in net:
            for c in sta: got.setdefault((net.code, sta.code, c.location_code), []).append((float(c.latitude), float(c.longitude), float(c.elevation)))
    rows = {}
    for w in want: rows.setdefault((w.get('network', ''), w.get('station', w['SN']), w.get('location', '')), []).append((w['lat'], w['lon'], w['elevation']))
    if sorted(got) != sorted(rows): return [('inventory codes', f'inventory of the summary has {sorted(got)}, should have {sorted(rows)}')]
    for k, v in rows.items():
        if len(v) == 1 and not (len(got[k]) == 1 and all(abs(a - b) < 1e-6 for a, b in zip(got[k][0], v[0]))): return [('inventory coordinates', f'inventory of the summary has {k} at {got[k]}, should be at {v}')]
    return []
def check(case):
    import gemlog
    from gemlog import gem_network as G
    k = case['kind']
    if k == 'outliers':
        rows = case['rows']
        x = pd.DataFrame({'lat': [r[0] for r in rows], 'lon': [r[1] for r in rows], 't': [U(r[2]) for r in rows], 'tag': range(len(rows))})
        y = G._remove_outliers(x) if case['N'] == 5 else G._remove_outliers(x, N=case['N'])
        want = survivors(rows, case['N'])
        got = [int(v) for v in y['tag']]
        return [] if got == want else [('outliers', f'fixes left after outlier removal are {got[:12]} ({len(got)}), should be {want[:12]} ({len(want)}) of {len(rows)}')]
    if k == 'table':
        t = case['table']
        if t.get('frame'): info = pd.DataFrame(t['rows'], columns=t['header'])
        else:
            open('table.csv', 'w').write(table_text(t)); info = 'table.csv'
        got = G._get_station_info(info)
        want = table_rows(t)
        g = [(str(got['SN'].iloc[i]), str(got['network'].iloc[i]), str(got['station'].iloc[i]), str(got['location'].iloc[i]), float(got['elevation'].iloc[i])) for i in range(len(got))]
        return [] if g == want else [('station table', f'station table is read as {g}, should be {want}')]
    make(case)
    kw = {}
    if case.get('t1') is not None: kw['t1'] = iso(case['t1']) if case.get('text') else U(iso(case['t1']))
    if case.get('t2') is not None: kw['t2'] = iso(case['t2']) if case.get('text') else U(iso(case['t2']))
    if case.get('table'):
        if case['table'].get('frame'): kw['station_info'] = pd.DataFrame(case['table']['rows'], columns=case['table']['header'], index=[i + 7 for i in range(len(case['table']['rows']))] if case['table'].get('shift') else None)
        else: open('table.csv', 'w').write(table_text(case['table'])); kw['station_info'] = 'table.csv'
    want = expect(case)
    if k == 'terminal':
        where = [it for it in (sorted(case['folders']) if isinstance(case['where'], str) else case['where'])]
        a = [*where, '-o', 'out']
        if 'station_info' in kw: a += ['-s', 'table.csv']
        if case.get('inc') is not None: a += ['-i', ','.join(case['inc'])]
        if case.get('exc') is not None: a += ['-x', ','.join(case['exc'])]
        if 't1' in kw: a += ['-1', str(kw['t1'])]
        if 't2' in kw: a += ['-2', str(kw['t2'])]
        G.summarize_gps_terminal(a)
        got = pd.read_csv('out.csv', dtype={c: str for c in ('SN', 'network', 'station', 'location')}, keep_default_na=False)
        return compare(got, want, 'terminal ', bool(case.get('table'))) or inventory(want)
    if case.get('inc') is not None: kw['include_SN'] = list(case['inc'])
    if case.get('exc') is not None: kw['exclude_SN'] = list(case['exc'])
    if case.get('output'): kw['output_file'] = 'sum.csv'
    where = case['where']
    got = G.summarize_gps(where, **kw)
    out = compare(got, want, '', bool(case.get('table')))
    if case.get('output') and not out:
        got = pd.read_csv('sum.csv', dtype={c: str for c in ('SN', 'network', 'station', 'location')}, keep_default_na=False)
        out = compare(got, want, 'written ', bool(case.get('table')))
    return out

# ------------------------------------------------------------------ cases
def fixes(r, n, t0=0):
    la, lo = round(r.uniform(-60, 60), 4), round(r.uniform(-170, 170), 4)
    s = r.choice([0, 1e-6, 3e-5, 2e-4])
    rows, t = [], t0
    style = r.choice(['none', 'one', 'chain', 'lat', 'lon', 'half'])
    for i in range(n):
        a, b = la + r.gauss(0, s), lo + r.gauss(0, s)
        if style == 'one' and i == n // 2: a += 3; b -= 2
        if style == 'lat' and r.random() < .06: a += r.choice([-1, 1]) * 10 ** r.uniform(-3, 1)
        if style == 'lon' and r.random() < .06: b += r.choice([-1, 1]) * 10 ** r.uniform(-3, 1)
        if style == 'chain' and r.random() < .1: a += 10 ** r.uniform(-4, 2)
        if style == 'half' and i < n * .1: a += .1; b += .2
        rows.append([round(a, 6), round(b, 6), t])
        t += r.choice([1, 1, 20, 1020])
    if r.random() < .3: r.shuffle(rows)
    return rows
def sn_(r): return r.choice(['077', '058', '061', '065', '001', '210', '999', '077b'])
def table_(r, sns, frame=None):
    full = ['SN', 'network', 'station', 'location'] + (['elevation'] if r.random() < .6 else [])
    rows, pool = [], [s for s in sns if r.random() < .8] + (['555'] if r.random() < .5 else [])
    if not pool: pool = ['556']
    r.shuffle(pool)
    for i, s in enumerate(pool):
        row = [s, r.choice(['NM', 'XP', '']), 'ST%d' % i, r.choice(['', '01', '00', '02'])]
        if len(full) == 5: row.append(r.choice(['', '100', '12.5', '-3']))
        rows.append(row)
    order = list(range(len(full)))
    header = full
    frame = (r.random() < .25) if frame is None else frame
    if frame or r.random() < .75:
        r.shuffle(order)
        if not frame and r.random() < .3:
            drop = r.choice(['network', 'location']); order = [j for j in order if full[j] != drop]
        header = [r.choice([str.lower, str.upper, str.capitalize])(full[j]) for j in order]
        rows = [[x[j] for j in order] for x in rows]
        if frame and len(full) == 5:
            j = [h.lower() for h in header].index('elevation')
    else: header = None
    return {'header': header, 'rows': rows, 'frame': frame, 'shift': r.random() < .5}
def summary_case(r, kind='summary', big=False):
    fold = ['gps', 'gps_b', 'Gps_c'][:r.choice([1, 1, 2, 3])]
    sns = sorted({sn_(r) for _ in range(r.randint(1, 4))})
    if big: sns = sorted({'%03d' % r.randint(1, 999) for _ in range(12)})
    case = {'kind': kind, 'folders': {}, 'loose': {}}
    for d in fold:
        fs = {}
        for s in sns:
            if r.random() < .2: continue
            for j in r.sample(range(12), r.choice([1, 1, 2, 3])):
                fs[f'{s}gps_{j:03d}.txt'] = fixes(r, r.choice([1, 2, 5, 12, 40]), r.choice([0, 0, 3600]))
        case['folders'][d] = fs
    w = r.random()
    if w < .45: case['where'] = '*ps*'
    else:
        items = list(case['folders'])
        if r.random() < .6:
            s = r.choice(sns + ['333'])
            fn = f'{s}gps_{r.randint(0, 12):03d}.txt'
            case['loose'][fn] = fixes(r, 10); items.append(fn)
        if r.random() < .4:
            d = r.choice(fold)
            if case['folders'][d]: items.append(d + '/' + r.choice(sorted(case['folders'][d])))
        r.shuffle(items); case['where'] = items
    if r.random() < .35: case['inc'] = r.sample(sns, r.randint(0, len(sns))) + (['123'] if r.random() < .4 else [])
    if r.random() < .3: case['exc'] = r.sample(sns, r.randint(0, len(sns)))
    ts = sorted(x[2] for d in case['folders'].values() for f in d.values() for x in f)
    if ts:
        if r.random() < .4: case['t1'] = r.choice(ts) + r.choice([0, 0, -.5, .5])
        if r.random() < .4: case['t2'] = r.choice(ts) + r.choice([0, 0, -.5, .5])
    case['text'] = r.random() < .5
    if r.random() < .6: case['table'] = table_(r, sns, False if kind == 'terminal' else None)
    case['output'] = r.random() < .5
    if kind == 'terminal':
        if case.get('inc') == []: case.pop('inc')
        if case.get('exc') == []: case.pop('exc')
    return case
def gen(rng, ctx):
    r = random.Random(rng.random())
    base = [[40, -110, 0], [40, -110, 1], [40, -110, 2]]
    for rows in ([], base[:1], base, base + [[40.00004, -110, 3]], base + [[40.00006, -110, 3]], base * 40 + [[41, -110, 9]], base * 40 + [[40, -111, 9]], base * 200 + [[60, -110, 1]] * 3 + [[40.3, -110, 2]] * 3,
                 base * 30 + [[40.01, -110, 5]] + [[45, -110, 6]] + [[80, 10, 7]]):
        yield {'kind': 'outliers', 'rows': rows, 'N': 5}
    for i in range(ctx.n(400, 20000)):
        yield {'kind': 'outliers', 'rows': fixes(r, r.choice([1, 2, 3, 8, 30, 100, 300])), 'N': r.choice([5, 5, 5, 3, 2, 1.2])}
        if i % 2 == 0: yield summary_case(r)
        if i % 4 == 0: yield {'kind': 'table', 'table': table_(r, [sn_(r) for _ in range(1)] + ['002', '003'])}
        if i % 20 == 0:
            c = summary_case(r, 'terminal')
            if expect_ok(c): yield c
        if i % 40 == 1: yield summary_case(r, big=True)
def expect_ok(c):
    try: w = expect(c)
    except OracleSkip: return False
    # the command also writes an inventory: needs numeric serial numbers, at least one row, codes that name one place each
    if not w or any(not x['SN'].isdigit() for x in w): return False
    return True
def from_model(ob, m):
    r = random.Random(1)
    if ob.startswith('_remove'):
        for n in (3, 10, 40, 100):
            for _ in range(40): yield {'kind': 'outliers', 'rows': fixes(r, n), 'N': 5}
    else:
        for _ in range(60): yield summary_case(r, 'summary')
        for _ in range(12):
            c = summary_case(r, 'terminal')
            if expect_ok(c): yield c
if __name__ == '__main__':
    main(check, gen, from_model, rule='independent outlier trimming, file selection and summary statistics from the written files; station tables by column meaning',
         bound='up to 300 fixes, 3 folders, 12 instruments, generated selections, windows and station tables')

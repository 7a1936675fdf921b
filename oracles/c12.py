import sys, os, math, random, json, glob
sys.path.insert(0, os.path.dirname(__file__))
from orc import *
import numpy as np
import pandas as pd
import obspy
import importlib.util
_s = importlib.util.spec_from_file_location('c11_shared', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'c11.py'))
c11 = importlib.util.module_from_spec(_s); _s.loader.exec_module(c11)
U = obspy.UTCDateTime
_resp = {}
def resp():
    if 'r' not in _resp:
        import gemlog
        _resp['r'] = gemlog.get_gem_response()
    return _resp['r']
def info_arg(t):
    if t.get('frame'): return pd.DataFrame(t['rows'], columns=t['header'], index=[i * 3 + 7 for i in range(len(t['rows']))] if t.get('shift') else None)
    open('table.csv', 'w').write(c11.table_text(t)); return 'table.csv'
def check(case):
    import gemlog
    from gemlog import gem_network as G
    k = case['kind']
    if k == 'table': return c11.check(case)
    rows = c11.table_rows(case['table'])
    if k == 'inventory':
        C = case['coords']
        cols = {c: [r[c] for r in C] for c in case['cols']}
        for c in ('starttime', 'endtime'):
            if c in cols: cols[c] = [U(1.6e9 + v) for v in cols[c]]
        co = pd.DataFrame(cols)
        a = (info_arg(case['table']), co)
        inv = G.make_gem_inventory(*a, resp()) if case.get('response') else G.make_gem_inventory(*a)
        bysn = 'SN' in cols and any(c not in cols for c in ('network', 'station', 'location'))
        want = {}
        for sn, n, s, l, e in rows:
            m = [r for r in C if (int(r['SN']) == int(sn) if bysn else (r['network'], r['station'], r['location']) == (n, s, l))]
            if not m: continue
            q = m[0]
            want[n, s, l] = (sn, q)
        got = {}
        out = []
        seen_net, seen_sta = [], []
        for net in inv:
            if net.code in seen_net: out.append(('inventory', f'network {net.code} appears twice'))
            seen_net.append(net.code)
            if not len(net): out.append(('inventory', f'network {net.code} is empty'))
            for sta in net:
                if (net.code, sta.code) in seen_sta: out.append(('inventory', f'station {net.code}.{sta.code} appears twice'))
                seen_sta.append((net.code, sta.code))
                for ch in sta:
                    key = (net.code, sta.code, ch.location_code)
                    if key in got: out.append(('inventory', f'channel {key} appears twice'))
                    got[key] = (ch, sta, net)
        if set(got) != set(want): return out + [('inventory', f'inventory has channels {sorted(got)}, should have {sorted(want)}')]
        for key, (sn, q) in want.items():
            ch, sta, net = got[key]
            if ch.code != 'HDF' or ch.sample_rate != 100: out.append(('channel', f'channel {key} is {ch.code} at {ch.sample_rate}'))
            for nm, c in (('latitude', 'lat'), ('longitude', 'lon'), ('elevation', 'elevation')):
                if abs(float(getattr(ch, nm)) - q[c]) > 1e-9: out.append(('channel ' + nm, f'{nm} of {key} is {getattr(ch, nm)}, should be {q[c]}'))
                own = [w[1][c] for k2, w in want.items() if k2[:2] == key[:2]]
                if abs(float(getattr(sta, nm)) - math.fsum(own) / len(own)) > 1e-9: out.append(('station ' + nm, f'{nm} of station {key[:2]} is {getattr(sta, nm)}, mean of its channels is {math.fsum(own) / len(own)}'))
            for x in (ch.sensor, *(ch.equipments or [])):
                if x is not None and x.serial_number != sn: out.append(('serial number', f'serial number of {key} is {x.serial_number}, should be {sn}'))
            if ch.sensor is None and not ch.equipments: out.append(('serial number', f'{key} has no serial number'))
            r0 = resp()
            if ch.response is None or isinstance(ch.response, str) or (case.get('response') and ch.response is not r0 and ch.response != r0) or [s.stage_gain for s in ch.response.response_stages] != [s.stage_gain for s in r0.response_stages]:
                out.append(('response', f'response of {key} is {str(ch.response)[:60]}'))
            if 'starttime' in cols and 'endtime' in cols:
                if ch.start_date != U(1.6e9 + q['starttime']) - 3600 or ch.end_date != U(1.6e9 + q['endtime']) + 3600: out.append(('channel span', f'span of {key} is {ch.start_date} to {ch.end_date}'))
            for o, pre, what in ((sta, key[:2], 'station'), (net, key[:1], 'network')):
                chs = [got[k2][0] for k2 in got if k2[:len(pre)] == pre]
                if o.start_date > min(c.start_date for c in chs) or o.end_date < max(c.end_date for c in chs): out.append((what + ' span', f'span of {what} {pre} does not cover its channels'))
        return out
    # ---- renaming
    os.mkdir('in')
    src = {}
    for f in case['files']:
        st = obspy.Stream()
        for t, n, v in f['traces']:
            tr = obspy.Trace(np.arange(n, dtype=np.int32) + v); tr.stats.starttime = U(1.6e9 + t); tr.stats.delta = .01
            tr.stats.station, tr.stats.channel = f['sn'][:5], 'HDF'
            st += tr
        name = f"in/{f['stamp']}.{f['net']}.{f['sn']}.{f['loc']}.HDF.mseed"
        st.write(name, format='MSEED')
        src[name] = (f['sn'], obspy.read(name))
    kw = {} if case.get('pattern') is None else {'outfile_pattern': case['pattern']}
    G.rename_files('in/*.mseed', info_arg(case['table']), 'out', **kw)
    tab = {}
    for r in rows: tab.setdefault(r[0], r)
    pat = case.get('pattern') or '{year}-{mon}-{day}T{hour}_{min}_{sec}.{net}.{sta}.{loc}.{chan}.{fmt}'
    want = {}
    for name, (sn, st) in src.items():
        if sn not in tab: continue
        _, n, s, l, _ = tab[sn]
        t = min(x.stats.starttime for x in st)
        o = pat
        for a, b in (('year', f'{t.year:04d}'), ('mon', f'{t.month:02d}'), ('day', f'{t.day:02d}'), ('hour', f'{t.hour:02d}'), ('min', f'{t.minute:02d}'), ('sec', f'{t.second:02d}'), ('jd', f'{t.julday:03d}'),
                     ('net', n), ('sta', s), ('loc', l), ('chan', 'HDF'), ('fmt', 'mseed')): o = o.replace('{' + a + '}', b)
        if o in want: raise OracleSkip
        want[o] = (name, (n, s, l), st)
    have = sorted(os.listdir('out'))
    if have != sorted(want): return [('names', f'renamed files are {have}, should be {sorted(want)}')]
    out = []
    for o, (name, codes, st) in want.items():
        g = obspy.read('out/' + o)
        if any((x.stats.network, x.stats.station, x.stats.location) != codes or x.stats.channel != 'HDF' for x in g): out.append(('codes', f'{o} has codes {[x.id for x in g]}, should be {codes}'))
        f = lambda s: sorted((x.stats.starttime.ns, x.stats.sampling_rate, x.data.tolist()) for x in s)
        if f(g) != f(st): out.append(('samples', f'samples or times of {o} differ from those of {name}'))
    for name, (sn, st) in src.items():
        g = obspy.read(name)
        if len(g) != len(st) or any(x.id != y.id for x, y in zip(g, st)): out.append(('input', f'input file {name} was changed'))
    return out

def inv_table(r, n):
    nets, stas, locs = r.sample(['NM', 'XP', '', 'YY'], r.choice([1, 2, 3])), ['S%d' % i for i in range(r.choice([1, 2, 4]))], r.choice([[''], ['', '01'], ['00', '01', '02'], ['01']])
    tri = [(a, b, c) for a in nets for b in stas for c in locs]
    r.shuffle(tri); tri = tri[:n]
    full = ['SN', 'network', 'station', 'location', 'elevation']
    survey = r.random() < .25       # one instrument at several places
    pool = r.choice([range(10, 22), r.sample(range(1, 1000), 12), [7, 17, 107, 70, 71, 1, 11, 111, 10, 100, 110, 207]])
    pool = r.sample(list(pool), 12)
    rows = [['%03d' % (7 if survey and r.random() < .6 else pool[i]), a, b, c, r.choice(['', '12.5'])] for i, (a, b, c) in enumerate(tri)]
    order = list(range(r.choice([4, 5]))); r.shuffle(order)
    frame = r.random() < .4
    if frame: order = [j for j in order if j != 4]
    return {'header': [r.choice([str.lower, str.upper, str.capitalize])(full[j]) for j in order], 'rows': [[x[j] for j in order] for x in rows], 'frame': frame, 'shift': r.random() < .5}, rows, survey
def inv_case(r):
    t, rows, survey = inv_table(r, r.choice([1, 2, 3, 6, 12]))
    mode = 'codes' if survey else r.choice(['sn', 'codes', 'both'])
    cols = {'sn': ['SN'], 'codes': ['network', 'station', 'location'], 'both': ['SN', 'network', 'station', 'location']}[mode] + ['lat', 'lon', 'elevation']
    tm = r.choice(['none', 'both', 'both', 'start'])
    if tm != 'none': cols.append('starttime')
    if tm == 'both': cols.append('endtime')
    co = []
    for x in rows:
        if r.random() < .25: continue
        a = r.randint(0, 10 ** 6)
        co.append({'SN': x[0], 'network': x[1], 'station': x[2], 'location': x[3], 'lat': round(r.uniform(-80, 80), 4), 'lon': round(r.uniform(-170, 170), 4), 'elevation': float(r.randint(-10, 3000)), 'starttime': a, 'endtime': a + r.randint(0, 10 ** 5)})
    if r.random() < .4: co.append({'SN': '500', 'network': 'ZZ', 'station': 'OTHER', 'location': '', 'lat': 1., 'lon': 2., 'elevation': 3., 'starttime': 0, 'endtime': 1})
    r.shuffle(co)
    if mode == 'sn' and r.random() < .3:
        for x in co: x['SN'] = int(x['SN']) if len(co) > 1 else x['SN']
    if not co: co = [{'SN': '501', 'network': 'ZZ', 'station': 'OTHER', 'location': '', 'lat': 1., 'lon': 2., 'elevation': 3., 'starttime': 0, 'endtime': 1}]
    r.shuffle(cols)
    return {'kind': 'inventory', 'table': t, 'coords': co, 'cols': cols, 'response': r.random() < .8}
def ren_case(r):
    sns = ['%03d' % x for x in r.sample(range(1, 999), 4)]
    t, rows, _ = inv_table(r, 4)
    j = [h.lower() for h in t['header']].index('sn')
    for i, x in enumerate(t['rows']): x[j] = (sns + ['%03d' % y for y in (901, 902, 903)])[i] if r.random() < .8 else '9%02d' % i
    files = []
    for sn in sns:
        t0 = r.choice([0, 3 * 86400 + 11, 31 * 86400 * r.randint(0, 24)]) + r.choice([0, r.randint(0, 86400), 2005])
        for h in range(r.choice([0, 1, 2])):
            tr, x = [], t0 + 3600 * h
            for _ in range(r.choice([1, 1, 2, 3])):
                n = r.randint(1, 30); tr.append([x, n, r.randint(-1000, 1000)]); x += n * .01 + r.choice([.5, 7, 100])
            if r.random() < .5: r.shuffle(tr)
            files.append({'sn': sn, 'stamp': str(U(1.6e9 + t0 + 3600 * h))[:19].replace(':', '_'), 'net': r.choice(['', 'XX']), 'loc': r.choice(['', '00']), 'traces': tr})
    if not files: files = [{'sn': sns[0], 'stamp': '2020-09-13T12_26_40', 'net': '', 'loc': '', 'traces': [[0, 5, 1]]}]
    pat = r.choice([None, None, None, '{net}.{sta}.{loc}.{chan}.{year}.{jd}.{hour}{min}{sec}.{fmt}', '{mon}-{day}_{hour}_{sta}_{loc}_{net}_{sec}.{fmt}'])
    return {'kind': 'rename', 'table': t, 'files': files, 'pattern': pat}
def gen(rng, ctx):
    r = random.Random(rng.random())
    for i in range(ctx.n(160, 6000)):
        yield inv_case(r)
        if i % 2: yield ren_case(r)
        yield {'kind': 'table', 'table': c11.table_(r, [c11.sn_(r)] + ['002', '003'])}
def from_model(ob, m):
    r = random.Random(2)
    for _ in range(60):
        if ob.startswith('rename'): yield ren_case(r)
        elif ob.startswith('station table'): yield {'kind': 'table', 'table': c11.table_(r, [c11.sn_(r)] + ['002', '003'])}
        else: yield inv_case(r)
if __name__ == '__main__':
    main(check, gen, from_model, rule='channels, coordinates and spans against the rows of generated tables; renamed files re-read and compared with their inputs', bound='up to 12 rows, 8 files, 3 traces per file')

import sys, os, math, random, json, glob, inspect
sys.path.insert(0, os.path.dirname(__file__))
from orc import *
import gemsim
import numpy as np
import pandas as pd

BASE = 1592611200          # 2020-06-20 00:00:00, a multiple of a day
T0 = BASE * 100            # ticks of 10 ms

def value(k): return (k * 7919 + (k // 64) * 31) % 4001 - 2000
def make_reader(core, case, log):
    """stand-in for read_gem: the segments recorded in the numbers asked for, contiguous ones joined"""
    import obspy
    segs = {int(n): s for n, s in case['files'].items()}
    def read_gem(path='raw', nums=np.arange(10000), SN='', network='', station='', location='', **kw):
        from gemlog import MissingRawFiles, CorruptRawFile
        nums = [int(i) for i in np.atleast_1d(nums)]
        log.append(nums)
        have = [i for i in nums if i in segs]
        if not have: raise MissingRawFiles(str(nums))
        good = [s for i in sorted(have) for s in segs[i]]
        if not good: raise CorruptRawFile(str(nums))
        runs = []
        for a, n in good:
            if runs and runs[-1][0] + runs[-1][1] == a: runs[-1][1] += n
            else: runs.append([a, n])
        st = obspy.Stream()
        for a, n in runs:
            tr = obspy.Trace(np.array([value(k) for k in range(a, a + n)], dtype='int32'))
            tr.stats.starttime = np.round((T0 + a) * 0.01, 2)
            tr.stats.delta = 0.01
            tr.stats.channel, tr.stats.station = 'HDF', station or SN
            tr.stats.network, tr.stats.location = network, location
            st += tr
        tt = [(T0 + a) / 100 for a, n in runs]
        return {'data': st, 'problems': [],
                'metadata': pd.DataFrame({'millis': [float(i) for i in have], 't': tt[:1] * len(have)}),
                'gps': pd.DataFrame({'year': [2020] * len(have), 'date': [172.5] * len(have), 'lat': [43.0] * len(have), 'lon': [-116.0] * len(have), 't': tt[:1] * len(have)}),
                'header': pd.DataFrame({'SN': [SN] * len(have), 'file': [f'FILE{i:04d}.{SN}' for i in have], 'bitweight_Pa': [.003] * len(have), 'bitweight_V': [7e-8] * len(have)})}
    return read_gem

def as_time(v, how):
    import obspy
    if v is None: return None
    if how == 'float': return BASE + v / 1e6
    t = obspy.UTCDateTime(ns=int(BASE * 10**9 + v * 1000))
    return t

def check(case):
    import gemlog, obspy
    from gemlog import core
    if case['kind'] == 'index':
        os.makedirs('d')
        for n in case['existing']: open(f'd/{case["SN"]}{case["type"]}_{n}.txt', 'w').write('old')
        want = next(i for i in range(10**6) if f'{i:03}' not in case['existing'])
        got = core._make_filename('d', case['SN'], case['type'])
        if os.path.normpath(got) != os.path.normpath(f'd/{case["SN"]}{case["type"]}_{want:03}.txt'):
            return [('first unused index', f'with {case["existing"]} present the new file is {got}, the first unused index is {want:03}')]
        return []
    if case['kind'] == 'raw': return check_raw(case)
    sn = '077'
    os.makedirs('raw')
    for n in case['files']: open(f'raw/FILE{int(n):04d}.{sn}', 'w').write('\n'.join(gemsim.header('0.91', sn)) + '\n')
    for n in case.get('present', []):
        for d, t in (('metadata', 'metadata'), ('gps', 'gps')):
            os.makedirs(d, exist_ok=True); open(f'{d}/{sn}{t}_{n:03}.txt', 'w').write(f'old {t} {n}')
    log = []
    kw = dict(rawpath='raw', SN=sn, file_length_hour=case['flen'] / 3600, blockdays=case.get('blockdays', 1),
              station=case.get('station', ''), network=case.get('network', ''), location=case.get('location', ''), output_format=case.get('format', 'MSEED'), units=case.get('units', 'Pa'))
    if case.get('nums'): kw['nums'] = case['nums']
    t1, t2 = as_time(case.get('t1'), case.get('how')), as_time(case.get('t2'), case.get('how'))
    if t1 is not None: kw['t1'] = t1
    if t2 is not None: kw['t2'] = t2
    orig = core.read_gem
    core.read_gem = make_reader(core, case, log)
    try:
        core.convert(**kw)
        if case.get('format', '').lower() == 'wav': core.convert(**dict(kw, output_format='MSEED', convertedpath='as_mseed', metadatapath='metadata2', gpspath='gps2'))
    except core.MissingRawFiles:
        if any(case['files'][n] for n in case['files'] if not case.get('nums') or int(n) in case['nums']): raise
        return []
    finally: core.read_gem = orig
    out = []
    if case.get('format', '').lower() == 'wav': return wav_files()
    use = {int(n): s for n, s in case['files'].items() if not case.get('nums') or int(n) in case['nums']}
    asked = [i for a in log for i in a]
    if sorted(set(asked)) != sorted(set(asked) | set()) or len(asked) != len(set(asked)): out.append(('each file read once', f'the numbers asked for are {log}'))
    rec = sorted((a, n) for s in use.values() for a, n in s)
    return out + judge(case, rec, sn)

def wav_files():
    """a conversion to WAV gives the same files as one to MSEED, with as many samples each"""
    import obspy
    from scipy.io import wavfile
    have = {f.rsplit('.', 1)[0]: len(wavfile.read('converted/' + f)[1]) for f in os.listdir('converted')} if os.path.isdir('converted') else {}
    want = {f.rsplit('.', 1)[0]: sum(len(tr) for tr in obspy.read('as_mseed/' + f)) for f in os.listdir('as_mseed')} if os.path.isdir('as_mseed') else {}
    if have != want: return [('WAV files', f'WAV files (samples) are {have}, those of a conversion to MSEED {want}')]
    return []
def judge(case, rec, sn, vals=None):
    import obspy
    out = []
    rec = [(a, n) for a, n in rec if n]
    lo = case.get('t1')
    if lo is None: lo = -(-rec[0][0] // 100) * 1000000
    hi = case['t2'] if case.get('t2') is not None else 10**18
    want = {k for a, n in rec for k in range(a, a + n) if lo <= k * 10000 <= hi}
    bridged = set()
    for (a, n), (b, m) in zip(rec, rec[1:]):
        if 0 < b - (a + n) <= 3 and (b - (a + n - 1)) * 0.01 <= 0.031: bridged |= {k for k in range(a + n, b) if lo <= k * 10000 <= hi}
    got = {}
    fl = case['flen'] * 100
    code = f'{case.get("network", "")}.{case.get("station") or sn}.{case.get("location", "")}.HDF'
    fmt = case.get('format', 'MSEED')
    names = sorted(os.listdir('converted')) if os.path.isdir('converted') else []
    for f in names:
        st = obspy.read('converted/' + f, format='MSEED' if fmt.lower() == 'mseed' else fmt)
        tick = lambda t: int(round(t.ns / 1e7)) - T0 if abs(t.ns - round(t.ns / 1e7) * 10**7) < 2000 else None
        s0 = None
        for tr in st:
            a = tick(tr.stats.starttime)
            if a is None: out.append(('sample times unchanged', f'{f} starts at {tr.stats.starttime}, not on the sample times')); continue
            if abs(tr.stats.delta - .01) > 1e-6: out.append(('sample times unchanged', f'{f}: sample interval {tr.stats.delta}'))
            s0 = a if s0 is None else min(s0, a)
            if tr.id != code: out.append(('station codes', f'{f} holds {tr.id}, converted as {code}'))
            if len(tr.data) and int(((T0 + a) // fl if fl == int(fl) else 0)) != int(((T0 + a + len(tr.data) - 1) // fl if fl == int(fl) else 0)): out.append(('no file crosses a multiple of the file length', f'{f}: {tr.stats.starttime} to {tr.stats.endtime}, file length {case["flen"]} s'))
            for j, v in enumerate(tr.data): got.setdefault(a + j, []).append((f, v))
        if s0 is not None:
            nm = obspy.UTCDateTime(ns=(T0 + s0) * 10**7).strftime('%Y-%m-%dT%H_%M_%S')
            if not f.startswith(nm) or code not in f or not f.lower().endswith('.' + fmt.lower()): out.append(('file named by its first sample', f'{f} starts at tick {s0}: {nm}, {code}'))
    show = lambda s: f'{len(s)} samples, e.g. {[round(k/100, 2) for k in sorted(s)[:3]]} .. {round(max(s)/100, 2)} s'
    miss = want - set(got)
    if miss: out.append(('every requested sample written', f'not written: {show(miss)} (window {lo/1e6} .. {hi/1e6} s); files {names[:8]}'))
    outside = {k for k in got if not lo <= k * 10000 <= hi}
    if outside: out.append(('no sample outside the window', f'written outside {lo/1e6} .. {hi/1e6} s: {show(outside)}'))
    extra = set(got) - want - bridged - outside
    if extra: out.append(('only recorded samples', f'written but not recorded: {show(extra)}'))
    dup = {k for k, v in got.items() if len(v) > 1}
    if dup: out.append(('one file per sample', f'in several files: {show(dup)}; {sorted({f for f, _ in got[min(dup)]})}'))
    bad = {k for k in want & set(got) if got[k][0][1] != (vals[k] if vals else value(k))}
    if bad: out.append(('values unchanged', f'changed values: {show(bad)}; {got[min(bad)]}'))
    for d, t in (('metadata', 'metadata'), ('gps', 'gps')):
        old = case.get('present', [])
        for n in old:
            if open(f'{d}/{sn}{t}_{n:03}.txt').read() != f'old {t} {n}': out.append(('earlier files kept', f'{t}_{n:03} was overwritten'))
        have = sorted(int(x.split('_')[-1][:-4]) for x in os.listdir(d))
        first = next(i for i in range(10**4) if i not in old)
        if have != sorted(old + [first]): out.append(('first unused index', f'{t} files {old} before, {have} after the conversion'))
    return out

def check_raw(case):
    """a whole conversion of synthetic raw files, compared with the traces read_gem itself returns"""
    import gemlog, obspy
    from gemlog import core
    os.makedirs('raw')
    rng = random.Random(case['seed'])
    recs, _ = gemsim.recording(rng, seconds=case['secs'], t0=BASE + case['at'] + .3, start_ms=100, drop=lambda t: any(a <= t < b for a, b in case['drop']))
    ms0 = None
    files, cur, edge = [], [], case['per']
    t = 0
    prev = None
    for r in recs:
        if prev is not None and r[1] < prev - 4000: t += 8192
        prev = r[1]
        cur.append(r)
        if (t + r[1]) * gemsim.DT > edge: files.append(cur); cur = []; edge += case['per']; t0 = t
    files.append(cur)
    for i, f in enumerate(files):
        if len(f) > 50: gemsim.write(f'raw/FILE{i:04d}.077', '0.91', '077', f)
    L = core.read_gem('raw', SN='077', nums=list(range(100)), station=case.get('station', ''))
    st = core._merge_gaps(L['data'])
    vals, rec = {}, []
    for tr in st:
        a = int(round(tr.stats.starttime.ns / 1e7)) - T0
        rec.append((a, len(tr.data)))
        for j, v in enumerate(tr.data): vals[a + j] = v
    kw = {}
    if case.get('t1') is not None: kw['t1'] = as_time(case['t1'], 'utc')
    if case.get('t2') is not None: kw['t2'] = as_time(case['t2'], 'utc')
    core.convert('raw', SN='077', file_length_hour=case['flen'] / 3600, station=case.get('station', ''), **kw)
    return judge(case, rec, '077', vals)

def layout(rng, nfiles, flen, dense=True):
    """segments in time order spread over numbered files, with gaps of every kind near file boundaries"""
    at = rng.choice([0, 3600 * 5, 86400 - 700, 43200]) * 100 + rng.choice([0, 1, 37, 99, 100, 5000])
    out, num = {}, rng.choice([0, 0, 1, 11, 12, 40])
    fl = max(1, int(flen * 100))
    for i in range(nfiles):
        segs = []
        for j in range(rng.choice([0, 1, 1, 1, 2, 3]) if i else 1):
            n = rng.choice([1, 2, 30, 99, 100, 101, 500, rng.randint(1, 1200), fl % 20000 or 7])
            if rng.random() < .25:  # end exactly around a file boundary
                edge = (-(-(at + 1) // fl)) * fl
                n = max(1, min(3000, edge - at + rng.choice([-1, 0, 1])))
            segs.append([at, n]); at += n
            at += rng.choice([0, 0, 0, 1, 2, 3, 4, 5, 40, 99, 100, 250, fl % 30000, 6000])
        out[str(num)] = segs
        num += rng.choice([1, 1, 1, 1, 2, 11, 12, 13, 25])
    return out

def gen(rng, ctx):
    for ex in ([], ['000'], ['000', '001'], ['001'], ['000', '002'], ['%03d' % i for i in range(12)], ['%03d' % i for i in range(1001)]):
        for ty in ('gps', 'metadata'): yield {'kind': 'index', 'SN': '077', 'type': ty, 'existing': ex}
    base = dict(kind='stream', flen=60)
    # one block, plain, then windows around everything
    one = {'3': [[37, 14000]]}
    yield dict(base, files=one)
    yield dict(base, files=one, present=[0, 1, 3])
    for t1, t2 in ((10, 100), (0, 60), (20.004, 70.006), (20.005, 70.005), (20.006, 70.004), (60, 120), (59.99, 119.99), (59.999, 120.001), (100, 50), (-50, -10), (500, 600), (-10, 1000), (30, 30), (None, 45), (None, 60), (45.5, None), (500, None)):
        for how in ('utc', 'float'):
            c = dict(base, files=one, how=how)
            if t1 is not None: c['t1'] = round(t1 * 1e6)
            if t2 is not None: c['t2'] = round(t2 * 1e6)
            yield c
    # several blocks (12 numbers each)
    many = {str(i): [[100 * 20 * i, 2000]] for i in range(0, 30)}
    yield dict(base, files=many)
    for t1, t2 in ((None, 400), (0, 500), (300, 500), (250, 260), (10, 240), (10, 239.99), (0, 599.99), (590, None), (250, 1000)):
        c = dict(base, files=many, how='utc', flen=rng.choice([60, 600, 3600, 86400]))
        if t1 is not None: c['t1'] = round(t1 * 1e6)
        if t2 is not None: c['t2'] = round(t2 * 1e6)
        yield c
    for bd in (.1, .5, 2, 1/12): yield dict(base, files=many, blockdays=bd)
    far = {str(i): [[100 * 86400 * i // 3, 500]] for i in range(0, 40, 3)}     # several days
    yield dict(base, files=far, flen=3600)
    yield dict(base, files=far, flen=86400, t2=86400 * 10**6 * 3)
    yield dict(base, files=far, flen=86400, t1=86400 * 10**6, t2=86400 * 10**6 * 2 + 5)
    yield dict(base, files=far, flen=86400, t1=86400 * 10**6 * 2 + 3 * 10**6)
    yield dict(base, files=many, nums=[5, 6, 13, 20])
    # several traces in one second
    yield dict(base, files={'0': [[0, 150], [200, 20], [230, 20], [260, 300]]})
    yield dict(base, files={'0': [[0, 20], [40, 20]], '1': [[80, 10], [95, 10]], '12': [[99, 1], [199, 100]]})
    yield dict(base, files={'0': [[5950, 20], [5980, 19], [6000, 20], [6024, 10], [6040, 500]]})
    for fmt in ('SAC', 'mseed'): yield dict(base, files={'0': [[37, 5000], [6000, 10], [6030, 3000]]}, format=fmt, network='XX', location='01', station='ABC')
    for fs in ({'0': [[37, 5000], [6000, 10], [6030, 3000]]}, {'0': [[0, 150], [200, 20], [230, 20], [260, 300]]}, {'0': [[5950, 20], [5980, 19], [6000, 20], [6024, 10], [6040, 500]]}): yield dict(base, files=fs, format='wav', station='ABC')
    for fl in (1, 2, 30, 3.6, 7.2, .36, 1000, 7200, 43200): yield dict(base, files={'0': [[37, 2500], [3333, 2200]]}, flen=fl)
    for fl in (1, 7, 60, 600, 1000, 3600, 5400, 7200, 10800, 43200, 86400):
        for at in (.25, .5, .9): yield dict(base, files={'0': [[int(fl * 100 * at) + 5, min(500, fl * 5)], [int(fl * 100) - 37, 500]]}, flen=fl)
    yield dict(kind='raw', seed=1, secs=130, at=20, per=40, drop=[[30, 33], [70.2, 70.4]], flen=60)
    yield dict(kind='raw', seed=2, secs=130, at=3590, per=40, drop=[[12, 12.02], [55, 56]], flen=3600, t1=3600 * 10**6, t2=3680 * 10**6 + 5000, station='X')
    for i in range(ctx.n(150, 4000)):
        flen = rng.choice([1, 10, 60, 60, 600, 3600, 86400, 3.6, 13])
        c = dict(base, files=layout(rng, rng.choice([1, 2, 3, 6, 12]), flen), flen=flen, blockdays=rng.choice([1, 1, .1, 2]))
        sg = [s for v in c['files'].values() for s in v]
        if not sg: continue
        a, b = sg[0][0] * 10000, (sg[-1][0] + sg[-1][1]) * 10000
        pick = lambda: rng.choice([rng.choice(sg)[0] * 10000, rng.choice(sg)[0] * 10000 + rng.choice([-10000, -5000, -4000, 4000, 5000, 6000]), rng.randint(a - 10**6, b + 10**6), rng.randint(a // 10**6, b // 10**6) * 10**6])
        if rng.random() < .5: c['t1'] = pick()
        if rng.random() < .5: c['t2'] = max(pick(), c.get('t1', 0)) if rng.random() < .9 else pick()
        c['how'] = 'utc'
        if i % 10 == 7: c['format'] = 'wav'
        if rng.random() < .2: c['nums'] = sorted(rng.sample([int(k) for k in c['files']], rng.randint(1, len(c['files']))))
        yield c
    for i in range(ctx.n(0, 12)):
        yield dict(kind='raw', seed=rng.randint(0, 999), secs=rng.randint(60, 300), at=rng.choice([0, 3500, 86300]), per=rng.choice([30, 60]), drop=[[rng.uniform(0, 100), rng.uniform(0, 100)] for _ in range(3)], flen=rng.choice([60, 3600]))

if __name__ == '__main__':
    main(check, gen, rule='distinct conversions', bound='conversions of up to 40 numbered files of up to 20 s each')

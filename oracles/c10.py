import sys, os, math, random, json, re, inspect
sys.path.insert(0, os.path.dirname(__file__))
from orc import *
import gemsim
import numpy as np

def build(folder, files):
    """files: name -> {'sn': recorded serial number or None, 'pad': bytes} or {'size': n}"""
    os.makedirs(folder)
    for name, f in files:
        p = os.path.join(folder, name)
        if f.get('dir'): os.makedirs(p); continue
        if 'size' in f: open(p, 'w').write('#GemCSV0.91\n'[:f['size']].ljust(f['size'], '#')); continue
        h = gemsim.header(f.get('fmt', '0.8'), f['sn'])
        open(p, 'w').write('\n'.join(h) + '\n' + ('D,100,5\n' if f.get('fmt', '0.8') in ('0.8', '0.85') else 'D100,5\n') * 3)
def serial(name, f):
    """serial number of a raw file: its extension, or what is recorded in it; None = not a raw file / unknown"""
    if f.get('dir'): return None
    m = re.fullmatch(r'FILE([0-9]{4})\.(...)', name)
    if not m: return None
    if m[2] == 'TXT': return f.get('sn')
    return m[2]
def expected_files(files, sn, nums):
    out = []
    for name, f in files:
        if serial(name, f) != sn or f.get('size', 99) <= 10: continue
        if int(name[4:8]) in nums: out.append(name)
    return sorted(out)
def as_nums(case):
    v, how = case['nums'], case['how']
    return {'list': list(v), 'array': np.array(v, dtype=int), 'range': range(min(v), max(v) + 1) if v else [], 'tuple': tuple(v)}[how]
def table_text(t): return '\n'.join(','.join(r) for r in [t['header']] * bool(t['header']) + t['rows']) + '\n'

def check(case):
    import gemlog
    from gemlog import core
    k = case['kind']
    if k == 'files':
        build(case['folder'], case['files'])
        nums = as_nums(case)
        got = [os.path.basename(str(x)) for x in core._find_nonmissing_files(case['folder'], case['sn'], nums)]
        want = expected_files(case['files'], case['sn'], list(nums))
        if got != want: return [('files read', f'reading serial number {case["sn"]!r}, numbers {case["nums"]} uses {got}, should use {want}')]
        return []
    if k == 'reading':
        build(case['folder'], case['files'])
        seen = []
        class Stop(Exception): pass
        orig = core._read_several
        def rec(fnList, *a, **kw):
            seen.extend(os.path.basename(str(x)) for x in fnList); raise Stop
        core._read_several = rec
        try: core.read_gem(case['folder'], nums=as_nums(case), SN=case['sn'])
        except Stop: pass
        except (gemlog.exceptions.MissingRawFiles, gemlog.exceptions.CorruptRawFile): pass
        finally: core._read_several = orig
        want = expected_files(case['files'], case['sn'], list(as_nums(case)))
        if seen != want: return [('files read', f'read_gem of serial number {case["sn"]!r}, numbers {case["nums"]} reads {seen}, should read {want}')]
        return []
    if k == 'convert':
        os.makedirs('raw')
        t = 1592630400.0
        rng = random.Random(case['seed'])
        sns = {}
        for i, (num, ext, sn, val) in enumerate(case['raw']):
            fmt = '0.91' if ext != 'TXT' else '0.85'
            ev, _ = gemsim.recording(rng, 20, start_ms=100, t0=t + 30 * num, fmt=fmt, samples=lambda k: val)
            gemsim.write(f'raw/FILE{num:04}.{ext}', fmt, sn, ev)
        seen = []
        orig = core._read_several
        def rec(fnList, *a, **kw):
            seen.extend(os.path.basename(str(x)) for x in fnList); return orig(fnList, *a, **kw)
        core._read_several = rec
        kw = {} if case['nums'] is None else {'nums': np.array(case['nums'])}
        try: gemlog.convert('raw', SN=case['sn'], convertedpath='out', blockdays=case['blockdays'], **kw)
        except gemlog.exceptions.MissingRawFiles: pass
        finally: core._read_several = orig
        want = sorted(f'FILE{n:04}.{ext}' for n, ext, sn, v in case['raw'] if sn == case['sn'] and (case['nums'] is None or n in case['nums']))
        if seen != want: return [('files converted', f'converting serial number {case["sn"]!r}, numbers {case["nums"]} reads {seen}, should read {want}')]
        return []
    if k == 'batch':
        from gemlog import gemconvert as C
        build(case['folder'], case['files'])
        t = case.get('table')
        if t: open('codes.csv', 'w').write(table_text(t))
        log = os.path.abspath('calls.jsonl')
        sig = inspect.signature(core.convert)
        def fake(*a, **kw):
            b = sig.bind(*a, **kw); b.apply_defaults(); v = b.arguments
            with open(log, 'a') as f: f.write(json.dumps({q: str(v[q]) for q in ('rawpath', 'convertedpath', 'SN', 'output_format', 'network', 'station', 'location')} | {'len': float(v['file_length_hour'])}) + '\n')
            if str(v['SN']) in case['fatal']: raise [lambda: ValueError('planned failure'), lambda: gemlog.exceptions.CorruptRawFile('planned failure'), MemoryError, lambda: KeyError(3), lambda: OSError(2, 'planned failure'), Exception][case['error']]()
            return []
        o = gemlog.convert
        gemlog.convert = fake
        argv = []
        L = case['long']
        if case['folder'] != 'raw': argv += ['--inputdir' if L else '-i', case['folder']]
        if case['serials'] is not None: argv += ['--serialnumbers' if L else '-s', ','.join(case['serials'])]
        if case['exclude'] is not None: argv += ['--exclude_serialnumbers=' + ','.join(case['exclude'])] if L else ['-x', ','.join(case['exclude'])]
        if t: argv += ['-c', 'codes.csv']
        if case['procs'] > 1: argv += ['--parallel' if L else '-p', str(case['procs'])]
        if case['opts']: argv += ['--outputdir', 'my out', '--format', 'sac', '--length', '2'] if L else ['-o', 'my out', '-f', 'sac', '-l', '2']
        if not argv: argv = ['-l', '24']
        try: C.main(argv)
        except SystemExit as e: return [('batch', f'gemconvert {" ".join(argv)} stops with exit status {e.code}')]
        except Exception as e: return [('batch', f'gemconvert {" ".join(argv)} fails: {type(e).__name__}: {e}')]
        finally: gemlog.convert = o
        got = [json.loads(l) for l in open(log)] if os.path.exists(log) else []
        present = sorted({serial(n, f) for n, f in case['files'] if serial(n, f) is not None and re.fullmatch('[0-9]{3}', serial(n, f))})
        sel = [s for s in (sorted(set(case['serials'])) if case['serials'] is not None else present) if s not in (case['exclude'] or [])]
        codes = {s: ('', '', '') for s in sel}
        if t:
            cols = [c.lower() for c in (t['header'] or ['SN', 'network', 'station', 'location'])]
            rows = [dict(zip(cols, r)) for r in t['rows']]
            codes = {}
            for s in sel:
                m = [r for r in rows if s.isdigit() and int(r['sn']) == int(s)]
                if m: codes[s] = (m[0].get('network', ''), m[0]['station'], m[0].get('location', ''))
        # an unusable serial number converts nothing and may be left out or tried
        unusable = [s for s in sel if not re.fullmatch('[0-9]{3}', s)]
        g = sorted((c["SN"], c["network"], c["station"], c["location"]) for c in got if re.fullmatch("[0-9]{3}", c["SN"]))
        w = sorted((s, *c) for s, c in codes.items() if s not in unusable)
        out = []
        if g != w: out.append(('batch', f'gemconvert {" ".join(argv)} converts {g}, should convert {w} (serial number, network, station, location)'))
        for c in got:
            if (c['rawpath'], c['convertedpath'], c['output_format'].lower(), c['len']) != (case['folder'], 'my out' if case['opts'] else 'mseed', 'sac' if case['opts'] else 'mseed', 2 if case['opts'] else 24): out.append(('batch options', f'conversion is given {c}'))
        return out[:2]
    raise OracleSkip

SNS = ['077', '078', '138', '007', '770', '210']
PARTS = ['77', '7', '07', '0', '8', '0770', '10', '38', '077 ']      # not the serial number of any instrument here
JUNK = ['README.txt', 'notes.TXT', 'file0001.077', 'FILE0001.0771', 'FILE001.077', 'FILE00011.077', 'FILE0001.077.bak', '.DS_Store', 'XFILE0002.077', 'FILE000A.077', 'station_info.csv', 'FILE0003.txt', 'a', 'FILE12345.077TXT']
def folder_files(rng, txt=True):
    fs = {}
    for _ in range(rng.randint(0, 14)):
        num = rng.choice([0, 1, 2, 3, 7, 10, 99, 100, 9999, rng.randrange(10000)])
        ext = rng.choice(SNS[:4] * 2 + SNS + ['TXT'] * 6 + ['abc', 'txt', '0a7', 'bak'])
        name = f'FILE{num:04}.{ext}'
        r = rng.random()
        if ext == 'TXT': f = {'sn': rng.choice(SNS + ['077', '0771', '0770', '07', '7', None, 'TXT', '77']), 'fmt': rng.choice(['0.8', '0.85', '0.91'])}
        else: f = {'sn': ext if rng.random() < .9 else rng.choice(SNS), 'fmt': rng.choice(['0.91', '1.10', '0.85'])}
        if r < .15: f = {'size': rng.choice([0, 9, 10])}
        elif r < .2 and ext != 'TXT': f = {'size': rng.choice([11, 12])}
        fs[name] = f
    for j in rng.sample(JUNK, rng.randint(0, 5)): fs.setdefault(j, {'size': 40})
    return sorted(fs.items(), key=lambda x: rng.random())
def gen(rng, ctx):
    yield {'kind': 'files', 'folder': 'raw', 'files': [['FILE0000.TXT', {'sn': '0771'}], ['FILE0001.077', {'sn': '077', 'fmt': '0.91'}]], 'sn': '077', 'nums': [0, 1], 'how': 'list'}
    yield {'kind': 'batch', 'folder': 'raw', 'files': [['FILE0000.TXT', {'sn': '077'}], ['FILE0001.078', {'sn': '078', 'fmt': '0.91'}], ['README.txt', {'size': 30}]], 'serials': None, 'exclude': None, 'fatal': [], 'error': 0, 'long': False, 'procs': 1, 'opts': False,
           'table': {'header': ['SN', 'network', 'station', 'location'], 'rows': [['078', 'XX', 'B', '00'], ['077', 'YY', 'A', '']]}}
    for i in range(ctx.n(450, 8000)):
        fs = folder_files(rng)
        nums = rng.choice([list(range(10000)), [int(n[4:8]) for n, f in fs if re.fullmatch('FILE[0-9]{4}.*', n) and rng.random() < .6 and n[4:8].isdigit()], [0, 1, 2], [rng.randrange(10000)], []])
        yield {'kind': 'files' if i % 3 else 'reading', 'folder': rng.choice(['raw', 'raw data', 'sub/raw', 'r[1]w', 'ra*w?', 'FILE0001.077', 'x.TXT']), 'files': fs, 'sn': rng.choice(SNS), 'nums': nums, 'how': rng.choice(['list', 'array', 'range', 'tuple'] if nums else ['list', 'array'])}
        if i % 3 == 0:
            fs = folder_files(rng)
            ser = rng.choice([None, None, rng.sample(SNS, rng.randint(1, 4)), ['078', '077', '078'], [rng.choice(SNS), 'abc']])
            t = None
            if rng.random() < .6:
                rows = [[s if rng.random() < .7 else str(int(s)), rng.choice(['XX', 'YY', '']), f'ST{j}', rng.choice(['', '00', '01'])] for j, s in enumerate(rng.sample(SNS, rng.randint(1, 6)))]
                t = {'header': rng.choice([['SN', 'network', 'station', 'location'], ['SN', 'Network', 'Station', 'Location'], None]), 'rows': rows}
            yield {'kind': 'batch', 'folder': rng.choice(['raw', 'raw', 'my raw', 'r[2]']), 'files': fs, 'serials': ser, 'exclude': rng.choice([None, None, rng.sample(SNS, 2), rng.sample(SNS + PARTS * 2, 3)]), 'table': t,
                   'fatal': rng.sample(SNS, rng.randint(0, 3)), 'error': rng.randrange(6), 'long': rng.random() < .4, 'procs': rng.choice([1, 1, 2, 3]), 'opts': rng.random() < .3}
        if i % 45 == 0:
            raw = []
            for num in rng.sample(range(0, 40), rng.randint(2, 5)):
                for sn in rng.sample(['077', '078'], rng.randint(1, 2)):
                    raw.append([num, rng.choice([sn, sn, 'TXT']), sn, rng.randint(-30, 30)])
            seen = set(); raw = [r for r in raw if (r[0], r[1]) not in seen and not seen.add((r[0], r[1]))]
            # one file per instrument and number
            nums = rng.choice([None, None, sorted(rng.sample([r[0] for r in raw], min(len(raw), rng.randint(1, 3))))])
            yield {'kind': 'convert', 'raw': raw, 'sn': '077', 'nums': nums, 'blockdays': rng.choice([1, 1, 1 / 12, .25, 2]), 'seed': rng.randrange(10 ** 6)}
if __name__ == '__main__': main(check, gen, None, rule='folders of raw files (two old text formats among them), stray files and folders, requested numbers and serial numbers, exclusions, station tables, failing instruments', bound='up to 14 raw files, 6 serial numbers, recordings of 20 s for whole conversions')

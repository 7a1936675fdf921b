"""C08: merging raw files preserves the recorded signal - real folders through the real gem_cat and reader."""
import sys, os, random, itertools
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from orc import main
import gemsim, c01

def decode(raw, fmt):
    """independent decoding: data values, GPS and metadata rows of one file's text"""
    text = raw.decode('latin-1')
    if fmt in ('0.8', '0.85'):
        D, G, M = [], [], []
        for ln in text.split('\n')[6:]:
            f = ln.rstrip('\r').split(',')
            if f[0] == 'D': D.append((float(f[1]), float(f[2])))
            elif f[0] == 'G': G.append([float(x) for x in f[1:]])
            elif f[0] == 'M': M.append([float(x) for x in f[1:]])
        return D, G, M
    D, G, M, s = [], [], [], 0
    for t, ms, v in c01.decode(text):
        if t == 'D': s += v[0]; D.append((ms, s))
        elif t == 'G': G.append([ms] + v)
        else: M.append([ms] + v)
    return D, G, M

def read(fn, fmt):
    import gemlog.core as core
    return core._read_single(fn, require_gps=False, version={'0.91': '0.9'}.get(fmt, fmt))

def check(case):
    import numpy as np
    from gemlog.gem_cat import gem_cat
    fmt, out = case['fmt'], []
    os.mkdir('raw')
    sn = case.get('sn', '077')
    texts = {}
    for j, t in enumerate(case['files']):
        nm = 'FILE%04d.%s' % (case.get('numbers', range(len(case['files'])))[j], 'TXT' if case.get('txt') else sn)
        texts[nm] = t.encode('latin-1')
    order = sorted(texts)
    random.Random(len(order)).shuffle(order)          # creation and modification times say nothing about the order of files
    for j, nm in enumerate(order):
        open('raw/' + nm, 'wb').write(texts[nm])
        os.utime('raw/' + nm, (1600000000 + 100 * j,) * 2)
    names = sorted(texts)
    gps = {n: any(l.startswith(b'G') for l in texts[n].split(b'\n')) for n in names}
    want = []
    for i, n in enumerate(names):
        if not want:
            if gps[n]: want.append([n])
        elif gps[n] and gps[names[i - 1]]: want.append([n])
        else: want[-1].append(n)
    try: gem_cat('raw', 'merged', case.get('ext', ''))
    except Exception as e: return [('refused', f'merging {[gps[n] for n in names]} in format {fmt} failed: {type(e).__name__} {e}')]
    for n in names:
        if open('raw/' + n, 'rb').read() != texts[n]: out.append(('input', f'input {n} was changed'))
    if sorted(os.listdir('raw')) != names: out.append(('input', 'the input folder changed'))
    got = sorted(os.listdir('merged')) if os.path.isdir('merged') else []
    if got != ['FILE%04d.%s' % (k, sn) for k in range(len(want))]:
        return out + [('numbering', f'presence of GPS {[int(gps[n]) for n in names]} gave outputs {got}, expected {len(want)} numbered from 0000')]
    for k, grp in enumerate(want):
        fn = 'merged/' + got[k]
        raw = open(fn, 'rb').read()
        D, G, M = [], [], []
        for n in grp:
            a = decode(texts[n], fmt)
            D += a[0]; G += a[1]; M += a[2]
        what = f'output {k} of files {grp} (GPS {[int(gps[n]) for n in grp]}, format {fmt})'
        mine = decode(raw, fmt)
        if len(mine[0]) != len(D): out.append(('samples', f'{what} holds {len(mine[0])} of {len(D)} samples'))
        else:
            i = next((i for i in range(len(D)) if D[i] != mine[0][i]), None)
            if i is not None: out.append(('counts', f'{what}: sample {i} is {mine[0][i]} instead of {D[i]}'))
        if mine[1] != G: out.append(('GPS', f'{what} holds {len(mine[1])} GPS lines, {len(G)} or others expected'))
        if mine[2] != M: out.append(('metadata', f'{what} holds {len(mine[2])} metadata lines, {len(M)} or others expected'))
        if out: break
        try: r = read(fn, fmt)
        except Exception as e: out.append(('unreadable', f'{what}: {type(e).__name__} {e}')); break
        if [float(x) for x in np.asarray(r['data'])[:, 1]] != [d[1] for d in D]: out.append(('read', f'{what}: the reader gets other counts')); break
        if len(r['metadata']) != len(M): out.append(('read', f'{what}: the reader gets {len(r["metadata"])} of {len(M)} metadata rows')); break
        if len(r['gps']) != len(G) and case.get('clean'): out.append(('read', f'{what}: the reader gets {len(r["gps"])} of {len(G)} fixes')); break
    return out

def one(case):
    if case['kind'] == 'in place': return in_place(case)
    if case['kind'] == 'first line': return first_line(case)
    return check(case)

def in_place(case):
    from gemlog.gem_cat import gem_cat
    os.mkdir('raw')
    os.symlink('raw', 'link')
    H = '\n'.join(gemsim.header('0.9', '077')) + '\n'
    T = [H + 'D10,1\nM,12,3.02,22.5,1.25,2.5,94,66,9,0,1,57,86\n', H + 'D10,5\nG,12,70,2020,6,20,5,21,22.0,43.62226,-116.20594\nM,12,3.02,22.5,1.25,2.5,94,66,9,0,1,57,86\n', H + 'D10,7\nM,12,3.02,22.5,1.25,2.5,94,66,9,0,1,57,86\n']
    for i, t in enumerate(T): open(f'raw/FILE000{i}.077', 'w').write(t)
    try: gem_cat('raw', case['out'])
    except Exception: pass
    for i, t in enumerate(T):
        if open(f'raw/FILE000{i}.077').read() != t: return [('input', f'merging a folder into itself changed FILE000{i}.077')]
    return []

def first_line(case):
    """a merge of two files, the second starting with the given line"""
    H = '\n'.join(gemsim.header(case['fmt'], '077')) + '\n'
    tail = 'D20,3\nM,22,3.02,22.5,1.25,2.5,94,66,9,0,1,57,86\n'
    A = H + 'D10,100\nG,12,70,2020,6,20,5,21,22.0,43.62226,-116.20594\nM,12,3.02,22.5,1.25,2.5,94,66,9,0,1,57,86\nD20,-3\n' + case.get('end', '')
    return check({'kind': 'x', 'fmt': case['fmt'], 'files': [A, H + case['line'] + tail]})

def rec(fmt, seed, gps, n=12, start=None, tail=True):
    rng = random.Random(seed)
    ms = rng.randint(0, 8191) if start is None else start
    L = []
    diff = fmt not in ('0.8', '0.85')
    R = gemsim.ROLL[fmt]
    for k in range(n):
        if k == 1 or (k > 1 and rng.random() < .1): L.append(gemsim.line(gemsim.meta(ms % R, fmt, k), fmt))
        if gps and k == n // 2: L.append(gemsim.line(gemsim.gps(ms % R, 1592630400 + k), fmt))
        v = rng.randint(-30, 30)
        if fmt == '1.10' and rng.random() < .6 and k:
            L.append(chr(109 + rng.randint(-12, 12)) if rng.random() < .5 else chr(109 + rng.randint(-12, 12)) + chr(109 + rng.randint(-12, 12)))
        else: L.append(gemsim.line(['D', ms % R, v], fmt))
        ms += 10
    return '\n'.join(gemsim.header(fmt, '077') + L) + ('\n' if tail else '')

def gen(rng, ctx):
    for t in ('raw', 'raw/', './raw', 'link'): yield {'kind': 'in place', 'out': t}
    for fmt in ('0.9', '0.91', '0.85C', '1.10', '0.85', '0.8'):
        for n in (1, 2, 3, 4, 5):
            for g in itertools.product((0, 1), repeat=n):
                if not any(g): continue
                if n == 5 and fmt not in ('0.9', '0.8') and not ctx.thorough: continue
                yield {'kind': 'presence', 'fmt': fmt, 'clean': True, 'files': [rec(fmt, 17 * i + sum(g), x) for i, x in enumerate(g)]}
    first = ['D30,7\n', 'D30,-7\n', 'D30,+7\n', 'D8191,7\n', 'D0,0\n', 'D30,7\r\n', 'D 30, 7\n', 'D30.5,7\n', 'D-5,7\n', 'D30,70000\n', 'D7\n', 'D-7\n', 'D+7\n', 'm\n', 'mm\n', 'a\n', 'z\n', 'za\n', 'az\n', 'mz\r\n', 'a\r\n', 'D12\r\n', 'D30,7,9\n', 'D30,7x\n',
             'Dx\nD30,7\n', 'D,\nD30,7\n', 'D\nD30,7\n', 'mmm\nD30,7\n', 'm1\nD30,7\n', 'hello\nD30,7\n', '\nD30,7\n', '\n\n\nD30,7\n', '{\nD30,7\n', '"\nD30,7\n', 'R,"x\nD30,7\nR,y"\n', 'R,\t1\nD30,7\n', 'R,\xe9\xff\nD30,7\n', '#note\nD30,7\n#note\n', 'S,077\nD30,7\nS,078\n', 'C,1\nD30,7\nC,2\n',
             'M,12,3.02,22.5,1.25,2.5,94,66,9,0,1,57,86\nD30,7\n', 'G,12,70,2020,6,20,5,21,22.0,43.62226,-116.20594\nD30,7\n', 'G,12,70,2020,6,20,5,21,22.0,43.62226,-116.20594\nM,12,3.02,22.5,1.25,2.5,94,66,9,0,1,57,86\nm\n', 'P,0\nE,1\nm\n', 'D30;7\nm\n', '-5\nD30,7\n', ',5\nm\n', 'A\nm\n', 'D5 \nD30,7\n', 'D30,\nm\n', 'D30, \nm\n', 'D30,x\nD30,7\n']
    for fmt in ('1.10', '0.91', '0.9', '0.85C'):
        for ln in first:
            for end in ('', 'D30', 'D3', 'D40,2', 'm', 'R,x', 'D') if fmt == '1.10' or ln == 'D30,7\n' else ('',):
                yield {'kind': 'first line', 'fmt': fmt, 'line': ln, 'end': end}
    for fmt in ('0.9', '0.8', '1.10'):
        for g in ((1, 0, 0, 1), (1, 0, 1, 1, 0), (0, 0, 1, 0)):
            yield {'kind': 'no final newline', 'fmt': fmt, 'files': [rec(fmt, 3 * i, x, tail=False) for i, x in enumerate(g)]}
            yield {'kind': 'text extension', 'fmt': fmt, 'txt': True, 'ext': 'TXT', 'files': [rec(fmt, 5 * i, x) for i, x in enumerate(g)]}
            yield {'kind': 'numbers', 'fmt': fmt, 'ext': '077', 'numbers': [3, 10, 99, 1000, 9998][:len(g)], 'files': [rec(fmt, 7 * i, x) for i, x in enumerate(g)]}
    g = [1] * 12 + [0, 1, 1]
    yield {'kind': 'many', 'fmt': '0.9', 'clean': True, 'files': [rec('0.9', i, x, n=4) for i, x in enumerate(g)]}
    for it in range(ctx.n(60, 1500)):
        fmt = rng.choice(['0.9', '0.91', '1.10', '0.85C', '0.8', '0.85'])
        n = rng.randint(2, 7)
        yield {'kind': 'random', 'fmt': fmt, 'clean': True, 'files': [rec(fmt, rng.random(), rng.random() < .5 or (i == 0 and rng.random() < .5) or i == n - 1, n=rng.choice([3, 6, 20]), tail=rng.random() < .9) for i in range(n)]}

def from_model(ob, model):
    return list(gen(random.Random(5), type('C', (), {'n': lambda s, q, t: 20, 'thorough': False})()))

if __name__ == '__main__':
    main(one, gen, from_model, rule='cases are distinct folders; each is merged by the real gem_cat and every output is decoded by an independent decoder and by the real reader',
         bound='every presence sequence of up to 5 files in 6 formats, about 55 first lines of an appended file in 4 formats, unfinished last lines, and seeded random folders')

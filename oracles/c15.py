"""C15: rewriting a raw file in the compact form loses nothing - real files through the real converter and reader."""
import sys, os, random
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from orc import main
import gemsim, c01

def rows(fn):
    from gemlog.parsers import parse_gemfile
    v, t, m = parse_gemfile(fn.encode())
    return [(bytes(a), float(b), [float(x) for x in c]) for a, b, c in zip(t, m, v)]

def check(case):
    from gemlog.gemlog_aux import _convert_raw_091_110
    import gemlog.core as core
    import numpy as np
    raw = case['text'].encode('latin-1')
    open('IN.077', 'wb').write(raw)
    try: _convert_raw_091_110('IN.077', 'OUT.077')
    except Exception as e:
        if case.get('refuse'): return []
        return [('refused', f'a {case.get("fmt")} file with a header is refused: {type(e).__name__} {e}')]
    if case.get('refuse'): return [('not refused', f'input {case["text"][:30]!r} was converted')]
    out = []
    if open('IN.077', 'rb').read() != raw: out.append(('input', 'the input was changed'))
    if core._read_format_version('OUT.077') != '1.10': out.append(('format', f'recognised as format {core._read_format_version("OUT.077")}'))
    a, b = rows('IN.077'), rows('OUT.077')
    if a != b:
        i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
        out.append(('rows', f'row {i} of {len(a)}/{len(b)}: {a[i][:2] + (a[i][2][:2],) if i < len(a) else None} became {b[i][:2] + (b[i][2][:2],) if i < len(b) else None}'))
    L, M = raw.split(b'\n')[1:], open('OUT.077', 'rb').read().split(b'\n')
    while M and M[0][:1] == b'#' and M[0] not in L[:1]: M.pop(0)
    while L and not L[-1]: L.pop()
    while M and not M[-1]: M.pop()
    if len(L) != len(M): out.append(('lines', f'{len(L)} lines became {len(M)}'))
    else:
        for x, y in zip(L, M):
            if x != y and x[:1] != b'D': out.append(('verbatim', f'line {x!r} became {y!r}')); break
    if case.get('full') and not out:
        if core._read_SN('OUT.077') != core._read_SN('IN.077'): out.append(('SN', 'serial number lost'))
        if dict(core._read_config('OUT.077')) != dict(core._read_config('IN.077')): out.append(('config', 'configuration changed'))
        x, y = (core._read_single(f, version=v) for f, v in (('IN.077', {'0.91': '0.9'}.get(case['fmt'], case['fmt'])), ('OUT.077', '1.10')))
        for k in ('data', 'gps', 'metadata'):
            p, q = np.asarray(x[k]), np.asarray(y[k])
            if p.shape != q.shape or not (p == q).all(): out.append(('read', f'{k} differ after reading')); break
        import shutil, obspy, io
        shutil.copy('OUT.077', 'FILE0000.077')
        r = core.read_gem('.', SN='077')
        if sum(len(t.data) for t in r['data']) == 0: out.append(('read_gem', 'the rewritten file gives no data'))
    return out

def gen(rng, ctx):
    H = '\n'.join(gemsim.header('0.91', '077')) + '\n'
    for fmt, refuse in (('0.85C', 0), ('0.9', 0), ('0.91', 0), ('0.8', 1), ('0.85', 1), ('1.10', 1), ('0.95', 1), ('1.1', 1), ('', 1), ('0.911', 1)):
        yield {'kind': 'format', 'fmt': fmt, 'refuse': bool(refuse), 'text': H.replace('0.91', fmt, 1) + 'D10,1\nD20,-3\n'}
    for t in ('D10,1\nD20,2\n', 'XGemCSV0.91\nD1,1\n', 'abcdefg0.91\nD1,1\n', 'GemCSV#0.91\nD10,1\n', 'D1234560.91,5\nD20,3\n', '#gemcsv0.91\nD1,1\n'):
        yield {'kind': 'no header', 'refuse': True, 'text': t}
    for prev in (0, 1, 10, 4000, 8170, 8180, 8191):             # every step and difference near the coding limits, at every rollover phase
        for step in list(range(-15, 40)) + [8191, 4096, -4096, 8170, 8182]:
            ms = (prev + step) % 8192
            yield {'kind': 'step', 'fmt': '0.91', 'text': H + f'D{prev},40\nD{ms},3\nD{(ms + 10) % 8192},-3\n'}
    for d in list(range(-20, 21)) + [100, -100, 109, -109]:
        yield {'kind': 'difference', 'fmt': '0.91', 'text': H + f'D100,40\nD110,{d}\nD119,{-d}\nD131,{d}\n'}
    for t in ('D10,1\nD5\nD20,2\nD30,1\n', 'D10,1\nDx\nD20,2\n', 'D10,1\nm\nD20,2\nD30,1\n', 'D10,1\nmm\nD28,2\nD38,1\n', 'D10.5,1\nD20,2\n', 'D9000,1\nD9010,2\nD18,1\n', 'D8195,1\nD13,2\nD8201,3\nD19,1\n', 'D010,1\nD020,1\n',
              'D10,1\nD20,+1\n', 'D10,1\nD20,-0\n', 'D10,1\nD20, 1\nD30,1\n', 'D10,1\nD-2,1\nD8,1\n', 'D1_0,1\nD20,1\n', 'D10,1_0\nD20,1\n', '\n\nD10,1\n\nD20,2\n', 'D10,1\nR,\xe9\xff\nD20,1\n', 'D10,1\nD20,2', 'D10,1\r\nD20,2\r\nD30,-20\r\n',
              'D8180,1\nD8190,1\nD8,1\nD18,1\n', 'D5,1\nD10,0\nD10,0\nD9,0\nD31,0\nD54,0\n', 'D10,1,5\nD20,1\n', 'D,1\nD10,1\nD20,1\n', 'D10,\nD20,1\nD30,1\n'):
        for fmt in ('0.91', '0.85C'): yield {'kind': 'hand', 'fmt': fmt, 'text': H.replace('0.91', fmt, 1) + t}
    for s in range(3):
        r, _ = gemsim.recording(random.Random(s), seconds=25, start_ms=[100, 8100, 5][s], fmt='0.91', samples=lambda k, s=s: random.Random(k * 7 + s).choice([0, 1, -1, 12, -12, 13, -13, 200, random.Random(k).randint(-15, 15)]))
        fmt = ['0.91', '0.9', '0.85C'][s]
        yield {'kind': 'recording', 'fmt': fmt, 'full': True, 'text': '\n'.join(gemsim.header('0.91', '077') + [gemsim.line(x, '0.91') for x in r]).replace('0.91', fmt, 1) + '\n'}
    for it in range(ctx.n(700, 12000)):
        ms, L = rng.randint(0, 8191), []
        for _ in range(rng.choice([4, 12, 40])):
            k = rng.random()
            if k < .75:
                ms = (ms + rng.choice([10, 10, 10, 9, 11, -2, -1, 0, 1, 22, 23, 24, 21, 2000, 8190])) % 8192
                ln = f'D{ms},{rng.choice([0, 1, -1, 12, -12, 13, -13, 14, -14, 11, -11, 500])}'
            else: ln = c01.rnd_line(rng, 0)
            if rng.random() < .1: ln = c01.damage(rng, ln)
            if '\n' in ln: continue
            L.append(ln)
        nl = rng.choice(['\n', '\n', '\n', '\r\n'])
        yield {'kind': 'random', 'fmt': '0.91', 'text': H + nl.join(L) + (nl if rng.random() < .9 else '')}

def from_model(ob, model):
    return list(gen(random.Random(5), type('C', (), {'n': lambda s, q, t: 500, 'thorough': False})()))

if __name__ == '__main__':
    main(check, gen, from_model, rule='inputs are distinct texts; each is rewritten by the real converter and both files are parsed by the real reader',
         bound='every time step and difference around the coding limits at several rollover phases, damaged lines, and seeded random files of up to 40 lines')

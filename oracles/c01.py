"""C01: every raw line decodes to exactly its own row - the compiled reader on real files, against an independent decoder."""
import sys, os, re, random
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from orc import main
import gemsim

LF = re.compile(r'[ \t]*([+-]?(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?)')
INT = re.compile(r'[ \t]*([+-]?\d+)')
TYPES = {'G': 'ffdddddfff', 'M': 'fffffddddddd'}

def eol(s): return s in ('', '\n', '\r\n', '\r')
def decode(text):
    """rows (type, count, values) the documentation assigns to the file"""
    rows, prev = [], 0.0
    for ln in text.split('\n'):
        if ln.endswith('\r'): ln = ln[:-1]
        r = None
        if re.fullmatch('[a-z]', ln): r = ('D', (prev + 10) % 8192, [ord(ln[0]) - 109])
        elif re.fullmatch('[a-z]{2}', ln): r = ('D', (prev + 10 + ord(ln[0]) - 109) % 8192, [ord(ln[1]) - 109])
        elif ln[:1] == 'D':
            m = LF.match(ln, 1)
            if m and m.end() == len(ln): r = ('D', (prev + 10) % 8192, [float(m.group(1))])
            elif m and ln[m.end()] == ',':
                k = INT.match(ln, m.end() + 1)
                if k: r = ('D', float(m.group(1)), [int(k.group(1))])
        elif ln[:2] in ('G,', 'M,'):
            pos, vals = 2, []
            for j, t in enumerate(TYPES[ln[0]]):
                if j:
                    if ln[pos:pos + 1] != ',': break
                    pos += 1
                m = (LF if t == 'f' else INT).match(ln, pos)
                if not m: break
                vals.append(float(m.group(1))); pos = m.end()
            else: r = (ln[0], vals[0], vals[1:])
        if r:
            rows.append(r)
            if r[0] == 'D': prev = r[1]
    return rows

def check(case):
    import numpy as np
    from gemlog.parsers import parse_gemfile
    from gemlog import core
    text = case['text'] if 'text' in case else case['unit'] * case['times'] + case.get('tail', '')
    open('raw', 'w', newline='').write(text)
    if case['kind'] == 'long':
        df = core._read_with_cython('raw', False)
        want = case['times'] * case['unit'].count('\n') + 1
        if len(df) != want: return [('count', f'{want} data lines gave {len(df)} rows')]
        ms = df['millis-sawtooth'].to_numpy()
        k = np.arange(1, want) * 10 % 8192
        if not (ms[:-1] == k).all(): return [('millis', 'running counts wrong in a long file')]
        return []
    rows = decode(text)
    out = []
    if case['kind'] == 'small table':
        n = case['n_row']
        try: v, t, m = parse_gemfile(b'raw', n)
        except IndexError: return [] if len(rows) > n else [('refused', f'{len(rows)} rows do not fit a table of {n}')]
        if len(rows) > n: return [('dropped', f'{len(rows)} rows in a table of {n}: {len(t)} returned without an error')]
    else:
        try:
            if case.get('via') == 'reader':
                df = core._read_with_cython('raw', case.get('gps', False))
                v, t, m = df[list(range(2, 13))].to_numpy(), df['linetype'].to_numpy(), df['millis-sawtooth'].to_numpy()
            else: v, t, m = parse_gemfile(b'raw')
        except core.EmptyRawFile: return [] if not rows else [('empty', f'{len(rows)} rows reported as an empty file')]
        except core.CorruptRawFileNoGPS:
            return [] if case.get('gps') and not any(r[0] == 'G' for r in rows) else [('no GPS', 'GPS lines present but the file is refused')]
        if case.get('gps') and case.get('via') == 'reader' and not any(r[0] == 'G' for r in rows): out.append(('no GPS accepted', 'a file without GPS lines is accepted although GPS is required'))
    got = [(bytes(x).decode(), float(k), [float(a) for a in vv]) for x, k, vv in zip(t, m, v)]
    lines = [l for l in text.split('\n')]
    if len(got) != len(rows):
        d = next((i for i in range(min(len(got), len(rows))) if got[i][0] != rows[i][0] or got[i][1] != rows[i][1]), min(len(got), len(rows)))
        return out + [('count', f'{len(rows)} well-formed lines gave {len(got)} rows; first difference at row {d}: {got[d] if d < len(got) else None} instead of {rows[d] if d < len(rows) else None}')]
    for i, (g, w) in enumerate(zip(got, rows)):
        if g[0] != w[0]: out.append(('type', f'row {i}: type {g[0]} instead of {w[0]}'))
        elif not abs(g[1] - w[1]) <= 1e-9: out.append(('millis', f'row {i} ({w[0]}): count {g[1]} instead of {w[1]}'))
        elif g[2][:len(w[2])] != [float(x) for x in w[2]]: out.append(('values', f'row {i} ({w[0]}): values {g[2][:len(w[2])]} instead of {w[2]}'))
        if out: break
    return out

def rnd_line(rng, ms):
    k = rng.random()
    if k < .25: return rng.choice('abcdefghijklmnopqrstuvwxyz')
    if k < .45: return rng.choice('abcdefghijklmnopqrstuvwxyz') + rng.choice('abcdefghijklmnopqrstuvwxyz')
    if k < .55: return f'D{rng.choice([rng.randint(-70000, 70000), rng.randint(-200, 200)])}'
    if k < .7: return f'D{rng.choice([rng.randint(0, 8191), 8191, 0, 8190, round(rng.uniform(0, 8191), 2)])},{rng.randint(-70000, 70000)}'
    if k < .8: return f'G,{round(rng.uniform(0, 8191), 2)},{rng.randint(0, 900)},{rng.randint(2014, 2040)},{rng.randint(1, 12)},{rng.randint(1, 28)},{rng.randint(0, 23)},{rng.randint(0, 59)},{rng.randint(0, 59)}.0,{round(rng.uniform(-90, 90), 5)},{round(rng.uniform(-180, 180), 5)}'
    if k < .88: return f'M,{rng.randint(0, 8191)},{round(rng.uniform(2, 9), 2)},{round(rng.uniform(-40, 60), 1)},{round(rng.uniform(0, 3), 3)},{round(rng.uniform(0, 3), 3)},' + ','.join(str(rng.randint(0, 120)) for _ in range(7))
    return rng.choice(['R,0,$GPRMC,042134.000,A,1427.4421,N,09051.2536,W,0.67,117.11,170721,,,A*74', f'P,{round(rng.uniform(0, 8000), 2)}', 'E,1,272743,9543.78,1056', 'S,138', 'C,1,15,20,0,0,0', '#GemCSV1.10', '#adcMSSAMP', '', ',1', '-2', '7780,-1', 'Q', '{', '`', '~', 'A', 'Z', 'gps'.upper()])

def damage(rng, ln):
    """a damaged version that is not well-formed in an ambiguous way (nothing after the last field is changed)"""
    k = rng.randint(0, 5)
    if not ln: return ln
    if k == 0: return ln[:rng.randint(0, len(ln))]
    if k == 1: i = rng.randint(0, len(ln)); return ln[:i] + rng.choice('!;?_xQ') + ln[i:]
    if k == 2: return ln.replace(',', '', 1)
    if k == 3: return ln[0] + ln[2:]
    if k == 4: return ln[0] + ',' + ln[2:]
    i = rng.randrange(len(ln)); return ln[:i] + rng.choice('.-+,x$\x07') + ln[i + 1:]

def clear(ln):
    """malformed or well-formed beyond doubt (junk after the last field is left open by the documentation)"""
    if re.search('0[xX]', ln): return False        # hexadecimal numbers
    if ln[:1] == 'D':
        m = re.fullmatch(r'D[ \t]*[+-]?(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?(,[+-]?\d+)?', ln)
        if m: return not re.search('[eE]', ln)
        return len(decode(ln)) == 0
    if ln[:1] in 'GM' and decode(ln): return re.fullmatch(r'[GM](,[+-]?\d+(\.\d*)?)+', ln) is not None and len(ln.split(',')) == {'G': 11, 'M': 13}[ln[0]]
    return True

HAND = ['m\n', 'mm\n', 'D5\n', 'D100,5\n', 'm', 'mm', 'D5', 'D100,5', 'a\nz\naz\nza\n', 'D8191,3\nm\nzm\nam\nD7\nD0,1\naa\n', 'abc\nm\n', 'm1\nm\n', 'm,\nm\n', 'mm1\nm\n', 'hello\nm\n', 'D\nm\n', 'D,5\nm\n', 'Dx\nm\n', 'D12,\nm\n', 'D12,x\nm\n', 'D12x\nm\n', 'D12;5\nm\n',
        'D-3\nD+4\nD-100,-5\n', 'D10,1\nG,1,2\nm\n', 'D10,1\nG\nm\n', 'D10,1\nM,3\nM\nm\n', 'D10,1\nm\r\nmm\r\nD5\r\nD20,3\r\n',
        'D10,1\nR,' + 'x' * 300 + 'm\nm\n', 'D10,1\nR,' + 'x' * 252 + '\nm\n', 'D10,1\nR,' + 'x' * 253 + '\nm\n', 'D10,1\nR,' + 'x' * 251 + '\nm\n', 'D10,1\nR' + ' ' * 254 + 'D77,7\nm\n', 'D10,1\nR' + ' ' * 509 + 'm\nm\n', 'x' * 254 + 'm\nz\n',
        'D10,1\nG,8171,70,2020,6,20,5,21,22.0,43.62226,-116.20594\nG,8171,70,2020,6,20,5,21,22.0,43.62226\nG,8171,70,2020,6,,5,21,22.0,43.62226,-116.20594\nG;8171,70,2020,6,20,5,21,22.0,43.62226,-116.20594\nm\n',
        'M,8001,3.02,22.1,1.412,2.052,94,66,9,0,0,57,86\nM,8002,3.02,22.1,1.412,2.052,94,66,9,0,0,57\nM8001,3.02,22.1,1.412,2.052,94,66,9,0,0,57,86\nM,8003,3.02,,1.412,2.052,94,66,9,0,0,57,86\nD1,1\n',
        'G,1,2,2020,6,20,5,21,22.0,1.5,2.5\nm\nM,5,3.02,22.1,1.412,2.052,94,66,9,0,0,57,86\nmm\nG,7,2,2020,6,20,5,21,23.0,1.5,2.5\nD9\n',
        'G,0.0,-5,-2020,-6,-20,-5,-21,-22.5,-43.6,-116.2\nM,0,-3.02,-22.1,-1.4,-2.0,-94,-66,-9,-1,-1,-57,-86\nD0,0\n', '\nm\n\n\nm\n']

def gen(rng, ctx):
    for t in HAND:
        yield {'kind': 'hand', 'text': t}
        yield {'kind': 'hand', 'text': t, 'via': 'reader', 'gps': 'G' in t}
    for a in 'amz':                    # every phase of the rollover
        for ms in list(range(8160, 8192)) + [0, 1, 12, 13]:
            yield {'kind': 'rollover', 'text': f'D{ms},1\nm\n{a}m\nD4\n'}
    for c in range(1, 128):            # every first character
        if chr(c) in '\n\r': continue
        yield {'kind': 'first character', 'text': f'D10,1\n{chr(c)}\n{chr(c)}m\nm{chr(c)}\nm\n'}
    for n in (1, 2, 3, 5):
        for k in range(0, 7): yield {'kind': 'small table', 'n_row': n, 'text': 'D10,1\n' + 'm\nP,1\n' * k}
    yield {'kind': 'long', 'unit': 'm\n' * 1000, 'times': 1561, 'tail': 'M,1,3.02,22.1,1.412,2.052,94,66,9,0,0,57,86\n'}
    for it in range(ctx.n(2500, 40000)):
        L = []
        for _ in range(rng.choice([3, 8, 30])):
            ln = rnd_line(rng, 0)
            if rng.random() < .25: ln = damage(rng, ln)
            if not clear(ln): continue
            if rng.random() < .01: ln = 'R,' + rng.choice('xmDGM, 1') * rng.choice([251, 252, 253, 254, 255, 300, 600]) + rng.choice(['', 'm', 'D1,1'])
            L.append(ln)
        nl = rng.choice(['\n', '\n', '\n', '\r\n'])
        yield {'kind': 'random', 'text': nl.join(L) + (nl if rng.random() < .9 else ''), 'via': rng.choice(['parser', 'reader']), 'gps': rng.random() < .3}

def from_model(ob, model):
    return list(gen(random.Random(5), type('C', (), {'n': lambda s, q, t: 600, 'thorough': False})()))

if __name__ == '__main__':
    main(check, gen, from_model, rule='files are distinct texts; each is parsed by the real compiled reader and by an independent decoder',
         bound='hand-written damaged lines, every first character, every rollover phase, and seeded random files of up to 30 lines plus one of 1.56 million lines')

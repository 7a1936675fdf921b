import sys, os, math, random
sys.path.insert(0, os.path.dirname(__file__))
import numpy as np
from orc import *
import gemsim as S
CORR = 8.93

def check(case):
    import gemlog.core as c
    f = getattr(c, '_read_single', None)
    if f is None: raise OracleSkip
    fmt, recs, off, req = case['fmt'], case['recs'], case['offset'], case['require']
    R = S.ROLL[fmt]
    fn = 'FILE0000.' + ('TXT' if fmt == '0.8' else '077')
    S.write(fn, fmt, '077', recs)
    try: out = f(fn, off, require_gps=req, version={'0.91': '0.9'}.get(fmt, fmt))
    except c.CorruptRawFileNoGPS:
        return [('refused', 'refused for lack of GPS though it is not required')] if not req else []
    except c.CorruptRawFile as e:
        if {'D', 'M'} <= {r[0] for r in recs}: return [('refused', f'well-formed file refused: {e!r}')]
        return []
    saw = [r[1] for r in recs]
    u = S.unroll(saw, R, off)
    bad = []
    D = np.asarray(out['data'], float)
    iD = [i for i, r in enumerate(recs) if r[0] == 'D']
    if len(D) != len(iD): return [('rows', f'{len(D)} samples read, {len(iD)} data lines recorded ({fmt})')]
    # congruence, bounded steps, start: checked on the output itself, line by line
    def near(a, b): return abs(a - b) < 1e-3
    acc = 0
    prev_line = None
    tie = any(abs(abs(b - a) - R / 2) < 1e-9 for a, b in zip(saw, saw[1:])) or abs((saw[0] - off) % R - R / 2) < 1e-9
    for k, i in enumerate(iD):
        t = D[k, 0] - CORR
        if not near((t - saw[i] + R / 2) % R - R / 2, 0): bad.append(('congruent', f'{fmt}: line {i} recorded count {saw[i]}, unrolled {t}, offset {off}')); break
        if i > 0 and recs[i - 1][0] == 'D':
            d = t - (D[k - 1, 0] - CORR)
            if abs(d) > R / 2 + 1e-6: bad.append(('step', f'{fmt}: consecutive lines {i - 1},{i} (counts {saw[i - 1]},{saw[i]}) differ by {d} after unrolling')); break
        if i == 0 and abs(t - off) > R / 2 + 1e-6: bad.append(('start', f'{fmt}: first count {t}, offset {off}')); break
        if not tie and not near(t, u[i]): bad.append(('unroll', f'{fmt}: line {i} unrolled to {t}, expected {u[i]} (counts {saw[max(0, i - 3):i + 1]}, offset {off})')); break
        acc = recs[i][2] if fmt in ('0.8', '0.85') else acc + recs[i][2]
        if D[k, 1] != acc: bad.append(('value', f'{fmt}: sample {k} is {D[k, 1]}, expected {acc}')); break
    iM = [i for i, r in enumerate(recs) if r[0] == 'M']
    M = out['metadata']
    if len(M) != len(iM): return bad + [('meta rows', f'{len(M)} metadata rows, {len(iM)} lines ({fmt})')]
    names = ['batt', 'temp', 'A2', 'A3', 'maxWriteTime', 'minFifoFree', 'maxFifoUsed', 'maxOverruns', 'gpsOnFlag', 'unusedStack1', 'unusedStackIdle']
    if fmt == '0.8': names = names[:2] + names[4:]
    for k, i in enumerate(iM):
        row = M.iloc[k]
        if not tie and not near(float(row['millis']), u[i]): bad.append(('meta count', f'{fmt}: metadata {k} at {row["millis"]}, expected {u[i]}')); break
        w = [n for n, v in zip(names, recs[i][2:]) if float(row[n]) != float(v)]
        if w: bad.append(('meta value', f'{fmt}: metadata {k} {w[0]} = {row[w[0]]}, line {recs[i]}')); break
    return bad

def gen(rng, ctx):
    fm = ['0.91', '1.10', '0.9', '0.85C', '0.85', '0.8']
    N = ctx.n(420, 3000)
    for it in range(N):
        fmt = fm[it % 6]
        R = S.ROLL[fmt]
        mode = it // 6 % 5
        ms = rng.choice([0, 1, R - 1, R // 2, R // 2 - 1, rng.randint(0, R - 1)])
        recs = []
        pos = ms
        amp = rng.choice([1, 30, 3000, 10 ** 6])
        for k in range(rng.choice([2, 3, 5, 20, 60, 300])):
            if mode == 0: step = 10
            elif mode == 1: step = rng.choice([10, 10, 10, 11, 9, -3, 0, 1000])
            elif mode == 2: step = rng.randint(-R // 2 + 1, R // 2 - 1)
            elif mode == 3: step = rng.choice([R // 2 - 1, -(R // 2 - 1), 10, R // 2, -R // 2, R // 4 + 1, -R // 4 - 1])
            else: step = rng.choice([10, 10, 10, rng.randint(0, R // 2 - 1), 4000 % (R // 2)])
            pos += step
            x = rng.random()
            if x < .8 or k < 1: recs.append(['D', pos % R, rng.randint(-amp, amp)])
            elif x < .9: recs.append(S.meta(pos % R, fmt, k))
            else:
                g = S.gps(pos % R + (0.375 if fmt in ('0.91', '1.10') and pos % R < R - 1 else 0), 1592630400 + k)
                if rng.random() < .3: g[rng.choice([9, 10])] = 0    # invalid fix: still part of the count sequence
                recs.append(g)
        recs.append(S.meta(pos % R, fmt, 1))
        if rng.random() < .5: recs.insert(0, S.meta(ms % R, fmt, 2))
        if rng.random() < .3: recs.insert(0, S.gps(ms % R, 1592630400))
        off = rng.choice([0, 0, R, 3 * R + 17, rng.randint(0, 10 * R), R // 2, R // 2 + 1, rng.randint(0, 100 * R) + .93, 8.93])
        has = any(S.valid_fix(dict(zip(['msLag', 'year', 'month', 'day', 'hour', 'minute', 'second', 'lat', 'lon'], r[2:]))) for r in recs if r[0] == 'G')
        yield {'kind': 'file', 'fmt': fmt, 'recs': recs, 'offset': off, 'require': bool(has and it % 2)}

if __name__ == '__main__':
    main(check, gen, None, rule='distinct raw files and offsets', bound='files of up to 300 lines with steps up to half a rollover in all six formats')

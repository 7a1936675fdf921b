import sys, os, math, random
sys.path.insert(0, os.path.dirname(__file__))
import numpy as np
from orc import *
import gemsim as S
CORR = 8.93

def build(case):
    """write the files of a case; returns [(name, spec)] and per-file truth"""
    fmt = case['fmt']; R = S.ROLL[fmt]
    out = []
    for i, f in enumerate(case['files']):
        rng = random.Random(f['seed'])
        sn = None if f['kind'] == 'noSN' else case.get('sn', '077')
        fn = f'FILE{i:04d}.' + ('TXT' if fmt == '0.8' else '077')
        recs, _ = S.recording(rng, seconds=f['sec'], start_ms=f['start'], t0=f['t0'], fmt=fmt, no_gps=f['kind'] == 'noGPS',
                              gps_to=6 if f['kind'] == 'fewGPS' else 1e9, meta_every=5.0)
        k = f['kind']
        if k == 'gap':          # a step of more than 1000 counts between data lines
            a = len(recs) // 2
            m0 = None
            recs = [r for j, r in enumerate(recs) if not (a <= j < a + 140 and r[0] == 'D')]
        elif k in ('good1000', 'gap1001'):      # one step of exactly 1000 or 1001 counts at the start or end
            ds = [r for r in recs if r[0] == 'D']
            w = 1000 if k == 'good1000' else 1001
            if f.get('at') == 'first':
                keep = ds[101:]; keep[0:0] = [['D', (ds[101][1] - w) % R, 5]]
            else:
                keep = ds[:-101]; keep += [['D', (keep[-1][1] + w) % R, 5]]
            others = [r for r in recs if r[0] != 'D']
            recs = [r for r in recs if r[0] != 'D' or any(r is q for q in keep)]
            if f.get('at') == 'first': recs.insert(0, keep[0])
            else: recs.append(keep[-1])
        elif k == 'back':
            ds = [j for j, r in enumerate(recs) if r[0] == 'D']
            j = ds[{'first': 0, 'last': -1}.get(f.get('at'), len(ds) // 2)]
            if f.get('at') == 'first': recs[j] = ['D', (recs[ds[1]][1] + 1) % R, recs[j][2]]
            else: recs[j] = ['D', (recs[j][1] - 40) % R, recs[j][2]]
        elif k == 'gaps':       # several shorter gaps, also next to one another and at the very start and end
            ds = [j for j, r in enumerate(recs) if r[0] == 'D']
            drop = set()
            for a in f.get('gaps', []):
                a = a if a >= 0 else len(ds) + a
                drop.update(range(a, min(a + 4, len(ds) - 1)))
            recs = [r for j, r in enumerate(recs) if j not in {ds[a] for a in drop}]
        elif k == 'oddfix':     # one fix a second off, and a gap next to it
            g = [j for j, r in enumerate(recs) if r[0] == 'G']
            j = {'first': 0, 'last': len(g) - 1}.get(f.get('at'), len(g) // 2)
            t = S.fix_time(dict(zip(['year', 'month', 'day', 'hour', 'minute', 'second'], recs[g[j]][3:9]))) + f.get('off', 1)
            recs[g[j]][3:9] = list(S.utc(t))
            a, b = (g[j], g[j + 1]) if j + 1 < len(g) else (g[j - 1], g[j])
            ds = [q for q in range(a, b) if recs[q][0] == 'D'][10:20]
            recs = [r for q, r in enumerate(recs) if q not in ds]
        elif k == 'noM': recs = [r for r in recs if r[0] != 'M']
        elif k == 'noD': recs = [r for r in recs if r[0] != 'D']
        elif k == 'leap':       # GPS jumps by a second half way
            g = [r for r in recs if r[0] == 'G']
            for r in g[len(g) // 2:]:
                t = S.fix_time(dict(zip(['year', 'month', 'day', 'hour', 'minute', 'second'], r[3:9]))) + 1
                r[3:9] = list(S.utc(t))
        if k == 'empty': open(fn, 'w').close()
        elif k == 'garbage': open(fn, 'wb').write(bytes(rng.randrange(1, 256) for _ in range(400)))
        elif k == 'header': S.write(fn, fmt, sn, [])
        elif k == 'missing': pass
        elif k == 'firstline':
            S.write(fn, fmt, sn, recs)
            s = open(fn).read().split('\n'); s[0] = f.get('first', '#GemXXX'); open(fn, 'w').write('\n'.join(s))
        else: S.write(fn, fmt, sn, recs)
        out.append((fn, f, recs))
    return out

GOOD = {'good', 'good1000', 'gaps'}
def usable(f, fmt, require):
    k = f['kind']
    if k in GOOD: return True
    if k in ('noGPS', 'fewGPS'): return None if not require else False
    if k == 'leap': return False if require else None
    if k in ('firstline', 'oddfix'): return None
    return False

def check(case):
    import gemlog, gemlog.core as c
    fmt, require = case['fmt'], case['require']
    R = S.ROLL[fmt]
    files = build(case)
    names = [x[0] for x in files]
    if case['kind'] == 'read_gem': return check_gem(case, files)
    f = getattr(c, '_read_several', None)
    if f is None: raise OracleSkip
    L = f(list(names), require_gps=require, **({'version': fmt} if fmt in ('0.85', '0.8') else {}))
    return judge(case, files, L, R)

def judge(case, files, L, R):
    bad = []
    fmt, require = case['fmt'], case['require']
    D = np.asarray(L['data'], float)
    M, G, H, P = L['metadata'], L['gps'], L['header'], list(L['problems'])
    d0 = m0 = g0 = 0
    last = -np.inf
    if len(H) != len(files): return [('header rows', f'{len(H)} header rows for {len(files)} files')]
    desc = [x[1]['kind'] for x in files]
    nacc = 0
    for i, (fn, f, recs) in enumerate(files):
        named = [p for p in P if fn in str(p)]
        u = usable(f, fmt, require)
        if len(named) > 1: bad.append(('one message', f'{len(named)} messages name {fn} ({f["kind"]}): {named}'))
        acc = not named
        h = H.iloc[i]
        if u is True and not acc: bad.append(('usable', f'usable file {i} of {desc} skipped: {named}')); continue
        if u is False and acc: bad.append(('unusable', f'unusable file {i} of {desc} ({fmt}, require_gps={require}) was not reported')); continue
        if not acc:
            if not (np.isnan(float(h['start_ms'])) or float(h['start_ms']) == float(h['end_ms']) == 0 or float(h['start_ms']) > float(h['end_ms'])):
                bad.append(('skipped range', f'skipped file {i} of {desc} claims counts {h["start_ms"]}..{h["end_ms"]} in the header'))
            continue
        nacc += 1
        saw = [r[1] for r in recs]
        un = S.unroll(saw, R, 0)
        iD = [j for j, r in enumerate(recs) if r[0] == 'D']; iM = [j for j, r in enumerate(recs) if r[0] == 'M']
        iG = [j for j, r in enumerate(recs) if r[0] == 'G' and S.valid_fix(dict(zip(['msLag', 'year', 'month', 'day', 'hour', 'minute', 'second', 'lat', 'lon'], r[2:])))]
        d, m, g = D[d0:d0 + len(iD)], M.iloc[m0:m0 + len(iM)], G.iloc[g0:g0 + len(iG)]
        if len(d) < len(iD) or len(m) < len(iM) or len(g) < len(iG): return bad + [('missing rows', f'accepted file {i} of {desc}: rows missing')]
        d0 += len(iD); m0 += len(iM); g0 += len(iG)
        val = [recs[j][2] for j in iD] if fmt in ('0.8', '0.85') else list(np.cumsum([recs[j][2] for j in iD]))
        if list(d[:, 1]) != [float(v) for v in val]: bad.append(('samples', f'accepted file {i} of {desc}: samples altered'))
        sh = d[:, 0] - CORR - [un[j] for j in iD]
        shm = m['millis'].to_numpy(float) - [un[j] for j in iM]
        shg = g['msPPS'].to_numpy(float) - [un[j] for j in iG]
        alls = np.concatenate([sh, shm, shg])
        k = round(alls[0] / R)
        if np.abs(alls - k * R).max() > 1e-3: bad.append(('shift', f'accepted file {i} of {desc} ({fmt}): count shifts {sorted(set(np.round(alls, 3)))[:6]} are not one whole number of rollovers ({R})'))
        st = np.diff(d[:, 0])
        if len(st) and (st.min() < -1e-9 or st.max() > 1000 + 1e-9): bad.append(('steps', f'accepted file {i} of {desc}: steps {st.min()}..{st.max()}'))
        if d[0, 0] < last - 1e-9: bad.append(('order', f'accepted file {i} of {desc} ({fmt}) starts at count {d[0, 0]}, before the end {last} of the previous one'))
        if k < 0 or (k > 0 and d[0, 0] - R > max(last, 0) + 1e-6): bad.append(('rollovers', f'accepted file {i} of {desc} ({fmt}) is shifted by {k} rollovers to start at {d[0, 0]}: more than it takes to follow {last}'))
        last = d[-1, 0]
        for c_, j in (('batt', 2), ('temp', 3), ('unusedStackIdle', len(recs[iM[0]]) - 1)):
            if list(m[c_].astype(float)) != [float(recs[x][j]) for x in iM]: bad.append(('metadata', f'accepted file {i} of {desc}: {c_} altered'))
        for c_, j in (('lat', 9), ('second', 8), ('msLag', 2)):
            if len(iG) and list(g[c_].astype(float)) != [float(recs[x][j]) for x in iG]: bad.append(('gps', f'accepted file {i} of {desc}: {c_} altered'))
        sn = case.get('sn', '077')
        if str(h['SN']) != sn: bad.append(('header SN', f'header row {i} of {desc}: SN {h["SN"]!r}, file has {sn!r}'))
        if float(h['num_data_pts']) != len(iD): bad.append(('header count', f'header row {i} of {desc}: {h["num_data_pts"]} samples, file has {len(iD)}'))
        if abs(float(h['start_ms']) - d[0, 0]) > 1e-6 or abs(float(h['end_ms']) - d[-1, 0]) > 1e-6: bad.append(('header range', f'header row {i} of {desc}: {h["start_ms"]}..{h["end_ms"]}, samples {d[0, 0]}..{d[-1, 0]}'))
    if d0 != len(D) or m0 != len(M) or g0 != len(G): bad.append(('extra rows', f'{desc}: {len(D) - d0} data, {len(M) - m0} metadata, {len(G) - g0} GPS rows come from no accepted file'))
    if len(P) != len(files) - nacc: bad.append(('messages', f'{desc}: {len(P)} messages for {len(files) - nacc} skipped files: {P}'))
    return bad

def check_gem(case, files):
    import gemlog
    os.mkdir('raw')
    for x in files:
        if os.path.exists(x[0]): os.rename(x[0], 'raw/' + x[0])
    desc = [x[1]['kind'] for x in files]
    good = [i for i, x in enumerate(files) if usable(x[1], case['fmt'], True)]
    try: L = gemlog.read_gem('raw', SN='077', bitweight=1)
    except Exception as e:
        return [('read_gem refused', f'{desc}: {type(e).__name__}: {e}, though file(s) {good} are usable')] if good else []
    bad = []
    P = list(L['problems'])
    for i, (fn, f, recs) in enumerate(files):
        if f['kind'] in ('empty', 'missing'): continue
        n = [p for p in P if fn in str(p)]
        u = usable(f, case['fmt'], True)
        if u is False and len(n) != 1: bad.append(('read_gem message', f'{desc}: file {i} is skipped with {len(n)} messages'))
        if u is True and n: bad.append(('read_gem usable', f'{desc}: usable file {i} skipped: {n}'))
        if f['kind'] == 'firstline' and len(n) > 1: bad.append(('read_gem message', f'{desc}: {n}'))
    tot = sum(sum(r[0] == 'M' for r in x[2]) for i, x in enumerate(files) if i in good)
    got = len(L['metadata'])
    rest = sum(sum(r[0] == 'M' for r in x[2]) for x in files if x[1]['kind'] in ('firstline', 'oddfix') and not any(x[0] in str(p) for p in P))
    if got != tot + rest: bad.append(('read_gem metadata', f'{desc}: {got} metadata rows, usable files have {tot + rest}'))
    return bad

def gen(rng, ctx):
    kinds = ['noGPS', 'fewGPS', 'gap', 'back', 'noM', 'noD', 'leap', 'empty', 'garbage', 'header', 'missing', 'noSN', 'back', 'gap1001', 'good1000']
    fm = ['0.91', '0.9', '1.10', '0.85C', '0.85', '0.8']
    N = ctx.n(110, 900)
    for it in range(N):
        fmt = fm[it % 6]; R = S.ROLL[fmt]
        n = rng.choice([1, 2, 3, 3, 4, 5])
        t = 1592630400.0 + rng.random() * 1e5
        files = []
        start = rng.choice([100, R - 500, rng.randrange(R)])
        for i in range(n):
            sec = rng.choice([14, 16, 20])
            k = 'good' if rng.random() < .55 else rng.choice(kinds)
            if it % 5 == 0 and i == 0 and n > 1: k = 'noSN'
            mode = it % 3
            if mode == 0: s = start                                   # restarts at any phase
            elif mode == 1: s = start
            files.append({'kind': k, 'sec': sec, 'start': s if mode < 2 else start, 't0': t, 'seed': rng.randrange(10**9), 'at': rng.choice(['first', 'last', 'mid'])})
            gap = rng.choice([0, 0, 5, 100])
            t += sec + gap
            if it % 2: start = int(start + (sec + gap) / S.DT) % R        # clock keeps running
            elif rng.random() < .4: start = int(start + sec / S.DT // 10 * 10 - rng.choice([0, 1, 5, 10, 19, 30, 60, 200, 1000])) % R     # restarted just before the phase of the end
            else: start = rng.choice([100, 0, 1, R // 2, R // 2 + 1, R - 1, rng.randrange(R)])   # restarted
        yield {'kind': 'several', 'fmt': fmt, 'files': files, 'require': it % 4 != 3}
        if it % 5 == 3:
            fs = [dict(f, kind=f['kind'] if f['kind'] in ('good', 'noGPS', 'gap', 'back') else 'good') for f in files]
            q = rng.choice([0, 0, len(fs) - 1])
            if rng.random() < .5: fs[q].update(kind='gaps', gaps=rng.choice([[1, 6], [2, 7], [1, 6, 11], [-5, -10], [-6, -11, 1, 6], [300, 305, 310], [1], [-6]]))
            else: fs[q].update(kind='oddfix', off=rng.choice([1, -1, 3]), sec=rng.choice([20, 30, 40]))
            yield {'kind': 'read_gem', 'fmt': fmt if fmt != '0.8' else '0.9', 'files': fs, 'require': True}
        if it % 5 == 1:
            fs = [dict(f) for f in files]
            w = rng.randrange(3)
            fs.insert(0, {'kind': ['garbage', 'firstline', 'header'][w], 'sec': 14, 'start': 5, 't0': t - 1e4, 'seed': it, 'first': rng.choice(['', '#GemXXX', '#GemCSV9.99', '##', '1,2,3', '#GemCSV0.9x'])})
            if rng.random() < .4: fs.insert(0, dict(fs[0], seed=it + 1))
            yield {'kind': 'read_gem', 'fmt': fmt if fmt != '0.8' else '0.9', 'files': fs, 'require': True}

if __name__ == '__main__':
    main(check, gen, None, rule='distinct lists of raw files', bound='lists of up to 7 files, each a 14-20 s recording or one of 14 kinds of damage, in all six formats, restarting or continuing at any rollover phase')

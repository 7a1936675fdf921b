import sys, os, math, random
sys.path.insert(0, os.path.dirname(__file__))
from orc import *
import gemsim as S

TABLE = [(3, .5), (8, .7), (15, .8), (20, .82), (38, .9), (41, .91), (44, .92), (47, .98), (50, .99), (52, .991), (55, .992), (58, 1), (108, 1.01)]
KEYS = ['gps_mode', 'gps_cycle', 'gps_quota', 'adc_range', 'led_shutoff', 'serial_output']
DEFAULT = [1, 15, 20, 0, 0, 0]
def spec(sn):
    v = [b for a, b in TABLE if sn >= a][-1]
    V = .256 / 2 ** 15 / (1 + (50 if v >= .98 else 49.4) / .470)
    return v, V, V / (45.13e-6 * (3.1 if v >= .9 else 3.373) / 7)
def close(a, b):
    try: return abs(float(a) - b) <= 1e-9 * abs(b)
    except (TypeError, ValueError): return False

def check(case):
    import gemlog, gemlog.core as c
    k = case['kind']
    if k == 'specs':
        sn = case['SN']
        r = c.get_gem_specs(sn)
        v, V, Pa = spec(int(sn))
        if not (close(r['version'], v) and close(r['bitweight_V'], V) and close(r['bitweight_Pa'], Pa)):
            return [('specs', f'get_gem_specs({sn!r}) = {r}, expected version {v}, {V} V, {Pa} Pa per count')]
        return []
    if k == 'bw':
        sn, g, u = case['SN'], case['adc'], case['units']
        ok = g in (0, 1) and (u.upper() in ('PA', 'V') or u.lower() == 'counts')
        try: r = c.get_bitweight_info(sn, {'adc_range': g}, u) if u != '<default>' else c.get_bitweight_info(sn, {'adc_range': g})
        except KeyboardInterrupt: raise
        except BaseException as e:
            ok = ok or u == '<default>' and g in (0, 1)
            return [('bw:rejected', f'get_bitweight_info({sn!r}, adc_range={g}, {u!r}) raised {e!r}')] if ok else []
        if u == '<default>': ok, u = g in (0, 1), 'Pa'
        if not ok: return [('bw:accepted', f'get_bitweight_info accepted adc_range={g}, units={u!r}: {r}')]
        v, V, Pa = spec(int(sn))
        m = 1 + g
        want = {'PA': Pa * m, 'V': V * m, 'COUNTS': 1}[u.upper()]
        if not (close(r['bitweight_V'], V * m) and close(r['bitweight_Pa'], Pa * m) and close(r['bitweight'], want)):
            return [('bw', f'get_bitweight_info({sn!r}, adc_range={g}, {u!r}) = {r}; expected {V * m} V, {Pa * m} Pa, {want}')]
        return []
    if k == 'config':
        cfg = case['config']
        fn = 'FILE0000.077'
        recs, _ = S.recording(random.Random(1), seconds=1.5, fmt=case['fmt'])
        S.write(fn, case['fmt'], '077', recs, config=cfg)
        f = getattr(c, '_read_config', None)
        if f is None: raise OracleSkip
        r = f(fn)
        want = dict(zip(KEYS, cfg if cfg and case['fmt'] not in ('0.8', '0.85') else DEFAULT))
        got = {q: int(r[q]) for q in KEYS}
        return [] if got == want else [('config', f'_read_config of C line {cfg} ({case["fmt"]}): {got}')]
    if k in ('header', 'convert'):
        sn, fmt, cfg = case['SN'], case['fmt'], case['config']
        recs, _ = S.recording(random.Random(2), seconds=case.get('seconds', 16), fmt=fmt)
        os.makedirs('raw')
        S.write(f'raw/FILE0000.{sn if fmt != "0.8" else "TXT"}', fmt, sn, recs, config=cfg)
        used = cfg if cfg and fmt not in ('0.8', '0.85') else DEFAULT
        g = used[3]
        v, V, Pa = spec(int(sn))
        m = 1 + g
        if k == 'header':
            try: L = gemlog.read_gem('raw', SN=sn)
            except KeyboardInterrupt: raise
            except BaseException as e:
                return [] if g not in (0, 1) else [('header:failed', f'read_gem failed: {e!r} (config {cfg})')]
            if g not in (0, 1): return [('header:accepted', f'gain setting {g} was accepted')]
            h = L['header'].iloc[0]
            if not (close(h['bitweight_V'], V * m) and close(h['bitweight_Pa'], Pa * m)):
                return [('header', f"read_gem(SN={sn}) header has {h['bitweight_V']} V, {h['bitweight_Pa']} Pa per count; config {cfg}, expected {V * m}, {Pa * m}")]
            bad = [q for q, w in zip(KEYS, used) if int(h[q]) != w]
            return [('header:config', f'header {bad[0]} = {h[bad[0]]}, recorded {used}')] if bad else []
        import obspy
        calib = []
        orig = obspy.core.trace.Trace.write
        obspy.core.trace.Trace.write = lambda self, *a, **kw: calib.append(float(self.stats.calib))
        u, own = case['units'], case.get('bitweight')
        kw = {} if own is None else {'bitweight': own}
        try:
            try: c.convert('raw', SN=sn, units=u, output_format=case.get('format', 'MSEED'), **kw)
            except KeyboardInterrupt: raise
            except BaseException as e:
                ok = g in (0, 1) and (u in ('Pa', 'V', 'counts', 'Counts') or own is not None)
                return [('convert:failed', f'convert(units={u!r}, {kw}) failed: {e!r}')] if ok else []
        finally: obspy.core.trace.Trace.write = orig
        known = u.upper() in ('PA', 'V') or u.lower() == 'counts'
        if own is None and not known and calib: return [('convert:accepted', f'convert wrote traces stamped {calib[0]} for units {u!r}')]
        want = own if own is not None else {'PA': Pa * m, 'V': V * m}.get(u.upper(), 1)
        if not calib: return [('convert:none', f'convert(units={u!r}, {kw}) wrote no trace')]
        bad = [x for x in calib if not close(x, want)]
        return [('convert', f'convert(SN={sn}, units={u!r}, {kw}, config {cfg}) stamped {bad[0]}, expected {want}')] if bad else []

def gen(rng, ctx):
    sns = list(range(3, ctx.n(140, 1000))) + [200, 555, 999, 1000, 1234, 100000]
    for s in sns:
        yield {'kind': 'specs', 'SN': s}
        yield {'kind': 'specs', 'SN': f'{s:03d}'}
    us = ['Pa', 'PA', 'pa', 'V', 'v', 'counts', 'Counts', 'COUNTS', 'count', '', 'mV', 'Pascals', 'volts', 'P', 'a', 'counts ', '<default>'] + [s for s in ctx.strs if len(s) < 9][:60]
    for sn in (3, '014', 19, 20, '037', 38, 46, 47, '057', 58, 107, 108, '210'):
        for g in (0, 1, 2, -1, 3, 0.5, None):
            for u in us[:17]: yield {'kind': 'bw', 'SN': sn, 'adc': g, 'units': u}
    for u in us: yield {'kind': 'bw', 'SN': 77, 'adc': rng.choice([0, 1]), 'units': u}
    cfgs = [DEFAULT, [1, 15, 20, 1, 0, 0], [2, 30, 5, 1, 1, 1], [3, 0, 0, 0, 9, 2], None, [1, 15, 20, 2, 0, 0], [0, 0, 0, 1, 0, 0]] + [[rng.randint(0, 99) for _ in KEYS] for _ in range(ctx.n(4, 30))]
    for cfg in cfgs:
        for fmt in ('0.91', '1.10', '0.9', '0.85C'): yield {'kind': 'config', 'fmt': fmt, 'config': cfg}
    yield {'kind': 'config', 'fmt': '0.85', 'config': None}
    n = 0
    for cfg in cfgs[:7]:
        for u in (['Pa', 'V', 'counts', 'Counts', 'bogus', 'pa'] if cfg in cfgs[:2] else [rng.choice(['Pa', 'V'])]):
            n += 1
            yield {'kind': 'convert', 'SN': ['077', '041', '046', '037', '013', '120'][n % 6], 'fmt': ['0.91', '1.10', '0.9'][n % 3], 'config': cfg, 'units': u}
        yield {'kind': 'header', 'SN': ['077', '046', '120', '005'][n % 4], 'fmt': ['0.91', '1.10', '0.85C'][n % 3], 'config': cfg}
    for own in (2.5, 1.0, 0.0, -1e-3, 1):
        for u in ('Pa', 'counts', 'V'):
            yield {'kind': 'convert', 'SN': '077', 'fmt': '0.91', 'config': DEFAULT, 'units': u, 'bitweight': own}
    yield {'kind': 'convert', 'SN': '060', 'fmt': '0.91', 'config': [1, 15, 20, 1, 0, 0], 'units': 'Pa', 'format': 'SAC'}
    if ctx.thorough:
        for i in range(60):
            yield {'kind': 'convert', 'SN': f'{rng.randint(3, 300):03d}', 'fmt': rng.choice(['0.91', '1.10', '0.9', '0.85C', '0.85']), 'config': rng.choice(cfgs), 'units': rng.choice(us[:16])}

def from_model(ob, m):
    sn = m.get('SN', 77)
    if 'SN' in m and sn >= 3:
        yield {'kind': 'specs', 'SN': sn}
        for g in {m.get('adc_range', 0), 0, 1}:
            for u in ('Pa', 'V', 'counts', 'x'): yield {'kind': 'bw', 'SN': sn, 'adc': g, 'units': u}
    if 'config_line' in m:
        cfg = [m.get(k, 0) for k in KEYS]
        yield {'kind': 'config', 'fmt': '0.91', 'config': cfg}
    if isinstance(m.get('units'), dict):
        for u in [k for k, v in m['units'].items() if v] or ['bogus']:
            yield {'kind': 'convert', 'SN': '077', 'fmt': '0.91', 'config': DEFAULT, 'units': u}

if __name__ == '__main__':
    main(check, gen, from_model, rule='distinct (function, serial number, configuration, units) cases',
         bound='all serial numbers 3..139 and selected larger ones, gains 0/1 and invalid, 17+ units texts, 10 configurations')

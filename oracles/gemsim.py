"""Synthetic raw Gem files (test inputs for the concrete contract oracles)."""
import os, math, calendar, random
from datetime import datetime, timedelta, timezone

ROLL = {'1.10': 8192, '0.91': 8192, '0.9': 8192, '0.85C': 8192, '0.85': 65536, '0.8': 65536}
DT = 0.001024   # seconds per nominal Gem "millisecond"

def header(fmt, sn, config=(1, 15, 20, 0, 0, 0)):
    h = [f'#GemCSV{fmt}']
    if fmt == '1.10': h.append('#adcMSSAMP')
    h += ['#DmsSamp,ADC', '#G,msPPS,msLag,yr,mo,day,hr,min,sec,lat,lon',
          '#M,ms,batt(V),temp(C),A2,A3,maxLag,minFree,maxUsed,maxOver,gpsFlag,freeStack1,freeStackIdle']
    if sn is not None: h.append(f'S,{sn}')
    h.append('#Firmware0.962')
    if config is not None and fmt not in ('0.8', '0.85'): h.append('C,' + ','.join(map(str, config)))
    while len(h) < 6: h.append('#')
    return h

def num(x):
    if x != x: return 'nan'
    if isinstance(x, float) and x == int(x) and abs(x) < 1e15: return str(int(x))
    return repr(x)

def line(rec, fmt):
    k = rec[0]
    if k == 'D':
        return f'D,{num(rec[1])},{rec[2]}' if fmt in ('0.8', '0.85') else f'D{num(rec[1])},{rec[2]}'
    if k == 'raw': return rec[1]
    return k + ',' + ','.join(num(v) for v in rec[1:])

def write(path, fmt, sn, recs, config=(1, 15, 20, 0, 0, 0), newline='\n'):
    with open(path, 'w', newline='') as f:
        f.write(newline.join(header(fmt, sn, config) + [line(r, fmt) for r in recs]) + newline)

def utc(t):
    d = datetime(1970, 1, 1, tzinfo=timezone.utc) + timedelta(seconds=t)
    return d.year, d.month, d.day, d.hour, d.minute, d.second

def gps(ms, t, lat=43.62, lon=-116.2, lag=70):
    return ['G', ms, lag, *utc(t), lat, lon]

def meta(ms, fmt='0.91', i=0):
    m = ['M', ms, 3.02 + i % 3 * .5, 22.5, 1.25, 2.5, 94, 66, 9, i % 7, 1, 57, 86]
    if fmt == '0.8': m = m[:4] + m[6:]
    return m

def recording(rng, seconds=30, start_ms=100, t0=1592630400.0, fmt='0.91', period=DT, gps_every=1.0, meta_every=1.0,
              lat=43.62, lon=-116.2, samples=None, drop=lambda t: False, no_gps=False, gps_from=0.0, gps_to=1e9):
    """A well-behaved recording: one sample every 10 counts; a GPS fix at each whole second; returns (records, truth)
    with counts wrapped at the format's rollover. truth = (unrolled counts, recorded values)."""
    R = ROLL[fmt]
    ev, ms_all, val = [], [], []
    n = int(seconds / (10 * period))
    diff = fmt not in ('0.8', '0.85')
    for k in range(n):
        ms = start_ms + 10 * k
        t = t0 + period * 10 * k
        if drop(t - t0): continue
        v = samples(k) if samples else rng.randint(-40, 40)
        ev.append((ms, 0, ['D', ms % R, v])); ms_all.append(ms); val.append(v)
    if not no_gps:
        s = math.ceil(t0)
        while s < t0 + seconds:
            if gps_from <= s - t0 <= gps_to:
                ms = start_ms + (s - t0) / period
                ms += (int(s) * 7919 % 13 - 6) * 0.04          # receiver jitter; exact fixes would leave only rounding noise to judge outliers by
                msw = round(ms, 3) if fmt in ('0.91', '1.10') else int(round(ms))
                ev.append((ms, 1, gps(round(msw % R, 3) if isinstance(msw, float) else msw % R, s, lat, lon)))
            s += gps_every
    m = 0.0
    while m < seconds:
        ms = start_ms + int(m / period) + 3
        ev.append((ms, 2, meta(ms % R, fmt, int(m)))); m += meta_every
    ev.sort(key=lambda e: (e[0], e[1]))
    return [e[2] for e in ev], (ms_all, val)

# -- independent reference semantics -------------------------------------------------
def days_in(y, m): return calendar.monthrange(y, m)[1]

def valid_fix(g):
    """g: dict with year..second, lat, lon, msLag (floats, nan = missing); the property's definition, written out"""
    rng = {'lat': (-90, 90), 'lon': (-180, 180), 'msLag': (0, 1000), 'year': (2014, 2040), 'month': (1, 12), 'day': (1, 31),
           'hour': (0, 24), 'minute': (0, 60), 'second': (0, 60)}
    for k, (lo, hi) in rng.items():
        v = g[k]
        if v is None or v != v or not (lo <= v <= hi): return False
    if g['lat'] == 0 or g['lon'] == 0 or g['second'] != math.floor(g['second']): return False
    return fix_time(g) is not None

def fix_time(g):
    y, mo, d, h, mi, s = (int(g[k]) for k in ('year', 'month', 'day', 'hour', 'minute', 'second'))
    if not (1 <= mo <= 12 and 1 <= d <= days_in(y, mo) and 0 <= h <= 23 and 0 <= mi <= 59 and 0 <= s <= 59): return None
    return calendar.timegm((y, mo, d, h, mi, s))

def unroll(saw, R, offset=0):
    out, prev = [], None
    for x in saw:
        if prev is None:
            u = x
        else:
            d = x - prev
            u = out[-1] + (d + R if d < -R / 2 else d - R if d > R / 2 else d)
        out.append(u); prev = x
    if out:
        first = out[0]
        sh = (offset - first) + ((first - offset % R + R / 2) % R) - R / 2
        out = [u + sh for u in out]
    return out

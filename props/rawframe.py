"""The table that the raw-file readers hand to _process_gemlog_data, and its specification
functions (taken from the property statements, not from the code)."""
import z3
from vc import engine as E
from vc.engine import Num, SBool, cur, num, same, tobool
from vc.arrays import Arr, SEnum
from vc.pdmodel import SDF
from vc.libmodels import civil_valid, UTCSEC, UTC

GCOLS = ['msPPS', 'msLag', 'year', 'month', 'day', 'hour', 'minute', 'second', 'lat', 'lon']
VERSIONS = ['1.10', '0.9', '0.85C', '0.85', '0.8']
ROLL = {'1.10': 2**13, '0.9': 2**13, '0.85C': 2**13, '0.85': 2**16, '0.8': 2**16}
ORD = {'D': 68, 'G': 71, 'M': 77}

def raw_frame(p, version, kind, whole_dates=True):
    """kind 'bytes': table of the compiled reader (columns 2..12); 'str': of the pandas readers"""
    n = z3.Int('n_rows')
    p.assume(n >= 1)
    cols = {}
    if kind == 'bytes':
        names = list(range(2, 13))
    elif version in ('0.8', '0.85'): names = list(range(1, 15))
    else: names = list(range(0, 13))
    R = ROLL[version]
    for c in names:
        cols[c] = Arr.fresh(f'col{c}', n, 'intreal' if whole_dates and c in (3, 4, 5, 6, 7) else 'real', nan=True)
    code = z3.Function('linetype', z3.IntSort(), z3.IntSort())
    pt = bytes if kind == 'bytes' else str
    def mk(i):
        cur().s.fact(z3.Or(code(i) == 68, code(i) == 71, code(i) == 77))
        return SEnum(code(i), pt)
    cols['linetype'] = Arr(n, get=mk, tag='linetype')
    # GPS lines carry fractional counts in format 0.91 and later
    cols['millis-sawtooth'] = Arr.fresh('sawtooth', n, 'real' if kind == 'bytes' else 'int', inv=lambda i, v: z3.And(v.t >= 0, v.t < R))
    df = SDF(cols, n)
    p.inputs['rows'] = df
    p.inputs['version'] = version
    p.inputs['reader'] = kind
    raw = {c: a._frozen() for c, a in cols.items()}
    df_root = df.ix
    return df, raw, n, df_root

def rng(v, lo, hi):
    v = num(v)
    k = v.t if v.isint else E.asint(v.t)
    c = z3.And(k >= lo, k <= hi) if k is not None else z3.And(v.t >= lo, v.t <= hi)
    return c if v.nan is None else z3.And(z3.Not(v.nan), c)

def whole(v):
    v = num(v)
    return z3.BoolVal(True) if v.isint or E.asint(v.t) is not None else v.t == z3.ToReal(z3.ToInt(v.t))

def toint(v): 
    v = num(v)
    k = v.t if v.isint else E.asint(v.t)
    return k if k is not None else z3.ToInt(v.t)

def spec_fields_ok(g):
    """g: dict column -> value; the property's range table"""
    return z3.And(rng(g['lat'], -90, 90), rng(g['lon'], -180, 180), num(g['lat']).t != 0, num(g['lon']).t != 0,
                  rng(g['msLag'], 0, 1000), rng(g['year'], 2014, 2040), rng(g['month'], 1, 12), rng(g['day'], 1, 31),
                  rng(g['hour'], 0, 24), rng(g['minute'], 0, 60), rng(g['second'], 0, 60), whole(g['second']))

TIME = ['year', 'month', 'day', 'hour', 'minute', 'second']
def civil(g): return civil_valid(*[toint(g[c]) for c in TIME])
def utcsec(g): return UTCSEC(*[toint(g[c]) for c in TIME])

def gps_row(raw, i):
    """the GPS fields of row i of the raw table"""
    return {c: raw[k](i) for c, k in zip(GCOLS[1:], range(2, 11))}
def used_fix(raw, i):
    g = gps_row(raw, i)
    return z3.And(raw['linetype'](i).t == ORD['G'], spec_fields_ok(g), civil(g))


"""C03 - a GPS fix is used if and only if it is valid."""
import z3
from vc import engine as E
from vc.engine import Num, SBool, cur, num, same, tobool
from vc.arrays import Arr
from vc.pdmodel import SDF
from .rawframe import *

EXPLAIN = 'GPS filter and time construction proved row-wise for tables of any length; oracle replays on the real reader'
NEEDS_EXT = True

def sym_gframe(p):
    n = z3.Int('n_fixes'); p.assume(n >= 0)
    cols = {c: Arr.fresh('g_' + c, n, 'intreal' if c in TIME[:5] else 'real', nan=(c != 'msPPS')) for c in GCOLS}
    df = SDF(cols, n)
    p.inputs['gps_table'] = df
    return df, {c: a._frozen() for c, a in df.cols.items()}, n

def prove(pr):
    pr.assume_note('floats are modelled as mathematical reals with a NaN flag (infinite field values are not modelled)',
                   'obspy.UTCDateTime(y, mo, d, h, mi, s) raises exactly when the six integers are not a valid UTC civil date and time, and otherwise denotes that instant',
                   'pandas column comparison / boolean indexing / groupby.get_group / apply(axis=1) / reset_index behave row-wise as documented (vc/pdmodel.py)',
                   'recorded year, month, day, hour and minute are whole numbers')
    core = pr.module('core')

    def bounds(p):
        G, g, n = sym_gframe(p)
        r = core['_gps_in_bounds'](G)
        i = z3.Int('i'); p.assume(z3.And(i >= 0, i < n)); 
        row = {c: f(i) for c, f in g.items()}
        p.inputs['row'] = row
        p.cover('some row')
        p.prove('result[i] == all fields present and in range', tobool(r.at(i)) == spec_fields_ok(row))
        p.prove('one verdict per row', E.num(r.n if isinstance(r.n, int) else Num(r.n)).t == n)
        for c in GCOLS: p.prove(f'{c} unchanged', same(G.cols[c].at(i), row[c]))
    pr.run('_gps_in_bounds', bounds, ['gemlog.core._gps_in_bounds'], covers=['some row'])

    def gtime(p):
        G, g, n = sym_gframe(p)
        i = z3.IntVal(0); p.assume(n > 0)
        row = {c: g[c](i) for c in GCOLS}
        p.inputs['row'] = row
        p.assume(z3.Implies(z3.Not(row['second'].nan), whole(row['second'])))
        r = core['_make_gps_time'](G.row(0))
        missing = z3.Or([row[c].nan for c in TIME])
        ok = z3.And(z3.Not(missing), civil(row))
        p.cover('invalid' if isinstance(r, float) else 'valid')
        if isinstance(r, float): 
            p.prove('no time only for an invalid date', z3.Not(ok)); return
        p.prove('a time only for a valid date', ok)
        p.prove('time is the instant the fields denote', z3.And(z3.Not(r.nan) if r.nan is not None else z3.BoolVal(True), r.t == utcsec(row)))
    pr.run('_make_gps_time', gtime, ['gemlog.core._make_gps_time'], covers=['invalid', 'valid'])

    for version in VERSIONS:
        for kind in (['bytes', 'str'] if version in ('1.10', '0.9', '0.85C') else ['str']):
            for require in (True, False):
                pr.run(f'_process_gemlog_data[{version},{kind},require_gps={require}]', lambda p: process(p, core, version, kind, require),
                       ['gemlog.core._process_gemlog_data', 'gemlog.core._gps_in_bounds', 'gemlog.core._make_gps_time'],
                       covers=['accepted with a fix'])

def process(p, core, version, kind, require):
    df, raw, n, root = raw_frame(p, version, kind)
    offset = E.fresh_real('offset')
    p.assume(offset.t >= 0)
    p.inputs['offset'] = offset
    i = z3.Int('i'); p.assume(z3.And(i >= 0, i < n)); 
    p.inputs['row_index'] = Num(i)
    p.inputs['row'] = {**gps_row(raw, i), 'linetype': raw['linetype'](i)}
    used_i = used_fix(raw, i)
    exc = core.get('CorruptRawFileNoGPS')
    try:
        out = core['_process_gemlog_data'](df, offset, version=version, require_gps=require)
    except exc:
        p.prove('refused for lack of GPS only when no fix is valid', z3.Not(used_i)); 
        p.prove('refused only when GPS is required', z3.BoolVal(require)); return
    except KeyError:
        return       # no data line or no metadata line: refused by the caller
    G = out['gps']
    m = G.n if not isinstance(G.n, int) else z3.IntVal(G.n)
    if 't' not in G.cols:
        p.prove('an empty GPS table only when no fix is valid', z3.And(m == 0, z3.Not(used_i))); return
    j = G.ix.locate(i, root)

    p.prove('every valid fix is used', z3.Implies(used_i, z3.And(j >= 0, j < m, G.ix.origin(j, root) == i)))
    k = z3.Int('k'); p.assume(z3.And(k >= 0, k < m))
    if p.check() == z3.unsat: return
    p.cover('accepted with a fix')
    o = G.ix.origin(k, root)
    p.inputs['row_index'] = Num(o)
    g = gps_row(raw, o)
    p.inputs['row'] = {**g, 'linetype': raw['linetype'](o)}
    p.prove('only valid fixes are used', z3.And(o >= 0, o < n, used_fix(raw, o)))
    for c in GCOLS[1:]:
        p.prove(f'a used fix keeps its {c}', same(G.cols[c].at(k), g[c]))
    t = G.cols['t'].at(k)
    p.prove('its time is the UTC instant its fields denote', same(t, Num(utcsec(g))))
    k2 = z3.Int('k2'); p.assume(z3.And(k2 > k, k2 < m))
    p.prove('file order', o < G.ix.origin(k2, root))
    ms = G.cols['msPPS'].at(k)
    R = ROLL[version]
    d = num(ms); saw = Num(E.real(raw['millis-sawtooth'](o).t))
    q = z3.ToReal(z3.ToInt((E.real(d.t) - saw.t) / R))
    p.prove("its millisecond count is its own line's, modulo the rollover",
            z3.And(z3.Not(d.nan) if d.nan is not None else z3.BoolVal(True), E.real(d.t) - saw.t == R * q))

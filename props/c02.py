"""C02 - rollover counts unroll and differences integrate faithfully."""
import z3
from vc import engine as E
from vc.engine import Num, cur, num, same
from vc.arrays import Arr, Arr2
from vc.pdmodel import SDF
from .rawframe import *

EXPLAIN = ('unrolling, integration and row selection of _process_gemlog_data proved for tables of any length in every format and for any offset (induction step over adjacent lines); '
           'the 8.93 ms correction of _read_single proved for every format; the readers that build the table are contracts here (C01) and replayed on real files by the oracle')
NEEDS_EXT = True
MCOLS = {v: 11 for v in VERSIONS}; MCOLS['0.8'] = 9
MNAMES = ['batt', 'temp', 'A2', 'A3', 'maxWriteTime', 'minFifoFree', 'maxFifoUsed', 'maxOverruns', 'gpsOnFlag', 'unusedStack1', 'unusedStackIdle']

def prove(pr):
    pr.assume_note('double arithmetic is modelled as exact (sample sums and counts are exact integers below 2**53; the 8.93 ms correction is exact only up to rounding)',
                   'pandas diff / cumsum / boolean indexing / groupby.get_group behave row-wise as documented (vc/pdmodel.py)')
    core = pr.module('core')
    for version in VERSIONS:
        for kind in (['bytes', 'str'] if version in ('1.10', '0.9', '0.85C') else ['str']):
            for require in (True, False):
                pr.run(f'_process_gemlog_data[{version},{kind},require_gps={require}]', lambda p, a=(version, kind, require): process(p, core, *a),
                       ['gemlog.core._process_gemlog_data'], covers=['data row', 'metadata row', 'two lines'])
    box = {}
    core2 = pr.module('core', stubs={n: (lambda *a, n=n, **k: box[n](*a, **k)) for n in ('_read_with_cython', '_read_with_pandas', '_read_0_8_pd', '_process_gemlog_data')})
    for version in ('1.10', '0.9', '0.91', '0.85C', '0.85', '0.8'):
        for require in (True, False):
            pr.run(f'_read_single[{version},require_gps={require}]', lambda p, a=(version, require): single(p, core2, box, *a), ['gemlog.core._read_single'], covers=['read', 'second reader'] if version not in ('0.8', '0.85') else ['read'])

def process(p, core, version, kind, require):
    df, raw, n, root = raw_frame(p, version, kind)
    R = ROLL[version]
    offset = E.fresh_real('offset')
    p.assume(offset.t >= 0)
    p.inputs['offset'] = offset
    dcol = 1 if kind == 'str' and version in ('1.10', '0.9', '0.85C') else 2
    i = z3.Int('i'); p.assume(z3.And(i >= 0, i < n))
    lt = raw['linetype']
    saw = lambda k: E.real(raw['millis-sawtooth'](k).t)
    p.inputs['row_index'] = Num(i)
    exc = core.get('CorruptRawFileNoGPS')
    try: out = core['_process_gemlog_data'](df, offset, version=version, require_gps=require)
    except exc: return                 # C03
    except KeyError:
        j = z3.Int('j'); p.assume(z3.And(j >= 0, j < n))
        p.prove('refused only without a data or a metadata line', z3.Not(z3.And(lt(i).t == ORD['D'], lt(j).t == ORD['M']))); return
    if not isinstance(out.get('data'), Arr2): raise E.Unsupported('data table')
    T, V = out['data'].cols
    M = out['metadata']
    # D rows are exactly the D lines, in order
    Dsel = out['data'].rowix
    if Dsel is None: raise E.Unsupported('row provenance of the data table')
    nd = out['data'].n if not isinstance(out['data'].n, int) else z3.IntVal(out['data'].n)
    nm = M.n if not isinstance(M.n, int) else z3.IntVal(M.n)
    if 'millis-corrected' not in df.cols: raise E.Unsupported('the unrolled counts are not kept as a column')
    U = df.cols['millis-corrected']
    u = lambda k: E.real(num(U.at(k)).t)
    def notnan(v): return z3.BoolVal(True) if num(v).nan is None else z3.Not(num(v).nan)
    # unrolling
    p.prove('unrolled count is a number', notnan(U.at(i)))
    q = (u(i) - saw(i)) / R
    p.prove('congruent to the recorded count', q == z3.ToReal(z3.ToInt(q)))
    p.prove('starts within half a rollover of the offset', z3.And(u(z3.IntVal(0)) - offset.t <= R / 2, offset.t - u(z3.IntVal(0)) <= R / 2))
    i1 = z3.simplify(i + 1)
    if p.check(i1 < n) != z3.unsat:
        p.cover('two lines')
        d = u(i1) - u(i)
        p.prove('consecutive lines differ by at most half a rollover', z3.Implies(i1 < n, z3.And(d <= R / 2, d >= -R / 2)))
    # data rows
    at = Dsel.locate(i, root)
    p.prove('every data line is kept', z3.Implies(lt(i).t == ORD['D'], z3.And(at >= 0, at < nd, Dsel.origin(at, root) == i)))
    k = z3.Int('k')
    p.assume(z3.And(k >= 0, k < nd))
    if p.check() == z3.unsat: return
    p.cover('data row')
    o = Dsel.origin(k, root)
    p.inputs['row_index'] = Num(o)
    p.prove('only data lines', z3.And(o >= 0, o < n, lt(o).t == ORD['D']))
    k2 = z3.Int('k2'); p.assume(z3.And(k2 >= 0, k2 < k))
    p.prove('data rows are in file order', Dsel.origin(k2, root) < o)
    p.prove("a data row's count is its own line's unrolled count", same(T.at(k), U.at(o)))
    rec = raw[dcol](o)
    if version in ('0.8', '0.85'):
        p.prove('absolute samples are recorded as is', same(V.at(k), rec))
    else:
        prev = V.at(k - 1)
        first = p.decide(k == 0)
        clean = z3.BoolVal(True)
        if first: p.prove('the first sample is its recorded difference', same(V.at(k), rec))
        else:
            nn = z3.And(notnan(prev), notnan(rec))
            p.prove('each sample is the previous one plus its recorded difference', z3.Implies(nn, z3.And(notnan(V.at(k)), num(V.at(k)).t == num(prev).t + num(rec).t)))
    # metadata rows
    Ms = M.ix
    am = Ms.locate(i, root)
    p.prove('every metadata line is kept', z3.Implies(lt(i).t == ORD['M'], z3.And(am >= 0, am < nm, Ms.origin(am, root) == i)))
    m = z3.Int('m'); p.assume(z3.And(m >= 0, m < nm))
    if p.check() == z3.unsat: return
    p.cover('metadata row')
    om = Ms.origin(m, root)
    p.inputs['row_index'] = Num(om)
    p.prove('only metadata lines', z3.And(om >= 0, om < n, lt(om).t == ORD['M']))
    m2 = z3.Int('m2'); p.assume(z3.And(m2 >= 0, m2 < m))
    p.prove('metadata rows are in file order', Ms.origin(m2, root) < om)
    p.prove("a metadata row's count is its own line's unrolled count", same(M.cols['millis'].at(m), U.at(om)))
    names = MNAMES if version != '0.8' else MNAMES[:2] + MNAMES[4:]
    for c, j in zip(names, range(2, 13)):
        p.prove(f'metadata {c} is the recorded one', same(M.cols[c].at(m), raw[j](om)))

def single(p, core, box, version, require):
    """8.93 ms on every sample time, nothing else touched"""
    n = z3.Int('n_samples'); p.assume(n >= 1)
    t = Arr.fresh('t', n, 'real'); v = Arr.fresh('v', n, 'real', nan=True)
    t0, v0 = t._frozen(), v._frozen()
    data = Arr2(n, [t, v])
    ng = z3.Int('n_fixes'); p.assume(ng >= 0)
    G = SDF({c: Arr.fresh('g_' + c, ng, 'real', nan=True) for c in GCOLS + ['t']}, ng)
    G0 = {c: a._frozen() for c, a in G.cols.items()}
    nm = z3.Int('n_meta'); p.assume(nm >= 0)
    M = SDF({c: Arr.fresh('m_' + c, nm, 'real', nan=True) for c in ['millis'] + MNAMES}, nm)
    M0 = {c: a._frozen() for c, a in M.cols.items()}
    offset = E.fresh_real('offset')
    fails = {}
    def reader(name):
        def f(fn, *a, **k):
            p.prove('the requested file is read', z3.BoolVal(fn == 'FILE'))
            if p.choose(2, name + ' fails'): raise E.mark(ValueError('unreadable with this reader'))
            fails[name] = 1
            return ('table', name)
        return f
    for nme in ('_read_with_cython', '_read_with_pandas', '_read_0_8_pd'): box[nme] = reader(nme)
    offset0 = offset
    def proc(df, offset=None, version='0.9', require_gps=True):
        off, k, a = offset, dict(version=version, require_gps=require_gps), ()
        p.prove('the offset is passed on', z3.BoolVal(off is offset0))
        p.prove('GPS requirement is passed on', z3.BoolVal((k.get('require_gps', a[1] if len(a) > 1 else True)) == require))
        p.prove('the version is passed on', z3.BoolVal(k.get('version', a[0] if a else '0.9') == version))
        return {'data': data, 'metadata': M, 'gps': G}
    box['_process_gemlog_data'] = proc
    try: out = core['_read_single']('FILE', offset, require_gps=require, version=version)
    except core.get('CorruptRawFile'):
        p.prove('refused only when no reader works or GPS is required and absent', z3.Or(z3.BoolVal(not fails), z3.And(z3.BoolVal(require), ng == 0)))
        return
    p.cover('read')
    if '_read_with_pandas' in fails: p.cover('second reader')
    i = z3.Int('i'); p.assume(z3.And(i >= 0, i < n))
    D = out['data']
    p.prove('every sample time carries the 8.93 ms correction', num(D.cols[0].at(i)).t == E.real(num(t0(i)).t) + z3.RealVal('8.93'))
    p.prove('sample values unchanged', same(D.cols[1].at(i), v0(i)))
    j = z3.Int('j'); p.assume(z3.And(j >= 0, j < ng)) if p.check(ng > 0) != z3.unsat else None
    if p.check(j >= 0, ) != z3.unsat:
        for c in GCOLS + ['t']: p.prove(f'GPS {c} unchanged', z3.Implies(z3.And(j >= 0, j < ng), same(out['gps'].cols[c].at(j), G0[c](j))))
    m = z3.Int('m')
    for c in M0: p.prove(f'metadata {c} unchanged', z3.Implies(z3.And(m >= 0, m < nm), same(out['metadata'].cols[c].at(m), M0[c](m))))

"""C04 - one bad raw file never corrupts the others in a read."""
import z3
from vc import engine as E
from vc.engine import Num, SBool, cur, num, same, tobool
from vc.arrays import Arr, Arr2, SList, SOpaque, zlen
from vc import npmodel as N
from vc.pdmodel import SDF
from vc.loader import LoopContract
from vc.havoc import Any, HNp
from .rawframe import GCOLS

EXPLAIN = ('_read_several proved for lists of any length: every iteration, whatever was accepted before and whatever this file does (any error at any stage, any sample counts), keeps the invariant; '
           '_make_empty_header and the leading-file loop of read_gem likewise; one-file reading (C02) and drift estimation (C05) are contracts here')
NEEDS_EXT = True
MCOLS = ['millis', 'batt', 'temp', 'A2', 'A3', 'maxWriteTime', 'minFifoFree', 'maxFifoUsed', 'maxOverruns', 'gpsOnFlag', 'unusedStack1', 'unusedStackIdle']
GALL = GCOLS + ['t']
ROLL = {'0.8': 65536, '0.85': 65536}
DRIFT = ['lat', 'lon', 'drift_deg0', 'drift_deg1', 'drift_deg2', 'drift_deg3', 'drift_resid_std', 'drift_resid_MAD', 'num_gps_pts', 'drift_resid_MAD_nonoutliers', 'num_gps_nonoutliers']

class Header:
    """ghost of the header table: which cells were written"""
    def __init__(self): self.w = []; self.loc = self; self.at = self
    def __setitem__(self, k, v):
        if not (isinstance(k, tuple) and len(k) == 2): raise E.Unsupported('header assignment')
        self.w.append((k[0], k[1], v))
    def __getattr__(self, k): E.noattr(k, 'the header')

def files(p, name='fnList', lo=0):
    n = z3.Int('n_files'); p.assume(n >= lo)
    toks = p.ghost.setdefault('tok', {})
    def get(i):
        i = z3.simplify(i)
        if i.get_id() not in toks: toks[i.get_id()] = (i, E.strtoken(FileName(i), ''))
        return toks[i.get_id()][1]
    return SList(n, get), n
class FileName:
    def __init__(self, i): self.i = i
def names_file(msg, fn):
    return isinstance(msg, str) and fn in msg

def table(p, name, cols, lo=0):
    n = z3.Int(p.fresh('n_' + name)); p.assume(n >= lo)
    return SDF({c: Arr.fresh(f'{name}_{c}', n, 'real', nan=(c not in ('millis', 'msPPS', 't'))) for c in cols}, n)
def data(p, name, lo=0):
    n = z3.Int(p.fresh('n_' + name)); p.assume(n >= lo)
    return Arr2(n, [Arr.fresh(name + '_ms', n, 'real'), Arr.fresh(name + '_v', n, 'real', nan=True)])
def froz(t):
    cols = t.cols if isinstance(t, SDF) else dict(enumerate(t.cols))
    return {c: a._frozen() for c, a in cols.items()}, zlen(t.n)
def n_of(t): return zlen(t.n)

def prove(pr):
    pr.assume_note('_read_single and _calculate_drift are contracts here: any tables of any length whose counts are numbers, or any exception (C02/C03 and C05 verify them)',
                   'pandas.concat and numpy.vstack append rows in order; header.loc[i, key] = v writes exactly that cell',
                   'KeyboardInterrupt deliberately ends the whole read')
    hold = {}
    def st(n): return lambda *a, **k: hold[n](*a, **k)
    for version in (None, '1.10', '0.91', '0.9', '0.85C', '0.85', '0.8', 'other'):
        for require in (True, False):
            box = {}
            core = pr.module('core', stubs={n: st(n) for n in ('_read_single', '_calculate_drift', '_read_SN', '_make_empty_header', '_breakpoint')}, loops={'_read_several#for0': Files(box)})
            pr.run(f'_read_several[{version or "default"},require_gps={require}]', lambda p, a=(core, box, hold, version, require): several(p, *a),
                   ['gemlog.core._read_several', 'gemlog.core._make_empty_gps', 'gemlog.core._make_empty_metadata'],
                   covers=['accepted', 'skipped', 'end'] if version != 'other' else ['skipped', 'end'])
    core0 = pr.module('core')
    pr.run('_make_empty_header', lambda p: empty_header(p, core0), ['gemlog.core._make_empty_header'], covers=['blank row'])
    box2 = {}
    stubs = ['_find_nonmissing_files', '_read_format_version', '_read_config', '_read_several', '_assign_times', 'get_bitweight_info']
    core2 = pr.module('core', stubs={n: st(n) for n in stubs}, loops={'read_gem#while0': Leading(box2)}, extra={'numpy': HNp()})
    for version in ('1.10', '0.91', '0.9', '0.85C', '0.85', '0.8'):
        pr.run(f'read_gem leading files[{version}]', lambda p, v=version: leading(p, core2, box2, hold, v), ['gemlog.core.read_gem'], covers=['dropped', 'read', 'none left'])

def several(p, core, box, hold, version, require):
    fl, n = files(p)
    p.inputs['n_files'] = Num(n)
    R = ROLL.get(version, 8192)
    box.clear(); box.update(p=p, R=R, fl=fl, n=n, require=require, version=version)
    it = box['it'] = {}
    hdr = box['header'] = Header()
    hold['_make_empty_header'] = lambda l: (p.prove('the header lists the files read', z3.BoolVal(l is fl)), hdr)[1]
    hold['_breakpoint'] = lambda *a: None
    exc = [core.get(x) for x in ('CorruptRawFileNoGPS', 'CorruptRawFileInadequateGPS', 'CorruptRawFileDiscontinuousGPS', 'CorruptRawFile', 'EmptyRawFile')] + [KeyError, ValueError, ZeroDivisionError]
    def may_fail(stage):
        k = p.choose(len(exc) + 1, stage)
        if k: it['raised'] = stage; raise E.mark(exc[k - 1](f'{stage} failed'))
    def rs(fn, offset=0, require_gps=True, version='0.9', **k):
        p.prove('the current file is read', z3.BoolVal(fn == it['fn']))
        p.prove('reading continues from the last accepted count', same(offset, it['start']))
        p.prove('GPS requirement is passed on', z3.BoolVal(require_gps == require))
        p.prove('the format is passed on', z3.BoolVal(ROLL.get(str(version), 8192) == R and (str(version) == box['version'] or R == 8192)))
        may_fail('_read_single')
        D = data(p, 'd', 1)
        M = table(p, 'm', ['index'] + MCOLS)
        if not require and p.choose(2, 'no GPS'): G = SDF({c: Arr.of([]) for c in GCOLS}, 0)
        else: G = table(p, 'g', ['index'] + GALL, 1 if require else 0)
        it.update(D=froz(D), M=froz(M), G=froz(G), read=1)
        p.inputs['counts'] = D.cols[0]; p.inputs['startMillis'] = it['start']
        return {'data': D, 'metadata': M, 'gps': G}
    def cd(L, fn, req, *a, **k):
        p.prove('drift is estimated for the current file', z3.BoolVal(fn == it['fn'] and req == require))
        may_fail('_calculate_drift')
        t = L['data'].cols[0]
        h = {c: E.fresh_real(c, nan=True) for c in DRIFT}
        h['start_ms'], h['end_ms'] = t.at(0), t.at(zlen(t.n) - 1)
        it['drift'] = h
        return dict(h)
    def sn(fn):
        p.prove('the serial number of the current file is read', z3.BoolVal(fn == it['fn']))
        may_fail('_read_SN')
        it['sn'] = SOpaque('SN'); return it['sn']
    hold.update(_read_single=rs, _calculate_drift=cd, _read_SN=sn)
    out = core['_read_several'](fl, **({} if version is None else {'version': version}), require_gps=require)
    p.cover('end')
    f = box['final']
    for k, v in (('data', 'D'), ('gps', 'G'), ('metadata', 'M'), ('problems', 'problems')):
        p.prove(f'the accumulated {k} is returned', z3.BoolVal(out.get(k) is f[v]))
    p.prove('the header is returned', z3.BoolVal(out.get('header') is hdr))

class Files(LoopContract):
    """loop invariant of _read_several"""
    V = ('D', 'M', 'G', 'problems', 'startMillis')
    def __init__(self, box): self.b = box
    def owns(self, v): return v in self.V or v == 'header'
    def entry(self, L, env):
        b, p = self.b, self.b['p']
        for v in ('D', 'M', 'G'): p.prove(f'{v} starts empty', n_of(env[v]) == 0)
        p.prove('no problem is reported at first', z3.BoolVal(env['problems'] == []) if isinstance(env['problems'], list) else z3.BoolVal(False))
        p.prove('counting starts at zero', num(env['startMillis']).t == 0)
        p.prove('the header starts blank', z3.BoolVal(env['header'] is b['header'] and not b['header'].w))
        if not hasattr(L.items, 'symlen'): raise E.Unsupported('loop over something else')
    def havoc(self, L, v, val):
        b, p = self.b, self.b['p']
        if v == 'D': r = data(p, 'D')
        elif v == 'M': r = table(p, 'M', ['index'] + MCOLS)
        elif v == 'G': r = table(p, 'G', ['index'] + GALL)
        elif v == 'problems': r = SList.abstract('problems')
        elif v == 'startMillis': r = E.fresh_real('startMillis')
        else: return NotImplemented
        return r
    def assume(self, L, env, k):
        b, p = self.b, self.b['p']
        b['header'].w = []
        D, s = env['D'], num(env['startMillis'])
        n = n_of(D)
        last = D.cols[0].at(n - 1)
        p.assume(z3.If(n == 0, s.t == 0, s.t == num(last).t))
        b['final'] = {v: env[v] for v in ('D', 'M', 'G', 'problems')}
    def begin(self, L, env, x):
        b, p = self.b, self.b['p']
        it = b['it']; it.clear()
        b['final'] = {}
        it.update(fn=b['fl'].at(L.k), start=env['startMillis'], i=L.k, old={v: froz(env[v]) for v in ('D', 'M', 'G')}, np=len(env['problems'].tail), obj=env['problems'])
    def end(self, L, env, k1):
        b, p, it = self.b, self.b['p'], self.b['it']
        R = b['R']
        P = env['problems']
        if not isinstance(P, SList): raise E.Unsupported('problems is not a list any more')
        p.prove('earlier messages are kept', z3.BoolVal(P is it['obj'] or P.n is it['obj'].n))
        new = P.tail[it['np']:]
        p.prove('at most one message per file', z3.BoolVal(len(new) <= 1))
        for m in new: p.prove('a message names its file', z3.BoolVal(names_file(m, it['fn'])))
        W = {}
        for (i, key, v) in b['header'].w:
            p.prove('only the current file\'s header row is written', num(i).t == it['i'].t)
            W[key] = v
        j = z3.Int('j')
        p.assume(j >= 0)
        old = it['old']
        now = {v: froz(env[v]) for v in ('D', 'M', 'G')}
        def unchanged(v, why):
            g, m = old[v]; h, q = now[v]
            for c in g: p.prove(f'{why}: {v}.{c}', z3.Implies(j < m, same(h[c](j), g[c](j))) if c in h else z3.BoolVal(False))
        if new:
            p.cover('skipped')
            for v in ('D', 'M', 'G'):
                p.prove(f'a skipped file contributes nothing to {v}', now[v][1] == old[v][1])
                unchanged(v, 'a skipped file alters nothing')
            p.prove('a skipped file does not move the running count', same(env['startMillis'], it['start']))
            p.prove('a skipped file claims no counts in the header', z3.BoolVal('start_ms' not in W and 'end_ms' not in W))
            if 'raised' not in it:
                if 'read' not in it:
                    p.prove('a file is refused unread only for an unsupported format', z3.BoolVal(b['version'] == 'other'))
                else:
                    d, n = it['D']
                    dn = N.np_diff(Arr(n, get=lambda i: d[0](i)))
                    step = lambda i: num(d[0](i + 1)).t - num(d[0](i)).t
                    p.universal(lambda i: z3.Implies(z3.And(i >= 0, i < n - 1), z3.And(step(i) >= 0, step(i) <= 1000)), zlen(dn.n))
                    p.prove('a readable file with steps within 0 and 1000 is not skipped', z3.BoolVal(False))
        else:
            p.prove('a file that failed is reported', z3.BoolVal('raised' not in it and 'read' in it))
            if 'read' not in it: return
            p.cover('accepted')
            (d, n), (m, nm), (g, ng) = it['D'], it['M'], it['G']
            D, nD = now['D']
            o = old['D'][1]
            shift = num(D[0](z3.simplify(o))).t - num(d[0](z3.IntVal(0))).t
            q = shift / R
            p.prove('counts are shifted by a whole number of rollovers', q == z3.ToReal(z3.ToInt(q)))
            p.prove('by no more rollovers than needed', z3.And(q >= 0, z3.Implies(q > 0, num(D[0](o)).t - R < num(it['start']).t)))
            for v in ('D', 'M', 'G'): unchanged(v, 'earlier files are unaltered')
            for v, (src, k) in (('D', (d, n)), ('M', (m, nm)), ('G', (g, ng))):
                cur_, tot = now[v]
                off = old[v][1]
                p.prove(f'every row of the file is appended to {v}', tot == off + k)
                for c in src:
                    if isinstance(k, z3.IntNumRef) and k.as_long() == 0: continue
                    want = src[c](j)
                    if (v, c) in (('D', 0), ('M', 'millis'), ('G', 'msPPS')): want = Num(E.real(num(want).t) + shift, num(want).nan)
                    p.prove(f'appended row of {v} keeps its {c}' + (' up to the common shift' if want is not src[c](j) else ''),
                            z3.Implies(j < k, same(cur_[c](off + j), want)) if c in cur_ else z3.BoolVal(c == 'index'))
            step = num(d[0](j + 1)).t - num(d[0](j)).t
            p.index(j, N.np_diff(Arr(n, get=lambda i: d[0](i))).n)
            p.prove('steps of an accepted file lie between 0 and 1000', z3.Implies(j + 1 < n, z3.And(step >= 0, step <= 1000)))
            first = num(D[0](o)).t
            p.prove('counts do not decrease from one accepted file to the next', first >= num(it['start']).t)
            p.prove('the running count is the last accepted one', same(env['startMillis'], D[0](nD - 1)))
            p.prove('header: serial number of this file', z3.BoolVal('SN' in W and W['SN'] is it.get('sn')))
            p.prove('header: sample count', num(W['num_data_pts']).t == n if 'num_data_pts' in W else z3.BoolVal(False))
            has = 'start_ms' in W and 'end_ms' in W
            p.prove('header: first count', same(W['start_ms'], D[0](o)) if has else z3.BoolVal(False))
            p.prove('header: last count', same(W['end_ms'], D[0](nD - 1)) if has else z3.BoolVal(False))
            for c in it.get('drift', {}):
                if c.startswith('drift_deg'): p.prove(f'header: {c} is the estimated one', z3.BoolVal(W.get(c) is it['drift'][c]))
            p.prove('drift was estimated', z3.BoolVal('drift' in it))

def empty_header(p, core):
    fl, n = files(p)
    h = core['_make_empty_header'](fl)
    p.prove('one row per file', zlen(h.n) == n)
    i = z3.Int('i'); p.assume(z3.And(i >= 0, i < n))
    if p.check() == z3.unsat: return
    p.cover('blank row')
    p.prove('each row names its own file', same(h.cols['file'].at(i), fl.at(i)))
    s, e = num(h.cols['start_ms'].at(i)), num(h.cols['end_ms'].at(i))
    none = z3.Or(*([s.nan] if s.nan is not None else []), *([e.nan] if e.nan is not None else []), E.real(s.t) > E.real(e.t))
    p.prove('a row that is never filled covers no counts', none)

# ---- leading files of read_gem
class Leading(LoopContract):
    def __init__(self, box): self.b = box
    def owns(self, v): return v in ('fnList', 'dropped')
    def entry(self, L, env):
        b, p = self.b, self.b['p']
        p.prove('starts with every file', z3.BoolVal(env['fnList'] is b['fl']))
        p.prove('starts without messages', z3.BoolVal(env['dropped'] == []) if 'dropped' in env else z3.BoolVal(False))
    def havoc(self, L, v, val):
        b, p = self.b, self.b['p']
        if v == 'fnList':
            b['at'] = E.fresh_int('dropped_files'); p.assume(z3.And(b['at'].t >= 0, b['at'].t <= b['n']))
            return rest(b, b['at'].t)
        if v == 'dropped':
            b['dropped'] = SList.abstract('dropped'); return b['dropped']
        return NotImplemented
    def assume(self, L, env, k):
        b, p = self.b, self.b['p']
        p.assume(num(env['dropped'].n).t == b['at'].t)
        b['here'] = b['at'].t
    def end(self, L, env, k1):
        b, p = self.b, self.b['p']
        p.cover('dropped')
        f = env['fnList']
        p.prove('exactly the first file is dropped', rest_eq(b, f, b['at'].t + 1))
        new = env['dropped'].tail
        p.prove('one message for a dropped file', z3.BoolVal(len(new) == 1))
        for m in new: p.prove('the message names the dropped file', z3.BoolVal(names_file(m, b['fl'].at(b['at']))))
        p.prove('only an unreadable or unsupported file is dropped', z3.BoolVal(b.get('bad', False)))
def rest(b, k):
    return SList(b['n'] - k, lambda i: b['fl'].at(z3.simplify(i + k)))
def rest_eq(b, f, k):
    """f is the list of files from index k on"""
    n = f.symlen() if hasattr(f, 'symlen') else None
    if n is None: raise E.Unsupported('file list')
    j = z3.Int('jf'); cur().assume(j >= 0)
    x = f.symget(j)
    want = b['fl'].at(z3.simplify(j + k))
    num_of = lambda t: E.strparts(t)[0][0].i
    return z3.And(n == b['n'] - k, z3.Implies(j < n, num_of(x) == num_of(want)))

def leading(p, core, box, hold, version):
    fl, n = files(p, lo=1)
    box.clear(); box.update(p=p, fl=fl, n=n)
    def cur_file(fn): p.prove('the first remaining file is looked at', z3.BoolVal(fn == fl.at(box['here'])))
    def rv(fn):
        cur_file(fn)
        k = p.choose(3)
        if k == 0: return version
        box['bad'] = True
        if k == 1: raise E.mark(ValueError('unreadable'))
        return '9.99'
    def rc(fn):
        cur_file(fn)
        if p.choose(2): box['bad'] = True; raise E.mark(ValueError('unreadable configuration'))
        return {'adc_range': 0}
    P0 = SList.abstract('problems_read'); box['P0'] = P0
    def rsev(l, *a, **k):
        p.prove('every remaining file is read', rest_eq(box, l, box['here']))
        p.prove('with the rollover of its format', z3.BoolVal(ROLL.get(str(k.get('version', a[0] if a else '0.9')), 8192) == ROLL.get(version, 8192)))
        return {'data': Rows(), 'header': {}, 'metadata': Any('M'), 'gps': Any('G', {'shape': (E.fresh_int('ng'), 11), 'keys': lambda: []}), 'problems': P0}
    hold.update(_find_nonmissing_files=lambda *a: fl, _read_format_version=rv, _read_config=rc, _read_several=rsev, _assign_times=lambda l: (l, Any('timing')),
                get_bitweight_info=lambda *a, **k: {})
    try: r = core['read_gem'](path='x', SN='077')
    except core.get('CorruptRawFile') as e:
        if type(e) is core.get('CorruptRawFile'):
            p.cover('none left')
            p.prove('the read fails only when no file is readable', box['at'].t == n if 'at' in box else z3.BoolVal(False))
        return
    p.cover('read')
    P = r['problems']
    ok = isinstance(P, SList)
    p.prove('all messages are reported', num(P.symlen() if P.symlen() is not None else P.length()).t == num(box['dropped'].n).t + num(P0.n).t if ok else z3.BoolVal(False))

class Rows(list):
    def vc_len(self):
        n = E.fresh_int('n'); cur().assume(n.t > 0); return n

"""C09 - counts convert to physical units by the right constants."""
import math
import z3
from vc import engine as E
from vc.engine import Num, cur, num, tobool
from vc.arrays import Arr
from vc.havoc import Any, Text, HNp
from vc.loader import LoopContract

EXPLAIN = ('Proved for every integer serial number >= 3, both gains, every other gain value and every units text; header stamping and convert\'s per-trace constant proved '
           'with all other state unconstrained; configuration line parsing (_read_config, pandas.read_csv) and the written files are bounded run-time contracts')

# hardware versions by serial number (first serial number of each)
TABLE = [(3, .5), (8, .7), (15, .8), (20, .82), (38, .9), (41, .91), (44, .92), (47, .98), (50, .99), (52, .991), (55, .992), (58, 1), (108, 1.01)]
def spec(sn):
    """z3 (version, volts per count, pascals per count) for serial number sn"""
    def consts(v):
        gain = 1 + (50 if v >= .98 else 49.4) / .470
        avcc = 3.1 if v >= .9 else 3.373
        V = .256 / 2 ** 15 / gain
        return v, V, V / (45.13e-6 * avcc / 7)
    R = lambda x: z3.RealVal(repr(float(x))) if 'e' not in repr(float(x)) else z3.RealVal(__import__('fractions').Fraction(x).__str__())
    out = [R(c) for c in consts(TABLE[0][1])]
    for lo, v in TABLE[1:]:
        out = [z3.If(sn >= lo, R(c), o) for c, o in zip(consts(v), out)]
    return out
def close(a, b):
    """equal up to the rounding of double arithmetic"""
    t = E.real(num(a).t)
    ok = z3.And(t - b <= b * z3.RealVal('1e-12'), b - t <= b * z3.RealVal('1e-12'))
    n = num(a).nan
    return ok if n is None else z3.And(z3.Not(n), ok)

def prove(pr):
    pr.assume_note('double arithmetic is modelled as exact; constants are compared to relative 1e-12',
                   'int() of a serial number text is its number')
    core = pr.module('core')
    def specs(p):
        sn = E.fresh_int('SN'); p.assume(sn.t >= 3); p.inputs['SN'] = sn
        r = core['get_gem_specs'](sn)
        v, V, Pa = spec(sn.t)
        p.cover('some serial number')
        p.prove('version is the one its serial number belongs to', E.real(num(r['version']).t) == v)
        p.prove('volts per count', close(r['bitweight_V'], V))
        p.prove('pascals per count', close(r['bitweight_Pa'], Pa))
    pr.run('get_gem_specs', specs, ['gemlog.core.get_gem_specs', 'gemlog.core.__gain__', 'gemlog.core.__AVCC__'], covers=['some serial number'])

    def bw(p):
        sn = E.fresh_int('SN'); p.assume(sn.t >= 3); p.inputs['SN'] = sn
        g = E.fresh_int('adc_range'); p.inputs['adc_range'] = g
        u = Text('units')
        _, V, Pa = spec(sn.t)
        p.inputs['units'] = {'Pa': E.SBool(u.upper().is_('PA')), 'V': E.SBool(u.upper().is_('V')), 'counts': E.SBool(u.lower().is_('counts'))}
        isPa, isV, isC = u.upper().is_('PA'), u.upper().is_('V'), u.lower().is_('counts')
        okgain = z3.Or(g.t == 0, g.t == 1)
        try: r = core['get_bitweight_info'](sn, {'adc_range': g}, u)
        except BaseException as e:
            if isinstance(e, E.Signal): raise
            p.cover('rejected')
            p.prove('rejected only for an invalid gain or unit', z3.Not(z3.And(okgain, z3.Or(isPa, isV, isC)))); return
        p.cover('accepted')
        p.prove('an invalid gain is rejected', okgain)
        p.prove('an invalid unit is rejected', z3.Or(isPa, isV, isC))
        m = z3.If(g.t == 1, z3.RealVal(2), z3.RealVal(1))
        p.prove('volts per count, doubled at low gain', close(r['bitweight_V'], V * m))
        p.prove('pascals per count, doubled at low gain', close(r['bitweight_Pa'], Pa * m))
        p.prove('constant for the requested unit', z3.And(z3.Implies(isPa, close(r['bitweight'], Pa * m)), z3.Implies(isV, close(r['bitweight'], V * m)),
                                                        z3.Implies(isC, close(r['bitweight'], z3.RealVal(1)))))
    pr.run('get_bitweight_info', bw, ['gemlog.core.get_bitweight_info'], covers=['rejected', 'accepted'])

    KEYS = ['gps_mode', 'gps_cycle', 'gps_quota', 'adc_range', 'led_shutoff', 'serial_output']
    DEFAULT = dict(gps_mode=1, gps_cycle=15, gps_quota=20, adc_range=0, led_shutoff=0, serial_output=0)
    def rconf(p):
        at = E.fresh_int('config_line')            # the first configuration line (header line number), anywhere or nowhere
        p.assume(at.t >= 1); p.inputs['config_line'] = at
        vals = [E.fresh_int(k) for k in KEYS]
        for k, v in zip(KEYS, vals): p.inputs[k] = v
        class Line:
            """one line as pandas.read_csv(names=...) gives it"""
            def __init__(self, fields, names):
                self.f = dict(zip(names, fields)); self.names = names
                self.iloc = self.loc = self
            def __getitem__(self, rc):
                if isinstance(rc, str): return [self.f[rc]]
                r, c = rc
                if r != 0: raise E.mark(KeyError(r))
                return self.f[self.names[c] if isinstance(c, int) else c]
            def keys(self): return list(self.names)
            columns = property(lambda s: list(s.names))
        def read_csv(fn, skiprows=0, nrows=None, delimiter=None, dtype=None, names=None, **k):
            if nrows != 1 or delimiter != ',' or names is None or not isinstance(skiprows, int): raise E.Unsupported('read_csv in an unexpected form')
            if p.decide(at.t == skiprows): return Line(['C'] + [E.strtoken(v, '') for v in vals], names)
            if p.decide(z3.Bool(f'unreadable{skiprows}')): raise E.mark(ValueError('no such line'))
            return Line(['#D'[skiprows % 2]] + [E.strtoken(E.fresh_int(f'x{i}'), '') for i in range(6)], names)
        hold0['read_csv'] = read_csv
        r = core1['_read_config']('file')
        got = {k: r[k] for k in KEYS}
        if p.decide(at.t <= 10):
            p.cover('recorded')
            for k, v in zip(KEYS, vals): p.prove(f'{k} is the recorded one', z3.BoolVal(E._isnumlike(got[k])) if not E._isnumlike(got[k]) else num(got[k]).t == v.t)
        else:
            p.cover('default')
            for k in KEYS: p.prove(f'{k} is the documented default', num(got[k]).t == DEFAULT[k])
    hold0 = {}
    from vc.npmodel import ModelNS
    core1 = pr.module('core', extra={'pandas': ModelNS('pandas', Series=lambda d, *a, **k: dict(d), read_csv=lambda *a, **k: hold0['read_csv'](*a, **k))})
    pr.run('_read_config', rconf, ['gemlog.core._read_config'], covers=['recorded', 'default'])

    # read_gem: header carries get_bitweight_info(SN, config of the first readable file); config verbatim
    pending = {}
    def stub(name):
        def f(*a, **k): return pending[name](*a, **k)
        return f
    names = ['_find_nonmissing_files', '_read_format_version', '_read_config', '_read_several', '_assign_times', 'get_bitweight_info']
    core2 = pr.module('core', stubs={n: stub(n) for n in names}, extra={'numpy': HNp()})
    for version in ('1.10', '0.91', '0.9', '0.85C', '0.85', '0.8'):
        def rg(p, version=version):
            hdr = {}
            SN = '077'
            cfg = {k: E.fresh_int(k) for k in ('gps_mode', 'gps_cycle', 'gps_quota', 'adc_range', 'led_shutoff', 'serial_output')}
            info = {'version': E.fresh_real('version'), 'bitweight_V': E.fresh_real('bV'), 'bitweight_Pa': E.fresh_real('bPa'), 'bitweight': E.fresh_real('b')}
            bad = E.fresh_int('unreadable'); p.assume(z3.And(bad.t >= 0, bad.t <= 2))
            files = ['a', 'b', 'c']
            used = []
            def rv(fn):
                if p.decide(bad.t > files.index(fn)): raise E.mark(ValueError('unreadable'))
                used.append(fn); return version
            def rc(fn): used.append('cfg' + fn); return cfg
            L = {'data': Rows(), 'header': hdr, 'metadata': Any('M'), 'gps': Any('G', {'shape': (E.fresh_int('ng'), 11), 'keys': lambda: []}), 'problems': []}
            def gbi(sn, config, *a, **k):
                p.prove('constants are asked for the serial number read', z3.BoolVal(sn == SN))
                p.prove('constants are asked for the recorded configuration', z3.BoolVal(config is cfg))
                p.prove('header constants are in default units', z3.BoolVal(not a and not k or a == ('Pa',) or k == {'units': 'Pa'}))
                return dict(info)
            pending.update(_find_nonmissing_files=lambda *a, **k: files, _read_format_version=rv, _read_config=rc, _read_several=lambda *a, **k: L,
                           _assign_times=lambda l: (l, Any('timing')), get_bitweight_info=gbi)
            r = core2['read_gem'](path='x', SN=SN)
            p.cover('read')
            h = r['header']
            p.prove('configuration is that of the first readable file', z3.BoolVal(used == [used[0], 'cfg' + used[0]] if used else False))
            for k in ('bitweight_V', 'bitweight_Pa'): p.prove(f'header {k} is the looked-up constant', z3.BoolVal(h.get(k) is info[k]))
            for k in cfg: p.prove(f'header {k} is the recorded setting', z3.BoolVal(h.get(k) is cfg[k]))
        pr.run(f'read_gem header[{version}]', rg, ['gemlog.core.read_gem'], covers=['read'])

    # convert: every written trace is stamped with the requested constant
    hold = {}
    class Free(LoopContract):
        cut = True
        def havoc(self, L, v, val):
            if v in FREE: return Any(v)
            return NotImplemented
        def owns(self, v): return v in FREE
    FREE = ('L', 'p', 'n1', 'hour_to_write', 't1', 'tt2', 'metadata', 'gps', 'problems', 'wgps', 'w', 'nums_block', 'fn_new', 'fn', 'nums', 'file', 'i', 'corrupt_files_flag')
    loops = {f'convert#while{k}': Free() for k in range(8)}
    loops.update({f'convert#for{k}': Free() for k in range(6)})
    def stubc(name):
        def f(*a, **k): return hold[name](*a, **k)
        return f
    AnyNs = lambda n: Any(n)
    core3 = pr.module('core', stubs={n: stubc(n) for n in ('_read_SN', 'read_gem', '_merge_gaps', '_write_hourlong_mseed', '_make_filename', '_new_gem_var', '_trunc_UTCDateTime', '_slice_stream')},
                      loops=loops, extra={'numpy': HNp(), 'glob': Any('glob'), 'os': Any('os'), 'obspy': Any('obspy'), 'sys': Any('sys')})
    for given in (False, True):
        def cv(p, given=given):
            u = Text('units')
            isPa, isV = u.is_('Pa'), u.is_('V')
            isC = u.lower().is_('counts')
            p.inputs['units'] = {'Pa': E.SBool(isPa), 'V': E.SBool(isV), 'counts': E.SBool(isC)}
            known = z3.Or(u.upper().is_('PA'), u.upper().is_('V'), isC)
            bPa, bV = E.fresh_real('header_Pa'), E.fresh_real('header_V')
            own = E.fresh_real('own')
            hdr = {'bitweight_Pa': [bPa], 'bitweight_V': [bV]}
            class H(Any):
                def __getitem__(self, k): return hdr[k] if k in hdr else Any('column')
            # the first file's header; later blocks belong to the same instrument, gain and units
            class Dict(Any):
                def __getitem__(self, k): return H('header') if k == 'header' else Any(k)
            n_written = []
            def write(pp, hour, length, bitweight, *a, **k):
                n_written.append(1)
                for nm, q in (('Pa', isPa), ('V', isV), ('counts', isC)):
                    if p.check(q) != z3.unsat: p.cover('written in ' + nm)
                b = num(bitweight)
                notnan = z3.BoolVal(True) if b.nan is None else z3.Not(b.nan)
                if given: p.prove("the caller's own value is stamped", z3.And(notnan, E.real(b.t) == own.t))
                else:
                    p.prove('an invalid unit is rejected before writing', known)
                    p.prove('the constant for the requested unit is stamped',
                            z3.Implies(known, z3.And(notnan, E.real(b.t) == z3.If(u.upper().is_('PA'), bPa.t, z3.If(u.upper().is_('V'), bV.t, z3.RealVal(1))))))
                return Any('hour')
            hold.update(_read_SN=lambda f: Any('sn'), read_gem=lambda **k: Dict('L'), _merge_gaps=lambda x: Any('p'), _write_hourlong_mseed=write,
                        _make_filename=lambda *a: Any('file name'), _new_gem_var=lambda: Dict('L'), _trunc_UTCDateTime=lambda *a, **k: Any('t'), _slice_stream=lambda *a, **k: Any('p'))
            Free.L = Dict
            FreeHavoc[0] = Dict
            try: core3['convert']('raw', SN='077', units=u, **({'bitweight': own} if given else {}))
            except Exception as e:
                if not getattr(e, '_vc_ok', False): raise
        pr.run(f'convert[bitweight {"given" if given else "default"}]', cv, ['gemlog.core.convert'], covers=['written in Pa', 'written in V', 'written in counts'], max_paths=20000)
    FreeHavoc = [None]
    def hv(self, L, v, val):
        if v == 'L': return FreeHavoc[0]('L')
        if v in FREE: return Any(v)
        return NotImplemented
    Free.havoc = hv

    core4 = pr.module('core', stubs={'_make_filename_converted': lambda *a, **k: Any('name'), '_trunc_UTCDateTime': lambda *a, **k: Any('t'), 'write_wav': lambda tr, **k: tr._written()},
                      loops={f'_write_hourlong_mseed#for{k}': LoopContract() for k in range(3)}, extra={'numpy': HNp()})
    for fmt in ('MSEED', 'mseed', 'sac', 'wav', 'WAV'):
        def wh(p, fmt=fmt):
            b = E.fresh_real('bitweight')
            class Tr(Any):
                def _written(self, *a, **k):
                    p.cover('written')
                    c = self.stats._sub.get('calib')
                    p.prove('a trace is stamped before it is written', z3.BoolVal(c is not None) if c is None else num(c).t == b.t)
            class Traces(Any):
                def symget(self, k):
                    t = Tr('tr'); t._hooks['write'] = t._written; return t
            class St(Any): pass
            ps = St('p', {'slice': lambda *a, **k: St('pp', {'split': lambda: Traces('traces')})})
            core4['_write_hourlong_mseed'](ps, Any('hour'), Any('len'), b, 'out', output_format=fmt)
        pr.run(f'_write_hourlong_mseed[{fmt}]', wh, ['gemlog.core._write_hourlong_mseed'], covers=['written'])

class Rows(list):
    """the sample table: some rows"""
    def vc_len(self):
        n = E.fresh_int('n'); cur().assume(n.t > 0); return n

"""C07 - conversion writes each requested sample to exactly one file."""
import z3, fractions
from vc import engine as E
from vc.engine import Num, SBool, cur, num, tobool, mark
from vc.loader import LoopContract
from vc.npmodel import NpModel, ModelNS, TypeShadow, INT, LIST
from vc.havoc import Any, HNp
from vc.libmodels import exceptions

EXPLAIN = ('one arbitrary recorded sample is followed through convert: the file it is in is found and its number asked for exactly once whatever the block size, and by invariants over the five loops (reading, joining, writing) '
           'the sample is written exactly once if it lies in the requested period and never otherwise; _write_hourlong_mseed is proved to write each sample of its span once, in files named by their first sample that lie between '
           'successive multiples of the file length and never reuse a name; index search, truncation and naming proved on their own. For all numbers of files, samples, gaps, blocks and lengths.')
I, B = z3.IntSort(), z3.BoolSort()
US = 1000000
N0, TAU = z3.Int('number_of_its_file'), z3.Int('sample_time_us')
APOC = 253402300799 * US
F_US = z3.Int('file_length_us')

def us_of(x):
    """whole microseconds of a number of seconds (UTCDateTime is exact to the microsecond)"""
    if isinstance(x, (int, float)) and not isinstance(x, bool):
        f = E.frac(x) * US
        return z3.IntVal(round(f))
    x = num(x)
    if x.nan is not None: raise E.Unsupported('time shift that may be undefined')
    y = z3.simplify(E.real(x.t) * US)
    k = E.asint(y)
    return k if k is not None else E.sint(E.sround(Num(y))).t

class Tm:
    """UTCDateTime, in whole microseconds"""
    is_sym = True
    def __init__(self, us): self.us = us if z3.is_expr(us) else z3.IntVal(us)
    def _o(self, o):
        if isinstance(o, Tm): return o.us
        if isinstance(o, (int, float, Num)): return us_of(o)
        raise E.Unsupported('comparison of a time')
    def __add__(self, o):
        if isinstance(o, Tm): raise mark(TypeError('sum of two times'))
        return Tm(z3.simplify(self.us + us_of(o)))
    __radd__ = __add__
    def __sub__(self, o):
        if isinstance(o, Tm): return Num(z3.ToReal(self.us - o.us) / US)
        return Tm(z3.simplify(self.us - us_of(o)))
    def __lt__(self, o): return SBool(self.us < self._o(o))
    def __le__(self, o): return SBool(self.us <= self._o(o))
    def __gt__(self, o): return SBool(self.us > self._o(o))
    def __ge__(self, o): return SBool(self.us >= self._o(o))
    def __eq__(self, o): return SBool(self.us == self._o(o))
    def __ne__(self, o): return SBool(self.us != self._o(o))
    __hash__ = None
    def ite(self, c, o): return Tm(z3.If(c, self.us, o.us)) if isinstance(o, Tm) else self._bad()
    def _bad(self): raise E.Unsupported('mixed times')
    def vc_float(self): return Num(z3.ToReal(self.us) / US)
    @property
    def timestamp(self): return self.vc_float()
    @property
    def ns(self): return Num(self.us * 1000)
    def vc_isnan(self): return SBool(False)
    def field(self, f, lo, hi):
        v = z3.Function('utc_' + f, I, I)(self.us if f == 'microsecond' else self.us / US)
        cur().s.fact(z3.And(v >= lo, v <= hi))
        if f == 'microsecond': cur().s.fact(v == self.us % US)
        return Num(v)
    year = property(lambda s: s.field('year', 1, 9999)); month = property(lambda s: s.field('month', 1, 12)); day = property(lambda s: s.field('day', 1, 31))
    hour = property(lambda s: s.field('hour', 0, 23)); minute = property(lambda s: s.field('minute', 0, 59)); second = property(lambda s: s.field('second', 0, 59))
    microsecond = property(lambda s: s.field('microsecond', 0, 999999))
    def strftime(self, f):
        m = {'%Y': (self.year, '04'), '%m': (self.month, '02'), '%d': (self.day, '02'), '%H': (self.hour, '02'), '%M': (self.minute, '02'), '%S': (self.second, '02'), '%f': (self.microsecond, '06')}
        out, i = '', 0
        while i < len(f):
            if f[i] == '%' and f[i:i + 2] in m: out += E.strtoken(*m[f[i:i + 2]]); i += 2
            elif f[i] == '%': raise E.Unsupported('time format')
            else: out += f[i]; i += 1
        return out
    def __format__(self, s): return E.strtoken(self, s)
    def __str__(self): return E.strtoken(self, '')
    def concretize(self, m): return m.eval(self.us, model_completion=True).as_long()
    def __getattr__(self, k): E.noattr(k, 'a time')
class UTCShadow(TypeShadow):
    def __init__(self): self.real = Tm
    def __call__(self, *a, **k):
        if k and set(k) != {'ns'} or len(a) + len(k) != 1: raise E.Unsupported('UTCDateTime arguments')
        if k:
            n = num(k['ns'])
            if not n.isint: raise E.Unsupported('nanoseconds')
            return Tm(z3.simplify((n.t + 500) / 1000))
        x = a[0]
        if isinstance(x, Tm): return x
        if isinstance(x, float) and x in (float('inf'), float('-inf')): raise mark(OverflowError('infinite time'))
        return Tm(us_of(x))
    def strptime(self, s, f):
        import datetime
        d = datetime.datetime.strptime(s, f)
        return Tm(int((d - datetime.datetime(1970, 1, 1)).total_seconds()) * US)
UTCDT = UTCShadow()

# ------------------------------------------------------------------ sample streams
class Stream:
    """samples in time order, seen through one arbitrary sample: has (it is here), and the first and last sample"""
    is_sym = True
    def __init__(self, p, has, e, f, l, clean=True, joined=False):
        self.p, self.has, self.e, self.f, self.l, self.clean = p, has, e, f, l, clean
        self.joined = joined            # sorted and merged (_merge_gaps)
        p.s.fact(z3.And(z3.Implies(e, f <= l), z3.Implies(has, z3.And(e, f <= TAU, TAU <= l))))
    @staticmethod
    def fresh(p, name, **k):
        return Stream(p, z3.Bool(p.fresh(name + '_has')), z3.Bool(p.fresh(name + '_nonempty')), z3.Int(p.fresh(name + '_first')), z3.Int(p.fresh(name + '_last')), **k)
    @staticmethod
    def empty(p): return Stream(p, z3.BoolVal(False), z3.BoolVal(False), z3.IntVal(0), z3.IntVal(0))
    def _cut(self, a, b, nearest, name):
        p = self.p
        for x in (a, b):
            if x is not None and not isinstance(x, Tm): raise mark(TypeError('starttime and endtime must be UTCDateTime objects or None')) if name == 'trim' else E.Unsupported('relative slice')
        au, bu = (a.us if a is not None else None), (b.us if b is not None else None)
        if a is not None and b is not None and p.decide(au > bu): raise mark(ValueError('startime is larger than endtime'))
        s = Stream.fresh(p, name, clean=self.clean, joined=self.joined)
        lo = (au <= TAU) if au is not None else z3.BoolVal(True)
        hi = (TAU <= bu) if bu is not None else z3.BoolVal(True)
        fl = (au <= s.f) if au is not None else z3.BoolVal(True)
        fh = (s.l <= bu) if bu is not None else z3.BoolVal(True)
        if nearest:                      # rounds to the nearest sample: up to half an interval outside
            if au is not None: n = z3.Bool(p.fresh('near')); lo = z3.If(z3.And(TAU > au - 5001, TAU < au + 5001), n, lo); fl = au - 5001 < s.f
            if bu is not None: n = z3.Bool(p.fresh('near')); hi = z3.If(z3.And(TAU > bu - 5001, TAU < bu + 5001), n, hi); fh = s.l < bu + 5001
        p.s.fact(z3.And(s.has == z3.And(self.has, lo, hi), z3.Implies(s.e, z3.And(self.e, self.f <= s.f, s.l <= self.l, fl, fh))))
        return s
    def slice(self, starttime=None, endtime=None, keep_empty_traces=False, nearest_sample=True): return self._cut(starttime, endtime, nearest_sample, 'slice')
    def trim(self, starttime=None, endtime=None, pad=False, nearest_sample=True, fill_value=None):
        if pad: raise E.Unsupported('padding')
        s = self._cut(starttime, endtime, nearest_sample, 'trim')
        self.__dict__.update(s.__dict__)
        return self
    def split(self): return self
    def copy(self): return Stream(self.p, self.has, self.e, self.f, self.l, self.clean, self.joined)
    def sort(self, *a, **k): return self
    def __add__(self, o):
        if not isinstance(o, Stream): raise E.Unsupported('sum of streams')
        return Sum([self, o])
    def vc_len(self):
        n = z3.Int(self.p.fresh('n_traces')); self.p.s.fact(z3.And(n >= 0, (n > 0) == self.e)); return Num(n)
    def count(self): return self.vc_len()
    def __bool__(self): return self.p.decide(self.e)
    def __getitem__(self, k):
        if k not in (0, -1): raise E.Unsupported('one of the traces')
        if not self.p.decide(self.e): raise mark(IndexError('list index out of range'))
        return End(self, k)
    def symlen(self): return self.traces().n
    def symget(self, k): return self.traces().get(num(k).t)
    def traces(self):
        if '_tr' not in self.__dict__: self._tr = Traces(self)
        return self._tr
    def __iter__(self): raise E.Unsupported('iteration over traces')
    def __getattr__(self, k): E.noattr(k, 'a stream')
class Sum:
    """several streams one after the other, not yet merged"""
    def __init__(self, parts): self.parts = parts
    def __add__(self, o): return Sum(self.parts + [o])
    def __getattr__(self, k): E.noattr(k, 'unmerged streams')
class End:
    """first or last trace: only the outer end is known"""
    def __init__(self, s, k): self.s, self.k, self.stats = s, k, EndStats(s, k)
    def __getattr__(self, k): E.noattr(k, 'a trace')
class EndStats:
    def __init__(self, s, k): self.s, self.k = s, k
    @property
    def starttime(self):
        if self.k == 0: return Tm(self.s.f)
        v = z3.Int(self.s.p.fresh('start_of_last')); self.s.p.s.fact(z3.And(v >= self.s.f, v <= self.s.l)); return Tm(v)
    @property
    def endtime(self):
        if self.k == -1: return Tm(self.s.l)
        v = z3.Int(self.s.p.fresh('end_of_first')); self.s.p.s.fact(z3.And(v >= self.s.f, v <= self.s.l)); return Tm(v)
    def __getattr__(self, k): E.noattr(k, 'trace information')
class Traces:
    """the contiguous traces of a stream: disjoint in time, together exactly its samples"""
    def __init__(self, s):
        p = s.p
        self.s, self.p = s, p
        self.n = z3.Int(p.fresh('n_traces')); self.own = z3.Int(p.fresh('trace_of_sample'))
        u = p.fresh('trace')
        self.a, self.b = z3.Function(u + '_start', I, I), z3.Function(u + '_end', I, I)
        p.s.fact(z3.And(self.n >= 0, (self.n > 0) == s.e, s.has == z3.And(self.own >= 0, self.own < self.n)))
        p.s.fact(z3.Implies(s.has, z3.And(self.a(self.own) <= TAU, TAU <= self.b(self.own))))
    def get(self, k):
        p = self.p
        p.s.fact(z3.Implies(z3.And(k >= 0, k < self.n), z3.And(self.s.f <= self.a(k), self.a(k) <= self.b(k), self.b(k) <= self.s.l)))
        p.s.fact(z3.Implies(z3.And(self.s.has, k != self.own), z3.Or(self.b(k) < self.a(self.own), self.b(self.own) < self.a(k))))
        return Trace(self, k)
class Stats:
    def __init__(self, t): self.__dict__.update(t=t, set={})
    starttime = property(lambda s: Tm(s.t.tr.a(s.t.k))); endtime = property(lambda s: Tm(s.t.tr.b(s.t.k)))
    def __setattr__(self, k, v): self.set[k] = v
    def __getattr__(self, k): E.noattr(k, 'trace information')
class Trace:
    is_sym = True
    def __init__(self, tr, k): self.__dict__.update(tr=tr, k=k, stats=Stats(self), dirty=not tr.s.clean)
    def vc_len(self):
        n = z3.Int(self.tr.p.fresh('npts')); self.tr.p.s.fact(n >= 1); return Num(n)
    def __setattr__(self, k, v): self.__dict__['dirty'] = True
    def write(self, name, format=None, **k): self.tr.p.ghost['c07']['write'](self, name, format, k)
    def copy(self): return self
    @property
    def id(self): return Code(self)
    def __format__(self, s): return 'trace'
    def __str__(self): return 'trace'
    def __getattr__(self, k): E.noattr(k, 'a trace')
class Code:
    """network.station.location.channel of a trace"""
    is_sym = True
    def __init__(self, t): self.t = t
    def __add__(self, o): return E.strtoken(self, '') + o
    def __radd__(self, o): return o + E.strtoken(self, '')
    def __format__(self, s): return E.strtoken(self, s)
    def vc_str(self): return E.strtoken(self, '')
    def __getattr__(self, k): E.noattr(k, 'a code')

# ------------------------------------------------------------------ file numbers
class Nums:
    """an array of file numbers, seen through N0: has = it is among them"""
    is_sym = True
    _ver = 0
    def __init__(self, p, has): self.p, self.has = p, has
    def _cmp(self, op, o):
        if not E._isnumlike(o): raise E.Unsupported('comparison of numbers')
        return Mask(self, tobool(getattr(Num(N0), op)(o)))
    def __ge__(self, o): return self._cmp('__ge__', o)
    def __gt__(self, o): return self._cmp('__gt__', o)
    def __lt__(self, o): return self._cmp('__lt__', o)
    def __le__(self, o): return self._cmp('__le__', o)
    __eq__ = object.__eq__; __hash__ = object.__hash__
    def __getitem__(self, k):
        if isinstance(k, Mask) and k.of is self: return Nums(self.p, z3.And(self.has, k.t))
        if isinstance(k, int) and not isinstance(k, bool): return self.ext({0: 'min', -1: 'max'}.get(k, 'one') if self.sorted else 'one')
        raise E.Unsupported('part of the numbers')
    def vc_len(self):
        if '_n' not in self.__dict__:
            n = z3.Int(self.p.fresh('n_numbers')); self.p.s.fact(z3.And(n >= 0, z3.Implies(self.has, n > 0))); self._n = Num(n)
        return self._n
    def vc_ext(self, k): return self.ext(k)
    @property
    def size(self): return self.vc_len()
    sorted, src = False, None
    def sort(self): self.sorted = True
    def vc_sorted(self):
        r = Nums(self.p, self.has); r.src, r.sorted = self.src or self, True
        return r
    def copy(self): return self
    def ext(self, k):
        if self.src is not None: return self.src.ext(k)
        d = self.p.ghost.setdefault('extremes', {})
        if (id(self), k) not in d:
            v = z3.Int(self.p.fresh(k + '_number'))
            self.p.s.fact(z3.And(v >= 0, v <= 9999, z3.Implies(self.has, v <= N0 if k == 'min' else v >= N0 if k == 'max' else z3.BoolVal(True))))
            d[(id(self), k)] = (self, Num(v))
        return d[(id(self), k)][1]
    def min(self): return self.ext('min')
    def max(self): return self.ext('max')
    def __contains__(self, x):
        x = num(x)
        if not z3.eq(z3.simplify(x.t), N0): raise E.Unsupported('membership of another number')
        return bool(SBool(self.has))
    def vc_comp(self, kind, f, cond):
        r = f(Num(N0))
        ok = cond(Num(N0)) if cond is not None else True
        if isinstance(r, Num) and z3.eq(z3.simplify(r.t), N0): return Nums(self.p, z3.And(self.has, tobool(ok)))
        if cond is None and isinstance(r, (SBool, bool)): return Mask(self, tobool(r))
        raise E.Unsupported('list over the numbers')
    def symlen(self): return self.vc_len().t
    def __iter__(self): raise E.Unsupported('iteration over numbers')
    def __getattr__(self, k): E.noattr(k, 'numbers')
class Req(Nums):
    """the numbers asked for by the caller"""
    vc_type = LIST
class Mask:
    is_sym = True
    def __init__(self, of, t): self.of, self.t = of, t
    def __and__(self, o): return Mask(self.of, z3.And(self.t, o.t))
    def __or__(self, o): return Mask(self.of, z3.Or(self.t, o.t))
    def __invert__(self): return Mask(self.of, z3.Not(self.t))
    def __getattr__(self, k): E.noattr(k, 'a mask')
    def vc_comp(self, kind, f, cond):       # [fn[i] for i in w]
        return f(self) if cond is None else (_ for _ in ()).throw(E.Unsupported('positions'))
    def symlen(self): return z3.Int(self.of.p.fresh('n_positions'))
    def __iter__(self): raise E.Unsupported('iteration over positions')
class Where:
    def __init__(self, m): self.m = m
    def __getitem__(self, k):
        if k != 0: raise E.Unsupported('dimension')
        return self.m
class FileItem:
    """a raw file: the arbitrary one with number N0 (mine), or another"""
    is_sym = True
    def __init__(self, p, mine, sn): self.p, self.mine, self.sn = p, mine, sn
    def __getitem__(self, k):
        if isinstance(k, slice) and (k.start, k.stop, k.step) == (-8, -4, None): return NumberText(self)
        raise E.Unsupported('part of a file name')
    def __getattr__(self, k): E.noattr(k, 'a file name')
class NumberText:
    def __init__(self, f): self.f = f
    def vc_int(self): return Num(N0)
class FileList:
    """a list of raw files, seen through the file of number N0"""
    is_sym = True
    vc_type = LIST
    def __init__(self, p, has): self.p, self.has, self.added, self._v = p, has, [], 0
    @property
    def _ver(self): return self._v
    def __add__(self, o):
        if not isinstance(o, FileList): raise E.Unsupported('sum of lists')
        return FileList(self.p, z3.Or(self.has, o.has))
    def append(self, x): self.added.append(x); self._v += 1
    def vc_len(self):
        n = z3.Int(self.p.fresh('n_files')); self.p.s.fact(z3.And(n >= 0, z3.Implies(self.has, n > 0))); return Num(n)
    def symlen(self):
        if '_n' not in self.__dict__: self._n = self.vc_len().t
        return self._n
    def symget(self, k):
        p = self.p
        if p.decide(z3.And(self.has, z3.Bool(p.fresh('is_mine')))): return FileItem(p, True, True)
        return FileItem(p, False, z3.Bool(p.fresh('serial_matches')))
    def sort(self): pass
    def vc_sorted(self): return self
    def __getitem__(self, k):
        if isinstance(k, Mask): return FileList(self.p, z3.And(self.has, k.t))
        raise E.Unsupported('one of the files')
    def vc_comp(self, kind, f, cond):
        if self.added: raise E.Unsupported('files')
        x = FileItem(self.p, True, True)
        r = f(x); ok = cond(x) if cond is not None else True
        if isinstance(r, Num) and z3.eq(z3.simplify(r.t), N0): return Nums(self.p, z3.And(self.has, tobool(ok)))
        if r is x: return FileList(self.p, z3.And(self.has, tobool(ok)))
        raise E.Unsupported('list over the files')
    def __iter__(self): raise E.Unsupported('iteration over files')
    def __getattr__(self, k): E.noattr(k, 'a list of files')

class Np7(HNp):
    def __init__(self):
        HNp.__init__(self)
        own = (Nums, FileList, Mask)
        def keep(name, g):
            old = HNp.__getattribute__(self, name)
            setattr(self, name, lambda x, *a, **k: g(x, *a) if isinstance(x, own) else old(x, *a, **k))
        keep('array', lambda x, *a: x); keep('asarray', lambda x, *a: x); keep('sort', lambda x, *a: x.vc_sorted()) if 'sort' in self.__dict__ else setattr(self, 'sort', lambda x: x.vc_sorted())
        keep('min', lambda x: x.ext('min')); keep('max', lambda x: x.ext('max')); keep('amin', lambda x: x.ext('min')); keep('amax', lambda x: x.ext('max'))
        keep('where', lambda x, *a: Where(x) if isinstance(x, Mask) and not a else (_ for _ in ()).throw(E.Unsupported('where')))
        ws = self.isnan
        self.isnan = lambda x: SBool(False) if isinstance(x, Tm) else ws(x)
        isin = self.isin
        self.isin = lambda a, b: Mask(a, b.has) if isinstance(a, Nums) and isinstance(b, Nums) else isin(a, b)
        la, lo = self.logical_and, self.logical_or

# ------------------------------------------------------------------ proofs
def prove(pr):
    pr.assume_note('times are whole microseconds (UTCDateTime compares, subtracts and prints to the microsecond); file length and block length are whole microseconds',
                   'obspy: slice/trim keep exactly the samples in the given span (nearest_sample: up to half an interval more or less), split gives the contiguous traces, write stores values, times and codes unchanged; WAV output is rescaled and excluded',
                   'raw files are numbered in time order: samples of a higher numbered file are later than those of a lower numbered one; traces of one stream do not overlap in time',
                   'read_gem returns the samples of exactly the files asked for (C01-C06, C10), and raises MissingRawFiles/CorruptRawFile only if none of them has readable samples; _merge_gaps keeps every sample and may add samples inside gaps (C06)',
                   'calendar fields determine the second; one serial number; the output folder is not changed by others during a conversion')
    box, hold = {}, {}
    call = lambda k: (lambda *a, **kw: hold[k](*a, **kw))
    obspy = ModelNS('obspy', UTCDateTime=UTCDT, Stream=lambda *a: Stream.empty(cur()) if not a else (_ for _ in ()).throw(E.Unsupported('stream of traces')))
    obspy.core = ModelNS('obspy.core', UTCDateTime=UTCDT)
    os_ = ModelNS('os', path=ModelNS('os.path', isdir=call('isdir'), exists=call('exists'), join=E.pathjoin, isfile=call('exists'), lexists=call('exists')), makedirs=call('makedirs'))
    gl = ModelNS('glob', glob=call('glob'), escape=lambda x: 'ESC:' + x)
    import copy
    def module(st, loops):
        ex = {'os': os_, 'glob': gl, 'obspy': obspy, 'numpy': Np7(), 'obspy.core': obspy.core}
        return pr.module('core', stubs=st, extra=ex, loops=loops)
    # helpers
    m0 = module({'inf': float('inf')}, {})
    pr.run('_trunc_UTCDateTime', lambda p: trunc(p, m0), ['gemlog.core._trunc_UTCDateTime'], covers=['done'])
    for fmt in ('MSEED', 'mseed', 'SAC', 'WAV'):
        pr.run(f'_make_filename_converted[{fmt}]', lambda p, fmt=fmt: naming(p, m0, fmt), ['gemlog.core._make_filename_converted'], covers=['done'])
    m1 = module({}, {'_make_filename#while0': Index(box)})
    for ty in ('gps', 'metadata'):
        pr.run(f'_make_filename[{ty}]', lambda p, ty=ty: index(p, m1, box, hold, ty), ['gemlog.core._make_filename'], covers=['done'])
    st = {'_make_filename_converted': lambda tr, fmt, *a, **k: hold['name'](tr, fmt, *a, **k), '_trunc_UTCDateTime': trunc_contract, 'write_wav': call('wav')}
    m2 = module(st, {'_write_hourlong_mseed#for0': Writing(box)})
    for fmt in ('MSEED', 'SAC', 'mseed', 'wav'):
        pr.run(f'_write_hourlong_mseed[{fmt}]', lambda p, fmt=fmt: writing(p, m2, box, hold, fmt), ['gemlog.core._write_hourlong_mseed'], covers=['file', 'done'] + (['same second'] if fmt in ('MSEED', 'wav') else []))
    # the conversion
    st = {'inf': float('inf'), '_read_SN': call('sn'), '_new_gem_var': call('new'), 'read_gem': call('read'), '_merge_gaps': call('merge'), '_make_filename': call('mkname'), '_write_hourlong_mseed': call('write'),
          '_trunc_UTCDateTime': trunc_contract}
    C = lambda c: c(box)
    m3 = module(st, {'convert#for0': C(Files), 'convert#while0': C(First), 'convert#while2': C(Main), 'convert#while3': C(Load), 'convert#while4': C(Write), 'convert#while5': C(Final)})
    for w1 in ('default', 'time', 'number'):
        for w2 in ('default', 'time'):
            for nm in (('all', 'given') if (w1, w2) in (('default', 'default'), ('time', 'time')) else ('all',)):
                pr.run(f'convert[start {w1}, end {w2}, numbers {nm}]', lambda p, a=(w1, w2, nm): conversion(p, m3, box, hold, *a), ['gemlog.core.convert'] + (['gemlog.core._slice_stream'] if '_slice_stream' in m3.ns else []),
                       covers=['converted', 'load', 'write', 'final'], max_paths=20000)

def trunc_contract(x, n=86400):
    """greatest multiple of n not after x"""
    p = cur()
    if not isinstance(x, Tm): x = UTCDT(x)
    n = us_of(n)
    p.prove('truncated to a positive length', n > 0)
    r = z3.Int(p.fresh('multiple'))
    p.s.fact(z3.And(r <= x.us, x.us < r + n))
    p.ghost.setdefault('multiples', []).append((r, n))
    return Tm(r)
def trunc(p, mod):
    x, n, q = z3.Int('x'), z3.Int('n'), z3.Int('q')
    p.assume(z3.And(x >= 0, n > 0))
    p.inputs.update(x=Num(x), n=Num(n))
    r = mod['_trunc_UTCDateTime'](Tm(x), Num(z3.ToReal(n) / US))
    p.cover('done')
    if not isinstance(r, Tm): raise E.Unsupported('truncated time')
    p.prove('not after the time', r.us <= x)
    p.prove('less than one length before', x < r.us + n)
    d = p.ghost.get('quotients', {})
    ok = [r.us == qt * nt for qt, nt, _ in d.values()] + [r.us == n * q]
    p.prove('a multiple of the length', z3.Or([f for f in ok[:-1]] or [z3.BoolVal(False)]))

def parts(s):
    out = []
    for x in E.strparts(s):
        if isinstance(x, str) and out and isinstance(out[-1], str): out[-1] += x
        else: out.append(x)
    return out
def naming(p, mod, fmt):
    s = Stream.fresh(p, 'p'); p.assume(s.e)
    k = z3.Int('k'); tr = s.traces(); p.assume(z3.And(k >= 0, k < tr.n))
    t = tr.get(k)
    us = tr.a(k)
    p.assume(us >= 0)
    name = mod['_make_filename_converted'](t, fmt)
    p.cover('done')
    T = Tm(us)
    want = [(T.year, '04'), '-', (T.month, '02'), '-', (T.day, '02'), 'T', (T.hour, '02'), '_', (T.minute, '02'), '_', (T.second, '02')]
    got = parts(name) if isinstance(name, str) else []
    def eq(a, b):
        if isinstance(a, str) or isinstance(b, str): return z3.BoolVal(isinstance(a, str) and isinstance(b, str) and a == b)
        return z3.BoolVal(a[1] == b[1]) if not isinstance(a[0], Num) else z3.And(z3.BoolVal(a[1] == b[1]), num(a[0]).t == num(b[0]).t)
    ok = len(got) > len(want)
    p.prove('named by the time of the first sample', z3.And([z3.BoolVal(ok)] + [eq(a, b) for a, b in zip(got, want)]))
    rest = got[len(want):]
    codes = [x for x in rest if isinstance(x, tuple) and isinstance(x[0], Code) and x[0].t is t]
    p.prove('named by the codes of the trace', z3.BoolVal(len(codes) == 1 and rest[0] == '.' and rest[1] is codes[0] if len(rest) > 1 else False))
    p.prove('named by the format', z3.BoolVal(rest[-1] == '.' + fmt.lower() if rest else False))

# ---- index of metadata and GPS files
class Index(LoopContract):
    """invariant, for the counter and the names the loop keeps: every index below the next one to
    be tested is in use; a name kept stays in step with the counter"""
    def __init__(self, b): self.b = b
    def owns(self, v): return v == self.c or v in self.d
    def entry(self, L, env):
        b, p = self.b, self.b['p']
        ints = [v for v in L.names if type(env.get(v)) is int]
        if len(ints) != 1: raise E.Unsupported('counter of the search')
        self.c = ints[0]
        self.off = -env[self.c]             # next index to test = counter + off; none has been tested yet
        self.d = {}
        for v in L.names:
            if isinstance(env.get(v), str):
                n = b['parse'](env[v])
                if n is None: continue         # not a name being tried
                self.d[v] = z3.simplify(n - env[self.c])
        b['m'] = z3.Int('smaller_index')
        b['n'] = z3.Int(p.fresh('n'))
    def havoc(self, L, v, val):
        if v == self.c: return Num(self.b['n'])
        if v in self.d: return self.b['text'](Num(self.b['n'] + self.d[v]))
        return NotImplemented
    def below(self, n):
        m = self.b['m']
        return z3.Implies(z3.And(m >= 0, m < n + self.off), self.b['EX'](m))
    def assume(self, L, env, k):
        b, p = self.b, self.b['p']
        p.assume(z3.And(b['n'] + self.off >= 0, self.below(b['n'])))
    def end(self, L, env, k1):
        b, p = self.b, self.b['p']
        c = num(env[self.c]).t
        for v, d in self.d.items():
            n = b['parse'](env[v])
            p.prove('name and index stay in step', z3.BoolVal(False) if n is None else n == c + d)
        p.prove('no unused index is passed over', self.below(c))
        p.prove('the search advances', c > b['n'])
def index(p, mod, b, h, ty):
    b.clear()
    EX = z3.Function('index_in_use', I, B)
    def parse(s):
        ps = parts(s) if isinstance(s, str) else []
        if len(ps) == 1 and isinstance(ps[0], str):
            import re
            m = re.fullmatch(r'DIR//?077' + ty + r'_(\d{3,})\.txt', ps[0])
            return z3.IntVal(int(m[1])) if m else None
        if len(ps) == 3 and ps[0] in (f'DIR/077{ty}_', f'DIR//077{ty}_') and ps[2] == '.txt' and isinstance(ps[1], tuple) and ps[1][1] in ('03', '03d'): return num(ps[1][0]).t
        return None
    b.update(p=p, EX=EX, parse=parse, text=lambda n: f'DIR/077{ty}_' + E.strtoken(n, '03') + '.txt')
    def exists(f):
        n = parse(f)
        if n is None: raise E.Unsupported('existence of something else')
        return SBool(EX(n))
    h.update(exists=exists)
    r = mod['_make_filename']('DIR', '077', ty)
    n = parse(r)
    p.cover('done')
    p.prove('named by instrument and kind', z3.BoolVal(n is not None))
    if n is None: return
    p.inputs['index'] = Num(n)
    p.prove('no existing file is taken', z3.Not(EX(n)))
    m = b.get('m', z3.Int('smaller_index'))
    p.prove('the first unused index', z3.Implies(z3.And(m >= 0, m < n), EX(m)))

# ---- one file span
class Name:
    """name of an output file: start time to the second, or with its fraction"""
    is_sym = True
    def __init__(self, us, frac, tr=None): self.us, self.frac, self.tr = us, frac, tr
    def eq(self, o):
        if self.frac != o.frac: return z3.BoolVal(False)
        return self.us == o.us if self.frac else self.us / US == o.us / US
    def __radd__(self, o): return o + E.strtoken(self, '')
    def __add__(self, o): return E.strtoken(self, '') + o
    def __format__(self, s): return E.strtoken(self, s)
    def vc_str(self): return E.strtoken(self, '')
    def __hash__(self): raise E.Unsupported('hash of a name')
    def __eq__(self, o): return SBool(self.eq(o)) if isinstance(o, Name) else False
    def __getattr__(self, k): E.noattr(k, 'a file name')
class Written:
    """the set of names given out so far in this conversion; contains the arbitrary earlier one"""
    is_sym = True
    def __init__(self, p, base): self.p, self.base, self.added, self._v = p, base, [], 0
    @property
    def _ver(self): return self._v
    def _havoc(self, name): self.added = []
    def __contains__(self, n):
        if not isinstance(n, Name): raise E.Unsupported('membership of something else')
        p = self.p
        known = z3.Or([n.eq(x) for x in self.base + self.added] or [z3.BoolVal(False)])
        b = z3.Bool(p.fresh('in_set')); p.s.fact(z3.Implies(known, b))
        return p.decide(b)
    def add(self, n): self.added.append(n); self._v += 1
    def __getattr__(self, k): E.noattr(k, 'the names written')
class Writing(LoopContract):
    """each trace of the span is written to one file of its own; every name given out is in the set"""
    def __init__(self, b): self.b = b
    def owns(self, v): return v == 'written'
    def havoc(self, L, v, val):
        if v == 'written' and isinstance(val, Written): return val
        return NotImplemented
    def entry(self, L, env):
        b, p = self.b, self.b['p']
        if not isinstance(L.items, Stream): raise E.Unsupported('loop over something else')
        b['loops'] += 1
        p.prove('one pass over the samples', z3.BoolVal(b['loops'] == 1))
        b['pp'] = L.items
    def begin(self, L, env, x):
        b, p = self.b, self.b['p']
        b['ev'].clear(); b['x'] = x
        # an arbitrary file written before: in an earlier call, or an earlier trace of this one; its first sample is another one
        e = z3.Int(p.fresh('earlier_start')); p.assume(z3.And(e >= 0, e != x.tr.a(x.k)))
        b['earlier'] = Name(e, p.decide(z3.Bool(p.fresh('earlier_has_fraction'))))
        if b['set'] is not None: b['set'].base = [b['earlier']]; b['set'].added = []
    def end(self, L, env, k1):
        b, p, x, ev = self.b, self.b['p'], self.b['x'], self.b['ev']
        p.prove('every trace is written exactly once', z3.BoolVal(len(ev) == 1 and ev[0][0] is x))
        if len(ev) != 1 or ev[0][0] is not x: return
        p.cover('file')
        tr, n, fmt = ev[0]
        p.inputs.update(earlier=Num(b['earlier'].us), start=Num(x.tr.a(x.k)))
        p.prove('the values are unchanged', z3.BoolVal(not x.dirty))
        p.prove('times and codes are unchanged', z3.BoolVal(set(x.stats.set) <= {'calib'}))
        p.prove('named after its own first sample', z3.BoolVal(isinstance(n, Name) and n.tr is x))
        if not isinstance(n, Name): return
        if n.frac: p.cover('same second')
        p.prove('no file of this conversion is overwritten', z3.Not(n.eq(b['earlier'])))
        p.prove('the name given out is remembered', z3.BoolVal(b['set'] is not None and any(m.us is n.us and m.frac == n.frac for m in b['set'].added)))
        a, e = x.tr.a(x.k), x.tr.b(x.k)
        r, f = b['mult']()
        p.prove('no file crosses a multiple of the file length', z3.And(r <= a, e < r + f))
def writing(p, mod, b, h, fmt):
    b.clear()
    s = Stream.fresh(p, 'p', joined=True)
    H, F = z3.Int('hour_to_write'), z3.Int('file_length_us')
    p.assume(z3.And(H >= 0, F > 0, TAU >= 0))
    st = Written(p, [])
    b.update(p=p, ev=[], loops=0, set=st, pp=None)
    def mult():
        ms = p.ghost.get('multiples', [])
        for r, n in ms:
            if p.check(n != F) == z3.unsat and p.check(z3.Not(z3.And(r <= H, H < r + F))) == z3.unsat: return r, n
        raise E.Unsupported('multiple of the file length')
    b['mult'] = mult
    def name(tr, f, *a, **k):
        p.prove('named by the requested format', z3.BoolVal(f == fmt))
        frac = bool(a[0]) if a else bool(list(k.values())[0]) if k else False
        if not isinstance(tr, Trace): raise E.Unsupported('name of something else')
        p.assume(tr.tr.a(tr.k) >= 0)
        return Name(tr.tr.a(tr.k), frac, tr)
    def wr(tr, path, f, kw):
        ps = parts(path) if isinstance(path, str) else []
        ok = len(ps) == 2 and ps[0] in ('OUT/', 'OUT//') and isinstance(ps[1], tuple) and isinstance(ps[1][0], Name)
        p.prove('written into the output folder', z3.BoolVal(ok))
        p.prove('written in the requested format', z3.BoolVal(isinstance(f, str) and f.lower() == fmt.lower()))
        b['ev'].append((tr, ps[1][0] if ok else None, f))
    p.ghost['c07'] = {'write': wr}
    def wav(tr, filename=None, path='.', **k):
        """contract of write_wav: one file of the given name, or named after the whole second of the first sample"""
        if k or not isinstance(tr, Trace): raise E.Unsupported('writing WAV')
        p.prove('not written as WAV unless asked to', z3.BoolVal(fmt.lower() == 'wav'))
        p.prove('written into the output folder', z3.BoolVal(isinstance(path, str) and path in ('OUT', 'OUT/')))
        if filename is None: n = Name(tr.tr.a(tr.k), False, tr)
        else:
            ps = parts(filename) if isinstance(filename, str) else [(filename,)]
            n = ps[0][0] if len(ps) == 1 and isinstance(ps[0], tuple) else None
        b['ev'].append((tr, n, 'wav'))
    h.update(name=name, wav=wav)
    sig = mod.functions['_write_hourlong_mseed'].args
    kw = {'written': st} if 'written' in [a.arg for a in sig.args + sig.kwonlyargs] else {}
    try: r = mod['_write_hourlong_mseed'](s, Tm(H), Num(z3.ToReal(F) / US), Num(z3.Real('bitweight')), 'OUT', output_format=fmt, **kw)
    except E.Signal: raise
    except Exception as e:
        if not getattr(e, '_vc_ok', False): raise
        p.prove(f'no failure ({type(e).__name__})', z3.BoolVal(False)); return
    p.cover('done')
    if not isinstance(r, Tm): raise E.Unsupported('result')
    p.prove('the span written is passed over', z3.And(r.us > H, r.us <= H + F))
    pp = b['pp']
    p.prove('the samples are written', z3.BoolVal(pp is not None))
    if pp is None: return
    p.prove('exactly the samples of the span are written', pp.has == z3.And(s.has, H <= TAU, TAU < r.us))

# ------------------------------------------------------------------ convert
class Ghost: pass
SELF = z3.Bool('recorded')          # TAU is a recorded sample, of file number N0

def inv(b, p, P, H, n1):
    """the invariant: list of (name, formula)"""
    W, lo, hi = b['W'], b['lo'], b['hi']
    win = z3.And(lo <= TAU, TAU <= hi)
    unread = z3.And(SELF, b['nums'].has, z3.ToReal(N0) >= n1)
    return [('a sample still to be written has not been written', z3.Implies(P.has, W == 0)),
            ('every sample read and not written is kept', z3.Implies(z3.And(SELF, b['nums'].has, z3.ToReal(N0) < n1, win), z3.Or(P.has, W == 1))),
            ('nothing outside the requested period is written', z3.Implies(z3.Not(win), W == 0)),
            ('nothing is written twice', z3.And(W >= 0, W <= 1)),
            ('what is written is passed', z3.Implies(W == 1, TAU < H)),
            ('what is kept is not passed', z3.Implies(z3.And(P.has, win), TAU >= H)),
            ('writing starts in the requested period', H >= lo),
            ('unread samples are later', z3.Implies(unread, z3.And(z3.Not(P.has), W == 0, z3.Implies(P.e, TAU > P.l), z3.Or(TAU >= H, z3.Not(win))))),
            ('files not asked for are not converted', z3.Implies(z3.And(SELF, z3.Not(b['nums'].has)), z3.And(z3.Not(P.has), W == 0))),
            ('values are unchanged', z3.BoolVal(P.clean))]
def state(env, b):
    P, H, n1 = env['p'], env['hour_to_write'], env['n1']
    if not isinstance(P, Stream) or not isinstance(H, Tm): raise E.Unsupported('state of the conversion')
    return P, H.us, E.real(num(n1).t)
class Conv(LoopContract):
    name = ''
    mod = ('p', 'hour_to_write')
    def __init__(self, b): self.b = b
    def owns(self, v): return v in ('p', 'hour_to_write', 'n1', 't1', 'L')
    def entry(self, L, env):
        b, p = self.b, self.b['p']
        for n, f in inv(b, p, *state(env, b)): p.prove(f'{self.name}: {n} (at first)', f)
        self.extra_entry(env)
    def extra_entry(self, env): pass
    def havoc(self, L, v, val):
        p = self.b['p']
        if v not in self.mod: return NotImplemented
        if v == 'p': return Stream.fresh(p, 'p', joined=True) if isinstance(val, Stream) else NotImplemented
        if v in ('hour_to_write', 't1'): return Tm(z3.Int(p.fresh(v))) if isinstance(val, Tm) else NotImplemented
        if v == 'n1': return Num(z3.Real(p.fresh('n1')))
        return Any(v)
    def assume(self, L, env, k):
        b, p = self.b, self.b['p']
        if 'hour_to_write' in self.mod: b['W'] = z3.Int(p.fresh('times_written'))
        self.s0 = state(env, b)
        self.env0 = dict(env)
        for n, f in inv(b, p, *self.s0): p.assume(f)
        self.extra_assume(env)
    def extra_assume(self, env): pass
    def end(self, L, env, k1):
        b, p = self.b, self.b['p']
        st = state(env, b)
        p.inputs.update(sample=Num(TAU), start=Num(b['lo']), end=Num(b['hi']))
        for n, f in inv(b, p, *st): p.prove(f'{self.name}: {n}', f)
        self.extra_end(env, st)
    def extra_end(self, env, st): pass
class Reads(Conv):
    """while files are still read: nothing read or written is later than LR, every number read is less than NR"""
    def order(self, st):
        P, H, n1 = st; b = self.b
        return [('what was read is kept or written', z3.And(z3.Implies(P.e, P.l <= b['LR']), z3.Implies(b['W'] >= 1, TAU <= b['LR']))),
                ('numbers are not read again', n1 >= b['NR']),
                ('writing does not pass what was read', z3.Or(H <= b['LR'], H == b['lo'])),
                ('data not yet written are kept', z3.Implies(P.e, z3.Or(H <= P.l, H == b['lo'])))]
    def extra_entry(self, env):
        for n, f in self.order(state(env, self.b)): self.b['p'].prove(f'{self.name}: {n} (at first)', f)
    def extra_assume(self, env):
        b, p = self.b, self.b['p']
        if 'n1' in self.mod: b['LR'], b['NR'] = z3.Int(p.fresh('last_read')), z3.Real(p.fresh('numbers_read'))
        for n, f in self.order(self.s0): p.assume(f)
    def extra_end(self, env, st):
        for n, f in self.order(st): self.b['p'].prove(f'{self.name}: {n}', f)
class Main(Reads):
    name = 'blocks'
    mod = ('p', 'hour_to_write', 't1', 'n1', 'L', 'metadata', 'gps', 'wgps', 'problems', 'w', 'i', 'tt2')
    def tinv(self, env):
        if not isinstance(env['t1'], Tm): raise E.Unsupported('time reached')
        return z3.Or(env['t1'].us <= self.b['hi'], self.b['lo'] > self.b['hi'])
    def extra_entry(self, env):
        d = env['L']['data'] if isinstance(env['L'], dict) else None
        if not isinstance(d, Stream): raise E.Unsupported('first block')
        self.b['LR'], self.b['NR'] = z3.If(d.e, d.l, z3.IntVal(-1)), E.real(num(env['n1']).t)
        Reads.extra_entry(self, env)
        self.b['p'].prove('blocks: the time reached is in the requested period (at first)', self.tinv(env))
    def extra_assume(self, env):
        Reads.extra_assume(self, env)
        self.b['p'].assume(z3.And(self.tinv(env), env['t1'].us >= 0))
    def extra_end(self, env, st):
        Reads.extra_end(self, env, st)
        self.b['p'].prove('blocks: the time reached is in the requested period', self.tinv(env))
        self.b['p'].prove('blocks: time advances', env['t1'].us > self.env0['t1'].us)
class Load(Reads):
    name = 'reading'
    mod = ('p', 'n1', 'L', 'metadata', 'gps', 'wgps', 'problems', 'w', 'i')
    def begin(self, L, env, x): pass
    def extra_end(self, env, st):
        Reads.extra_end(self, env, st)
        self.b['p'].cover('load')
        self.b['p'].prove('reading: file numbers advance', st[2] > self.s0[2])
class Write(Reads):
    name, cov = 'writing', 'write'
    def left(self, st):
        P = st[0]
        return z3.Implies(P.e, z3.And(P.f >= st[1], P.l <= self.b['hi']))
    def order(self, st): return Reads.order(self, st) if self.cov == 'write' else []
    def extra_entry(self, env):
        Reads.extra_entry(self, env)
        self.b['p'].prove(f'{self.name}: only the requested period is left (at first)', self.left(state(env, self.b)))
    def extra_assume(self, env):
        Reads.extra_assume(self, env)
        self.b['p'].assume(self.left(self.s0))
    def extra_end(self, env, st):
        p = self.b['p']
        Reads.extra_end(self, env, st)
        p.cover(self.cov)
        p.prove(f'{self.name}: only the requested period is left', self.left(st))
        p.prove(f'{self.name}: time advances', st[1] > self.s0[1])
class Final(Write):
    name, cov = 'rest', 'final'
class Files(LoopContract):
    """fn_new collects exactly the files with the serial number"""
    def __init__(self, b): self.b = b
    def owns(self, v): return v == self.var
    def entry(self, L, env):
        b, p = self.b, self.b['p']
        if not isinstance(L.items, FileList): raise E.Unsupported('loop over something else')
        p.prove('the file of the sample is found', z3.Implies(SELF, L.items.has))
        lists = [v for v in L.names if type(env.get(v)) is list and env[v] == []]
        if len(lists) != 1: raise E.Unsupported('list of the files of the instrument')
        self.var = lists[0]
    def havoc(self, L, v, val):
        b, p = self.b, self.b['p']
        if v == self.var: b['sel'] = FileList(p, z3.Bool('selected')); return b['sel']
        if isinstance(val, bool): return E.fresh_bool('corrupt')
        return NotImplemented
    def assume(self, L, env, k): pass
    def begin(self, L, env, x): self.b['x'] = x; self.b['pre'] = list(self.b['sel'].added)
    def end(self, L, env, k1):
        b, p, x = self.b, self.b['p'], self.b['x']
        if env[self.var] is not b['sel']: raise E.Unsupported('list of files')
        new = b['sel'].added
        if x.mine: p.prove('a readable file of the instrument is converted', z3.BoolVal(len(new) == 1 and new[0] is x))
        else: p.prove('a file of another instrument is not converted', z3.BoolVal(len(new) == 0) if b.get('verdict') is not True else z3.BoolVal(len(new) <= 1))
    def exit(self, L, env):
        # the file of the sample was visited: it is in the list (shown by the iteration of an arbitrary file)
        self.b['p'].s.fact(z3.Implies(SELF, self.b['sel'].has))
class First(LoopContract):
    """until a block has data, nothing that was read holds the sample; then p is that block"""
    def __init__(self, b): self.b = b
    def owns(self, v): return v in ('L', 'n1', 'nums_block')
    def entry(self, L, env):
        b, p = self.b, self.b['p']
        b['nums'] = env['nums']
        if not isinstance(b['nums'], Nums): raise E.Unsupported('numbers')
        p.prove('the number of the file is asked for', z3.Implies(z3.And(SELF, b['req']), b['nums'].has))
        p.prove('other numbers are not asked for', z3.Implies(z3.Not(b['req']), z3.Not(b['nums'].has)))
        self.chk(env, ' (at first)')
    def data(self, env):
        d = env['L']
        if not isinstance(d, dict) or not isinstance(d.get('data'), Stream): raise E.Unsupported('state of reading')
        return d['data'], E.real(num(env['n1']).t)
    def facts(self, S, n1):
        b = self.b
        mine = z3.And(SELF, b['nums'].has)
        return [('a sample read is kept', z3.Implies(z3.And(mine, z3.ToReal(N0) < n1), S.has)),
                ('unread samples are later', z3.Implies(z3.And(mine, z3.ToReal(N0) >= n1), z3.And(z3.Not(S.has), z3.Implies(S.e, TAU > S.l)))),
                ('only what was read is kept', z3.Implies(S.has, z3.Or(z3.Not(SELF), z3.And(mine, z3.ToReal(N0) < n1)))),
                ('values are unchanged', z3.BoolVal(S.clean))]
    def chk(self, env, when):
        for n, f in self.facts(*self.data(env)): self.b['p'].prove(f'first block: {n}{when}', f)
    def havoc(self, L, v, val):
        b, p = self.b, self.b['p']
        if v == 'L': return b['result'](Stream.fresh(p, 'first'))
        if v == 'n1': return Num(z3.Real(p.fresh('n1')))
        if v == 'nums_block': return Any(v)
        return NotImplemented
    def assume(self, L, env, k):
        self.n0 = self.data(env)[1]
        for n, f in self.facts(*self.data(env)): self.b['p'].assume(f)
    def end(self, L, env, k1):
        self.chk(env, '')
        self.b['p'].prove('first block: file numbers advance', self.data(env)[1] > self.n0)

class Res(dict):
    pass
def conversion(p, mod, b, h, w1, w2, nm):
    b.clear()
    p.assume(z3.And(N0 >= 0, N0 <= 9999, TAU >= 0, TAU <= APOC, F_US > 0))
    BD = z3.Int('block_us'); p.assume(BD > 0)          # 86400 s * blockdays, in whole microseconds
    blockdays = Num(z3.ToReal(BD) / (86400 * US))
    flh = Num(z3.ToReal(F_US) / (3600 * US))
    b.update(p=p, W=z3.IntVal(0), req=z3.BoolVal(True), sets=[])
    p.inputs.update(sample=Num(TAU), recorded=SBool(SELF), file_length=Num(F_US), block=Num(BD), number=Num(N0))
    kw = {}
    t1u, t2u = z3.Int('t1'), z3.Int('t2')
    p.assume(z3.And(t1u >= 0, t2u >= 0, t2u < APOC, t1u < APOC))
    if w1 == 'time': kw['t1'] = Tm(t1u)
    if w1 == 'number': kw['t1'] = Num(z3.ToReal(t1u) / US)
    if w2 == 'time': kw['t2'] = Tm(t2u)
    b['lo'] = t1u if w1 != 'default' else None
    b['hi'] = t2u if w2 != 'default' else z3.IntVal(APOC)
    if nm == 'given':
        b['req'] = z3.Bool('requested'); kw['nums'] = Req(p, b['req']); p.assume(kw['nums'].vc_len().t > 0)
    ext = z3.Bool('serial_in_the_file')
    def glob(pat):
        pre = 'ESC:RAW/FILE[0-9][0-9][0-9][0-9].'
        if not isinstance(pat, str) or not pat.startswith(pre): raise E.Unsupported('glob pattern')
        e = pat[len(pre):]
        if e in ('???', '*'): return FileList(p, SELF)
        return FileList(p, z3.And(SELF, {'077': z3.Not(ext), 'TXT': ext}.get(e, z3.BoolVal(False))))
    def sn(f):
        if not isinstance(f, FileItem): raise E.Unsupported('serial number of something else')
        if f.mine: b['verdict'] = True; return '077'
        c = p.choose(3)
        b['verdict'] = c == 0
        if c == 0: return '077'
        if c == 1: return '0770'
        raise mark(exceptions()['CorruptRawFile']('unreadable'))
    paths = {'metadata': ('NEWmetadata',), 'gps': ('NEWgps',)}
    class Tab(Any):
        def __init__(self, kind):
            Any.__init__(self, kind, {'to_csv': self.save})
            self.__dict__['_kind'] = kind
        def save(self, path, *a, **k):
            first = b.setdefault('saved_' + self._kind, 0) == 0
            p.prove(f'{self._kind} goes to its own new file', z3.BoolVal(path == 'NEW' + self._kind))
        def __getitem__(self, k): return self if isinstance(k, Any) else Any(self._kind)
    def result(S): return Res(data=S, header=Any('header'), metadata=Tab('metadata'), gps=Tab('gps'), problems=Any('problems'))
    b['result'] = result
    h['new'] = lambda: Res(data=Stream.empty(p), metadata=Any('m'), gps=Any('g'))
    def read(path='raw', nums=None, SN='', units='Pa', network='', station='', location='', **k):
        if not isinstance(nums, Nums): raise E.Unsupported('numbers asked for')
        p.prove('reads the given folder and instrument', z3.BoolVal(path == 'RAW' and SN == '077'))
        p.prove('codes are passed on', z3.BoolVal((network, station, location) == ('NE', 'STA', 'LO')))
        p.prove('values are read as recorded', z3.BoolVal(not k))
        if p.choose(2):
            p.assume(z3.Not(z3.And(SELF, nums.has)))
            raise mark(exceptions()[('MissingRawFiles', 'CorruptRawFile')[p.choose(2)]]('no data'))
        S = Stream.fresh(p, 'read')
        # samples between the recorded ones may have been filled in (C06)
        p.s.fact(z3.And(z3.Implies(SELF, S.has == nums.has), S.f >= 0, S.l <= APOC))
        # numbers are in time order: the files asked for are those of numbers lo..hi; see `order`
        b['order'](p, nums, S)
        return result(S)
    def order(p, nums, S):
        m = z3.simplify(nums.has)
        lo_, hi_, tops = bounds(nums.has)
        if lo_ is None or hi_ is None: raise E.Unsupported('block of numbers')
        if 'LR' in b:                    # either a smaller number is read again, or these data are later
            w = z3.Int(p.fresh('again'))
            p.s.fact(z3.Implies(S.e, z3.Or(z3.And(w < b['NR'], z3.substitute(lo_, (N0, w)), z3.substitute(hi_, (N0, w))), S.f > b['LR'])))
            b['LR'] = z3.simplify(z3.If(z3.And(S.e, S.l > b['LR']), S.l, b['LR']))
            t = tops[0]
            for x in tops[1:]: t = z3.If(x < t, x, t)
            b['NR'] = z3.If(t > b['NR'], t, b['NR'])
        p.s.fact(z3.Implies(z3.And(SELF, b['nums'].has, S.e), z3.And(z3.Implies(z3.Not(hi_), TAU > S.l), z3.Implies(z3.Not(lo_), TAU < S.f))))
    b['order'] = order
    def merge(st, *a, **k):
        if a or k: raise E.Unsupported('other gap lengths')
        parts_ = st.parts if isinstance(st, Sum) else [st]
        if not all(isinstance(x, Stream) for x in parts_): raise E.Unsupported('merging')
        out = Stream.fresh(p, 'merged', joined=True, clean=all(x.clean for x in parts_))
        has = z3.Or([x.has for x in parts_]); e = z3.Or([x.e for x in parts_])
        br = z3.Bool(p.fresh('bridged'))
        # only gaps that have not been considered before are bridged
        old = [z3.And(x.e, x.f <= TAU, TAU <= x.l) for x in parts_ if x.joined]
        p.s.fact(z3.And(out.e == e, out.has == z3.Or(has, z3.And(br, z3.Not(SELF), e, out.f < TAU, TAU < out.l, *[z3.Not(f) for f in old]))))
        for x in parts_: p.s.fact(z3.Implies(x.e, z3.And(out.f <= x.f, x.l <= out.l)))
        p.s.fact(z3.Implies(e, z3.And(z3.Or([z3.And(x.e, out.f == x.f) for x in parts_]), z3.Or([z3.And(x.e, out.l == x.l) for x in parts_]))))
        return out
    def mkname(d, s, kind):
        p.prove(f'{kind} folder and instrument', z3.BoolVal(s == '077' and kind in ('gps', 'metadata') and d == {'gps': 'GPS', 'metadata': 'META'}[kind]))
        return 'NEW' + str(kind)
    def write(P, H, fl, bitweight, convertedpath, hour_end=None, output_format='mseed', written=None, **k):
        if k or hour_end is not None: raise E.Unsupported('writing with other arguments')
        if not isinstance(P, Stream) or not isinstance(H, Tm): raise E.Unsupported('writing something else')
        p.prove('written to the given folder in the given format', z3.BoolVal(convertedpath == 'OUT' and output_format == 'FMT'))
        p.prove('files have the requested length', us_of(fl) == F_US)
        if b['sets'] or written is not None: p.prove('one set of names for the whole conversion', z3.BoolVal(isinstance(written, set) and all(x is written for x in b['sets'])))
        b['sets'].append(written)
        r = z3.Int(p.fresh('hour_end'))
        p.s.fact(z3.And(r > H.us, r <= H.us + F_US))
        b['W'] = z3.simplify(b['W'] + z3.If(z3.And(P.has, H.us <= TAU, TAU < r), 1, 0))
        return Tm(r)
    def isdir(d):
        if d == 'RAW': return True
        return {'default': True, 'time': False, 'number': d == 'OUT'}[w1]
    h.update(glob=glob, sn=sn, read=read, merge=merge, mkname=mkname, write=write, isdir=isdir, makedirs=lambda *a, **k: None, exists=lambda *a: (_ for _ in ()).throw(E.Unsupported('exists')))
    b['nums'] = None
    # the start of the period by default: the first whole second of the data
    if w1 == 'default':
        lo = z3.Int('first_second'); b['lo'] = lo
        b['ceil'] = lo
        m0 = h['merge']
        def merge1(st, *a, **k):
            out = m0(st, *a, **k)
            if not b.get('first'):
                b['first'] = True
                p.assume(z3.Implies(out.e, z3.And(lo % US == 0, lo >= out.f, lo < out.f + US)))
            return out
        h['merge'] = merge1
    try: mod['convert']('RAW', 'OUT', 'META', gpspath='GPS', SN='077', bitweight=Num(z3.Real('bitweight')), blockdays=blockdays, file_length_hour=flh, station='STA', network='NE', location='LO', output_format='FMT', **kw)
    except E.Signal: raise
    except (SystemExit, Exception) as e:
        if not getattr(e, '_vc_ok', False): raise
        if type(e).__name__ in ('MissingRawFiles', 'CorruptRawFile'):
            p.prove('refused only without readable data', z3.Not(z3.And(SELF, b['req']))); return
        p.prove(f'no failure ({type(e).__name__}: {e})', z3.BoolVal(False)); return
    p.cover('converted')
    W = b['W']
    win = z3.And(b['lo'] <= TAU, TAU <= b['hi'])
    p.prove('every recorded sample of the period is written exactly once', z3.Implies(z3.And(SELF, b['req'], win), W == 1))
    p.prove('no sample outside the period is written', z3.Implies(z3.Not(win), W == 0))
    p.prove('no sample is written twice', W <= 1)
    p.prove('files not asked for are not converted', z3.Implies(z3.And(SELF, z3.Not(b['req'])), W == 0))
def bounds(has):
    """lower and upper conditions on N0 of a block (conjuncts N0 >= a, N0 < b), and the upper bounds themselves"""
    lo, hi, tops = [], [], []
    isn = lambda t: z3.eq(t, N0) or z3.is_app_of(t, z3.Z3_OP_TO_REAL) and z3.eq(t.arg(0), N0)
    GE, GT, LE, LT = z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_LE, z3.Z3_OP_LT
    def go(f):
        if z3.is_and(f):
            for c in f.children(): go(c)
            return
        k = f.decl().kind()
        if k not in (GE, GT, LE, LT): return
        x, y = f.arg(0), f.arg(1)
        if isn(y) and not isn(x): x, y, k = y, x, {GE: LE, GT: LT, LE: GE, LT: GT}[k]
        if not isn(x): return
        if k in (GE, GT): lo.append(f)
        else: hi.append(f); tops.append(z3.ToReal(y) if z3.is_int(y) else y); tops[-1] = tops[-1] + 1 if k == LE else tops[-1]
    go(has)
    return (z3.And(lo) if lo else None), (z3.And(hi) if hi else None), tops

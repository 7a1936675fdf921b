"""C11 - station coordinates summarise the right GPS fixes."""
import z3
from vc import engine as E
from vc.engine import Num, SBool, cur, num, tobool
from vc.arrays import Arr, Arr2, SList
from vc.npmodel import ModelNS, STR, LIST
from vc.loader import LoopContract
from vc.libmodels import UTC
from vc.pdmodel import SDF
from vc.idlist import IdList, Item, X, S
from vc.paths import *

EXPLAIN = ('_remove_outliers (one step, its recursion under its own contract), read_gps, summarize_gps (file selection, per-instrument rows, time window, station table) and summarize_gps_terminal proved for any number of '
           'folders, files, instruments and fixes; the reading of GPS text files and _get_station_info by the oracle')
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
COLS = ['SN', 'lat', 'lon', 'lat_SE', 'lon_SE', 'starttime', 'endtime', 'num_samples']

def prove(pr):
    pr.assume_note('glob, sorted, os.path.isdir and file names as documented; pandas.read_csv with a converter for t gives the rows of the file',
                   'coordinates and times are real numbers; median, mean and standard deviation are functions of the column they are given',
                   'a file name begins with its serial number followed by "gps"')
    box, hold = {}, {}
    lib = lambda: {'glob': ModelNS('glob', glob=lambda t: hold['glob'](t)), 'os': OS(hold), 'pathlib': ModelNS('pathlib', Path=lambda x: PathObj(x))}
    ro = pr.module('gem_network', loops={'_remove_outliers#while0': Rounds(box)})
    pr.run('_remove_outliers', lambda p: outliers(p, ro, box), ['gemlog.gem_network._remove_outliers'], covers=['clean', 'discarded'])
    pdm = ModelNS('pandas', DataFrame=Frames(hold), concat=lambda *a, **k: hold['concat'](*a, **k), read_csv=lambda *a, **k: hold['csv'](*a, **k))
    rg = pr.module('gem_network', extra={**lib(), 'pandas': pdm}, loops={'read_gps#for0': Dirs(box)})
    for how in ('pattern', 'list'):
        pr.run(f'read_gps[{how}]', lambda p, how=how: read(p, rg, box, hold, how), ['gemlog.gem_network.read_gps'], covers=['latest of a folder', 'file itself', 'nothing here'])
    st = {'_remove_outliers': lambda *a, **k: hold['clean'](*a, **k), 'read_gps': lambda *a, **k: hold['read'](*a, **k), '_get_station_info': lambda *a, **k: hold['info'](*a, **k), '_unique': lambda l: uniq(l)}
    sg = pr.module('gem_network', extra={**lib(), 'pandas': pdm, 'obspy': ModelNS('obspy', UTCDateTime=lambda x: hold['time'](x))}, stubs=st,
                   loops={'*#for*': Loops(box)})
    for how in ('pattern', 'list'):
        for inc in (False, True):
            for exc in (False, True):
                for info in ((False, True) if how == 'list' or not (inc or exc) else (False,)):
                    pr.run(f'summarize_gps[{how}{", included" if inc else ""}{", excluded" if exc else ""}{", station table" if info else ""}]', lambda p, a=(how, inc, exc, info): summary(p, sg, box, hold, *a),
                           ['gemlog.gem_network.summarize_gps'], covers=['row', 'no fix left'] + (['listed', 'unlisted'] if info else []))
    tm = pr.module('gem_network', extra={'argparse': ModelNS('argparse', ArgumentParser=lambda **k: Parser(hold), RawDescriptionHelpFormatter=None), 'gemlog': ModelNS('gemlog', get_gem_response=lambda **k: 'RESPONSE', make_gem_inventory=lambda *a, **k: hold['inventory'](*a, **k))},
                   stubs={'summarize_gps': lambda *a, **k: hold['summary'](*a, **k)})
    for inc in (False, True):
        for exc in (False, True):
            for info in (False, True):
                pr.run(f'summarize_gps_terminal[{"i" if inc else ""}{"x" if exc else ""}{"s" if info else ""}]', lambda p, a=(inc, exc, info): terminal(p, tm, hold, *a), ['gemlog.gem_network.summarize_gps_terminal'], covers=['done'])

# ------------------------------------------------------------------ outliers
def fixes(p, name):
    n = z3.Int(p.fresh('n_' + name)); p.assume(n >= 0)
    return SDF({c: Arr.fresh(f'{name}_{c}', n) for c in ('lat', 'lon', 't')}, n)
class Round:
    """one look at a table of fixes: which of them are outliers"""
    def __init__(self, p, x, N):
        self.p, self.x, self.n, self.N = p, x, x.n, N
        self.g = {c: a._frozen() for c, a in x.cols.items()}
        self.med = {c: num(x.cols[c].median()) for c in ('lat', 'lon')}
        self.sd = {c: num(x.cols[c].std(ddof=0)) for c in ('lat', 'lon')}
    def inside(self, i, edge=True):
        """within the limits; a fix exactly at a limit (`edge`) may be kept or discarded"""
        d = lambda c: num(self.g[c](i)).t - self.med[c].t
        le = lambda a, b: a <= b if edge else a < b
        return z3.And([le(z3.If(d(c) >= 0, d(c), -d(c)), self.N.t * (E.zreal(1e-5) + self.sd[c].t)) for c in ('lat', 'lon')])
    def some(self):
        p = self.p; i = z3.Int(p.fresh('i')); p.assume(z3.And(i >= 0, i < self.n))
        p.index(i, self.n)
        for s_ in p.__dict__.get('sels', []): s_.idx(i)          # a selection of as many as there are keeps each
        return i
    def returned(self, r):
        p, i = self.p, self.some()
        p.cover('clean')
        p.prove('the fixes are returned unchanged', z3.BoolVal(r is self.x and list(r.cols) == ['lat', 'lon', 't']))
        p.prove('no fix left is an outlier', self.inside(i))
    def kept(self, y):
        p, x, n, i = self.p, self.x, self.n, self.some()
        p.cover('discarded')
        if not isinstance(y, SDF): raise E.Unsupported('table of remaining fixes')
        m = z3.IntVal(y.n) if isinstance(y.n, int) else y.n
        p.prove('no column is lost', z3.BoolVal(list(y.cols) == list(x.cols)))
        p.prove('at least one fix was discarded', m < n)
        j = y.ix.locate(i, x.ix)
        p.prove('a fix that is no outlier is kept', z3.Implies(self.inside(i, False), z3.And(j >= 0, j < m, y.ix.origin(j, x.ix) == i)))
        q = z3.Int(p.fresh('q')); p.assume(z3.And(q >= 0, q < m))
        if p.check() == z3.unsat: return
        o = y.ix.origin(q, x.ix)
        p.prove('a fix kept is no outlier', self.inside(o))
        for c in y.cols: p.prove('fixes kept are unchanged', E.same(y.cols[c].at(q), self.g[c](o)))
        q2 = z3.Int(p.fresh('q2')); p.assume(z3.And(q2 > q, q2 < m))
        p.prove('order of fixes kept', o < y.ix.origin(q2, x.ix))
class Rounds(LoopContract):
    """one round of discarding (where it is a loop): the table is any table of fixes, the criterion stays"""
    def __init__(self, b): self.b = b
    def owns(self, v): return v == self.v
    def entry(self, L, env):
        m = [v for v in L.names if env.get(v) is self.b['x']]
        if len(m) != 1: raise E.Unsupported('table of fixes')
        self.v = m[0]
    def havoc(self, L, v, val):
        if v != self.v: return NotImplemented
        p = self.b['p']
        x = fixes(p, 'left'); self.b['round'] = Round(p, x, self.b['round'].N); return x
    def end(self, L, env, k1): self.b['round'].kept(env[self.v])
def outliers(p, mod, b):
    b.clear()
    x = fixes(p, 'fix'); N = E.fresh_real('N'); p.assume(N.t > 0)
    p.inputs['fixes'] = x
    b.update(p=p, x=x, round=Round(p, x, N))
    calls = []
    def rec(*a, **k):
        calls.append((a, k)); return 'recursive result'
    f = mod['_remove_outliers']
    mod.ns['_remove_outliers'] = rec
    try: r = f(x, N)
    finally: mod.ns['_remove_outliers'] = f
    if not calls: b['round'].returned(r); return
    a, k = calls[0]
    y = a[0] if a else k.get('x')
    nn = a[1] if len(a) > 1 else k.get('N', 5)
    p.prove('the rest is searched again', z3.BoolVal(len(calls) == 1 and r == 'recursive result'))
    p.prove('with the same criterion', num(nn).t == N.t)
    b['round'].kept(y)

# ------------------------------------------------------------------ reading
class Frames:
    """pandas.DataFrame"""
    def __init__(self, hold): self.h = hold
    def __call__(self, *a, **k): return self.h['frame'](*a, **k)
    def vc_isinstance(self, x): return False
    def __getattr__(self, k): E.noattr(k, 'DataFrame')
class Csv:
    def __init__(self, path): self.path = path
class GT:
    """the table so far: base then appended files"""
    is_sym = True
    def __init__(self, base=None, added=()): self.base, self.added, self._v = base, tuple(added), 0
    @property
    def _ver(self): return self._v
    def _havoc_new(self, name): return GT()
    def __getattr__(self, k): E.noattr(k, 'the GPS table')
DIRS = z3.Function('folder', I, S)
def read(p, mod, b, hold, how):
    b.clear()
    n = z3.Int('n_folders'); p.assume(n >= 0)
    sn = Item(X, text='SN')
    b.update(p=p, n=n, sn=sn)
    dirs = PathSeq(n, lambda k: DIRS(k))
    def glob(t):
        if t == 'PATTERN': return Globbed(p, dirs)
        d, rest = split_glob(t)
        if not (len(rest) == 3 and rest[0] == '/' and rest[2] == 'gps*txt' and isinstance(rest[1], Item)): p.prove('GPS files of the serial number are listed', z3.BoolVal(False)); raise E.Unsupported('glob')
        p.prove('GPS files of the serial number, and no other, are listed', rest[1].t == X)
        return FilesOf(p, d)
    hold['glob'] = glob
    def csv(*a, **k):
        if len(a) != 1 or set(k) != {'converters'} or not isinstance(k['converters'], dict) or set(k['converters']) != {'t'}: raise E.Unsupported('read_csv options')
        return Csv(a[0])
    hold['csv'] = csv
    hold['frame'] = lambda *a, columns=None, **k: GT('empty') if not a and not k else (_ for _ in ()).throw(E.Unsupported('DataFrame'))
    def concat(l, ignore_index=False, **k):
        if k or not isinstance(l, list): raise E.Unsupported('concat')
        if not (isinstance(l[0], GT) and all(isinstance(x, Csv) for x in l[1:])): p.prove('fixes are appended in order', z3.BoolVal(False)); raise E.Unsupported('concat')
        return GT(l[0].base if l[0].base == 'empty' else l[0], [*l[0].added, *[x.path for x in l[1:]]]) if l[0].base == 'empty' else GT(l[0] if not l[0].added else l[0].base, [*l[0].added, *[x.path for x in l[1:]]])
    hold['concat'] = concat
    r = mod['read_gps']('PATTERN' if how == 'pattern' else dirs.as_list(), sn)
    p.prove('the table of all folders is returned', z3.BoolVal(isinstance(r, GT) and r is b.get('final')))
def source(b, d):
    """(has, file): the file the folder or file d contributes"""
    fo = NFILES(d) > 0
    return z3.If(ISDIR(d), fo, SNOF(d) == X), z3.If(ISDIR(d), LATEST(d), d)
class Dirs(LoopContract):
    def __init__(self, b): self.b = b
    def owns(self, v): return v == 'gpsTable'
    def entry(self, L, env):
        b, p = self.b, self.b['p']
        it = L.items
        p.prove('every folder is visited once, in order', z3.BoolVal(isinstance(it, PathSeq) and it.sorted is not False))
        t = env['gpsTable']
        p.prove('no fixes at first', z3.BoolVal(isinstance(t, GT) and t.base == 'empty' and not t.added))
    def havoc(self, L, v, val): return GT('so far') if v == 'gpsTable' else NotImplemented
    def assume(self, L, env, k): self.b['old'] = env['gpsTable']
    def begin(self, L, env, x): self.b['d'] = x
    def end(self, L, env, k1):
        b, p = self.b, self.b['p']
        t, old = env['gpsTable'], b['old']
        if not isinstance(t, GT): raise E.Unsupported('GPS table')
        has, f = source(b, b['d'].t)
        new = t is not old
        if new and not (t.base is old and len(t.added) == 1): p.prove('a folder appends at most one file after those before', z3.BoolVal(False)); return
        if not new:
            p.cover('nothing here'); p.prove('a folder or file of the instrument is not left out', z3.Not(has)); return
        if not isinstance(t.added[0], Item): raise E.Unsupported('path')
        p.cover('latest of a folder' if p.check(z3.Not(ISDIR(b['d'].t))) == z3.unsat else 'file itself')
        p.prove('only GPS files of the instrument are read', has)
        p.prove('the latest file of a folder, or the file itself, is read', t.added[0].t == f)
    def exit(self, L, env): self.b['final'] = env['gpsTable']

# ------------------------------------------------------------------ summary
def uniq(l):
    if not isinstance(l, IdList): raise E.Unsupported('unique')
    r = IdList.fresh('unique'); r.unique = True
    cur().assume(r.count == z3.If(l.count > 0, 1, 0)); return r
INC, EXC, HAS = z3.Function('included', S, B), z3.Function('excluded', S, B), z3.Function('has_fix_left', S, B)
CNT = z3.Function('files_of_X_in_first', I, I)
INF = z3.Function('files_of_X_in', S, I)          # number of GPS files of instrument X in a folder
class Chosen:
    """the caller's list of serial numbers"""
    def __init__(self, f): self.f = f
    def __contains__(self, x):
        if not isinstance(x, Item): raise E.Unsupported('membership')
        return cur().decide(self.f(x.t))
    def __getattr__(self, k): E.noattr(k, 'a list of serial numbers')
class Rec(SDF):
    """a table whose derived tables are noted"""
    def rows(self, key):
        r = SDF.rows(self, key)
        self.__dict__['derived'].append(r)
        return r
    def __setattr__(self, k, v):
        if k == 'derived': self.__dict__[k] = v
        else: SDF.__setattr__(self, k, v)
class OneRow:
    def __init__(self, vals): self.vals = vals
class Coords:
    """rows so far: `count` of instrument X, rows appended since"""
    is_sym = True
    def __init__(self, count, base=None, added=()): self.count, self.base, self.added, self._v, self.set = count, base, tuple(added), 0, {}
    @property
    def _ver(self): return self._v
    def _havoc_new(self, name): return Coords(z3.Int(cur().fresh('rows_of_X')))
    @property
    def SN(self): return RowSNs(self)
    def keys(self): return COLS + list(self.set)
    def __getitem__(self, k):
        if k == 'SN': return self.SN
        raise E.Unsupported('coords column')
    def __setitem__(self, k, v): self.set[k] = v; self._v += 1
    def to_csv(self, *a, **k): self.csv = (a, k, dict(self.set))
    def __getattr__(self, k): E.noattr(k, 'the summary')
ROWSN = z3.Function('row_serial', I, S)
class RowSNs:
    """the serial numbers of the rows of the summary"""
    is_sym = True
    def __init__(self, c): self.c = c
    def symlen(self): return z3.Int('n_rows')
    def vc_len(self): cur().s.fact(z3.Int("n_rows") >= 0); return Num(z3.Int("n_rows"))
    def symget(self, k): return Item(ROWSN(num(k).t))
    def vc_comp(self, kind, f, cond):
        if cond is not None: raise E.Unsupported('comprehension')
        return ('each row', f(Item(z3.Const(cur().fresh('sn'), S))))
    def __iter__(self): raise E.Unsupported('iteration over rows outside a loop')

def summary(p, mod, b, hold, how, inc, exc, info):
    b.clear()
    t1, t2 = z3.Reals('t1 t2')
    b.update(p=p, t1=t1, t2=t2, how=how, inc=inc, exc=exc)
    hold['time'] = lambda x: UTC({'T1': t1, 'T2': t2}[x]) if x in ('T1', 'T2') else (_ for _ in ()).throw(E.Unsupported('time'))
    n = z3.Int('n_folders'); p.assume(n >= 0)
    dirs = PathSeq(n, lambda k: DIRS(k)); b['dirs'] = dirs
    def glob(t):
        if t == 'PATTERN': return Globbed(p, dirs)
        d, rest = split_glob(t)
        p.prove('all GPS files of a folder are listed', z3.BoolVal(''.join(x if isinstance(x, str) else '?' for x in rest) == '/*gps*txt'))
        p.s.fact(INF(d) >= 0)
        return IdList(INF(d), key=SNOF)
    hold['glob'] = glob
    pat = 'PATTERN' if how == 'pattern' else dirs.as_list()
    tabs = []
    def read(*a, **k):
        if len(a) != 2 or k or not isinstance(a[1], Item): raise E.Unsupported('read_gps')
        p.prove('fixes are read from the same folders', z3.BoolVal(a[0] is pat))
        return ('table', a[1])
    hold['read'] = read
    def clean(x, N=5):
        if not (isinstance(x, tuple) and x[0] == 'table'): raise E.Unsupported('_remove_outliers')
        p.prove('outliers are 5 standard deviations away', num(N).t == 5)
        m = z3.Int(p.fresh('n_left')); p.assume(m >= 0)
        c = {q: Arr.fresh(f'{q}_left', m) for q in ('lat', 'lon')}
        f = z3.Function(p.fresh('t_left'), I, R)
        c['t'] = Arr(m, get=lambda i: UTC(f(i)))
        t = Rec(c, m); t.derived = []
        tabs.append((x[1], t)); return t
    hold['clean'] = clean; b['tabs'] = tabs
    def frame(data=None, columns=None, **k):
        if k: raise E.Unsupported('DataFrame')
        if data is None:
            if columns != COLS: raise E.Unsupported('columns')
            return Coords(z3.IntVal(0), 'empty')
        if isinstance(data, RowList):
            if columns != COLS: raise E.Unsupported('columns')
            return Coords(data.count, data)
        if isinstance(data, list) and len(data) == 1 and columns is not None and len(data[0]) == len(columns): return OneRow(dict(zip(columns, data[0])))
        raise E.Unsupported('DataFrame')
    hold['frame'] = frame
    def concat(l, ignore_index=False, **k):
        if k or not isinstance(l, list) or len(l) != 2: raise E.Unsupported('concat')
        if not (isinstance(l[0], Coords) and isinstance(l[1], OneRow)): p.prove('rows are appended in order', z3.BoolVal(False)); raise E.Unsupported('concat')
        p.prove('rows are numbered afresh', z3.BoolVal(ignore_index is True))
        s = l[1].vals.get('SN')
        if not isinstance(s, Item): raise E.Unsupported('serial number of a row')
        return Coords(l[0].count + z3.If(s.t == X, 1, 0), l[0].base if l[0].added else l[0], [*l[0].added, l[1]])
    hold['concat'] = concat
    tab = None
    if info:
        m = z3.Int('n_listed'); p.assume(m >= 0)
        fs = {c: z3.Function('listed_' + c, I, S) for c in ('SN', 'network', 'station', 'location')}
        tab = SDF({**{c: Arr(m, get=lambda i, f=f: Item(f(i))) for c, f in fs.items()}, 'elevation': Arr.fresh('listed_elevation', m)}, m)
        b['info'] = (m, fs, tab)
    hold['info'] = lambda x: tab if x == 'INFO' else (_ for _ in ()).throw(E.Unsupported('station table'))
    r = mod['summarize_gps'](pat, station_info='INFO' if info else None, output_file='OUT', t1='T1', t2='T2', include_SN=Chosen(INC) if inc else None, exclude_SN=Chosen(EXC) if exc else None)
    if not isinstance(r, Coords): raise E.Unsupported('result')
    p.prove('all instruments are in the summary', z3.BoolVal(r is b.get('coords') or (r.base is b.get('coords') and not r.added)))
    sel = z3.And(CNT(n) > 0, INC(X) if inc else z3.BoolVal(True), z3.Not(EXC(X)) if exc else z3.BoolVal(True), HAS(X))
    p.prove('one row per selected instrument with a fix left', r.count == z3.If(sel, 1, 0))
    if info:
        for c in ('network', 'station', 'location', 'elevation'): p.prove('codes and elevations are in the summary', z3.BoolVal(r.set.get(c) is not None and r.set.get(c) is b['lists'].get(c)))
    else:
        e = r.set.get('elevation')
        if isinstance(e, SList):
            i = z3.Int(p.fresh('row')); p.prove('unknown elevation is -9999', z3.And(E.num(e.length()).t == z3.Int('n_rows'), tobool(e.at(i) == -9999)))
        else: p.prove('unknown elevation is -9999', z3.BoolVal(isinstance(e, tuple) and e[0] == 'each row' and e[1] == -9999))
    p.prove('the summary is saved where requested', z3.BoolVal(getattr(r, 'csv', None) == (('OUT',), {'index': False}, r.set) if 'csv' in r.__dict__ else False))
class RowList:
    """rows so far, before they become a table"""
    is_sym = True
    def __init__(self, count): self.count, self.base, self.added, self._v = count, self, [], 0
    @property
    def _ver(self): return self._v
    def _havoc_new(self, name): return RowList(z3.Int(cur().fresh('rows_of_X')))
    def append(self, v):
        if isinstance(v, (list, tuple)) and len(v) == len(COLS): v = OneRow(dict(zip(COLS, v)))
        elif isinstance(v, dict): v = OneRow(dict(v))
        else: raise E.Unsupported('row')
        s = v.vals.get('SN')
        if not isinstance(s, Item): raise E.Unsupported('serial number of a row')
        self.count = self.count + z3.If(s.t == X, 1, 0); self.added.append(v); self._v += 1
    def __iter__(self): raise E.Unsupported('iteration over rows outside a loop')
    def __getattr__(self, k): E.noattr(k, 'the rows')
class Loops(LoopContract):
    """a loop of summarize_gps or of a function it calls, recognised by what it goes through"""
    def __init__(self, b): self.b = b
    def pick(self, items, env):
        it = items.parts[-1] if type(items).__name__ == 'SymZip' else items
        if isinstance(it, PathSeq): return FileList(self.b)
        if isinstance(it, IdList): return Serials(self.b) if it.key is SNOF else Rows(self.b)
        if isinstance(it, RowSNs): return Stations(self.b)
def built(L, env, test=lambda v: isinstance(v, list) and not v):
    """the name of what the loop builds: empty on entry"""
    c = [v for v in L.names if v not in L.target and v in env and test(env[v])]
    if len(c) != 1: raise E.Unsupported('what the loop builds')
    return c[0]
class FileList(LoopContract):
    """gpsFileList holds the GPS files of the first k folders"""
    def __init__(self, b): self.b = b
    def owns(self, v): return v == self.acc
    def entry(self, L, env):
        b, p = self.b, self.b['p']
        self.acc = built(L, env)
        it = L.items
        p.prove('every folder is listed', z3.BoolVal(isinstance(it, PathSeq) and it.same(b['dirs'])))
        p.s.fact(CNT(0) == 0)
    def havoc(self, L, v, val): return IdList(z3.Int(cur().fresh('files_of_X')), key=SNOF) if v == self.acc else NotImplemented
    def assume(self, L, env, k):
        b = self.b; b['k'] = k.t
        b['p'].assume(env[self.acc].count == CNT(k.t)); b['p'].assume(CNT(k.t) >= 0)
    def begin(self, L, env, x): self.b['d'] = x.t
    def end(self, L, env, k1):
        b, p = self.b, self.b['p']; d = b['d']
        g = env[self.acc]
        if not isinstance(g, IdList): raise E.Unsupported('file list')
        own = INF(d) if b['how'] == 'pattern' else z3.If(ISDIR(d), INF(d), z3.If(SNOF(d) == X, 1, 0))
        p.s.fact(CNT(b['k'] + 1) == CNT(b['k']) + own, INF(d) >= 0)
        p.prove('a folder adds its GPS files, a file itself', g.count == CNT(k1.t))
class Serials(LoopContract):
    def __init__(self, b): self.b = b
    def owns(self, v): return v == self.acc
    def _src(self, L):
        if not isinstance(L.items, IdList) or L.items.key is not SNOF: raise E.Unsupported('loop over files')
        return L.items
    def entry(self, L, env):
        b, p = self.b, self.b['p']
        self.acc = built(L, env)
        p.prove('all files are looked at', self._src(L).count == CNT(b['dirs'].n))
        p.s.fact(self._src(L).sequence()[2](0) == 0)
    def havoc(self, L, v, val): return IdList.fresh('serials') if v == self.acc else NotImplemented
    def _ok(self):
        b = self.b
        return z3.And(INC(X) if b['inc'] else z3.BoolVal(True), z3.Not(EXC(X)) if b['exc'] else z3.BoolVal(True))
    def assume(self, L, env, k):
        pc = self._src(L).sequence()[2]
        self.b['p'].assume(z3.And(pc(k.t) >= 0, env[self.acc].count == z3.If(self._ok(), pc(k.t), z3.IntVal(0))))
    def end(self, L, env, k1):
        if not isinstance(env[self.acc], IdList): raise E.Unsupported('serial numbers')
        self.b['p'].prove('a file selects exactly its own serial number, if included and not excluded', env[self.acc].count == z3.If(self._ok(), self._src(L).sequence()[2](k1.t), z3.IntVal(0)))
class Rows(LoopContract):
    def __init__(self, b): self.b = b
    def owns(self, v): return v == self.acc
    def _src(self, L):
        it = L.items.parts[-1] if type(L.items).__name__ == 'SymZip' else L.items
        if not isinstance(it, IdList): raise E.Unsupported('loop over serial numbers')
        return it
    def entry(self, L, env):
        b, p = self.b, self.b['p']; s = self._src(L)
        p.prove('rows come in order of serial number, each once', z3.BoolVal(bool(s.sorted and s.unique)))
        self.acc = built(L, env, lambda v: isinstance(v, list) and not v or isinstance(v, Coords) and v.base == 'empty' and not v.added)
        self.kind = RowList if isinstance(env[self.acc], list) else Coords
        p.s.fact(s.sequence()[2](0) == 0)
    def havoc(self, L, v, val): return self.kind(z3.Int(cur().fresh('rows_of_X'))) if v == self.acc else NotImplemented
    def assume(self, L, env, k):
        b = self.b; b['old'] = env[self.acc]; n, el, pc = self._src(L).sequence()
        b['tabs'].clear(); b['sn'] = el(k.t)
        b['p'].assume(z3.And(pc(k.t) >= 0, env[self.acc].count == z3.If(HAS(X), pc(k.t), z3.IntVal(0))))
    def end(self, L, env, k1):
        b, p = self.b, self.b['p']; sn = b['sn']
        n, el, pc = self._src(L).sequence()
        c = env[self.acc]
        if len(b['tabs']) != 1 or not isinstance(c, (Coords, RowList)): raise E.Unsupported('fixes of an instrument')
        who, T = b['tabs'][0]
        p.prove('each row is made from its own instrument\'s fixes', who.t == sn)
        if len(T.derived) != 1: raise E.Unsupported('selection of fixes')
        F = T.derived[0]
        m, nt = z3.IntVal(F.n) if isinstance(F.n, int) else F.n, T.n
        # exactly the fixes within the window are left
        tt = T.cols['t']
        win = lambda i: z3.And(num(tt.at(i)).t >= b['t1'], num(tt.at(i)).t <= b['t2'])
        i = z3.Int(p.fresh('i')); p.assume(z3.Implies(nt > 0, z3.And(i >= 0, i < nt)))
        j = F.ix.locate(i, T.ix)
        p.prove('fixes within the time window are used', z3.Implies(z3.And(i >= 0, i < nt, win(i)), z3.And(j >= 0, j < m, F.ix.origin(j, T.ix) == i)))
        q = z3.Int(p.fresh('q')); o = F.ix.origin(q, T.ix)
        p.prove('no other fixes are used', z3.Implies(z3.And(q >= 0, q < m), z3.And(o >= 0, o < nt, win(o))))
        p.s.fact(HAS(sn) == (m > 0))
        p.prove('a row iff a fix is left', c.count == z3.If(HAS(X), pc(k1.t), z3.IntVal(0)))
        if c is b['old'] and not c.added: p.cover('no fix left'); p.prove('no row without a fix', m == 0); return
        p.prove('one row is appended', z3.BoolVal(c.base is b['old'] and len(c.added) == 1))
        if not (c.base is b['old'] and len(c.added) == 1): return
        p.cover('row'); v = c.added[0].vals
        p.prove('all quantities are in the row', z3.BoolVal(set(v) == set(COLS)))
        if set(v) != set(COLS): return
        rt = E.usqrt(Num(z3.ToReal(m)))
        col = F.cols
        sn_ok = isinstance(v['SN'], Item)
        p.prove('serial number of the row', v['SN'].t == sn if sn_ok else z3.BoolVal(False))
        eq = lambda a, w: E.real(num(a).t) == E.real(num(w).t)
        for q_ in ('lat', 'lon'):
            p.prove('mean ' + q_, eq(v[q_], col[q_].mean()))
            p.prove('standard error of ' + q_, eq(v[q_ + '_SE'], num(col[q_].std(ddof=0)) / rt))
        p.prove('first time', eq(v['starttime'], col['t'].min())); p.prove('last time', eq(v['endtime'], col['t'].max()))
        p.prove('number of fixes', eq(v['num_samples'], Num(m)))
    def exit(self, L, env): self.b['coords'] = env[self.acc]
class Stations(LoopContract):
    def __init__(self, b): self.b = b
    V = ('network', 'station', 'location', 'elevation')
    def owns(self, v): return v in self.V
    def entry(self, L, env):
        b, p = self.b, self.b['p']
        p.prove('every row is given codes', z3.BoolVal(isinstance(L.items, RowSNs) and L.items.c is b.get('coords') or (L.items.c.base is b.get('coords') and not L.items.c.added)))
        for v in self.V: p.prove('no codes at first', z3.BoolVal(env[v] == []))
    def havoc(self, L, v, val): return SList.abstract(v) if v in self.V else NotImplemented
    def assume(self, L, env, k): self.b['k'] = k.t; self.b['lists'] = {v: env[v] for v in self.V}
    def end(self, L, env, k1):
        b, p = self.b, self.b['p']; m, fs, tab = b['info']
        s = ROWSN(b['k'])
        for v in self.V:
            if env[v] is not b['lists'][v] or len(env[v].tail) != 1: p.prove('one entry per row', z3.BoolVal(False)); return
        got = {v: env[v].tail[0] for v in self.V}
        if not isinstance(got['network'], Item):
            p.cover('unlisted')
            i = z3.Int(p.fresh('i')); p.index(i, m)
            p.prove('blank codes only for an unlisted serial number', z3.Implies(z3.And(i >= 0, i < m), fs['SN'](i) != s))
            p.prove('blank codes and elevation -9999', z3.BoolVal(all(got[v] == '' for v in self.V[:3]) and got['elevation'] == -9999)); return
        p.cover('listed')
        w = z3.Int(p.fresh('w'))
        pick = [z3.And(fs['SN'](w) == s, w >= 0, w < m)]
        # the row all codes come from is the serial number's own
        mask = tab.cols['SN']
        src = b['p'].s
        r = None
        for v in self.V[:3]:
            g = got[v]
            if not (isinstance(g, Item) and g.t.num_args() == 1 and g.t.decl().eq(fs[v])): p.prove('codes come from the column of the same name', z3.BoolVal(False)); return
            a = g.t.arg(0); r = a if r is None else r
            p.prove('codes come from one row', a == r)
        p.prove('codes come from the row of the serial number', z3.And(r >= 0, r < m, fs['SN'](r) == s))
        p.prove('elevation comes from the same row', E.same(got['elevation'], tab.cols['elevation'].at(r)))

# ------------------------------------------------------------------ command line
class Opt:
    """an option text"""
    vc_type = STR
    def __init__(self, n): self.n = n
    def split(self, s, *a): return ('split', self.n, s) if not a else (_ for _ in ()).throw(E.Unsupported('split'))
    def __add__(self, s): return ('text', self.n, s)
    def __getattr__(self, k): E.noattr(k, 'an option')
class Parser:
    def __init__(self, h): self.h = h
    def add_argument(self, *a, **k): self.h['args'].append((a, k))
    def parse_args(self, x): return self.h['parsed'](x)
    def __getattr__(self, k): E.noattr(k, 'the argument parser')
class SumCol:
    """a column of the summary, row by row"""
    is_sym = True
    __hash__ = None
    def __init__(self, q): self.q = q
    def vc_comp(self, kind, f, cond):
        if cond is not None: raise E.Unsupported('comprehension')
        v = f(Row(self.q))
        return SumCol(v.q) if isinstance(v, Row) else Each(v)
    def symlen(self): return z3.Int('n_rows')
    def vc_len(self): cur().s.fact(z3.Int('n_rows') >= 0); return Num(z3.Int('n_rows'))
    def symget(self, k): return Row(self.q)
    def copy(self): return self
    values = property(lambda s: s)
    def to_list(self): return self
    tolist = to_list
    def __iter__(self): raise E.Unsupported('iteration over rows')
    def __getattr__(self, k): E.noattr(k, 'a column')
class Row:
    is_sym = True
    __hash__ = None
    def __init__(self, q): self.q = q
    def __getattr__(self, k): E.noattr(k, 'a value')
class Each:
    """the same value in every row"""
    def __init__(self, v): self.v = v
class SumTable:
    """what summarize_gps returns: one row per instrument, these columns"""
    is_sym = True
    __hash__ = None
    def __init__(self, cols): self.c = dict(cols); self._v = 0
    @property
    def _ver(self): return self._v
    def keys(self): return list(self.c)
    columns = property(keys)
    def copy(self, *a, **k): return SumTable(self.c)
    def assign(self, **k):
        t = SumTable(self.c)
        for q, v in k.items(): t[q] = v
        return t
    def rename(self, columns=None, **k):
        if columns is None or k: raise E.Unsupported('renaming')
        return SumTable({columns.get(q, q): v for q, v in self.c.items()})
    def __contains__(self, k): return k in self.c
    def __getitem__(self, k):
        if isinstance(k, list): return SumTable({q: self[q] for q in k})
        if k not in self.c: raise KeyError(k)
        return self.c[k]
    def __setitem__(self, k, v):
        self.c[k] = v if isinstance(v, (SumCol, Each)) else Each(v); self._v += 1
    def __getattr__(self, k):
        if not k.startswith('_') and k in self.c: return self.c[k]
        E.noattr(k, 'the summary')
def terminal(p, mod, hold, inc, exc, info):
    hold['args'] = []
    o = {k: Opt(k) for k in ('gps_folder', 'output_file', 'station_info_file', 't1', 't2')}
    o['include_SNs'] = Opt('include_SNs') if inc else None
    o['exclude_SNs'] = Opt('exclude_SNs') if exc else None
    if not info: o['station_info_file'] = None
    hold['parsed'] = lambda x: ModelNS('args', **o)
    log = []
    from vc.havoc import Any
    def summ(*a, **k):
        log.append((a, k)); return SumTable({q: SumCol(q) for q in COLS + ['elevation'] + (['network', 'station', 'location'] if info else [])})
    hold['summary'] = summ
    invs = []
    def inventory(*a, **k):
        v = dict(zip(('station_info', 'coords', 'response'), a)); v.update(k)
        invs.append({q: SumTable(t.c) if isinstance(t, SumTable) else t for q, t in v.items()}); return Any('inventory')
    hold['inventory'] = inventory
    mod['summarize_gps_terminal'](['x'])
    names = ('gps_dir_pattern', 'station_info', 'output_file', 't1', 't2', 'include_SN', 'exclude_SN')
    p.prove('one summary is made', z3.BoolVal(len(log) == 1))
    if len(log) != 1: return
    k = dict(zip(names, log[0][0])); k.update(log[0][1])
    p.prove('of the given folders, with the given station table', z3.BoolVal(k.get('gps_dir_pattern') is o['gps_folder'] and k.get('station_info') is o['station_info_file'] and k.get('output_file') == ('text', 'output_file', '.csv')))
    p.prove('within the given times', z3.BoolVal(k.get('t1') is o['t1'] and k.get('t2') is o['t2']))
    p.prove('of the serial numbers included', z3.BoolVal(k.get('include_SN') == (('split', 'include_SNs', ',') if inc else None)))
    p.prove('without the serial numbers excluded', z3.BoolVal(k.get('exclude_SN') == (('split', 'exclude_SNs', ',') if exc else None)))
    p.prove('one inventory is made', z3.BoolVal(len(invs) == 1))
    if len(invs) != 1: return
    T, C = invs[0].get('station_info'), invs[0].get('coords')
    if not (isinstance(T, SumTable) and isinstance(C, SumTable)): raise E.Unsupported('tables of the inventory')
    is_ = lambda t, q, v: q in t.c and (isinstance(t.c[q], SumCol) and t.c[q].q == v.q if isinstance(v, SumCol) else isinstance(t.c[q], Each) and t.c[q].v == v)
    codes = {q: SumCol(q) if info else '' for q in ('network', 'location')}; codes['station'] = SumCol('station' if info else 'SN')
    low = {}
    for q, v in T.c.items(): low.setdefault(q.lower(), []).append(v)
    p.prove('the inventory lists every instrument of the summary', z3.BoolVal(bool(low.get('sn')) and all(isinstance(v, SumCol) and v.q == 'SN' for v in low['sn'])))
    for q, v in codes.items(): p.prove(f"the inventory lists each instrument under its row's {q} code", z3.BoolVal(is_(T, q, v)))
    if all(q in C.c for q in codes):
        for q, v in codes.items(): p.prove(f"coordinates are found by the row's {q} code", z3.BoolVal(is_(C, q, v)))
    else: p.prove('coordinates are found by serial number', z3.BoolVal(is_(C, 'SN', SumCol('SN'))))
    for q in ('lat', 'lon', 'elevation'): p.prove(f"each instrument has its row's {q}", z3.BoolVal(is_(C, q, SumCol(q))))
    for q in ('starttime', 'endtime'): p.prove(f"each instrument has its row's {q}", z3.BoolVal(q not in C.c or is_(C, q, SumCol(q))))
    p.cover('done')

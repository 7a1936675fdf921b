"""C10 - only the requested instrument and files are read."""
import z3, ast, os
from vc import engine as E
from vc.engine import Num, SBool, cur, num, tobool, mark
from vc.arrays import Arr, SList
from vc.npmodel import ModelNS, NpModel, LIST
from vc.loader import LoopContract
from vc.libmodels import exceptions, REPO
from vc.pdmodel import SDF
from vc.idlist import IdList, Item, X, S
from vc.cells import Cell, INTOF
from vc.paths import Path, split_glob
from vc.havoc import Any
from props import serialtab

EXPLAIN = ('_find_nonmissing_files, read_gem (its file list), gemconvert.find_all_SNs, main (every combination of options that bears on the selection) and convert_single_SN proved for folders with any number of files, any '
           'serial numbers, requests and station tables; which numbers convert asks for is decided with C07 and by the oracle')
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
NUM, SIZE = z3.Function('file_number', I, I), z3.Function('file_size', I, I)
EXT, REC = z3.Function('file_extension', I, S), z3.Function('recorded_serial', I, S)
BAD = z3.Function('no_recorded_serial', I, B)
REQ = z3.Function('requested_number', I, B)
TXT, SNV, ESC = z3.Const('TXT', S), z3.Const('requested_serial', S), z3.Function('glob_escape', S, S)
F0 = z3.Int('a_file')                   # an arbitrary raw file of the folder, by its place in the sorted list

def prove(pr):
    pr.assume_note('glob, glob.escape, list.sort, os.listdir, os.path.getsize and re.fullmatch as documented; file names sort by number, then extension',
                   'pandas.read_csv gives the rows of the first lines after the header, or raises',
                   'ProcessPoolExecutor.map calls the function once per element, whatever other calls do; getopt (the real one is run)',
                   'numpy.unique gives the distinct items in order; station tables hold decimal serial numbers; a requested serial number is not the text TXT')
    box, hold = {}, {}
    gl = ModelNS('glob', glob=lambda t: hold['glob'](t), escape=lambda d: Path(ESC(d.t)) if isinstance(d, Path) else (_ for _ in ()).throw(E.Unsupported('glob.escape')))
    osm = ModelNS('os', path=ModelNS('os.path', join=E.pathjoin, getsize=lambda f: Num(SIZE(f.t)) if isinstance(f, File) else (_ for _ in ()).throw(E.Unsupported('getsize'))))
    fm = pr.module('core', extra={'glob': gl, 'os': osm}, stubs={'_read_SN': lambda f: recorded(f)},
                   loops={'_find_nonmissing_files#for0': Serials(box), '_find_nonmissing_files#for1': Chosen(box), '_find_nonmissing_files#for2': NonEmpty(box)})
    pr.run('_find_nonmissing_files', lambda p: find(p, fm, hold, box), ['gemlog.core._find_nonmissing_files'], covers=['some', 'none'])
    rg = pr.module('core', stubs={'_find_nonmissing_files': lambda *a, **k: hold['find'](*a, **k), '_read_several': lambda *a, **k: hold['several'](*a, **k), '_read_format_version': lambda f: hold['version'](f), '_read_config': lambda f: hold['config'](f)})
    for scalar in (False, True):
        pr.run(f'read_gem[{"one number" if scalar else "numbers"}]', lambda p, s=scalar: reading(p, rg, hold, s), ['gemlog.core.read_gem'], covers=['read', 'nothing to read'])
    rs = pr.module('core', extra={'pandas': ModelNS('pandas', read_csv=lambda *a, **k: hold['csv'](*a, **k))})
    pr.run('_read_SN', lambda p: serialtab.read_serial(p, rs, hold, exceptions()['CorruptRawFile']), ['gemlog.core._read_SN'], covers=['serial number', 'no serial number'])
    # ---- batch conversion
    names = {}
    gc = pr.module('gemconvert', extra={'gemlog': ModelNS('gemlog', core=ModelNS('core', _read_SN=lambda f: rec_of_path(f))), 're': ModelNS('re', fullmatch=fullmatch, match=rematch), 'os': ModelNS('os', path=ModelNS('os.path', join=join), sep='/')},
                   loops={'find_all_SNs#for0': Present(names)})
    pr.run('find_all_SNs', lambda p: present(p, gc, names), ['gemlog.gemconvert.find_all_SNs', 'gemlog.gemconvert.find_SN'], covers=['done'])
    bx, h2 = {}, {}
    mm = pr.module('gemconvert', extra=env(h2), stubs={'find_all_SNs': lambda *a: h2['all'](*a), 'unique': lambda l: uniq(l)}, loops={'main#for1': Table(bx)})
    for ser in (None, '-s', '--serialnumbers'):
        for exc in (None, '-x', '--exclude_serialnumbers'):
            for codes in (None, '-c', '--codesfile'):
                for more in ('', 'short', 'long', 'test'):
                    if [ser, exc, codes].count(None) + (not more) < 1 and more != 'short': continue
                    if sum(isinstance(x, str) and x.startswith('--') for x in (ser, exc, codes)) not in (0, 3 - [ser, exc, codes].count(None)): continue
                    pr.run(f'gemconvert[{" ".join(x for x in (ser, exc, codes, more) if x)}]', lambda p, a=(ser, exc, codes, more): batch(p, mm, h2, bx, *a), ['gemlog.gemconvert.main'],
                           covers=(['tested'] if more == 'test' else ['converted'] + (['listed', 'unlisted'] if codes else [])))
    um = pr.module('gemconvert', extra={'numpy': Uq()})
    pr.run('gemconvert.unique', lambda p: uq(p, um), ['gemlog.gemconvert.unique'], covers=['done'])
    cs = pr.module('gemconvert', extra=env(h2))
    for what in ('succeeds', 'reports problems', 'Exception', 'CorruptRawFile', 'MemoryError', 'KeyError', 'Unable to allocate', 'NULLType', 'no message', 'two arguments', 'no text'):
        pr.run(f'convert_single_SN[{what}]', lambda p, w=what: single(p, cs, h2, w), ['gemlog.gemconvert.convert_single_SN', 'gemlog.gemconvert.parse_error'], covers=['done'])

# ------------------------------------------------------------------ files of a folder
class Text(Item):
    """an extension or serial number"""
    def __eq__(self, o):
        if isinstance(o, Item): return SBool(self.t == o.t)
        if isinstance(o, str) and o == 'TXT': return SBool(self.t == TXT)
        raise E.Unsupported('comparison of a serial number')
    def __ne__(self, o): return ~(self == o)
    __hash__ = None
    def ite(self, c, o):
        if not isinstance(o, Item): raise E.Unsupported('choice of serial numbers')
        return Text(z3.If(tobool(c), self.t, o.t))
    def __getattr__(self, k): E.noattr(k, 'a serial number')
class File:
    """the i-th raw file of the folder"""
    is_sym = True
    def __init__(self, t): self.t = t
    def __getitem__(self, k):
        if k == slice(-3, None): return Text(EXT(self.t))
        if k == slice(-8, -4): return Digits(self.t)
        raise E.Unsupported('part of a file name')
    def same(self, o): return self.t == o.t
    def ite(self, c, o): return File(z3.If(tobool(c), self.t, o.t))
    def __eq__(self, o): return SBool(self.t == o.t) if isinstance(o, File) else (_ for _ in ()).throw(E.Unsupported('comparison of a file name'))
    __hash__ = None
    def __format__(self, s): return E.strtoken(self, s)
    def __add__(self, o): return E.strtoken(self, '') + o
    def __radd__(self, o): return o + E.strtoken(self, '')
    def __getattr__(self, k): E.noattr(k, 'a file name')
class Digits:
    def __init__(self, t): self.t = t
    def vc_int(self): return Num(NUM(self.t))
    def __getattr__(self, k): E.noattr(k, 'digits')
def recorded(f):
    if not isinstance(f, File): raise E.Unsupported('_read_SN')
    if cur().decide(BAD(f.t)): raise mark(exceptions()['CorruptRawFile']('missing serial number'))
    return Text(REC(f.t))
def serial(i): return z3.If(EXT(i) == TXT, REC(i), EXT(i))
def mine(i): return z3.And(REQ(NUM(i)), z3.Not(z3.And(EXT(i) == TXT, BAD(i))), serial(i) == SNV)
class Numbers:
    """the requested numbers"""
    is_sym = True
    def __contains__(self, v):
        if not isinstance(v, Num): raise E.Unsupported('membership')
        return cur().decide(REQ(v.t))
    def vc_str(self): return 'NUMBERS'
    def __str__(self): return 'NUMBERS'
    def __format__(self, s): return 'NUMBERS'
    def __getattr__(self, k): E.noattr(k, 'requested numbers')
class FileSeq:
    """the raw files of the folder; in order of name once sorted"""
    is_sym = True
    vc_type = LIST
    def __init__(self, n, perm=None): self.n, self.perm = n, perm
    @property
    def _ver(self): return self.perm is None
    def symlen(self): return self.n
    def vc_len(self): return Num(self.n)
    def at(self, k): return File(k if self.perm is None else self.perm(k))
    def symget(self, k): return self.at(num(k).t)
    def to_array(self): return FileSeq(self.n, self.perm)
    def vc_sorted(self): return FileSeq(self.n)
    def sort(self): self.perm = None
    def __getitem__(self, k):
        k = num(k); cur().prove('file index within the list', z3.And(k.t >= 0, k.t < self.n)); return self.at(k.t)
    def __bool__(self): return cur().decide(self.n > 0)
    def vc_comp(self, kind, f, cond):
        if cond is not None: raise E.Unsupported('filtered list of files')
        perm = self.perm
        r = f(File(z3.Int(cur().fresh('probe'))))
        if isinstance(r, Text): return Map(self.n, lambda i: f(FileSeq(self.n, perm).at(i)).t)
        raise E.Unsupported('comprehension over files')
    def __iter__(self): raise E.Unsupported('iteration over files outside a loop')
    def __getattr__(self, k): E.noattr(k, 'a list of files')
CUT3 = z3.Function('first_3_characters', S, S)
class Map:
    """one serial number per file"""
    is_sym = True
    vc_type = LIST
    def __init__(self, n, get, cut=False): self.n, self.get, self._v, self.cut = n, get, 0, cut
    @property
    def _ver(self): return self._v
    def symlen(self): return self.n
    def vc_len(self): return Num(self.n)
    def symget(self, k): return Text(self.get(num(k).t))
    def to_array(self):                     # a fixed-width array: later texts are cut to the width of those present
        return Map(self.n, self.get, True)
    def _ix(self, k):
        k = num(k); cur().prove('index within the list', z3.And(k.t >= 0, k.t < self.n)); return k.t
    def __getitem__(self, k): return Text(self.get(self._ix(k)))
    def __setitem__(self, k, v):
        if not isinstance(v, Item): raise E.Unsupported('serial number')
        k, g, w = self._ix(k), self.get, (CUT3(v.t) if self.cut else v.t)
        self.get = lambda i: z3.If(i == k, w, g(i)); self._v += 1
    def append(self, v):
        if not isinstance(v, Item): raise E.Unsupported('serial number')
        n, g = self.n, self.get
        self.get = lambda i: z3.If(i == n, v.t, g(i)); self.n = n + 1; self._v += 1
    def __iter__(self): raise E.Unsupported('iteration over serial numbers outside a loop')
    def __getattr__(self, k): E.noattr(k, 'a list of serial numbers')
class Picked:
    """files picked so far: `count` of file F0, number n, all before `hi`"""
    is_sym = True
    vc_type = LIST
    def __init__(self, count, n, hi): self.count, self.n, self.hi, self._v, self._seq = count, n, hi, 0, None
    @staticmethod
    def fresh(name):
        p = cur(); c, n, h = (z3.Int(p.fresh(f'{x}_{name}')) for x in ('count', 'n', 'last'))
        p.assume(z3.And(c >= 0, n >= c)); return Picked(c, n, h)
    @property
    def _ver(self): return self._v
    def _havoc_new(self, name): return Picked.fresh(name)
    def append(self, v):
        if not isinstance(v, File): raise E.Unsupported('list item')
        cur().prove('files are used in order, each once', z3.And(self.hi <= v.t, v.t >= 0))
        self.count = z3.simplify(self.count + z3.If(v.t == F0, 1, 0)); self.n = self.n + 1; self.hi = v.t + 1; self._v += 1; self._seq = None
    def sequence(self):
        if self._seq is None:
            p = cur(); nm = p.fresh('picked')
            self._seq = z3.Function(nm, I, I), z3.Int(nm + '_place')
            p.s.fact(z3.Implies(self.count > 0, z3.And(self._seq[1] >= 0, self._seq[1] < self.n, self._seq[0](self._seq[1]) == F0)))
        return self._seq
    def symlen(self): return self.n
    def symget(self, k):
        el, pos = self.sequence(); k = num(k).t; p = cur()
        p.s.fact(z3.And(z3.Implies(z3.And(el(k) == F0, k >= 0, k < self.n), z3.And(self.count > 0, pos == k)), z3.Implies(z3.And(k >= 0, k < self.n), z3.And(el(k) >= 0, el(k) < self.hi))))
        return File(el(k))
    def vc_len(self): return Num(self.n)
    def __bool__(self): return cur().decide(self.n > 0)
    def vc_comp(self, kind, f, cond):
        x = File(F0)
        if f(x) is not x or kind != 'list': raise E.Unsupported('comprehension over files')
        p = cur(); r = Picked.fresh('filtered')
        p.assume(z3.And(r.count == z3.If(tobool(cond(x)) if cond is not None else z3.BoolVal(True), self.count, 0), r.n <= self.n, r.hi == self.hi))
        return r
    def __iter__(self): raise E.Unsupported('iteration over picked files outside a loop')
    def __getattr__(self, k): E.noattr(k, 'a list of files')
def find(p, mod, hold, b):
    b.clear()
    n = z3.Int('n_files')
    p.assume(z3.And(n >= 0, F0 >= 0, F0 < n, SNV != TXT))
    perm = z3.Function('order_of_glob', I, I)
    D = Path(z3.Const('folder', S))
    i0 = z3.Int('any_file')
    b.update(p=p, n=n)
    def glob(t):
        d, rest = split_glob(t)
        p.prove('raw files are looked for in the given folder, whatever its name', d == ESC(D.t))
        if [x for x in rest] != ['/FILE[0-9][0-9][0-9][0-9].???']: raise E.Unsupported('pattern of raw files')
        return FileSeq(n, perm)
    hold['glob'] = glob
    r = mod['_find_nonmissing_files'](D, Text(SNV), Numbers())
    want = z3.And(mine(F0), SIZE(F0) > 10)
    if isinstance(r, list) and not r:
        p.cover('none'); p.prove('no file is left out', z3.Not(want)); return
    if not isinstance(r, Picked): raise E.Unsupported('result')
    p.cover('some')
    p.prove('a file is used exactly once if it is a non-empty raw file of the instrument with a requested number, else not', r.count == z3.If(want, 1, 0))
class Acc(LoopContract):
    """the list being built is recognised by being empty (or files picked so far) on entry"""
    def __init__(self, b): self.b = b
    def owns(self, v): return v in self.mine
    def entry(self, L, env):
        self.mine = [v for v in L.names if v not in L.target and (isinstance(env.get(v), list) and not env[v])]
        if len(self.mine) != 1: raise E.Unsupported('lists built in a loop over files')
        self.start(L, env)
    def start(self, L, env): pass
    def havoc(self, L, v, val): return Picked.fresh(v) if v in self.mine else NotImplemented
    def inv(self, L, a, k): raise NotImplementedError
    def assume(self, L, env, k): self.b['p'].assume(self.inv(L, env[self.mine[0]], k.t))
    def end(self, L, env, k1):
        a = env[self.mine[0]]
        if not isinstance(a, Picked): raise E.Unsupported('list of files')
        self.b['p'].prove(self.name, self.inv(L, a, k1.t))
class Serials(LoopContract):
    """files before k have their serial number, the others still their extension"""
    def __init__(self, b): self.b = b
    def owns(self, v): return v == self.v
    def entry(self, L, env):
        b, p = self.b, self.b['p']
        m = [v for v in L.names if isinstance(env.get(v), Map)]
        if len(m) != 1: raise E.Unsupported('serial numbers')
        self.v, self.cut = m[0], env[m[0]].cut
        j = z3.Int(p.fresh('j'))
        p.prove('one entry per file', z3.IntVal(L.n) == b['n'] if isinstance(L.n, int) else L.n == b['n'])
        p.prove('extensions of the files at first', z3.Implies(z3.And(j >= 0, j < b['n']), env[self.v].get(j) == EXT(j)))
    def now(self, j, k): return z3.If(z3.And(j < k, EXT(j) == TXT, z3.Not(BAD(j))), REC(j), EXT(j))
    def havoc(self, L, v, val):
        if v != self.v: return NotImplemented
        m = Map(self.b['n'], None, self.cut); m.get = lambda j: self.now(j, L.k.t); return m
    def end(self, L, env, k1):
        j, p, m = z3.Int(self.b['p'].fresh('j')), self.b['p'], env[self.v]
        if not isinstance(m, Map): raise E.Unsupported('serial numbers')
        p.prove('the serial number of a TXT file is the recorded one, of another its extension', z3.Implies(z3.And(j >= 0, j < self.b['n']), m.get(j) == self.now(j, k1.t)))
class Chosen(Acc):
    name = 'a file is chosen exactly if its number is requested and its serial number is the requested one'
    def start(self, L, env): self.b['p'].prove('every raw file is looked at', L.n == self.b['n'] if not isinstance(L.n, int) else z3.BoolVal(False))
    def inv(self, L, a, k): return z3.And(a.count == z3.If(z3.And(F0 < k, mine(F0)), 1, 0), a.hi <= k, a.hi >= 0)
class NonEmpty(Acc):
    name = 'a chosen file is kept exactly if it is not empty'
    def _src(self, L):
        if not isinstance(L.items, Picked): raise E.Unsupported('loop over chosen files')
        return L.items
    def inv(self, L, a, k):
        s = self._src(L); el, pos = s.sequence(); p = cur()
        # the list kept ends before the k-th chosen file
        p.s.fact(z3.Implies(z3.And(k >= 1, k < s.n), el(k - 1) < el(k)))
        return z3.And(a.count == z3.If(z3.And(s.count > 0, pos < k, SIZE(F0) > 10), 1, 0), z3.Or(a.hi == 0, a.hi <= el(k - 1) + 1), z3.Or(a.hi == 0, k > 0))
    def havoc(self, L, v, val): return Picked.fresh(v) if v in self.mine else NotImplemented

# ------------------------------------------------------------------ read_gem
class Stop(E.Signal if False else Exception): pass
def reading(p, mod, hold, scalar):
    log = []
    class Fl(list): pass
    files = ['f0', 'f1', 'f2']
    none = z3.Bool('no_files')
    def findf(*a, **k):
        log.append((a, k)); return [] if p.decide(none) else list(files)
    hold['find'] = findf
    bad = {f: z3.Bool('unreadable_' + f) for f in files}
    hold['version'] = lambda f: '0.91' if not p.decide(bad[f]) else 'junk'
    hold['config'] = lambda f: 'CONFIG'
    got = []
    def several(fl, *a, **k):
        got.append(list(fl)); raise mark(RuntimeError('read'))
    hold['several'] = several
    nums = 5 if scalar else Numbers()
    SN = Text(SNV); SN.vc_len = lambda: Num(z3.IntVal(3))
    try: mod['read_gem']('FOLDER', nums, SN, station='ST', network='NE', location='LO')
    except RuntimeError: pass
    except (exceptions()['MissingRawFiles'], exceptions()['CorruptRawFile']):
        p.cover('nothing to read')
        p.prove('an error is raised only without readable files', z3.Or(none, z3.And(list(bad.values()))))
        return
    if len(log) != 1: p.prove('files are selected once', z3.BoolVal(False)); return
    a, k = log[0]
    names = ('path', 'SN', 'nums'); v = dict(zip(names, a)); v.update(k)
    w = v.get('nums')
    p.prove('files of the given folder, instrument and numbers are selected', z3.BoolVal(v.get('path') == 'FOLDER' and v.get('SN') is SN and (w is nums or scalar and isinstance(w, Arr) and w.concrete and [x for x in w.items()] == [5])))
    p.prove('one reading', z3.BoolVal(len(got) == 1))
    if len(got) != 1: return
    p.cover('read')
    p.prove('read in the order selected', z3.BoolVal(got[0] == files[len(files) - len(got[0]):]))
    p.prove('only leading files of unknown format are left out', z3.And([bad[f] for f in files[:len(files) - len(got[0])]]))

# ------------------------------------------------------------------ serial numbers in a folder
XN = z3.String('a_serial')
RECS, BADS = z3.Function('recorded_serial_of', z3.StringSort(), z3.StringSort()), z3.Function('corrupt', z3.StringSort(), B)
def _re(pattern):
    """a regular expression of characters, classes, dots and repeat counts as a z3 regular expression"""
    import re._parser as sp
    from re._constants import LITERAL, IN, RANGE, MAX_REPEAT, BRANCH, SUBPATTERN, ANY, CATEGORY, CATEGORY_DIGIT
    def cls(items):
        o = []
        for op, v in items:
            if op is LITERAL: o.append(z3.Re(chr(v)))
            elif op is RANGE: o.append(z3.Range(chr(v[0]), chr(v[1])))
            else: raise E.Unsupported('regular expression class')
        return z3.Union(o) if len(o) > 1 else o[0]
    def go(t):
        o = []
        for op, v in t:
            if op is LITERAL: o.append(z3.Re(chr(v)))
            elif op is IN: o.append(cls(v))
            elif op is MAX_REPEAT:
                r = go(v[2])
                if v[1] > 50: raise E.Unsupported('unbounded repeat')
                o.append(z3.Loop(r, int(v[0]), int(v[1])))
            elif op is SUBPATTERN: o.append(go(v[3]))
            elif op is BRANCH: o.append(z3.Union([go(x) for x in v[1]]))
            else: raise E.Unsupported('regular expression')
        return z3.Concat(o) if len(o) > 1 else o[0] if o else z3.Re('')
    return go(sp.parse(pattern))
D_ = lambda n: z3.Loop(z3.Range('0', '9'), n, n)
TXTRE, NUMRE = z3.Concat(z3.Re('FILE'), D_(4), z3.Re('.TXT')), z3.Concat(z3.Re('FILE'), D_(4), z3.Re('.'), D_(3))
class Name:
    """a file name: a z3 string"""
    is_sym = True
    pytype = str
    def __init__(self, t): self.t = t
    def __getitem__(self, k):
        if not isinstance(k, slice) or k.step is not None: raise E.Unsupported('part of a name')
        n = z3.Length(self.t)
        def pos(v, d):
            if v is None: return d
            v = z3.IntVal(v) if v >= 0 else z3.If(n + v > 0, n + v, z3.IntVal(0))
            return z3.If(v > n, n, v)
        a, b = pos(k.start, z3.IntVal(0)), pos(k.stop, n)
        return Name(z3.simplify(z3.SubString(self.t, a, z3.If(b > a, b - a, z3.IntVal(0)))))
    def __eq__(self, o): return SBool(self.t == (o.t if isinstance(o, Name) else z3.StringVal(o)))
    def __ne__(self, o): return ~(self == o)
    __hash__ = None
    def endswith(self, s): return SBool(z3.SuffixOf(z3.StringVal(s), self.t))
    def startswith(self, s): return SBool(z3.PrefixOf(z3.StringVal(s), self.t))
    def vc_len(self): return Num(z3.Length(self.t))
    def ite(self, c, o): return Name(z3.If(tobool(c), self.t, o.t))
    def __add__(self, o): return E.strtoken(self, '') + o
    def __radd__(self, o): return o + E.strtoken(self, '')
    def __format__(self, s): return E.strtoken(self, s)
    def __getattr__(self, k): E.noattr(k, 'a file name')
class InFolder:
    def __init__(self, d, name): self.d, self.name = d, name
def join(d, x):
    if not isinstance(x, Name): raise E.Unsupported('os.path.join')
    return InFolder(d, x)
def fullmatch(pat, x, *f):
    if f or not isinstance(x, Name): raise E.Unsupported('re.fullmatch')
    return SBool(z3.InRe(x.t, _re(pat)))
def rematch(pat, x, *f):
    if not pat.endswith('$') and not pat.endswith('\\Z'): raise E.Unsupported('re.match')
    return fullmatch(pat[:-1] if pat.endswith('$') else pat[:-2], x, *f)
def rec_of_path(f):
    if isinstance(f, str):
        ps = [x[0] if isinstance(x, tuple) else x for x in E.strparts(f)]
        if len(ps) == 2 and ps[0] == 'FOLDER/' and isinstance(ps[1], Name): f = InFolder('FOLDER', ps[1])
    if not isinstance(f, InFolder) or f.d != 'FOLDER': raise E.Unsupported('_read_SN')
    if cur().decide(BADS(f.name.t)): raise mark(exceptions()['CorruptRawFile']('missing serial number'))
    return Name(RECS(f.name.t))
EL = z3.Function('entry', I, z3.StringSort())
PCN = z3.Function('occurrences_of_serial_in_first', I, I)
class Names:
    """the names in a folder"""
    is_sym = True
    def __init__(self, n): self.n = n
    def symlen(self): return self.n
    def symget(self, k): return Name(EL(num(k).t))
    def vc_len(self): return Num(self.n)
    def __getitem__(self, k): return self.symget(k)
    def __iter__(self): raise E.Unsupported('iteration over names outside a loop')
    def __getattr__(self, k): E.noattr(k, 'a list of names')
class Counted:
    """serial numbers: how often XN occurs"""
    is_sym = True
    vc_type = LIST
    def __init__(self, count): self.count, self._v = count, 0
    @property
    def _ver(self): return self._v
    def append(self, v):
        if not isinstance(v, Name): raise E.Unsupported('serial number')
        self.count = self.count + z3.If(v.t == XN, 1, 0); self._v += 1
    def __getattr__(self, k): E.noattr(k, 'a list of serial numbers')
class Present(LoopContract):
    def __init__(self, b): self.b = b
    def owns(self, v): return v == self.v
    def entry(self, L, env):
        m = [v for v in L.names if v not in L.target and isinstance(env.get(v), list) and not env[v]]
        if len(m) != 1: raise E.Unsupported('list of serial numbers')
        self.v = m[0]
        p = self.b['p']; p.s.fact(PCN(0) == 0)
        p.prove('every entry of the folder is looked at', L.n == self.b['n'])
    def havoc(self, L, v, val): return Counted(z3.Int(cur().fresh('count'))) if v == self.v else NotImplemented
    def assume(self, L, env, k): self.b['p'].assume(env[self.v].count == PCN(k.t)); self.b['k'] = k.t
    def end(self, L, env, k1):
        p, k = self.b['p'], self.b['k']; x = EL(k)
        isn, ist = z3.InRe(x, NUMRE), z3.And(z3.InRe(x, TXTRE), z3.Not(BADS(x)))
        p.s.fact(PCN(k + 1) == PCN(k) + z3.If(z3.Or(z3.And(isn, z3.SubString(x, 9, 3) == XN), z3.And(ist, RECS(x) == XN)), 1, 0))
        if not isinstance(env[self.v], Counted): raise E.Unsupported('serial numbers')
        p.prove('an entry counts exactly if it is a raw file, under its own serial number', env[self.v].count == PCN(k + 1))
def present(p, mod, b):
    n = z3.Int('n_entries'); p.assume(n >= 0)
    b.update(p=p, n=n)
    r = mod['find_all_SNs']('FOLDER', Names(n))
    p.cover('done')
    if isinstance(r, list) and not r: p.prove('all are returned', n == 0); return
    if not isinstance(r, Counted): raise E.Unsupported('result')
    p.prove('the serial numbers of all raw files are returned', r.count == PCN(n))

# ------------------------------------------------------------------ gemconvert
class Ser(Item):
    """a serial number in gemconvert"""
    def isdecimal(self): return SBool(DEC(self.t))
    isdigit = isnumeric = isdecimal
    def vc_int(self):
        if not cur().decide(DEC(self.t)): raise mark(ValueError('invalid literal for int()'))
        return Num(INTOF(self.t))
    def ite(self, c, o): return Ser(z3.If(tobool(c), self.t, o.t))
    def __getattr__(self, k): E.noattr(k, 'a serial number')
DEC = z3.Function('is_decimal', S, B)
class Sers(IdList):
    """a list of serial numbers"""
    vc_type = LIST
    @staticmethod
    def fresh(name):
        p = cur(); c = z3.Int(p.fresh('count_' + name)); p.assume(c >= 0)
        return Sers(c, name)
    def _havoc_new(self, name): return Sers.fresh(name)
    def symget(self, k):
        return Ser(IdList.symget(self, k).t)
    def vc_sorted(self):
        r = Sers(self.count); r.sorted, r.unique = True, self.unique; return r
    def vc_list(self):
        r = Sers(self.count); r.sorted, r.unique = self.sorted, self.unique; return r
    def vc_set(self):
        r = uniq(self); r.sorted = False; return r
    def vc_comp(self, kind, f, cond):
        if cond is None: return SList.from_get(self.symlen(), lambda i: f(self.symget(Num(i) if not isinstance(i, Num) else i)))
        x = Ser(X)
        if f(x) is not x: raise E.Unsupported('comprehension over serial numbers')
        r = Sers(z3.simplify(z3.If(tobool(E.SBool(cond(x)) if isinstance(cond(x), bool) else cond(x)), self.count, 0))); r.sorted, r.unique = self.sorted, self.unique
        return r
    def __str__(self): return E.strtoken(self, '')
    def __format__(self, s): return E.strtoken(self, s)
class ListText:
    """an option text: serial numbers separated by commas"""
    def __init__(self, l): self.l = l
    def split(self, s, *a):
        if s != ',' or a: raise E.Unsupported('split')
        return self.l
    def __getattr__(self, k): E.noattr(k, 'an option text')
def uniq(l):
    if not isinstance(l, Sers): raise E.Unsupported('unique')
    r = Sers(z3.If(l.count > 0, z3.IntVal(1), z3.IntVal(0))); r.unique = r.sorted = True
    r.known = l
    return r
def np_uniq(l, return_index=False, **k):
    if k or not isinstance(l, Sers): raise E.Unsupported('numpy.unique')
    r = uniq(l); return (r, Any('index')) if return_index else r
def Uq():
    m = NpModel(); m.unique = np_uniq; return m
def uq(p, mod):
    l = Sers.fresh('given')
    r = mod['unique'](l)
    if not isinstance(r, Sers): raise E.Unsupported('result')
    p.cover('done'); p.prove('each item once, in order', z3.And(r.count == z3.If(l.count > 0, 1, 0), z3.BoolVal(bool(r.unique and r.sorted))))
class TLoc:
    def __init__(self, t): self.t = t
    def __getitem__(self, k):
        if not (isinstance(k, tuple) and len(k) == 2 and isinstance(k[1], str) and isinstance(k[0], (Num, int))): raise E.Unsupported('row label lookup')
        i = num(k[0]).t; cur().prove('row label of the table', z3.And(i >= 0, i < self.t.n))
        return self.t.cols[k[1]].at(i)
class Tab(SDF):
    loc = property(lambda s: TLoc(s))
    def __str__(self): return 'TABLE'
class Pool:
    def __init__(self, h): self.h = h
    def __call__(self, max_workers=None, **k):
        if k: raise E.Unsupported('ProcessPoolExecutor')
        self.h['workers'] = max_workers; return self
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def map(self, f, l, **k):
        if set(k) - {'chunksize'}: raise E.Unsupported('map options')   # how the calls are grouped matters only if one raises, and convert_single_SN does not
        self.h['mapped'].append((f, l)); return Any('results')
    def __getattr__(self, k): E.noattr(k, 'a process pool')
def env(h):
    v = ModelNS('module', __version__='v')
    core = ModelNS('core', obspy=v, pd=v, scipy=v, np=v)
    class Log:
        DEBUG = INFO = 0
        def __getattr__(self, k): return lambda *a, **kw: None
    class G(ModelNS): pass
    gem = ModelNS('gemlog', core=core, __version__='v', _debug=False, gem_network=ModelNS('gem_network', _get_station_info=lambda f: h['info'](f)), convert=lambda *a, **k: h['convert'](*a, **k))
    return {'gemlog': gem, 'getopt': __import__('getopt'), 'logging': Log(), 'os': ModelNS('os', listdir=lambda d: h['listdir'](d)), 'platform': ModelNS('platform', uname=lambda: Any('uname'), python_version=lambda: 'v'),
            'concurrent.futures': ModelNS('futures', ProcessPoolExecutor=Pool(h)), 'sys': ModelNS('sys', argv=['gemconvert'], executable='x', exit=sysexit), 're': ModelNS('re')}
def sysexit(*a): raise mark(SystemExit(*a))
PRES = z3.Int('files_of_serial_in_folder')
ROW = z3.Function('row_of_serial', S, I)
class Par:
    """codes parallel to a list of serial numbers"""
    is_sym = True
    vc_type = LIST
    def __init__(self, owner, col, added=()): self.owner, self.col, self.added, self._v = owner, col, list(added), 0
    @property
    def _ver(self): return self._v
    def append(self, v): self.added.append(v); self._v += 1
    def symlen(self):
        if self.added: raise E.Unsupported('codes')
        return self.owner.symlen()
    def symget(self, k):
        if self.added: raise E.Unsupported('codes')
        return Cell(self.col(ROW(self.owner.symget(k).t)))
    def __getattr__(self, k): E.noattr(k, 'a list of codes')
V = ('network', 'station', 'location')
class Table(LoopContract):
    def __init__(self, b): self.b = b
    def _src(self, L):
        if not isinstance(L.items, Sers): raise E.Unsupported('loop over serial numbers')
        return L.items
    def owns(self, v): return v in ('network_list', 'station_list', 'location_list', 'new_SN_list', 'skip_SN')
    def entry(self, L, env):
        b, p = self.b, self.b['p']; s = self._src(L)
        b['src'] = s
        for v in ('network_list', 'station_list', 'location_list', 'new_SN_list'): p.prove('no codes at first', z3.BoolVal(env[v] == []))
        p.s.fact(s.sequence()[2](0) == 0)
    def havoc(self, L, v, val):
        if v == 'new_SN_list': self.b['new'] = Sers.fresh('listed'); return self.b['new']
        if v == 'skip_SN': return Sers.fresh('skipped')
        if v in ('network_list', 'station_list', 'location_list'): return Par(None, self.b['f'][v[:-5]])
        return NotImplemented
    def listed(self): return self.b['listed']
    def assume(self, L, env, k):
        b = self.b; pc = self._src(L).sequence()[2]
        b['k'] = k.t
        for v in V: env[v + '_list'].owner = env['new_SN_list']
        b['lists'] = {v: env[v + '_list'] for v in V}
        b['p'].assume(z3.And(pc(k.t) >= 0, env['new_SN_list'].count == z3.If(b['listed'], pc(k.t), z3.IntVal(0))))
        b['old'] = env['new_SN_list'].count; b['olds'] = env['skip_SN'].count
    def end(self, L, env, k1):
        b, p = self.b, self.b['p']
        n, el, pc = self._src(L).sequence(); sn = el(b['k'])
        new = env['new_SN_list']
        if not isinstance(new, Sers) or any(env[v + '_list'] is not b['lists'][v] for v in V): raise E.Unsupported('lists of codes')
        got = {v: env[v + '_list'].added for v in V}
        q = z3.Int(p.fresh('q'))
        p.index(q, b['m'])
        if not any(got.values()):
            p.cover('unlisted')
            p.prove('without codes only if the serial number is not in the table', z3.Implies(z3.And(q >= 0, q < b['m'], DEC(sn)), INTOF(b['f']['SN'](q)) != INTOF(sn)))
            p.prove('an unlisted serial number is not converted', new.count == b['old']); 
            p.s.fact(z3.Implies(sn == X, z3.Not(b['listed']))) if p.check(z3.And(sn == X, b['listed'])) == z3.unsat else p.s.fact(z3.Implies(z3.And(sn == X, b['listed']), z3.And(DEC(X), b['w'] >= 0, b['w'] < b['m'], INTOF(b['f']['SN'](b['w'])) == INTOF(X))))
            p.index(b['w'], b['m'])
            p.prove('converted iff listed', new.count == z3.If(b['listed'], pc(k1.t), z3.IntVal(0)))
            return
        p.cover('listed')
        ok = all(len(g) == 1 and isinstance(g[0], Item) for g in got.values())
        p.prove('one of each code per serial number', z3.BoolVal(ok))
        if not ok: return
        r = None
        for v in V:
            g = got[v][0].t
            if not (g.num_args() == 1 and g.decl().eq(b['f'][v])): p.prove('codes come from the column of the same name', z3.BoolVal(False)); return
            if r is None: r = g.arg(0)
            p.prove('codes come from one row', g.arg(0) == r)
        p.prove('codes come from the row of the serial number', z3.And(r >= 0, r < b['m'], DEC(sn), INTOF(b['f']['SN'](r)) == INTOF(sn)))
        # listed: some row has the serial number X
        p.s.fact(z3.Implies(z3.And(r >= 0, r < b['m'], DEC(X), INTOF(b['f']['SN'](r)) == INTOF(X)), b['listed']))
        p.prove('converted iff listed', new.count == z3.If(b['listed'], pc(k1.t), z3.IntVal(0)))
        # the lists stay parallel: the last of the serial numbers is the one the codes were looked up for
        p.prove('the serial number is listed with its codes', z3.Implies(sn == X, new.count == b['old'] + 1))
        p.prove('no other serial number is listed with them', z3.Implies(sn != X, new.count == b['old']))
        p.prove('a serial number is converted or skipped', z3.BoolVal(True) if not isinstance(env['skip_SN'], Sers) else env['skip_SN'].count == b['olds'])
def batch(p, mod, h, b, ser, exc, codes, more):
    b.clear()
    p.assume(PRES >= 0)
    given, excl = Sers.fresh('requested'), Sers.fresh('excluded')
    argv = ['-i', 'FOLDER'] if more != 'long' else ['--inputdir', 'FOLDER']
    if ser: argv += [ser, ListText(given)]; p.assume(given.symlen() >= 1)
    if exc: argv += [exc, ListText(excl)]
    if codes: argv += [codes, 'CODES']
    if more == 'short': argv += ['-o', 'OUT', '-f', 'sac', '-l', '2', '-p', '3']
    if more == 'long': argv += ['--outputdir', 'OUT', '--format', 'sac', '--length', '2', '--parallel', '3']
    if more == 'test': argv += ['-t']
    h['mapped'] = []
    def listdir(d):
        p.prove('the given folder is listed', z3.BoolVal(d == 'FOLDER')); return 'ENTRIES'
    h['listdir'] = listdir
    def allsn(d, l):
        p.prove('serial numbers of the given folder', z3.BoolVal(d == 'FOLDER' and l == 'ENTRIES')); return Sers(PRES)
    h['all'] = allsn
    m = z3.Int('n_table'); p.assume(m >= 0)
    f = {c: z3.Function('table_' + c, I, S) for c in ('SN', *V)}
    w = z3.Int('row_of_X')
    listed = z3.Bool('X_is_listed')
    p.s.fact(z3.Implies(listed, z3.And(DEC(X), w >= 0, w < m, INTOF(f['SN'](w)) == INTOF(X))))       # listed = some row (w) has it
    tab = Tab({c: Arr(m, get=lambda i, g=g: Cell(g(i))) for c, g in f.items()}, m)
    b.update(p=p, m=m, f=f, listed=listed, w=w)
    h['info'] = lambda x: tab if x == 'CODES' else (_ for _ in ()).throw(E.Unsupported('station table'))
    try: mod['main'](argv)
    except SystemExit:
        p.prove('never stops without converting', z3.BoolVal(False)); return
    if more == 'test':
        p.cover('tested'); p.prove('nothing is converted in a test', z3.BoolVal(not h['mapped'])); return
    p.prove('one batch', z3.BoolVal(len(h['mapped']) == 1))
    if len(h['mapped']) != 1: return
    fn, l = h['mapped'][0]
    p.prove('instruments are converted one by one', z3.BoolVal(fn is mod['convert_single_SN']))
    if not isinstance(l, SList): raise E.Unsupported('list of conversions')
    p.cover('converted')
    # the list of serial numbers behind the list of conversions
    j = z3.Int('j'); nl = l.length(); nl = z3.IntVal(nl) if isinstance(nl, int) else nl
    p.assume(z3.And(j >= 0, j < nl))
    if p.check() == z3.unsat: return
    a = l.at(j)
    if not (isinstance(a, list) and len(a) == 8 and isinstance(a[1], Ser)): p.prove('arguments of a conversion', z3.BoolVal(False)); return
    p.prove('folders and format as requested', z3.BoolVal(a[0] == 'FOLDER' and (a[2], a[3], a[4]) == (('OUT', 'sac', '2') if more in ('short', 'long') else ('mseed', 'MSEED', 24))))
    sn = a[1].t
    if not (sn.num_args() == 1 and z3.eq(sn.arg(0), z3.simplify(j))): raise E.Unsupported('serial number of a conversion')
    # the sequence function determines which list it is
    src = next((s for s in h.get('seqs', [])), None)
    L = b.get('new') if codes else b.get('final')
    owner = find_owner(p, sn, b)
    if owner is None: raise E.Unsupported('serial numbers of the batch')
    base = given.count if ser else PRES
    want = z3.And(base > 0, excl.count == 0 if exc else z3.BoolVal(True), listed if codes else z3.BoolVal(True))
    p.prove('each requested serial number is converted exactly once, no other', owner.count == z3.If(want, 1, 0))
    if codes:
        r = None
        for v, g in zip(V, a[5:]):
            if not (isinstance(g, Item) and g.t.num_args() == 1 and g.t.decl().eq(f[v])): p.prove('codes are passed in their places', z3.BoolVal(False)); return
            p.prove('codes of the row of the serial number', g.t.arg(0) == ROW(sn))
    else: p.prove('no codes without a table', z3.BoolVal(a[5:] == ['', '', '']))
OWNERS = []
_seq0 = Sers.sequence
def _seq(self):
    r = _seq0(self)
    p = cur(); d = p.ghost.setdefault('c10 sequences', [])
    if not any(q[1] is self for q in d): d.append((r[1], self))
    return r
Sers.sequence = _seq
def find_owner(p, sn, b):
    for el, s in p.ghost.get('c10 sequences', []):
        if s.sequence()[1].eq(sn.decl()): return s
    return None

# ------------------------------------------------------------------ one instrument
ARGS = {'no message': (Exception, ()), 'two arguments': (OSError, (2, 'No such file')), 'no text': (KeyError, (3,))}
def single(p, mod, h, what):
    src = ast.parse(open(os.path.join(REPO, 'gemlog', 'core.py')).read())
    fd = next(n for n in src.body if isinstance(n, ast.FunctionDef) and n.name == 'convert')
    names = [a.arg for a in fd.args.args]
    calls = []
    def conv(*a, **k):
        v = dict(zip(names, a)); v.update(k); calls.append(v)
        if what == 'succeeds': return []
        if what == 'reports problems': return ['problem 1', 'problem 2']
        if what in exceptions(): raise mark(exceptions()[what]('planned'))
        if what in ARGS: raise mark(ARGS[what][0](*ARGS[what][1]))
        raise mark({'Exception': Exception, 'MemoryError': MemoryError, 'KeyError': KeyError}.get(what, ValueError)(what))
    h['convert'] = conv
    args = ['IN', '077', 'OUT', 'sac', '2', 'NE', 'STA', 'LO']
    mod['convert_single_SN'](list(args))          # no exception escapes
    p.cover('done')
    p.prove('one conversion', z3.BoolVal(len(calls) == 1))
    if len(calls) != 1: return
    v = calls[0]
    want = {'rawpath': 'IN', 'SN': '077', 'convertedpath': 'OUT', 'output_format': 'sac', 'file_length_hour': '2', 'network': 'NE', 'station': 'STA', 'location': 'LO'}
    p.prove('folder, serial number, codes, format and length are passed to their parameters', z3.BoolVal({k: v.get(k) for k in want} == want))
    p.prove('other parameters keep their defaults', z3.BoolVal(set(v) == set(want)))

"""C08 - merging raw files preserves the recorded signal."""
import z3
from vc import engine as E
from vc.engine import Num, SBool, cur, num, tobool
from vc.loader import LoopContract
from vc.npmodel import NpModel, ModelNS
from vc.arrays import Arr, SList

EXPLAIN = ('gem_cat proved for any number of files and any presence of GPS: each file is skipped, copied to the next number or appended to the current output exactly as the grouping rule says (invariant over the file loop); '
           'AppendFile proved for files of any number of lines: header lines dropped, the first data line re-based on the end of the previous input, every other line appended byte for byte in order; '
           'reading one line as the first data line (_parse_data_line, regular expressions) is bounded: compared with the real reader on an exhaustive family of short lines by the oracle')
NEEDS_EXT = True
BOUNDED_ONLY = ['gemlog.gem_cat._parse_data_line']
I, B, R = z3.IntSort(), z3.BoolSort(), z3.RealSort()

class Line:
    """line i of file f, as bytes"""
    def __init__(self, p, f, i):
        self.p, self.f, self.i = p, f, i
        self.c0 = z3.Function('first_byte', I, I, I)(f, i)           # 10 when the line is empty
        self.data = z3.Function('is_data', I, I, B)(f, i)           # the reader makes a data row of it
        self.ms = z3.Function('data_count', I, I, R)(f, i)
        self.adc = z3.Function('data_value', I, I, I)(f, i)
        p.assume(z3.And(self.c0 >= 0, self.c0 < 256, z3.Implies(self.data, z3.Or(self.c0 == 68, z3.And(self.c0 >= 97, self.c0 <= 122)))))
    def _b(self, s):
        if isinstance(s, (bytes, str)) and len(s) == 1: return SBool(self.c0 == ord(s))
        if isinstance(s, tuple): return SBool(z3.Or([tobool(self._b(x)) for x in s]))
        raise E.Unsupported('comparison of the start of a line')
    def startswith(self, s, *a):
        if a: raise E.Unsupported('startswith range')
        return self._b(s)
    def __getitem__(self, s):
        if isinstance(s, slice) and s.start in (None, 0) and s.step is None and s.stop == 1: return First(self)
        if s == 0: return Num(self.c0)
        raise E.Unsupported('part of a line')
    def __getattr__(self, k): E.noattr(k, 'a line')
class First:
    def __init__(self, l): self.l = l
    def __eq__(self, s): return self.l._b(s) if not (isinstance(s, (bytes, str)) and len(s) != 1) else SBool(False)
    def __ne__(self, s): return ~(self == s)
    def __hash__(self): raise E.Unsupported('hash of a character')
    def __getattr__(self, k): E.noattr(k, 'a character')
class Millis:
    """the text of a count as found in a line"""
    def __init__(self, l): self.l = l
    def vc_fmt(self, part): return E.strtoken(self, 'raw' + part)
    def __format__(self, spec): return E.strtoken(self, 'raw' + spec)

class Lines:
    is_sym = True
    def __init__(self, p, f): self.p, self.f = p, f; self.n = z3.Function('n_lines', I, I)(f); p.assume(self.n >= 1)
    def symlen(self): return self.n
    def symget(self, i): return Line(self.p, self.f, z3.simplify(num(i).t if not z3.is_expr(i) else i))
    def vc_len(self): return Num(self.n)
    def __getattr__(self, k): E.noattr(k, 'lines')

class Folder:
    """ghost contents of the sorted input folder"""
    def __init__(self, p):
        self.p = p
        self.n = z3.Int('n_files'); p.assume(self.n >= 1)
        self.G = z3.Function('has_GPS', I, B)
    def link(self, k):
        """GPS of file k: one of its lines starts with G"""
        p, W, nl, c0 = self.p, z3.Function('gps_line', I, I), z3.Function('n_lines', I, I), z3.Function('first_byte', I, I, I)
        p.assume(z3.Implies(self.G(k), z3.And(W(k) >= 0, W(k) < nl(k), c0(k, W(k)) == 71)))
        p.index(W(k), nl(k))
        p.universal(lambda i: z3.Implies(z3.And(i >= 0, i < nl(k), c0(k, i) == 71), self.G(k)), nl(k))

class Ref:
    """path of raw file k"""
    def __init__(self, k): self.k = k
    def __radd__(self, o): return o + E.strtoken(self, 'path')
    def vc_str(self): return E.strtoken(self, 'path')
    def __format__(self, s): return E.strtoken(self, 'path')
    def __getattr__(self, k): E.noattr(k, 'a path')
class Files:
    is_sym = True
    def __init__(self, f): self.f = f; self.n = f.n
    def symlen(self): return self.n
    def symget(self, i): return Ref(num(i).t)
    def vc_len(self): return Num(self.n)
    def vc_sorted(self): return self
    def __getitem__(self, k):
        if isinstance(k, slice): raise E.Unsupported('part of the file list')
        t = z3.simplify(num(k).t)
        if not cur().decide(z3.And(t < self.n, t >= -self.n)): raise E.mark(IndexError('list index'))
        return Ref(t if cur().decide(t >= 0) else z3.simplify(t + self.n))
    def __getattr__(self, k): E.noattr(k, 'a file list')

class Opened:
    def __init__(self, b, ref, mode): self.b, self.ref, self.mode = b, ref, mode
    def __enter__(self): return self
    def __exit__(self, *a): pass
    def close(self): pass
    def readlines(self): return Lines(self.b['p'], self.ref.k)
    def symlen(self): return Lines(self.b['p'], self.ref.k).n
    def symget(self, i): return Lines(self.b['p'], self.ref.k).symget(i)
    def __getattr__(self, k): E.noattr(k, 'a file')

def prove(pr):
    pr.assume_note('inputs are one instrument\'s non-empty raw files with data and metadata; glob lists the folder and sorted() orders the names; files keep their contents while merging',
                   'has GPS means a line starting with G', '_parse_data_line returns the count (as text) and difference of a data line and None otherwise (bounded: oracle)',
                   'the last count of a file is what the reader gives (C01, C02)')
    box, hold = {}, {}
    call = lambda k: (lambda *a, **kw: hold[k](*a, **kw))
    st = {'open': call('open'), 'AppendFile': call('append'), '_read_SN': call('sn')}
    os_ = ModelNS('os', path=ModelNS('os.path', isdir=lambda d: True, exists=lambda d: True, join=E.pathjoin, realpath=lambda x: x, abspath=lambda x: x, samefile=lambda a, b: a == b, dirname=lambda p: 'OUTDIR', basename=lambda p: p), makedirs=lambda *a, **k: None, SEEK_END=2, SEEK_SET=0, SEEK_CUR=1)
    ex = {'os': os_, 'glob': ModelNS('glob', glob=lambda pat: hold['glob'](pat)), 'shutil': ModelNS('shutil', copy=call('copy'), copyfile=call('copy'), copy2=call('copy')), 're': ModelNS('re')}
    mod = pr.module('gem_cat', stubs=st, extra=ex, loops={'gem_cat#for0': Group(box)})
    pr.run('gem_cat', lambda p: group(p, mod, box, hold), ['gemlog.gem_cat.gem_cat'], covers=['skip', 'first', 'new', 'append without GPS', 'append after GPS-less', 'done'])
    pr.run('gem_cat[in place]', lambda p: inplace(p, mod, box, hold), ['gemlog.gem_cat.gem_cat'], covers=['refused'])
    st2 = {'open': call('open'), '_read_format_version': call('version'), '_read_single': call('single'), '_parse_data_line': call('parse')}
    m2 = pr.module('gem_cat', stubs=st2, extra=ex, loops={f'AppendFile#for{i}': Append(box, i) for i in range(3)})
    for v in ('0.85C', '0.9', '0.91', '1.10', '0.8', '0.85'):
        pr.run(f'AppendFile[{v}]', lambda p, v=v: append(p, m2, box, hold, v), ['gemlog.gem_cat.AppendFile'],
               covers=['verbatim', 'header', 'done', 'unfinished', 'finished'] + (['re-based', 'before data'] if v not in ('0.8', '0.85') else []))

def inplace(p, mod, box, hold):
    box.clear(); box.update(p=p)
    def bad(*a, **k): p.prove('nothing is written into the input folder', z3.BoolVal(False)); raise E.PathEnd()
    f = Folder(p)
    hold.update(glob=lambda pat: Files(f), sn=lambda x: 'SN7', copy=bad, append=bad, open=lambda *a, **k: Opened(box, a[0], 'rb'))
    try: mod['gem_cat']('INDIR', 'INDIR')
    except E.Signal: raise
    except Exception as e:
        if not getattr(e, '_vc_ok', False): raise
        p.cover('refused'); return
    p.prove('merging a folder into itself is refused', z3.BoolVal(False))

def group(p, mod, box, hold):
    box.clear()
    f = Folder(p)
    box.update(p=p, f=f, ev=[])
    def glob(pat):
        p.prove('raw files of the input folder', z3.BoolVal(pat.startswith('INDIR/FILE[0-9][0-9][0-9][0-9].EXT')))
        return Files(f)
    def op(ref, mode='r', *a, **k):
        if not isinstance(ref, Ref): raise E.Unsupported('open of something else')
        p.prove('inputs are only read', z3.BoolVal(mode in ('r', 'rb', 'rt')))
        return Opened(box, ref, mode)
    def ref(x):
        if not isinstance(x, Ref): raise E.Unsupported('path of something else')
        return x
    hold.update(glob=glob, open=op, sn=lambda x: 'SN7', copy=lambda a, b, **k: box['ev'].append(('copy', ref(a), b)), append=lambda a, b, c: box['ev'].append(('append', ref(a), b, ref(c))))
    mod['gem_cat']('INDIR', 'OUTDIR', 'EXT')
    p.cover('done')

def outnum(name):
    """number of an output path, or None"""
    if not isinstance(name, str): return None
    ps = E.strparts(name)
    if len(ps) == 3 and ps[0] in ('OUTDIR/FILE', 'OUTDIR//FILE') and ps[2] == '.SN7' and isinstance(ps[1], tuple) and ps[1][1] == '04d': return num(ps[1][0]).t
    return None

class Group(LoopContract):
    """invariant: the name of the current output is empty (or None) iff no file so far has GPS; then the
    counter is 0; otherwise it names output counter - 1; the noted presence of GPS is that of the files
    seen. The variables are found by the part they play: a flag that is empty at first, a number that
    is 0 at first, and a flag per file (or one for the previous file)"""
    def __init__(self, box): self.b = box
    def owns(self, v): return v in (self.out, self.c, self.prev) or v == self.flags and self.aslist
    def entry(self, L, env):
        p, n = self.b['p'], self.b['f'].n
        def one(what, pick, among=L.stored):
            r = [v for v in L.names if v in among and v in env and pick(env[v])]
            if len(r) != 1: raise E.Unsupported(what)
            return r[0]
        p.prove('every file is visited', num(L.n).t == n)
        self.out = one('name of the current output', lambda x: x is None or isinstance(x, (list, str)) and not isinstance(x, SList) and not (isinstance(x, str) and E.SEP0 in x) and len(x) == 0)
        self.c = one('number of outputs', lambda x: type(x) in (int, Num))
        p.prove('numbering starts at 0', num(env[self.c]).t == 0)
        fl = [v for v in L.names if isinstance(env.get(v), (Arr, SList))]
        self.prev = None
        if len(fl) == 1:
            self.flags = fl[0]; self.aslist = isinstance(env[fl[0]], SList)
            j = z3.Int(p.fresh('j')); p.assume(z3.And(j >= 0, j < n))
            x = env[self.flags].at(j)
            self.isbool = isinstance(x, (bool, SBool))
            p.prove('no GPS noted yet', self.no(x))
        elif not fl:
            self.flags, self.aslist = None, False
            self.prev = one('presence of GPS in the previous file', lambda x: type(x) in (bool, SBool))
            p.prove('no GPS noted yet', self.no(env[self.prev]))
        else: raise E.Unsupported('presence of GPS')
    def yes(self, x): return tobool(x) if isinstance(x, (bool, SBool)) else tobool(x == 1)
    def no(self, x): return z3.Not(tobool(x)) if isinstance(x, (bool, SBool)) else tobool(x == 0)
    def havoc(self, L, v, val):
        b, p = self.b, self.b['p']
        G, k = b['f'].G, L.k.t
        if v == self.out:
            if p.choose(2): 
                b['cur'] = z3.Int(p.fresh('current')); b['started'] = True
                return 'OUTDIR/FILE' + E.strtoken(Num(b['cur']), '04d') + '.SN7'
            b['started'] = False
            self.empty = val
            return [] if isinstance(val, list) else val
        if v == self.c: return E.fresh_int('counter')
        if v == self.prev: return SBool(z3.And(k > 0, G(k - 1)))
        if v == self.flags and self.aslist:
            return SList(b['f'].n, lambda i: (lambda g: SBool(g) if self.isbool else Num(z3.If(g, 1, 0)))(z3.And(i < k, G(i))))
        return NotImplemented
    def assume(self, L, env, k):
        b, p = self.b, self.b['p']
        f, G, k = b['f'], b['f'].G, k.t
        if not b['started']:
            p.assume(num(env[self.c]).t == 0)
            p.universal(lambda i: z3.Implies(z3.And(i >= 0, i < k), z3.Not(G(i))), f.n)
        else:
            p.assume(z3.And(k >= 1, b['cur'] == num(env[self.c]).t - 1, b['cur'] >= 0))
        if self.flags and not self.aslist:
            hg = env[self.flags]._frozen()
            p.universal(lambda i: z3.Implies(z3.And(i >= 0, i < k), z3.And(self.yes(hg(i)) == G(i), self.no(hg(i)) == z3.Not(G(i)))), f.n)
            p.universal(lambda i: z3.Implies(z3.And(i >= k, i < f.n), self.no(hg(i))), f.n)
        f.link(k)
        b['ev'].clear()
        b['counter'] = num(env[self.c]).t
    def end(self, L, env, k1):
        b, p = self.b, self.b['p']
        f, G, k, ev = b['f'], b['f'].G, z3.simplify(k1.t - 1), b['ev']
        p.inputs['gps'] = [SBool(G(z3.IntVal(i))) for i in range(6)]; p.inputs['k'] = Num(k)
        one = lambda kind: z3.BoolVal(len(ev) == 1 and ev[0][0] == kind)
        gk = p.decide(G(k))
        pk = b['started'] and p.decide(G(k - 1))
        c1 = num(env[self.c]).t
        out = env[self.out]
        p.index(k - 1, f.n); p.index(k, f.n)
        noted = env[self.flags].at(k) if self.flags else env[self.prev]
        p.prove('file list and presence of GPS stay aligned', z3.And(self.yes(noted) == G(k), self.no(noted) == z3.Not(G(k))))
        if self.aslist:
            j = z3.Int(p.fresh('j')); x = env[self.flags].at(j)
            p.prove('presence of GPS in other files stays as noted', z3.Implies(z3.And(j >= 0, j < f.n, j != k), self.yes(x) == z3.And(j < k, G(j))))
        if not b['started'] and not gk:
            p.cover('skip')
            p.prove('leading files without GPS are dropped', z3.BoolVal(not ev and (out is None if self.empty is None else isinstance(out, (list, str)) and len(out) == 0)))
            p.prove('dropped files take no number', c1 == 0)
            return
        if not b['started'] or (gk and pk):
            p.cover('new' if b['started'] else 'first')
            p.prove('a new output is started by copying the file', one('copy'))
            if len(ev) != 1 or ev[0][0] != 'copy': return
            n = outnum(ev[0][2])
            if n is None: raise E.Unsupported('name of an output')
            p.prove('the file itself is copied', ev[0][1].k == k)
            p.prove('outputs are numbered consecutively', n == b['counter'])
            p.prove('the next output gets the next number', c1 == b['counter'] + 1)
            m = outnum(out)
            p.prove('the new output becomes the current one', z3.BoolVal(False) if m is None else m == n)
        else:
            p.cover('append after GPS-less' if gk else 'append without GPS')
            p.prove('the file is appended, once', one('append'))
            if len(ev) != 1 or ev[0][0] != 'append': return
            n, m = outnum(ev[0][2]), outnum(out)
            if n is None or m is None: raise E.Unsupported('name of an output')
            p.prove('the file itself is appended', ev[0][1].k == k)
            p.prove('appended to the current output', n == b['cur'])
            p.prove('re-based on the previous file', ev[0][3].k == k - 1)
            p.prove('the current output stays', z3.And(m == b['cur'], c1 == b['counter']))

# ------------------------------------------------------------------ AppendFile
class Input(Opened):
    pass
class Output:
    def __init__(self, b, mode):
        self.b, self.mode, self.pos = b, mode, 'end' if 'a' in mode else 'start'
    def __enter__(self): return self
    def __exit__(self, *a): pass
    def close(self): pass
    def seek(self, off, whence=0):
        b = self.b
        if whence == 2 and off == 0: self.pos = 'end'; return Num(b['size'])
        if whence == 2 and off == -1:
            b['p'].prove('not before the start of the output', b['size'] > 0)
            self.pos = 'last'; return Num(b['size'] - 1)
        raise E.Unsupported('seek')
    def tell(self):
        if self.pos == 'end': return Num(self.b['size'])
        raise E.Unsupported('tell')
    def read(self, n=-1):
        if self.pos == 'last' and n in (1, -1) and '+' in self.mode: self.pos = 'end'; return LastByte(self.b['last'])
        raise E.Unsupported('read')
    def write(self, x):
        if 'a' not in self.mode and self.pos != 'end': raise E.Unsupported('write elsewhere than at the end')
        self.b['w'].append(x)
    def __getattr__(self, k): E.noattr(k, 'a file')
class LastByte:
    def __init__(self, t): self.t = t
    def __eq__(self, o):
        if isinstance(o, bytes) and len(o) == 1: return SBool(self.t == o[0])
        return SBool(False)
    def __ne__(self, o): return ~(self == o)
    __hash__ = None

class Table:
    def __init__(self, b): self.b = b
    def __getitem__(self, k):
        if k == 'data': return self
        if isinstance(k, tuple) and k == (-1, 1): return Num(z3.ToReal(self.b['end']))
        raise E.Unsupported('other parts of the previous file')
    def __getattr__(self, k): E.noattr(k, 'the previous file')

def append(p, mod, box, hold, v):
    box.clear()
    diff = v not in ('0.8', '0.85')
    size, last, end = z3.Int('out_size'), z3.Int('out_last_byte'), z3.Int('previous_end')
    p.assume(z3.And(size >= 1, last >= 0, last < 256))
    box.update(p=p, size=size, last=last, end=end, w=[], loop=None, v=v, diff=diff, n=z3.Function('n_lines', I, I)(z3.IntVal(1)))
    infile, outfile, prev = Ref(z3.IntVal(1)), 'OUTDIR/FILE0003.SN7', Ref(z3.IntVal(0))
    def op(name, mode='r', *a, **k):
        if name == outfile:
            if 'b' not in mode: raise E.Unsupported('text mode')
            p.prove('the output is extended, not replaced', z3.BoolVal('a' in mode or mode in ('rb+', 'r+b')))
            return Output(box, mode)
        p.prove('the appended file is read', z3.BoolVal(name is infile and mode in ('rb', 'r', 'rt')))
        if mode != 'rb': raise E.Unsupported('text mode')
        return Opened(box, infile, mode)
    def ver(f):
        p.prove('the format of the appended file decides', z3.BoolVal(f is infile or f is prev)); return v
    def single(f, offset=0, require_gps=True, version='0.9'):
        p.prove('the previous input is read', z3.BoolVal(f is prev))
        p.prove('the previous input may lack GPS', z3.BoolVal(require_gps is False))
        p.prove('it is read by the rules of its format', z3.BoolVal(version in ('0.85C', '0.9', '1.10')))
        return Table(box)
    def parse(l):
        if not isinstance(l, Line): raise E.Unsupported('line')
        if p.decide(l.data): return Millis(l), Num(l.adc)
        return None, None
    hold.update(open=op, version=ver, single=single, parse=parse)
    mod['AppendFile'](infile, outfile, prev)
    p.prove('the lines of the file are appended', z3.BoolVal(box['loop'] is not None))
    p.cover('done')

class Append(LoopContract):
    """invariant: found_data iff a data line was met; everything but the header so far is in the output"""
    def __init__(self, box, i): self.b, self.i = box, i
    def entry(self, L, env):
        b, p = self.b, self.b['p']
        p.prove('one pass over the file', z3.BoolVal(b['loop'] is None and L.n is not None)); b['loop'] = self
        if b['diff']: p.prove('no data line met yet', z3.BoolVal(env['found_data'] is False))
        w = b['w']
        ok = len(w) == 0 or len(w) == 1 and w[0] == b'\n'
        p.prove('nothing but a line end comes first', z3.BoolVal(ok))
        p.cover('unfinished' if w else 'finished')
        if w: p.prove('no blank is inserted after a finished line', b['last'] != 10)
        else: p.prove('an unfinished line of the output is finished', b['last'] == 10)
    def havoc(self, L, v, val):
        if v == 'found_data':
            b = self.b
            b['found0'] = z3.Bool(b['p'].fresh('found')); return SBool(b['found0'])
        return NotImplemented
    def owns(self, v): return v == 'found_data'
    def assume(self, L, env, k): self.b['w'].clear()
    def begin(self, L, env, x): self.b['line'] = x
    def end(self, L, env, k1):
        b, p, t, w = self.b, self.b['p'], self.b['line'], self.b['w']
        if not isinstance(t, Line): raise E.Unsupported('loop over something else')
        p.inputs.update(first=Num(t.c0), data=SBool(t.data), value=Num(t.adc), previous_end=Num(b['end']))
        mine = z3.And(t.f == 1, t.i == num(k1).t - 1)
        p.prove('lines in order', mine)
        first = z3.BoolVal(False)
        if b['diff']:
            f0 = b.get('found0')
            if f0 is None: raise E.Unsupported('found_data')
            first = z3.And(t.data, z3.Not(f0))
            p.prove('the first data line is recognised once', tobool(env['found_data'] if not isinstance(env['found_data'], bool) else SBool(env['found_data'])) == z3.Or(f0, t.data))
            if not p.decide(f0): p.cover('before data')
        if p.decide(first):
            p.cover('re-based')
            p.prove('the re-based line is written once', z3.BoolVal(len(w) == 1))
            if len(w) != 1: return
            if w[0] is t: p.prove('the first data line is re-based', z3.BoolVal(False)); return
            s = w[0].decode('latin-1') if isinstance(w[0], bytes) else w[0].s if isinstance(w[0], E.SBytes) else w[0]
            ps = E.strparts(s)
            ok = len(ps) == 5 and ps[0] == 'D' and ps[2] == ',' and ps[4] == '\n' and isinstance(ps[1], tuple) and isinstance(ps[3], tuple) and isinstance(ps[1][0], Millis) and ps[1][1] == 'raw%s' and ps[3][1] == 'd'
            if not ok: raise E.Unsupported('re-based line')
            p.prove('the re-based line keeps its count', z3.BoolVal(ps[1][0].l is t))
            p.prove('the re-based line is relative to the end of the previous file', num(ps[3][0]).t + b['end'] == t.adc)
            return
        if not w:
            p.cover('header')
            p.prove('only lines that hold no row are dropped', z3.And(z3.Not(t.data), t.c0 != 71, t.c0 != 77, t.c0 != 68, z3.Or(t.c0 < 97, t.c0 > 122)))
            return
        p.cover('verbatim')
        p.prove('other lines are appended unchanged', z3.BoolVal(len(w) == 1 and w[0] is t))

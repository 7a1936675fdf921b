"""C15 - compacting a raw file loses nothing."""
import z3
from vc import engine as E
from vc.engine import Num, SBool, cur, num, same, tobool
from vc.loader import LoopContract

EXPLAIN = ('_convert_raw_091_110 proved for files of any number of lines of any content: every line written decodes (by the grammar of C01) to the row and running count of the line read, '
           'under the invariant that the converter knows the reader\'s running count or encodes nothing relative to it; the decoding of both files is C01, rebuilt and compared on real files by the oracle')
NEEDS_EXT = True
FORMATS = ('0.85C', '0.9', '0.91')

class Text:
    """line k of the input. canon: the line is exactly D<count>,<difference> in plain decimal"""
    def __init__(self, p, k):
        self.p, self.k = p, k
        f = lambda n, s: z3.Function('line_' + n, z3.IntSort(), s)(k)
        I, B, R = z3.IntSort(), z3.BoolSort(), z3.RealSort()
        self.c0, self.canon, self.ms, self.val = f('c0', I), f('canon', B), f('ms', I), f('val', I)
        self.comma, self.ok0, self.ok1, self.i0, self.i1 = f('comma', B), f('ok0', B), f('ok1', B), f('i0', I), f('i1', I)
        self.head = f('head', B)
        p.assume(z3.And(self.c0 >= 0, self.c0 < 256))
        p.assume(z3.Implies(self.canon, z3.And(self.c0 == 68, self.comma, self.ok0, self.ok1, self.i0 == self.ms, self.i1 == self.val)))
        p.assume(z3.Implies(self.head, self.c0 == 35))
    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.start in (None, 0) and i.step is None and isinstance(i.stop, int): return Head(self, i.stop)
            raise E.Unsupported('part of a line')
        if i == 0: return Char(self.c0)
        raise E.Unsupported('character of a line')
    def startswith(self, s): return Head(self, len(s)) == s
    def split(self, sep=None, *a):
        if sep != ',' or a: raise E.Unsupported('split')
        return Fields(self)
    def rstrip(self, s=None):
        return Body(self, s)
    def __getattr__(self, k): E.noattr(k, 'a line')
class Head:
    def __init__(self, t, n): self.t, self.n = t, n
    def __eq__(self, s):
        if isinstance(s, str) and len(s) == self.n:
            if s == '#GemCSV': return SBool(self.t.head)
            if self.n == 1: return SBool(self.t.c0 == ord(s))
        if isinstance(s, str) and self.n != len(s) and self.n < len(s): return SBool(z3.BoolVal(False))
        raise E.Unsupported('comparison of the start of a line')
    def __ne__(self, s): return ~(self == s)
    __hash__ = None
class Char:
    def __init__(self, t): self.t = t
    def _o(self, o):
        if isinstance(o, str) and len(o) == 1: return z3.IntVal(ord(o))
        if isinstance(o, Char): return o.t
        raise E.Unsupported('comparison of a character')
    def __eq__(self, o): return SBool(self.t == self._o(o)) if not (isinstance(o, str) and len(o) != 1) else SBool(z3.BoolVal(False))
    def __ne__(self, o): return ~(self == o)
    def __lt__(self, o): return SBool(self.t < self._o(o))
    def __le__(self, o): return SBool(self.t <= self._o(o))
    def __gt__(self, o): return SBool(self.t > self._o(o))
    def __ge__(self, o): return SBool(self.t >= self._o(o))
    def vc_ord(self): return Num(self.t)
    def islower(self): raise E.Unsupported('islower')
    __hash__ = None
class Fields:
    def __init__(self, t): self.t = t
    def vc_len(self):
        p, n = self.t.p, z3.Int(self.t.p.fresh('fields')); p.assume(z3.And(n >= 1, (n >= 2) == self.t.comma)); return Num(n)
    def __getitem__(self, i):
        if i == 0: return Field(self.t, 0, 0)
        if i == 1:
            if not self.t.p.decide(self.t.comma): raise E.mark(IndexError('list index out of range'))
            return Field(self.t, 1, 0)
        raise E.Unsupported('field of a line')
class Field:
    def __init__(self, t, j, frm): self.t, self.j, self.frm = t, j, frm
    def __getitem__(self, s):
        if isinstance(s, slice) and s.start == 1 and s.stop is None and self.frm == 0 and self.j == 0: return Field(self.t, 0, 1)
        raise E.Unsupported('part of a field')
    def __eq__(self, o): raise E.Unsupported('comparison of a field')
    __hash__ = None
    def vc_int(self):
        if (self.j, self.frm) not in ((0, 1), (1, 0)): raise E.Unsupported('int of a field')
        ok, v = (self.t.ok0, self.t.i0) if self.j == 0 else (self.t.ok1, self.t.i1)
        if not self.t.p.decide(ok): raise E.mark(ValueError('invalid literal for int()'))
        return Num(v)
    def __getattr__(self, k): E.noattr(k, 'a field')
class Body:
    """the line without its line end"""
    def __init__(self, t, s): self.t, self.s = t, s
    def __eq__(self, o):
        if self.s not in ('\r\n', '\n\r') : raise E.Unsupported('stripped line')
        ps = E.strparts(o)
        if len(ps) == 4 and ps[0] == 'D' and ps[2] == ',' and all(isinstance(ps[i], tuple) and ps[i][1] in ('d', '') for i in (1, 3)):
            return SBool(z3.And(self.t.canon, self.t.ms == num(ps[1][0]).t, self.t.val == num(ps[3][0]).t))
        raise E.Unsupported('comparison of a line')
    def __ne__(self, o): return ~(self == o)
    def __getattr__(self, k): E.noattr(k, 'a line')
    __hash__ = None

LATIN = ('latin-1', 'latin1', 'iso-8859-1', 'latin_1')
class File:
    def __init__(self, b, name, mode, k):
        self.b, self.name, self.mode, self.kw = b, name, mode, k
        self.closed = False
    def __enter__(self): return self
    def __exit__(self, *a): self.closed = True
    def close(self): self.closed = True
    def symlen(self): return self.b['n'] if self.b['in'] is self else None
    def symget(self, i):
        t = Text(self.b['p'], z3.simplify(num(i).t)); self.b['line'] = t; return t
    def write(self, x):
        b = self.b
        b['p'].prove('only the output is written', z3.BoolVal(self.b['out'] is self and not self.closed))
        b['w'].append(x)
    def __getattr__(self, k): E.noattr(k, 'a file')

def prove(pr):
    pr.assume_note('decoding of a line is the grammar proved for the reader (C01): a line D<count>,<difference> gives that row and becomes the running count; any line starting neither with D nor with a small letter leaves the running count alone',
                   'latin-1 text with untranslated line ends writes back exactly the bytes read')
    box, hold = {}, {}
    st = {'open': lambda *a, **k: hold['open'](*a, **k)}
    core = type('core', (), {'_read_format_version': staticmethod(lambda f: hold['version'](f))})
    gem = type('gemlog', (), {'core': core})
    mod = pr.module('gemlog_aux', stubs=st, extra={'gemlog': gem, 'gemlog.core._read_format_version': lambda f: hold['version'](f)}, loops={'_convert_raw_091_110#for0': Rewrite(box)})
    for v in FORMATS + ('0.8', '0.85', '1.10', '0.95', '', 'junk'):
        pr.run(f'_convert_raw_091_110[{v or "no version"}]', lambda p, v=v: conv(p, mod, box, hold, v), ['gemlog.gemlog_aux._convert_raw_091_110'],
               covers=['compact', 'verbatim', 'head', 'no header', 'done', 'unknown running count'] if v in FORMATS else ['refused'])

def conv(p, mod, box, hold, v):
    box.clear()
    n = z3.Int('n_lines'); p.assume(n >= 0)
    box.update(p=p, n=n, w=[], line=None)
    box['in'] = box['out'] = None
    def ver(f):
        p.prove('the format of the input is examined', z3.BoolVal(f == 'IN')); return v
    def op(name, mode='r', *a, **k):
        if a: raise E.Unsupported('open with buffering')
        f = File(box, name, mode, k)
        if mode in ('r', 'rt'):
            p.prove('the input is read', z3.BoolVal(name == 'IN')); box['in'] = f
        elif mode in ('w', 'wt'):
            p.prove('the output is written afresh', z3.BoolVal(name == 'OUT'))
            p.prove('input in another format is refused before anything is written', z3.BoolVal(v in FORMATS)); box['out'] = f
        else: raise E.Unsupported('open mode ' + str(mode))
        e, nl = k.get('encoding'), k.get('newline')
        p.prove('every byte of a line is kept', z3.BoolVal((e in LATIN or (e in ('utf-8', 'utf8', 'ascii') and k.get('errors') == 'surrogateescape')) and nl in ('', '\n')))
        return f
    hold.update(open=op, version=ver)
    try: mod['_convert_raw_091_110']('IN', 'OUT')
    except E.Signal: raise
    except Exception as e:
        if not getattr(e, '_vc_ok', False): raise
        if box['line'] is None:
            p.cover('refused'); p.prove('refused only in another format', z3.BoolVal(v not in FORMATS))
        else:
            t = box['line']
            p.cover('no header')
            p.prove('refused only without a raw-file header', z3.And(t.k == 0, z3.Not(t.head)))
        return
    p.prove('input in another format is refused', z3.BoolVal(v in FORMATS))
    p.cover('done')

class Rewrite(LoopContract):
    """invariant: the running counts of the reader on input and output agree (prev), and millis_current
    is that count or None"""
    def __init__(self, box): self.b = box
    def owns(self, v): return v == 'millis_current'
    def entry(self, L, env):
        p = self.b['p']
        m = env['millis_current']
        p.prove('the running count starts as the reader\'s', z3.BoolVal(True) if m is None else E.real(num(m).t) == 0)
        p.prove('nothing is written before the first line', z3.BoolVal(not self.b['w']))
    def havoc(self, L, v, val):
        b, p = self.b, self.b['p']
        if v == 'millis_current':
            if p.choose(2, 'unknown running count'):
                return None
            m = z3.Int(p.fresh('millis')); p.assume(z3.And(m >= 0, m < 8192)); return Num(m)
        return NotImplemented
    def assume(self, L, env, k):
        b, p = self.b, self.b['p']
        b['prev'] = z3.Real(p.fresh('prev'))
        m = env['millis_current']
        if m is not None: p.assume(b['prev'] == E.real(num(m).t))
        b['w'].clear()
    def begin(self, L, env, x):
        self.b['start_none'] = env['millis_current'] is None
    def end(self, L, env, k1):
        b, p = self.b, self.b['p']
        t, prev = b['line'], b['prev']
        p.inputs['first_char'] = Num(t.c0); p.inputs['count'] = Num(t.ms); p.inputs['difference'] = Num(t.val); p.inputs['running'] = Num(prev); p.inputs['canonical'] = SBool(t.canon)
        F = z3.Function('reader_count', z3.IntSort(), z3.RealSort(), z3.RealSort())
        nxt = z3.If(t.canon, z3.ToReal(t.ms), z3.If(z3.Or(t.c0 == 68, z3.And(t.c0 >= 97, t.c0 <= 122)), F(t.k, prev), prev))
        w = b['w']
        m = env['millis_current']
        if p.decide(t.k == 0):
            p.cover('head')
            p.prove('a file without a header is refused', t.head)
            txt = ''.join(w) if all(isinstance(x, str) for x in w) else None
            p.prove('the header names format 1.10', z3.BoolVal(txt is not None and txt.startswith('#GemCSV1.10\n')))
            p.prove('header lines are comments', z3.BoolVal(txt is not None and E.SEP0 not in txt and txt.endswith('\n') and all(l.startswith('#') for l in txt[:-1].split('\n'))))
        elif len(w) == 1 and w[0] is t:
            p.cover('verbatim')
            if b['start_none']: p.cover('unknown running count')
        else:
            p.prove('something is written for every line', z3.BoolVal(bool(w)))
            if not all(isinstance(x, str) for x in w): raise E.Unsupported('rewritten line')
            ps = E.strparts(''.join(w))
            ok = len(ps) in (2, 3) and ps[-1] == '\n' and all(isinstance(x, tuple) and x[1] == 'chr' or isinstance(x, str) and len(x) == 1 for x in ps[:-1])
            p.prove('a rewritten line is a compact line', z3.BoolVal(ok))
            if not ok: return
            p.cover('compact')
            cs = [num(x[0]).t if isinstance(x, tuple) else z3.IntVal(ord(x)) for x in ps[:-1]]
            for c in cs: p.prove('compact lines consist of small letters', z3.And(c >= 97, c <= 122))
            p.prove('only a plain data line is rewritten', t.canon)
            p.prove('the difference decodes to itself', cs[-1] - 109 == t.val)
            x = prev + 10 + (z3.ToReal(cs[0]) - 109 if len(cs) == 2 else 0)
            p.prove('the count decodes to itself', x - 8192 * z3.ToReal(z3.ToInt(x / 8192)) == z3.ToReal(t.ms))
        p.prove('the running count is the reader\'s or unknown', z3.BoolVal(True) if m is None else z3.And(E.real(num(m).t) == nxt, num(m).t >= 0, num(m).t < 8192))

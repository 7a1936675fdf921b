"""C01 - every raw log line decodes to exactly its own row (formats 0.85C and later)."""
import z3
from vc import engine as E
from vc import pyx
from vc.engine import Num, SBool, cur, num, same, tobool
from vc.arrays import Arr, Arr2, SEnum, SOpaque, zlen
from vc.npmodel import NpModel
from vc.loader import LoopContract
from vc.libmodels import Models
from vc.pdmodel import SDF

EXPLAIN = ('parse_gemfile is translated mechanically from parsers.pyx on every run and its line loop proved by an invariant: whatever was read before and whatever this line holds, '
           'the row written is the one the grammar assigns to this line alone (plus the running count), or nothing is written; the reader that builds the table is proved over its contract')
NEEDS_EXT = True
NCOL = 11
G_TYPES = 'ffdddddfff'
M_TYPES = 'fffffddddddd'

class Table:
    """ghost of an output array: which cells were written, in order"""
    def __init__(self, p, n, ncol): self.p, self.n, self.ncol, self.w, self._ver = p, n, ncol, [], 0
    def _row(self, i):
        i = num(i).t
        if not self.p.decide(z3.And(i >= -E.num(self.n).t, i < E.num(self.n).t)): raise E.mark(IndexError('Out of bounds on buffer access'))
        return i
    def __setitem__(self, k, v):
        if self.ncol is None: self.w.append((self._row(k), None, v)); return
        if not (isinstance(k, tuple) and len(k) == 2 and isinstance(k[1], int)): raise E.Unsupported('table assignment')
        i = self._row(k[0])
        if not 0 <= k[1] < self.ncol: raise E.mark(IndexError('Out of bounds on buffer access (axis 1)'))
        self.w.append((i, k[1], num(v)))
    def __getitem__(self, k):
        rows = k[0] if isinstance(k, tuple) else k
        full = not isinstance(k, tuple) or (len(k) == 2 and k[1] == slice(None))
        if isinstance(rows, slice) and rows.start in (None, 0) and rows.step is None and full: return Cut(self, rows.stop)
        raise E.Unsupported('reading the output table')
    def last(self, row, col):
        """value last written to the cell, or None; refuses writes whose row is not decided"""
        v = None
        for i, c, x in self.w:
            if c != col: continue
            if self.p.check(i != row) == z3.unsat: v = x
            elif self.p.check(i == row) != z3.unsat: raise E.Unsupported('write to an undecided row')
        return v
    def symlen(self): return None
    __hash__ = object.__hash__
class Cut:
    def __init__(self, t, n): self.t, self.n = t, n

class Np(NpModel):
    def __init__(self): NpModel.__init__(self); self.__dict__['p_'] = None; self.zeros = self._zeros
    def bind(self, p): self.__dict__['p_'] = p
    def _zeros(self, shape, dtype=None, **k):
        p = self.__dict__['p_']
        if isinstance(shape, tuple): return Table(p, shape[0], int(shape[1]))
        return Table(p, shape, None)

VIEWS = ('view', 'type_view', 'millis_view', 'result_array', 'result_linetypes', 'result_millis')

def prove(pr):
    pr.assume_note('fgets, sscanf, fopen and the C scalar types behave as the C standard says (contracts in vc/pyx.py); Cython compiles the translated subset with Python arithmetic (no cdivision directive is present)',
                   'a raw file is text: no zero bytes inside a line, carriage returns only at line ends; doubles are exact',
                   'a line is well-formed when its fields parse in the documented order; what follows the last field is not constrained')
    src = pr.source('gemlog/parsers.pyx')
    box = {}
    try: text, tree = pyx.translate(src)
    except E.Unsupported as e:
        why = str(e)
        def no(p): raise E.Unsupported(why)
        pr.run('parse_gemfile', no, ['gemlog.parsers.parse_gemfile']); tree = None
    if tree is not None:
        np_ = Np()
        names = ('fopen', 'fgets', 'fclose', 'sscanf', 'feof')
        stubs = {n: (lambda *a, n=n: getattr(box['c'], n)(*a)) for n in names}
        stubs['NULL'] = None; stubs['sizeof'] = lambda x: x.size
        class C:
            pure = staticmethod(pyx.pure)
            def __getattr__(self, k): return getattr(box['c'], k)
        stubs['__c'] = C()
        mod = pr.module('parsers', source=text, tree=tree, extra={'numpy': np_}, stubs=stubs, loops={'parse_gemfile#while0': Lines(box)})
        pr.run('parse_gemfile', lambda p: parse(p, mod, np_, box), ['gemlog.parsers.parse_gemfile'],
               covers=['letter', 'two letters', 'difference', 'count and difference', 'fix', 'metadata', 'nothing', 'returned', 'missing file', 'table full', 'rest of a long line'])
    hold = {}
    class P2:
        def __getattr__(self, k): E.noattr(k, 'gemlog.parsers')
    core = pr.module('core', extra={'gemlog.parsers': type('M', (), {'parse_gemfile': staticmethod(lambda *a, **k: hold['pg'](*a, **k))})})
    for require in (True, False):
        pr.run(f'_read_with_cython[require_gps={require}]', lambda p, r=require: reader(p, core, hold, r), ['gemlog.core._read_with_cython'], covers=['table', 'retry', 'empty'])

def parse(p, mod, np_, box):
    np_.bind(p)
    n_row = E.fresh_int('n_row'); p.assume(z3.And(n_row.t >= 1, n_row.t < 2**62))
    box.clear()
    end = lambda: bool(p.choose(2, 'end of file'))
    c = pyx.CLib(p, end)
    box.update(c=c, p=p, n_row=n_row)
    name = b'raw'
    try: r = mod['parse_gemfile'](name, n_row=n_row)
    except FileNotFoundError:
        p.cover('missing file')
        p.prove('refused as missing only when it cannot be opened', z3.BoolVal(c.opened == 1 and not hasattr(c, 'handle'))); return
    except IndexError:
        p.cover('table full')
        p.prove('the reader gives up only when the table is full', box['rows'].t >= n_row.t if 'rows' in box else z3.BoolVal(False)); return
    p.cover('returned')
    p.prove('the requested file is read', z3.BoolVal(getattr(c, 'name', None) is name))
    p.prove('the whole file was read', z3.BoolVal(box.get('eof', False) or c.chunk is None))
    if not (isinstance(r, tuple) and len(r) == 3 and all(isinstance(x, Cut) for x in r)): raise E.Unsupported('result of parse_gemfile')
    v, t, m = r
    views = box['views']
    p.prove('values are returned first', z3.BoolVal(v.t is views['view']))
    p.prove('line types are returned second', z3.BoolVal(t.t is views['type_view']))
    p.prove('counts are returned third', z3.BoolVal(m.t is views['millis_view']))
    for x in r: p.prove('exactly the decoded rows are returned', same(x.n, box['rows']))

class Lines(LoopContract):
    """invariant: line_number rows decoded so far, prev_dD_millis is the count of the last data line,
    and line_continues tells whether the buffer was filled before the line ended"""
    def __init__(self, box): self.b = box
    def owns(self, v): return v in VIEWS
    def entry(self, L, env):
        p = self.b['p']
        p.prove('no row at first', num(env['line_number']).t == 0)
        p.prove('the running count starts at zero', E.real(num(env['prev_dD_millis']).t) == 0)
        for v in ('line_number', 'prev_dD_millis', 'line_continues'):
            if v not in env: raise E.Unsupported('state of the line loop: ' + v)
        p.prove('the file starts with a new line', z3.Not(tobool(env['line_continues'])))
        # candidate invariants: cells of the line buffer that hold zero whenever a line is read
        cand = p.run.__dict__.setdefault('zero_cells', None)
        if cand is None:
            cand = p.run.zero_cells = {(v, i) for v, b in env.items() if isinstance(b, pyx.Buf) for i in (b.size - 1, b.size - 2)}
        for v, i in sorted(cand):
            if not isinstance(env.get(v), pyx.Buf) or p.check(env[v].get(z3.IntVal(i)) != 0) != z3.unsat: cand.discard((v, i))
        for v in ('view', 'type_view', 'millis_view'):
            if not isinstance(env[v], Table): raise E.Unsupported(v)
        self.b['views'] = {v: env[v] for v in ('view', 'type_view', 'millis_view')}
        p.prove('values have eleven columns', z3.BoolVal(env['view'].ncol == NCOL))
    def havoc(self, L, v, val):
        if v in VIEWS and isinstance(val, Table): return val
        if v == 'line_number': return E.fresh_int('rows')
        if v == 'prev_dD_millis': return E.fresh_real('prev')
        if v == 'line_continues': return E.fresh_bool('cont')
        return NotImplemented
    def assume(self, L, env, k):
        b, p = self.b, self.b['p']
        for t in b['views'].values(): t.w.clear()
        b['rows'], b['prev'], b['cont'] = num(env['line_number']), num(env['prev_dD_millis']), tobool(env['line_continues'])
        p.assume(z3.And(b['rows'].t >= 0, b['rows'].t <= b['n_row'].t))
        b['c'].chunk = None
        for v, i in p.run.zero_cells: p.assume(env[v].get(z3.IntVal(i)) == 0)
        p.inputs['prev_millis'] = b['prev']
    def end(self, L, env, k1):
        b, p, c = self.b, self.b['p'], self.b['c']
        k = c.chunk
        for v, i in sorted(p.run.zero_cells):
            if p.check(env[v].get(z3.IntVal(i)) != 0) != z3.unsat: p.run.zero_cells.discard((v, i)); raise E.Restart()
        if k is None: raise E.Unsupported('an iteration without a line')
        buf = c.line
        s = pyx.Scan(buf)
        ch = lambda i: buf.char(z3.IntVal(i) if isinstance(i, int) else i)
        p.inputs['line'] = [Num(ch(i)) for i in range(6)]
        p.inputs['length'] = Num(k.L)
        rows, prev = b['rows'].t, E.real(b['prev'].t)
        cont = b['cont']
        low = lambda x: z3.And(x >= 97, x <= 122)
        eol = lambda x: z3.Or(x == 0, x == 10, x == 13)
        c0, c1 = ch(0), ch(1)
        c2 = z3.If(k.L >= 2, ch(2), z3.IntVal(0))
        new = z3.Not(cont)
        def mod(x): return x - 8192 * z3.ToReal(z3.ToInt(x / 8192))
        R = lambda x: z3.ToReal(x) if x.sort() == z3.IntSort() else x
        kinds = []
        one = z3.And(new, low(c0), eol(c1))
        kinds.append(('letter', one, 68, mod(prev + 10), [R(c0 - 109)]))
        two = z3.And(new, low(c0), low(c1), eol(c2))
        kinds.append(('two letters', two, 68, mod(prev + 10 + R(c0) - 109), [R(c1 - 109)]))
        ok, x, e = s.LF(z3.IntVal(1))
        sep = ch(e)
        dok, dv, de = s.D(e + 1)
        kinds.append(('difference', z3.And(new, c0 == 68, ok, eol(sep)), 68, mod(prev + 10), [x]))
        kinds.append(('count and difference', z3.And(new, c0 == 68, ok, sep == 44, dok), 68, x, [R(dv)]))
        for what, code, types in (('fix', 71, G_TYPES), ('metadata', 77, M_TYPES)):
            cond, pos, vals = [new, c0 == code, c1 == 44], z3.IntVal(2), []
            for j, t in enumerate(types):
                if j: cond.append(ch(pos) == 44); pos = pos + 1
                o, v, e2 = s.LF(pos) if t == 'f' else s.D(pos)
                cond.append(o); vals.append(R(v)); pos = e2
            kinds.append((what, z3.And(*cond), code, vals[0], vals[1:]))
        for what, *_ in kinds: pass
        hit = None
        for kd in kinds:
            if p.decide(kd[1]): hit = kd; break
        V, T, M = (b['views'][v] for v in ('view', 'type_view', 'millis_view'))
        for tab in (V, T, M):
            for i, col, x_ in tab.w: p.prove('rows already decoded are never touched', i >= rows)
        ln = num(env['line_number']).t
        if hit is None:
            p.cover('nothing')
            if p.check(z3.Not(cont)) == z3.unsat: p.cover('rest of a long line')
            p.prove('other and malformed lines contribute nothing', ln == rows)
            p.prove('other and malformed lines leave the running count alone', E.real(num(env['prev_dD_millis']).t) == prev)
        else:
            what, cond, code, ms, vals = hit
            p.cover(what)
            p.prove(f'{what}: one row', ln == rows + 1)
            t = T.last(rows, None)
            tv = t.t if isinstance(t, Num) else num(t).t if t is not None else None
            p.prove(f'{what}: type of the row', z3.BoolVal(False) if tv is None else tv == code)
            m = M.last(rows, None)
            p.prove(f'{what}: millisecond count', z3.BoolVal(False) if m is None else E.real(num(m).t) == ms)
            for j, x_ in enumerate(vals):
                v = V.last(rows, j)
                p.prove(f'{what}: value {j}', z3.BoolVal(False) if v is None else E.real(num(v).t) == x_)
            p.prove(f'{what}: running count', E.real(num(env['prev_dD_millis']).t) == (ms if code == 68 else prev))
        p.prove('the rows fit in the table', ln <= b['n_row'].t)
        full = z3.And(k.L == c.size - 1, ch(k.L - 1) != 10)
        p.prove('the rest of a line too long for the buffer is recognised', tobool(env['line_continues']) == full)

def reader(p, core, hold, require):
    n = z3.Int('n_lines'); p.assume(n >= 0)
    fails = [0]
    calls = []
    name = E.strtoken(SOpaque('filename'), '')
    vals = Arr2(n, [Arr.fresh(f'v{c}', n, 'real') for c in range(NCOL)])
    code = z3.Function('linetype', z3.IntSort(), z3.IntSort())
    def mk(i):
        cur().s.fact(z3.Or(code(i) == 68, code(i) == 71, code(i) == 77)); return SEnum(code(i), bytes)
    types = Arr(n, get=mk, tag='linetype')
    ms = Arr.fresh('ms', n, 'real')
    raw = [c._frozen() for c in vals.cols], types._frozen(), ms._frozen()
    def pg(fn, n_row=1560000):
        calls.append(n_row)
        if len(calls) > 3: raise E.Unsupported('more than three attempts')
        if fn != name and fn != name.encode('utf-8'): p.prove('the requested file is parsed', z3.BoolVal(False))
        if p.choose(2, 'table full'): raise E.mark(IndexError('Out of bounds on buffer access'))
        return vals, types, ms
    hold['pg'] = pg
    i = z3.Int('i')
    nogps, empty = core.get('CorruptRawFileNoGPS'), core.get('EmptyRawFile')
    try: df = core['_read_with_cython'](name, require)
    except empty:
        p.cover('empty'); p.prove('empty only without any row', n == 0); return
    except nogps:
        p.assume(z3.And(i >= 0, i < n)); p.index(i, n)
        p.prove('refused for lack of GPS only when GPS is required', z3.BoolVal(require))
        p.prove('refused for lack of GPS only without any GPS line', code(i) != 71); return
    except IndexError:
        p.prove('given up only after trying a larger table', z3.BoolVal(len(calls) > 1 and calls[-1] > calls[0])); return
    p.cover('table'); p.assume(z3.And(i >= 0, i < n))
    if len(calls) > 1: p.cover('retry'); p.prove('a retry uses a larger table', z3.BoolVal(calls[-1] > calls[0]))
    p.prove('one row per line', zlen(df.n) == n)
    for c in range(NCOL):
        p.prove(f'value column {c}', same(df.cols[c + 2].at(i), raw[0][c](i)) if c + 2 in df.cols else z3.BoolVal(False))
    lt = df.cols['linetype'].at(i)
    p.prove('line types', lt.t == raw[1](i).t if isinstance(lt, SEnum) else z3.BoolVal(False))
    p.prove('millisecond counts', same(df.cols['millis-sawtooth'].at(i), raw[2](i)))

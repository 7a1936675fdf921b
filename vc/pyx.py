"""Mechanical translation of a Cython source to a Python syntax tree (on every run), plus contracts
of the C library calls it makes (fopen, fgets, sscanf, fclose).

What the translation changes (nothing else):
  * cimport lines are dropped; `cdef` declarations become assignments (or vanish when they have no
    initial value); an assignment to a C scalar goes through a cast contract of the declared type;
  * `cdef T f(...)` headers become `def f(...)`;
  * `&x` inside a call passes a reference: the call returns the values written through it;
  * sizeof, NULL and the character buffer are objects of this module.
Anything else that is not Python (C casts, nogil blocks, directives, extension types) stops the
translation, and the property falls back to its bounded check."""
import ast, re, z3
from . import engine as E
from .engine import Num, SBool, Unsupported, cur, num, mark
from .arrays import SEnum

SCALAR = {'int': (-2**31, 2**31 - 1), 'long': (-2**63, 2**63 - 1), 'short': (-2**15, 2**15 - 1), 'char': (-128, 127), 'Py_ssize_t': (-2**63, 2**63 - 1), 'bint': None, 'double': None,
          'size_t': (0, 2**64 - 1), 'unsigned int': (0, 2**32 - 1), 'unsigned char': (0, 255)}

def _split(s):
    out, d, cur_ = [], 0, ''
    for ch in s:
        if ch in '([{': d += 1
        if ch in ')]}': d -= 1
        if ch == ',' and d == 0: out.append(cur_); cur_ = ''
        else: cur_ += ch
    return out + [cur_] if cur_.strip() else out

TYPE = r'(?:const\s+)?(?:unsigned\s+int|unsigned\s+char|int|long|short|char|Py_ssize_t|bint|double|size_t|FILE|object)'

def translate(src):
    lines, types = [], {}
    scope, fn = {}, None
    if re.search(r'#\s*(cython|distutils)\s*:', src): raise Unsupported('Cython directives')
    for ln in src.split('\n'):
        m = re.match(r'^(\s*)(.*)$', ln)
        ind, body = m.group(1), m.group(2)
        code = body.split('#')[0].rstrip() if "'" not in body.split('#')[0] else body
        mf = re.match(r'^(?:cdef|cpdef)\s+(?:inline\s+)?(?:' + TYPE + r'\s*\*?|void)\s*(\w+)\s*\((.*)\)\s*(?:nogil|noexcept|except\s*[-?*\d]+|\s)*:\s*$', code) or re.match(r'^def\s+(\w+)\s*\((.*)\)\s*:\s*$', code)
        if mf:
            fn = mf.group(1); types.setdefault(fn, {})
            args = []
            for a in _split(mf.group(2)):
                a = a.strip()
                at = re.match(r'^(' + TYPE + r')\s*(\**)\s*(\w+)\s*(=.*)?$', a)
                if at:
                    if not at.group(2) and at.group(1) in SCALAR: types[fn][at.group(3)] = at.group(1)
                    a = at.group(3) + (at.group(4) or '')
                elif re.match(r'^(double|int|char|float|short|long)\s*\[[:, ]+\]\s*\w+$', a): a = a.split(']')[1].strip()
                args.append(a)
            lines.append(f'{ind}def {fn}({", ".join(args)}):'); continue
        if re.match(r'^(from\s+[\w.]+\s+)?cimport\b', code): lines.append(ind + 'pass' if ind else ''); continue
        if re.match(r'^(cdef|cpdef|ctypedef)\b', code):
            mv = re.match(r'^cdef\s+(double|int|char|short|long|float)\s*\[[:, 1]+\]\s*(\w+)\s*=\s*(.+?);?$', code)
            if mv:
                lines.append(f'{ind}{mv.group(2)} = {mv.group(3)}'); continue
            md = re.match(r'^cdef\s+(' + TYPE + r')\s*(\*?)\s*(.+?);?$', code)
            if not md: raise Unsupported('Cython declaration: ' + code)
            T = md.group(1)
            stm = []
            for d in _split(md.group(3)):
                d = d.strip()
                mb = re.match(r'^(\w+)\s*\[\s*(\d+)\s*\]$', d)
                mi = re.match(r'^(\**)\s*(\w+)\s*(?:=\s*(.+))?$', d)
                if mb:
                    if T != 'char': raise Unsupported('C array: ' + d)
                    stm.append(f'{mb.group(1)} = __c.buffer({mb.group(2)})')
                elif mi:
                    ptr = md.group(2) or mi.group(1)
                    if not ptr and T in SCALAR and fn: types[fn][mi.group(2)] = T
                    if mi.group(3): stm.append(f'{mi.group(2)} = {mi.group(3)}')
                    elif not ptr and T in SCALAR: stm.append(f"{mi.group(2)} = __c.uninit('{T}')")
                else: raise Unsupported('Cython declaration: ' + d)
            lines.append(ind + ('; '.join(stm) or 'pass')); continue
        if ln.lstrip().startswith('#'): lines.append(''); continue
        ln = re.sub(r'&\s*(\w+)(?=\s*[,)])', r'__ref_\1', ln)
        ln = re.sub(r"(?<![\w'])c'([^'\\])'", lambda m: str(ord(m.group(1))), ln)
        lines.append(ln.expandtabs(8))
    text = '\n'.join(lines)
    try: tree = ast.parse(text)
    except SyntaxError as e: raise Unsupported(f'Cython syntax beyond the translation: {e}')
    class T(ast.NodeTransformer):
        def __init__(s): s.fn = []; s.n = 0
        def visit_FunctionDef(s, n):
            s.fn.append(n.name)
            s.generic_visit(n); s.fn.pop()
            ent = [ast.parse(f'{a.arg} = __c.cast("{types[n.name][a.arg]}", {a.arg})').body[0] for a in n.args.args if a.arg in types.get(n.name, {})]
            doc = n.body[:1] if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else []
            n.body = doc + ent + n.body[len(doc):]
            # a helper over scalars has no effects: its branches are merged into one value
            if n.args.args and all(types.get(n.name, {}).get(a.arg) in SCALAR for a in n.args.args) and not n.decorator_list:
                n.decorator_list.append(ast.Attribute(ast.Name('__c', ast.Load()), 'pure', ast.Load()))
            return n
        def ty(s, name): return types.get(s.fn[-1], {}).get(name) if s.fn else None
        def cast(s, t, v): return ast.Call(ast.Attribute(ast.Name('__c', ast.Load()), 'cast', ast.Load()), [ast.Constant(t), v], [])
        def visit_Assign(s, n):
            s.generic_visit(n)
            if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                t = s.ty(n.targets[0].id)
                if t and not (isinstance(n.value, ast.Call) and getattr(n.value.func, 'attr', '') == 'uninit'): n.value = s.cast(t, n.value)
            elif any(isinstance(x, ast.Name) and s.ty(x.id) for t in n.targets for x in ast.walk(t) if isinstance(getattr(x, 'ctx', None), ast.Store)):
                raise Unsupported('multiple assignment to C variables')
            return n
        def visit_AugAssign(s, n):
            s.generic_visit(n)
            if isinstance(n.target, ast.Name) and s.ty(n.target.id):
                return ast.Assign([ast.Name(n.target.id, ast.Store())], s.cast(s.ty(n.target.id), ast.BinOp(ast.Name(n.target.id, ast.Load()), n.op, n.value)))
            return n
        def visit_Call(s, n):
            s.generic_visit(n)
            refs = [a.id[6:] for a in n.args if isinstance(a, ast.Name) and a.id.startswith('__ref_')]
            if not refs: return n
            s.n += 1
            t = f'__t{s.n}'
            pos = [a for a in n.args if not (isinstance(a, ast.Name) and a.id.startswith('__ref_'))]
            if n.args[-len(refs):] != n.args[len(pos):]: raise Unsupported('reference arguments')
            call = ast.Call(n.func, pos + [ast.Tuple([ast.Tuple([ast.Constant(s.ty(r) or '?'), ast.Name(r, ast.Load())], ast.Load()) for r in refs], ast.Load())], [])
            elts = [ast.NamedExpr(ast.Name(t, ast.Store()), call)]
            for i, r in enumerate(refs):
                elts.append(ast.NamedExpr(ast.Name(r, ast.Store()), ast.Subscript(ast.Name(t, ast.Load()), ast.Constant(i + 1), ast.Load())))
            elts.append(ast.Subscript(ast.Name(t, ast.Load()), ast.Constant(0), ast.Load()))
            return ast.Subscript(ast.Tuple(elts, ast.Load()), ast.UnaryOp(ast.USub(), ast.Constant(1)), ast.Load())
    tree = T().visit(tree)
    ast.fix_missing_locations(tree)
    for x in ast.walk(tree):
        if isinstance(x, ast.Name) and x.id.startswith('__ref_'): raise Unsupported('address of a variable')
    return text, tree

# ------------------------------------------------------------------ C side contracts
class Chunk:
    """what one fgets call read: L characters, then a terminating zero"""
    def __init__(self, p):
        nm = p.fresh('line')
        self.L = z3.Int(nm + '_len'); self.f = z3.Function(nm, z3.IntSort(), z3.IntSort())
        self.scan = (z3.Function(nm + '_lfok', z3.IntSort(), z3.BoolSort()), z3.Function(nm + '_lf', z3.IntSort(), z3.RealSort()), z3.Function(nm + '_lfend', z3.IntSort(), z3.IntSort()),
                     z3.Function(nm + '_dok', z3.IntSort(), z3.BoolSort()), z3.Function(nm + '_d', z3.IntSort(), z3.IntSort()), z3.Function(nm + '_dend', z3.IntSort(), z3.IntSort()))

class Buf:
    """a C character buffer"""
    def __init__(self, size, get, chunk=None):
        self.size, self.get, self.chunk, self._ver = size, get, chunk, 0
    def _havoc(self, name):
        g = z3.Function(cur().fresh('buf_' + name), z3.IntSort(), z3.IntSort())
        self.get, self.chunk = (lambda i: g(i)), None
    def char(self, i):
        p = cur()
        c = self.get(i)
        p.assume(z3.And(c >= -128, c <= 127))
        k = self.chunk
        if k is not None:
            # a newline ends the line; a carriage return stands only before the end of the line
            p.assume(z3.Implies(z3.And(i >= 0, i < k.L, c == 10), i == k.L - 1))
            p.assume(z3.Implies(z3.And(i >= 0, i < k.L, c == 13), z3.Or(i == k.L - 1, z3.And(i == k.L - 2, k.f(i + 1) == 10))))
            p.assume(z3.Implies(z3.And(i >= 0, i < k.L), c != 0))
        return c
    def ix(self, i):
        i = z3.simplify(num(i).t)
        cur().prove('the character buffer is accessed within its bounds', z3.And(i >= 0, i < self.size))
        return i
    def __getitem__(self, i): return Num(self.char(self.ix(i)))
    def __setitem__(self, i, v):
        i, v, old = self.ix(i), num(v).t, self.get
        self._ver += 1
        self.get, self.chunk = (lambda j: z3.If(j == i, v, old(j))), None
    def __add__(self, k): return Ptr(self, num(k))
    def symlen(self): return None
    def __eq__(self, o): return o is self
    __hash__ = object.__hash__
class Ptr:
    def __init__(self, buf, off): self.buf, self.off = buf, off
    def __add__(self, k): return Ptr(self.buf, self.off + num(k))
    def __getitem__(self, i): return self.buf[self.off + num(i)]

def pure(f):
    return lambda *a: cur().merged(lambda: f(*a))

class Scan:
    """the scanner of sscanf on the current line, as uninterpreted functions of the position"""
    def __init__(self, buf):
        k = buf.chunk
        if k is None: raise Unsupported('scanning a buffer that was changed after it was read')
        self.b, self.k = buf, k
        self.lfok, self.lfv, self.lfe, self.dok, self.dv, self.de = k.scan
    def end(self, pos):
        """nothing but line end from here"""
        c = self.b.char(pos)
        return z3.Or(c == 0, c == 10, c == 13)
    def LF(self, pos):
        p = cur()
        c = self.b.char(pos)
        ok, e = self.lfok(pos), self.lfe(pos)
        inl = z3.And(pos >= 0, pos <= self.k.L)
        p.assume(z3.Implies(inl, z3.And(z3.Implies(z3.Or(c == 0, c == 10, c == 13), z3.Not(ok)), z3.Implies(ok, z3.And(e > pos, e <= self.k.L)))))
        return ok, self.lfv(pos), e
    def D(self, pos):
        p = cur()
        c = self.b.char(pos)
        ok, e = self.dok(pos), self.de(pos)
        inl = z3.And(pos >= 0, pos <= self.k.L)
        p.assume(z3.Implies(inl, z3.And(z3.Implies(z3.Or(c == 0, c == 10, c == 13), z3.Not(ok)), z3.Implies(ok, z3.And(e > pos, e <= self.k.L)), self.dv(pos) >= -2**31, self.dv(pos) < 2**31)))
        return ok, self.dv(pos), e

class CLib:
    """fopen, fgets, fclose, sscanf and the C types, under contract"""
    def __init__(self, p, at_eof):
        self.p, self.at_eof = p, at_eof      # at_eof(): decides whether the next fgets finds the end
        self.opened = self.closed = 0
        self.chunk = None
    def buffer(self, n):
        g = z3.Function(self.p.fresh('buf'), z3.IntSort(), z3.IntSort())
        return Buf(n, lambda i: g(i))
    def uninit(self, T):
        if T == 'double': return E.fresh_real('uninit')
        if T == 'bint': return E.fresh_bool('uninit')
        return self._rng(T, E.fresh_int('uninit'))
    def _rng(self, T, v):
        lo, hi = SCALAR[T]
        cur().assume(z3.And(v.t >= lo, v.t <= hi)); return v
    def cast(self, T, v):
        if T == 'double': return num(v) * 1.0 if num(v).isint else num(v)
        if T == 'bint': return SBool(v.t) if isinstance(v, SBool) else bool(v) if isinstance(v, (bool, int)) else SBool(num(v).t != 0)
        v = num(v)
        if v.nan is not None: raise Unsupported('nan to a C integer')
        t = v.t if v.isint else z3.If(v.t >= 0, z3.ToInt(v.t), -z3.ToInt(-v.t))
        lo, hi = SCALAR[T]
        if cur().check(z3.Not(z3.And(t >= lo, t <= hi))) == z3.unsat: return Num(t)
        r = self._rng(T, E.fresh_int('wrapped'))
        cur().assume(z3.Implies(z3.And(t >= lo, t <= hi), r.t == t))
        return r
    def sizeof(self, x): return x.size
    def fopen(self, name, mode):
        self.opened += 1
        self.p.prove('the file is opened for reading', z3.BoolVal(mode in ('rb', 'r', b'rb', b'r')))
        self.name = name
        if self.p.choose(2, 'fopen'): return None
        self.handle = object()
        return self.handle
    def fclose(self, h): self.closed += 1
    def feof(self, h): raise Unsupported('feof')
    def fgets(self, buf, size, h):
        self.p.prove('lines are read from the opened file', z3.BoolVal(h is getattr(self, 'handle', None)))
        n = num(size).t
        self.p.prove('fgets stays within the buffer', z3.And(n >= 2, n <= buf.size))
        if self.at_eof(): return None
        k = Chunk(self.p)
        self.p.assume(z3.And(k.L >= 1, k.L <= n - 1))
        old = buf.get
        buf._ver += 1
        buf.get = lambda i: z3.If(z3.And(i >= 0, i < k.L), k.f(i), z3.If(i == k.L, z3.IntVal(0), old(i)))
        buf.chunk = k
        self.chunk, self.size, self.buf = k, n, buf
        self.line = Buf(buf.size, buf.get, k)
        return buf
    def sscanf(self, src, fmt, refs=()):
        if isinstance(fmt, bytes): fmt = fmt.decode()
        b, off = (src, num(0)) if isinstance(src, Buf) else (src.buf, src.off)
        s = Scan(b)
        p = self.p
        pos = z3.simplify(off.t)
        out = [v for t, v in refs]
        toks = re.findall(r'%lf|%d|%c|%.|\s|[^%\s]', fmt)
        p.prove('sscanf has a variable for every conversion', z3.BoolVal(sum(t[0] == '%' for t in toks) == len(refs)))
        want = {'%lf': 'double', '%d': 'int', '%c': 'char'}
        k = 0
        first = True
        for t in toks:
            if t in want:
                p.prove('sscanf variables have the types of their conversions', z3.BoolVal(refs[k][0] == want[t]))
                if t == '%c':
                    c = b.char(pos)
                    if p.decide(c == 0): break
                    out[k], pos = Num(c), pos + 1
                else:
                    ok, v, e = s.LF(pos) if t == '%lf' else s.D(pos)
                    if not p.decide(ok): break
                    out[k], pos = Num(v), e
                k += 1
            elif t[0] == '%' or t.isspace(): raise Unsupported('sscanf conversion ' + t)
            else:
                if not p.decide(b.char(pos) == ord(t)): break
                pos = pos + 1
        return (Num(z3.IntVal(k)) if k or not toks else self._zero(),) + tuple(out)
    def _zero(self):
        r = E.fresh_int('sscanf'); self.p.assume(z3.And(r.t >= -1, r.t <= 0)); return r

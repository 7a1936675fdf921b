"""Mechanical loading of /repo source for verification.

What is changed in the text before it runs on symbolic values (nothing else):
  * imports become lookups in the verifier's library models;
  * `except` clauses let the verifier's own control flow through, and refuse to
    swallow an exception that stems from a gap in a model rather than from the code;
  * `raise` marks its exception as intended;
  * loops ask the verifier whether to run concretely or to be cut by a contract;
  * comprehensions over symbolic sequences become elementwise maps;
  * loops over positions whose body only uses the item there, enumerations whose counter is not
    used and counting `while` loops become item loops (Normalize); a loop that only appends to an
    empty list is also offered as a comprehension, used where no contract speaks of the loop;
  * `x[k]`, `k in x`, `.join`, `.get` and `"..." % x` go through the runtime, which performs the
    Python operation itself unless a symbol is involved;
  * docstrings are dropped.
Builtins such as len/int/float/range/min/max are shadowed by versions that agree with
the originals on concrete values and extend them to symbols.
"""
import ast, sys, types, os, copy
from . import engine as E
from .engine import Num, SBool, Unsupported, PathEnd, Restart, Signal, cur, mark

class Poison:
    def __init__(self, why): object.__setattr__(self, '_why', why)
    def _u(self, *a, **k): raise Unsupported('use of ' + self._why)
    __getattr__ = __call__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _u
    __getitem__ = __setitem__ = __len__ = __iter__ = __bool__ = __lt__ = __gt__ = __le__ = __ge__ = _u
    __eq__ = __ne__ = __contains__ = __str__ = __format__ = __and__ = __or__ = __invert__ = __mod__ = __truediv__ = _u
    __hash__ = object.__hash__

# ------------------------------------------------------------------ equivalent loop forms
def _names_in(n, ctx=None):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx))}
def _stores(stmts):
    return {x.id for s in stmts for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}
def _level(stmts, kind):
    """a continue / break of this loop (not of an inner one) among the statements"""
    for s in stmts:
        if isinstance(s, kind): return True
        if isinstance(s, (ast.For, ast.While)): 
            if _level(s.orelse, kind): return True
            continue
        for f in ('body', 'orelse', 'finalbody'):
            if _level(getattr(s, f, []), kind): return True
        for h in getattr(s, 'handlers', []):
            if _level(h.body, kind): return True
    return False
class Normalize(ast.NodeTransformer):
    """rewrites loops over positions into loops over items, where the position is used for nothing else:
    for k in range(len(X)): v = X[k]; ...   ->  for v in X: ...
    for k, v in enumerate(X): ... (k unused) ->  for v in X: ...
    i = 0; while i < N: ...; i += 1          ->  for i in range(0, N): ..."""
    def visit_FunctionDef(self, n):
        self.fn = n
        self.generic_visit(n)
        return n
    def used_elsewhere(self, name, loop):
        inside = {id(x) for x in ast.walk(loop)}
        return any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load) and id(x) not in inside for x in ast.walk(self.fn))
    def visit_For(self, n):
        self.generic_visit(n)
        if not getattr(self, 'fn', None): return n
        it = n.iter
        iscall = isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and not it.keywords
        if iscall and it.func.id == 'range' and len(it.args) == 1 and isinstance(n.target, ast.Name) and isinstance(it.args[0], ast.Call) \
                and isinstance(it.args[0].func, ast.Name) and it.args[0].func.id == 'len' and len(it.args[0].args) == 1 and isinstance(it.args[0].args[0], ast.Name):
            k, X, b = n.target.id, it.args[0].args[0].id, n.body
            if len(b) > 1 and isinstance(b[0], ast.Assign) and len(b[0].targets) == 1 and isinstance(b[0].targets[0], ast.Name) and isinstance(b[0].value, ast.Subscript) \
                    and isinstance(b[0].value.value, ast.Name) and b[0].value.value.id == X and isinstance(b[0].value.slice, ast.Name) and b[0].value.slice.id == k \
                    and not any(k in _names_in(s) for s in b[1:]) and X not in {x for s in b[1:] for x in _names_in(s)} and not self.used_elsewhere(k, n):
                return ast.copy_location(ast.For(b[0].targets[0], ast.Name(X, ast.Load()), b[1:], n.orelse), n)
        if iscall and it.func.id == 'enumerate' and len(it.args) == 1 and isinstance(n.target, ast.Tuple) and len(n.target.elts) == 2 and isinstance(n.target.elts[0], ast.Name):
            k = n.target.elts[0].id
            if not any(k in _names_in(s) for s in n.body + n.orelse) and not self.used_elsewhere(k, n) and k not in _names_in(n.target.elts[1]):
                return ast.copy_location(ast.For(n.target.elts[1], it.args[0], n.body, n.orelse), n)
        return n
    def visit_While(self, n):
        self.generic_visit(n)
        t, b = n.test, n.body
        if not getattr(self, 'fn', None) or not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Lt) and isinstance(t.left, ast.Name)): return n
        i, N = t.left.id, t.comparators[0]
        last = b[-1]
        ok = len(b) > 1 and isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name) and last.target.id == i \
            and isinstance(last.value, ast.Constant) and last.value.value == 1 and not _level(b, ast.Continue) and i not in _stores(b[:-1]) and not n.orelse
        if not ok or self.used_elsewhere(i, n) or (_names_in(N) & {x for s in b for x in _names_in(s)}) - {'len'}: return n
        if not (isinstance(N, (ast.Name, ast.Constant)) or (isinstance(N, ast.Call) and isinstance(N.func, ast.Name) and N.func.id == 'len' and len(N.args) == 1 and isinstance(N.args[0], ast.Name))): 
            return n
        return ast.copy_location(self.visit_For(ast.copy_location(ast.For(ast.Name(i, ast.Store()), ast.Call(ast.Name('range', ast.Load()), [N], []), b[:-1], []), n)), n) \
            if self.starts_at_zero(i, n) else n
    def starts_at_zero(self, i, loop):
        """the statement that sets i, before the loop, is i = 0 (the only one in the function)"""
        sets = [s for s in ast.walk(self.fn) if isinstance(s, (ast.Assign, ast.AugAssign, ast.For)) and i in {x.id for x in ast.walk(s.targets[0] if isinstance(s, ast.Assign) else s.target) if isinstance(x, ast.Name)}]
        return len(sets) == 2 and isinstance(sets[0], ast.Assign) and isinstance(sets[0].value, ast.Constant) and sets[0].value.value == 0 and type(sets[0].value.value) is int \
            and sets[0] in self.fn.body and loop in self.fn.body

def append_form(n):
    """for T in IT: [if c: continue]* [if c:] X.append(E)   as (X, E, condition)"""
    if n.orelse: return None
    conds, body = [], list(n.body)
    while len(body) > 1 and isinstance(body[0], ast.If) and not body[0].orelse and len(body[0].body) == 1 and isinstance(body[0].body[0], ast.Continue):
        conds.append(ast.UnaryOp(ast.Not(), body[0].test)); body = body[1:]
    while len(body) == 1 and isinstance(body[0], ast.If) and not body[0].orelse:
        conds.append(body[0].test); body = list(body[0].body)
    if len(body) != 1 or not isinstance(body[0], ast.Expr): return None
    c = body[0].value
    if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'append' and isinstance(c.func.value, ast.Name) and len(c.args) == 1 and not c.keywords and not isinstance(c.args[0], ast.Starred)): return None
    X = c.func.value.id
    if any(X in _names_in(e) for e in [c.args[0], n.iter] + conds) or X in _names_in(n.target): return None
    return X, c.args[0], conds

class Instrument(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.fn = []
        self.loopn = {}
        self.uid = 0
    def _call(self, name, *args):
        return ast.Call(ast.Attribute(ast.Name('__vc', ast.Load()), name, ast.Load()), list(args), [])
    # imports
    def visit_Import(self, n):
        out = []
        for a in n.names:
            tgt = a.asname or a.name.split('.')[0]
            mod = a.name if a.asname else a.name.split('.')[0]
            out.append(ast.Assign([ast.Name(tgt, ast.Store())], self._call('imp', ast.Constant(mod), ast.Constant(None))))
        return out
    def visit_ImportFrom(self, n):
        out = []
        for a in n.names:
            out.append(ast.Assign([ast.Name(a.asname or a.name, ast.Store())],
                                  self._call('imp', ast.Constant(n.module), ast.Constant(a.name))))
        return out
    # functions
    def visit_FunctionDef(self, n):
        locs = set(a.arg for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs)
        if n.args.vararg: locs.add(n.args.vararg.arg)
        if n.args.kwarg: locs.add(n.args.kwarg.arg)
        glb = set()
        for x in ast.walk(n):
            if isinstance(x, ast.Global) or isinstance(x, ast.Nonlocal): glb.update(x.names)
        class W(ast.NodeVisitor):
            def visit_FunctionDef(s, m):
                locs.add(m.name)
            visit_Lambda = lambda s, m: None
            visit_ListComp = visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_Lambda
            def visit_Name(s, m):
                if isinstance(m.ctx, ast.Store): locs.add(m.id)
            def visit_ExceptHandler(s, m):
                s.generic_visit(m)
            def visit_Import(s, m):
                for a in m.names: locs.add(a.asname or a.name.split('.')[0])
            visit_ImportFrom = visit_Import
        for s in n.body: W().visit(s)
        self.fn.append((n.name, locs - glb, {}))
        n.decorator_list = []
        n.returns = None
        for a in n.args.args + n.args.kwonlyargs: a.annotation = None
        if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str):
            n.body = n.body[1:] or [ast.Pass()]
        self.generic_visit(n)
        self.fn.pop()
        return n
    def visit_Lambda(self, n):
        self.generic_visit(n)
        return n
    # exceptions
    def visit_Try(self, n):
        self.generic_visit(n)
        for h in n.handlers:
            h.body.insert(0, ast.Expr(self._call('on_exc')))
        if n.handlers:
            n.handlers.insert(0, ast.ExceptHandler(ast.Attribute(ast.Name('__vc', ast.Load()), 'Signal', ast.Load()), None, [ast.Raise()]))
        return n
    def visit_Raise(self, n):
        self.generic_visit(n)
        if n.exc is not None: n.exc = self._call('mark', n.exc)
        return n
    # loops
    def _names(self, *nodes):
        seen = []
        for r in nodes:
            for x in ast.walk(r):
                if isinstance(x, ast.Name) and x.id not in seen: seen.append(x.id)
        loc = self.fn[-1][1] if self.fn else set()
        return [x for x in seen if x in loc]
    def _loopid(self, kind):
        if not self.fn: return f'{self.modname}.<module>#{kind}'
        cnt = self.fn[-1][2]
        cnt[kind] = cnt.get(kind, 0) + 1
        return f'{self.fn[-1][0]}#{kind}{cnt[kind] - 1}'
    def _hv(self, L, names):
        out = []
        for v in names:
            out.append(ast.If(ast.Call(ast.Attribute(ast.Name(L, ast.Load()), 'hvq', ast.Load()), [ast.Constant(v)], []),
                [ast.Assign([ast.Name(v, ast.Store())], ast.Call(ast.Attribute(ast.Name(L, ast.Load()), 'hv', ast.Load()), [ast.Constant(v)], []))], []))
        return out
    def visit_For(self, n):
        if not self.fn: return self.generic_visit(n)
        lid = self._loopid('for')
        names = self._names(n.target, *n.body)
        tgt = [x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)]
        stored = tuple(sorted(_stores(n.body)))
        self.uid += 1
        L = f'__L{self.uid}'
        form = append_form(n)
        if form is not None:
            X, elt, conds = form
            comp = self.visit_ListComp(ast.ListComp(copy.deepcopy(elt), [ast.comprehension(copy.deepcopy(n.target), copy.deepcopy(n.iter), copy.deepcopy(conds), 0)]))
        self.generic_visit(n)
        pre = [ast.Assign([ast.Name(L, ast.Store())], self._call('for_loop', ast.Constant(lid), n.iter, ast.Constant(tuple(names)), ast.Constant(tuple(tgt)), ast.Call(ast.Name('locals', ast.Load()), [], []), ast.Constant(stored)))]
        it, n.iter = n.iter, ast.Name(L, ast.Load())
        loop = pre + self._hv(L, names) + [n]
        if form is None: return loop
        # as a comprehension, unless a contract speaks of this loop
        return [ast.If(self._call('as_comprehension', ast.Constant(lid), ast.Name(X, ast.Load())), [ast.Assign([ast.Name(X, ast.Store())], comp)], loop)]
    def visit_While(self, n):
        if not self.fn: return self.generic_visit(n)
        lid = self._loopid('while')
        names = self._names(n.test, *n.body)
        stored = tuple(sorted(_stores(n.body)))
        self.uid += 1
        L = f'__L{self.uid}'
        self.generic_visit(n)
        pre = [ast.Assign([ast.Name(L, ast.Store())], self._call('while_loop', ast.Constant(lid), ast.Constant(tuple(names)), ast.Call(ast.Name('locals', ast.Load()), [], []), ast.Constant(stored)))]
        step = ast.Call(ast.Attribute(ast.Name(L, ast.Load()), 'step', ast.Load()), [], [])
        n.test = ast.BoolOp(ast.And(), [step, n.test])
        return pre + self._hv(L, names) + [n]
    # comprehensions
    def _comp(self, n, kind):
        if len(n.generators) != 1 or n.generators[0].is_async:
            return self.generic_visit(n)
        g = n.generators[0]
        self.generic_visit(n)
        def lam(expr):
            if isinstance(g.target, ast.Name):
                return ast.Lambda(ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, []), expr)
            names = [x.id for x in g.target.elts] if all(isinstance(x, ast.Name) for x in g.target.elts) else None
            if names is None:
                # nested tuple target: ((a, b), c)
                flat = []
                def pat(t):
                    if isinstance(t, ast.Name): flat.append(t.id); return None
                    return [pat(x) for x in t.elts]
                shape = pat(g.target)
                inner = ast.Lambda(ast.arguments([], [ast.arg(x) for x in flat], None, [], [], None, []), expr)
                return ast.Lambda(ast.arguments([], [ast.arg('__e')], None, [], [], None, []),
                    ast.Call(inner, [ast.Starred(self._call('flat', ast.Name('__e', ast.Load()), ast.Constant(repr(shape))), ast.Load())], []))
            inner = ast.Lambda(ast.arguments([], [ast.arg(x) for x in names], None, [], [], None, []), expr)
            return ast.Lambda(ast.arguments([], [ast.arg('__e')], None, [], [], None, []),
                              ast.Call(inner, [ast.Starred(ast.Name('__e', ast.Load()), ast.Load())], []))
        cond = ast.Constant(None)
        if g.ifs:
            e = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs)
            cond = lam(e)
        return self._call('comp', ast.Constant(kind), lam(n.elt), g.iter, cond)
    def visit_ListComp(self, n): return self._comp(n, 'list')
    def visit_GeneratorExp(self, n): return self._comp(n, 'gen')
    def visit_Global(self, n): return n
    def visit_Subscript(self, n):
        self.generic_visit(n)
        if not self.fn or not isinstance(n.ctx, ast.Load) or isinstance(n.slice, (ast.Constant, ast.Slice)): return n
        return self._call('getitem', n.value, n.slice)
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            r = self._call('contains', n.left, n.comparators[0])
            return r if isinstance(n.ops[0], ast.In) else ast.UnaryOp(ast.Not(), r)
        return n
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr in ('join', 'get') and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
            return self._call('m_' + n.func.attr, n.func.value, *n.args)
        return n
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, (str, bytes)):
            return self._call('strmod', n.left, n.right)
        return n

# ------------------------------------------------------------------ loops
class Loop:
    def __init__(self, vc, lid, names, env, items=None, kind='for', target=(), stored=()):
        self.vc, self.lid, self.names, self.kind = vc, lid, names, kind
        self.target = set(target)
        self.stored = set(stored)     # names the body binds
        self.items = items
        self.contract = vc.loop_contract(lid, kind)
        if hasattr(self.contract, 'pick'): self.contract = self.contract.pick(items, env)
        self.cut = False
        self.count = 0
        self.exited = False
        p = cur()
        self.env0 = dict(env)
        if kind == 'for':
            self.cut = vc.is_symbolic_iter(items)
        else:
            self.cut = self.contract is not None and getattr(self.contract, 'cut', True) and not vc.bounded
        if self.cut:
            p.run.loops_cut = getattr(p.run, 'loops_cut', set()) | {lid}
            self.k = E.fresh_int('k_' + lid.replace('#', '_'))
            if kind == 'for':
                self.n = vc.iter_len(items)
            c = self.contract
            if c is not None:
                try:
                    c.entry(self, self.env0)
                except KeyError as e:
                    raise Unsupported(f'loop contract {lid}: no variable {e}')
            p.assume(self.k.t >= 0)
            hs = p.run.loop_havoc.setdefault(lid, {})
            self.hvals = {}
            for v in names:
                if v in self.target: continue
                custom = c.havoc(self, v, self.env0.get(v)) if c is not None else NotImplemented
                if custom is not NotImplemented:
                    self.hvals[v] = custom
                elif v in hs:
                    self.hvals[v] = vc.havoc_value(self.env0.get(v, None), hs[v], v)
            self.env1 = dict(self.env0); self.env1.update(self.hvals)
            self.snap = {v: vc.snapshot(self.env1[v]) for v in names if v in self.env1 and v not in self.target}
            if c is not None:
                try:
                    c.assume(self, self.env1, self.k)
                except KeyError as e:
                    raise Unsupported(f'loop contract {lid}: no variable {e}')
    def hvq(self, v): return self.cut and v in self.hvals
    def hv(self, v): return self.hvals[v]
    def _end(self, env):
        """end of an arbitrary iteration"""
        vc, p = self.vc, cur()
        self._frame(env)
        if self.contract is not None:
            try:
                self.contract.end(self, env, Num(self.k.t + 1))
            except KeyError as e:
                raise Unsupported(f'loop contract {self.lid}: no variable {e}')
        raise PathEnd()
    def _frame(self, env):
        vc, p = self.vc, cur()
        hs = p.run.loop_havoc.setdefault(self.lid, {})
        changed = False
        for v in self.names:
            if v in self.target: continue
            if v not in env: continue
            if self.contract is not None and v in self.hvals and self.contract.owns(v): continue
            if v not in self.env1:
                # first bound inside the loop: unknown afterwards
                if v not in hs: hs[v] = 'poison'; changed = True
                continue
            need = vc.havoc_kind(self.env1[v], self.snap.get(v), env[v])
            if need is None: continue
            if v in hs:
                j = vc.join_kind(hs[v], need)
                if j != hs[v]: hs[v] = j; changed = True
            else:
                hs[v] = need; changed = True
        if changed: raise Restart()
    def __iter__(self):
        if not self.cut:
            for x in self.vc.concrete_iter(self.items):
                yield x
            return
        p = cur()
        # arbitrary iteration k, or exit after n iterations
        more = self.k.t < E.num(self.n).t
        p.assume(self.k.t <= E.num(self.n).t)
        if p.decide(more):
            x = self.vc.iter_get(self.items, self.k)
            self.elem = x
            if self.contract is not None: self.contract.begin(self, self.env1, x)
            yield x
            self._end(sys._getframe(1).f_locals)
        if self.contract is not None:
            self.contract.exit(self, sys._getframe(1).f_locals)
    def step(self):
        if not self.cut:
            self.count += 1
            if self.count > self.vc.unroll: raise Unsupported(f'while loop {self.lid} not bounded by {self.vc.unroll}')
            return True
        if self.count == 0:
            self.count = 1
            return True
        self._end(sys._getframe(1).f_locals)

class LoopContract:
    """defaults: nothing is known about the state except what does not change"""
    cut = True
    def entry(self, L, env): pass
    def havoc(self, L, v, val): return NotImplemented
    def owns(self, v): return False
    def assume(self, L, env, k): pass
    def begin(self, L, env, x): pass
    def end(self, L, env, k1): pass
    def exit(self, L, env): pass

# ------------------------------------------------------------------ VC runtime
class TypeShadow:
    def __init__(self, real, conv): self.real, self.conv = real, conv
    def __call__(self, *a, **k): return self.conv(*a, **k)
    def __repr__(self): return f'<{self.real.__name__}>'
    def __getattr__(self, k): return getattr(self.real, k)
    def __eq__(self, o): return self is o or o is self.real or o == self.real.__name__
    def __hash__(self): return hash(self.real)
    def __or__(self, o): return (self, o)

class Runtime:
    Signal = Signal
    def __init__(self, models, bounded=False, unroll=40):
        self.models = models
        self.bounded = bounded
        self.unroll = unroll
        self.loop_contracts = {}
    def imp(self, mod, attr):
        return self.models(mod, attr)
    mark = staticmethod(mark)
    def on_exc(self):
        e = sys.exc_info()[1]
        if getattr(e, '_vc_ok', False): return
        raise Unsupported(f'unmodelled {type(e).__name__} in a try block: {e}')
    def strmod(self, fmt, args):
        vals = args if isinstance(args, tuple) else (args,)
        if all(isinstance(v, (int, float, str, bytes, type(None), BaseException)) and not (isinstance(v, str) and E.SEP0 in v and isinstance(fmt, bytes)) for v in vals): return fmt % args
        if isinstance(fmt, bytes): return E.SBytes(self.strmod(fmt.decode('latin-1'), args))
        import re
        out, k = '', 0
        for part in re.split(r'(%[-0 +#]*\d*(?:\.\d+)?[a-zA-Z%])', fmt):
            if not part.startswith('%'): out += part; continue
            if part == '%%': out += '%'; continue
            v = vals[k]; k += 1
            if hasattr(v, 'vc_fmt'): out += v.vc_fmt(part)
            elif isinstance(v, Num): out += E.strtoken(v, part[1:-1] + ('' if part[-1] == 's' else part[-1]))
            elif hasattr(v, '__format__') and part == '%s': out += format(v, '')
            elif hasattr(v, 'is_sym'): raise Unsupported('text formatting of ' + type(v).__name__)
            else: out += part % (v,)
        return out
    def as_comprehension(self, lid, x):
        return self.loop_contract(lid, 'for') is None and type(x) is list and not x
    def _key(self, d, k):
        """the key of a dict or set that a symbolic key is"""
        for q in d:
            r = k == q
            if r is NotImplemented: continue
            if (cur().decide(r.t) if isinstance(r, SBool) else bool(r)): return q
        raise mark(KeyError("key"))
    def getitem(self, d, k):
        if type(d) is dict and hasattr(k, 'is_sym') and getattr(type(k), '__hash__', None) is None: return d[self._key(d, k)]
        if type(d) in (str, list, tuple) and type(k) is Num and k.isint and not (type(d) is str and E.SEP0 in d):
            import z3
            n = len(d)
            if not cur().decide(z3.And(k.t >= -n, k.t < n)): raise mark(IndexError('index out of range'))
            i = z3.simplify(z3.If(k.t < 0, k.t + n, k.t))
            if z3.is_int_value(i): return d[i.as_long()]
            if type(d) is str:
                c = z3.IntVal(ord(d[-1]))
                for j in range(n - 2, -1, -1): c = z3.If(i == j, ord(d[j]), c)
                return E.strtoken(Num(c), 'chr')
            for j in range(n - 1):
                if cur().decide(i == j): return d[j]
            return d[n - 1]
        return d[k]
    def contains(self, k, d):
        if type(d) in (dict, set, frozenset) and hasattr(k, 'is_sym') and getattr(type(k), '__hash__', None) is None:
            try: self._key(d, k); return True
            except KeyError: return False
        return k in d
    def m_get(self, d, *a):
        if type(d) is dict and len(a) in (1, 2) and hasattr(a[0], 'is_sym') and getattr(type(a[0]), '__hash__', None) is None:
            try: return d[self._key(d, a[0])]
            except KeyError: return a[1] if len(a) == 2 else None
        return d.get(*a)
    def m_join(self, s, *a):
        if type(s) is str and len(a) == 1 and type(a[0]) in (list, tuple):
            return s.join([x if not hasattr(x, 'vc_str') else format(x, '') for x in a[0]])
        return s.join(*a)
    def flat(self, e, shape):
        out = []
        def go(v, s):
            if s is None: out.append(v)
            else:
                for a, b in zip(v, s): go(a, b)
        go(e, eval(shape))
        return out
    # loops
    def loop_contract(self, lid, kind):
        return self.loop_contracts.get(lid) or self.loop_contracts.get(lid.split('#')[0] + f'#{kind}*') or self.loop_contracts.get(f'*#{kind}*')
    def for_loop(self, lid, items, names, target, env, stored=()):
        return Loop(self, lid, names, env, items, 'for', target, stored)
    def while_loop(self, lid, names, env, stored=()):
        return Loop(self, lid, names, env, None, 'while', (), stored)
    def is_symbolic_iter(self, it):
        return hasattr(it, 'symlen') and it.symlen() is not None
    def iter_len(self, it): return it.symlen()
    def iter_get(self, it, k): return it.symget(k)
    def concrete_iter(self, it):
        return iter(it)
    def comp(self, kind, f, it, cond):
        if hasattr(it, 'vc_any'): return it.vc_any()
        if hasattr(it, 'vc_comp'): return it.vc_comp(kind, f, cond)
        if hasattr(it, 'symlen') and it.symlen() is not None:
            return self.symcomp(kind, f, it, cond)
        out = []
        for x in it:
            if cond is None or cond(x): out.append(f(x))
        return out if kind == 'list' else GenList(out)
    def symcomp(self, kind, f, it, cond):
        from . import arrays as A
        if cond is not None:
            raise Unsupported('filtered comprehension over a symbolic sequence')
        return A.SList.from_get(it.symlen(), lambda i: f(it.symget(i)))
    # havoc
    def snapshot(self, v):
        if isinstance(v, Poison): return None
        if hasattr(v, '_ver'): return v._ver
        if isinstance(v, list): return list(v)
        if isinstance(v, dict): return dict(v)
        return None
    def havoc_kind(self, before, snap, after):
        if isinstance(before, Poison): return 'poison'
        if isinstance(after, Poison): return 'poison'
        if before is after:
            if hasattr(before, '_ver'):
                return None if before._ver == snap else 'mutated'
            if isinstance(before, (list, dict)):
                same = len(before) == len(snap) and all(a is b for a, b in zip(before, snap)) if isinstance(before, list) else before == snap
                return None if same else 'list'
            return None
        import z3
        if isinstance(before, (Num, SBool, int, float, bool)) and isinstance(after, (Num, SBool, int, float, bool)):
            a = after
            try:
                nb, na = E.num(before), E.num(after)
                if z3.eq(nb.t, na.t) and (nb.nan is na.nan or (nb.nan is not None and na.nan is not None and z3.eq(nb.nan, na.nan))): return None
            except Unsupported:
                if before == after: return None
                return 'poison'
            if isinstance(before, (SBool, bool)) and isinstance(after, (SBool, bool)): return 'bool'
            def k(v):
                v = E.num(v)
                return ('int' if v.isint else 'real') + ('nan' if v.nan is not None else '')
            return self.join_kind(k(before), k(after))
        if isinstance(before, (str, bytes, type(None), tuple)) and type(before) == type(after) and before == after: return None
        if type(before) is type(after) and hasattr(before, '_havoc_new'): return 'object'
        return 'poison'
    ORDER = ['int', 'intnan', 'real', 'realnan']
    def join_kind(self, a, b):
        if a == b: return a
        if a in self.ORDER and b in self.ORDER:
            nan = a.endswith('nan') or b.endswith('nan')
            r = 'real' if 'real' in a + b else 'int'
            return r + ('nan' if nan else '')
        return 'poison'
    def havoc_value(self, v, kind, name):
        if kind in self.ORDER:
            import z3
            nm = cur().fresh('hv_' + name)
            t = z3.Int(nm) if kind.startswith('int') else z3.Real(nm)
            return Num(t, z3.Bool(nm + '#nan') if kind.endswith('nan') else None)
        if kind == 'bool': return E.fresh_bool('hv_' + name)
        if kind == 'mutated':
            if hasattr(v, '_havoc'): v._havoc(name); return v
        if kind == 'object': return v._havoc_new(name)
        if kind == 'list':
            from . import arrays as A
            return A.SList.abstract(name)
        return Poison(f'{name} after a loop changed it')

class GenList(list):
    pass

class Module:
    def __init__(self, path, modname, runtime, models_ns, source=None, text_tree=None):
        self.path, self.modname = path, modname
        self.src = source if source is not None else open(path).read()
        tree = text_tree if text_tree is not None else ast.parse(self.src)
        self.functions = {n.name: n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)}
        self.lines = {n.name: (n.lineno, n.end_lineno) for n in tree.body if isinstance(n, ast.FunctionDef)}
        tree = Instrument(modname).visit(Normalize().visit(tree))
        ast.fix_missing_locations(tree)
        self.ns = dict(models_ns)
        self.ns['__vc'] = runtime
        self.ns['__name__'] = modname
        self.ns['__file__'] = path or modname
        self.skipped = []
        self.tree = tree
        for st in tree.body:
            if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant): continue
            m = ast.Module([st], [])
            try:
                exec(compile(m, f'<vc:{modname}>', 'exec'), self.ns)
            except Signal as e:
                self.skipped.append((st.lineno, str(e)))
            except Exception as e:
                self.skipped.append((st.lineno, f'{type(e).__name__}: {e}'))
    def __getitem__(self, k): return self.ns[k]
    def get(self, k): return self.ns.get(k)

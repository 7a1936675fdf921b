"""C12 - station metadata and renamed files carry the right codes."""
import z3, itertools, random
from vc import engine as E
from vc.engine import Num, SBool, cur, num, tobool
from vc.arrays import Arr, SList
from vc.npmodel import ModelNS, NpModel, LIST
from vc.loader import LoopContract
from vc.libmodels import UTC
from vc.pdmodel import SDF, DataFrame, PdModel
from vc.idlist import IdList, Item, X, S
from vc.cells import Cell, BLANK, NA, INTOF, VALOF, facts
from vc.paths import PathSeq, Globbed
def np_with(**k):
    m = NpModel()
    for n, f in k.items(): setattr(m, n, f)
    return m

EXPLAIN = ('make_gem_inventory (for any table, any coordinates; the nested loops over networks, stations and locations with counting invariants), _unique, rename_files, _fix_station_info_keys and _get_station_info proved for tables with any '
           'number of rows and any content; the headings (their order, capitalisation and presence) are enumerated')
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
CODES = ['network', 'station', 'location']
XS = {c: z3.Const('a_' + c, S) for c in CODES}            # an arbitrary triple of codes
HASC = z3.Function('has_coordinates', S, S, S, B)

def prove(pr):
    pr.assume_note('obspy inventory objects hold what they are given; numpy mean/min/max over a list of channels are functions of that list',
                   'pandas.read_csv gives the header and the texts of the cells; pandas selection by mask keeps order',
                   'codes and times of a trace are what its stats say; writing a stream writes all its traces',
                   'each network/station/location is listed once; serial numbers are decimal where coordinates are matched by serial number')
    u = pr.module('gem_network', loops={'_unique#for0': Uniq()})
    pr.run('_unique', lambda p: unique(p, u), ['gemlog.gem_network._unique'], covers=['present', 'absent'])
    hold, box = {}, {}
    ob = ModelNS('obspy', Inventory=lambda *a, **k: Inv(), UTCDateTime=lambda x: hold['time'](x),
                 core=ModelNS('core', inventory=ModelNS('inventory', Network=lambda code, **k: Net(code, k), Station=lambda code, **k: Sta(code, k), Channel=lambda code, **k: Chan(code, k), util=ModelNS('util', Equipment=lambda **k: Equip(k)))))
    m = pr.module('gem_network', extra={'obspy': ob, 'numpy': np_with(mean=lambda x: agg('mean', x), min=lambda x: agg('min', x), max=lambda x: agg('max', x), amin=lambda x: agg('min', x), amax=lambda x: agg('max', x))},
                  stubs={'_get_station_info': lambda x: hold['info'](x), '_unique': lambda x: Vals(x, box), 'get_gem_response': lambda *a, **k: 'GEM RESPONSE' if not a and not k or a == ('high',) or k == {'gain': 'high'} else None},
                  loops={'make_gem_inventory#for0': Networks(box), 'make_gem_inventory#for1': Stations(box), 'make_gem_inventory#for2': Locations(box)})
    for by in ('codes', 'serial number', 'codes with serial number'):
        for times in (False, True):
            pr.run(f'make_gem_inventory[by {by}{", times" if times else ""}]', lambda p, by=by, times=times: inventory(p, m, hold, box, by, times), ['gemlog.gem_network.make_gem_inventory'],
                   covers=['channel', 'no coordinates', 'station', 'no station', 'network', 'no network'])
    for cols in combos():
        pr.run('station table[' + ('file ' if cols[0] != 'frame' else '') + cols[0] + ' ' + ','.join(cols[1]) + ']', lambda p, c=cols: table(p, pr, hold, *c), ['gemlog.gem_network._get_station_info', 'gemlog.gem_network._fix_station_info_keys'], covers=['read'])
    ren = {}
    rn = pr.module('gem_network', extra={'glob': ModelNS('glob', glob=lambda t: hold['glob'](t)), 'obspy': ModelNS('obspy', read=lambda *a, **k: hold['readms'](*a, **k)),
                   'os': ModelNS('os', path=ModelNS('path', isdir=lambda d: cur().decide(z3.Bool('folder_exists')), join=E.pathjoin), makedirs=lambda *a, **k: None)},
                   stubs={'_get_station_info': lambda x: hold['info'](x)}, loops={'rename_files#for0': Files(ren), 'rename_files#for1': Traces(ren)})
    for pat in (None, '{net}.{sta}.{loc}.{chan}.{year}.{jd}.{hour}{min}{sec}.{fmt}', '{mon}{day}_{sta}.{fmt}'):
        pr.run(f'rename_files[{pat or "default names"}]', lambda p, pat=pat: rename(p, rn, hold, ren, pat), ['gemlog.gem_network.rename_files', 'gemlog.gem_network._fix_file_name_digits'], covers=['written', 'skipped'])

# ------------------------------------------------------------------ _unique
class Uniq(LoopContract):
    def owns(self, v): return v == 'unique_list'
    def _pc(self, L):
        if not isinstance(L.items, IdList): raise E.Unsupported('loop over the list')
        return L.items.sequence()[2]
    def entry(self, L, env):
        cur().s.fact(self._pc(L)(0) == 0)
        cur().prove('nothing at first', z3.BoolVal(env['unique_list'] == []))
    def havoc(self, L, v, val): return IdList.fresh('unique') if v == 'unique_list' else NotImplemented
    def assume(self, L, env, k): cur().assume(z3.And(self._pc(L)(k.t) >= 0, env['unique_list'].count == z3.If(self._pc(L)(k.t) > 0, 1, 0)))
    def end(self, L, env, k1):
        if not isinstance(env['unique_list'], IdList): raise E.Unsupported('list')
        cur().prove('an item is listed once if it occurred', env['unique_list'].count == z3.If(self._pc(L)(k1.t) > 0, 1, 0))
def unique(p, mod):
    l = IdList.fresh('given')
    r = mod['_unique'](l)
    if not isinstance(r, IdList): raise E.Unsupported('result')
    p.prove('an item is in the result exactly once if it is in the list, else not', r.count == z3.If(l.count > 0, 1, 0))
    if p.check(l.count > 0) != z3.unsat: p.cover('present')
    if p.check(l.count == 0) != z3.unsat: p.cover('absent')

# ------------------------------------------------------------------ inventory
class Vals:
    """_unique(column): its distinct values, by the contract of _unique"""
    is_sym = True
    vc_type = LIST
    def __init__(self, a, b):
        if not isinstance(a, Arr): raise E.Unsupported('_unique')
        p = cur(); self.a, self.b = a, b
        nm = p.fresh('vals')
        self.n, self.el, self.pc, self.wit = z3.Int(nm + '_n'), z3.Function(nm, I, S), z3.Function(nm + '_pc', I, I), z3.Function(nm + '_row', I, I)
        v = a.at(z3.Int(p.fresh('probe')))
        self.kind = next((c for c in CODES if isinstance(v, Cell) and v.t.num_args() == 1 and v.t.decl().eq(b['f'][c])), None)
        if self.kind is None: raise E.Unsupported('_unique of a column')
        self.x = XS[self.kind]
        self.count = self.pc(self.n)
        p.s.fact(z3.And(self.n >= 0, self.pc(0) == 0, self.count >= 0, self.count <= 1))
        j = a.ix.locate(b['r0'], b['tab'].ix)
        m = z3.IntVal(a.n) if isinstance(a.n, int) else a.n
        p.s.fact(z3.Implies(z3.And(j >= 0, j < m, a.at(j).t == self.x), self.count == 1))
    def symlen(self): return self.n
    def symget(self, k):
        k = num(k).t; p = cur()
        p.s.fact(z3.And(self.pc(k + 1) == self.pc(k) + z3.If(self.el(k) == self.x, 1, 0), self.pc(k) >= 0, z3.Implies(z3.And(k >= 0, k < self.n), self.pc(k + 1) <= self.count)))
        w = self.wit(k); m = z3.IntVal(self.a.n) if isinstance(self.a.n, int) else self.a.n
        p.s.fact(z3.Implies(z3.And(k >= 0, k < self.n), z3.And(w >= 0, w < m, self.a.at(w).t == self.el(k))))
        self.b['w_' + self.kind] = (self.a, w)
        return Cell(self.el(k))
    def __getattr__(self, k): E.noattr(k, 'distinct values')
class Ob:
    """an inventory object: what was set on it"""
    is_sym = True
    def __init__(self, code, k): self.__dict__.update(code=code, _v=0, set=dict(k))
    @property
    def _ver(self): return self._v
    def _havoc_new(self, n):
        r = type(self).__new__(type(self)); r.__dict__.update(self.__dict__); r.__dict__['set'] = dict(self.set); return r
    def __setattr__(self, k, v): self.set[k] = v; self.__dict__['_v'] += 1
    def __getattr__(self, k):
        if k in ('is_sym', 'vc_any', 'vc_comp', 'vc_type', 'symlen', 'vc_len', 'ite', 'rite', 'same'): raise AttributeError(k)
        s = self.__dict__.get('set', {})
        if k in s: return s[k]
        E.noattr(k, type(self).__name__)
class Parts:
    """a list of children: `count` of the arbitrary triple among those before, children appended since"""
    is_sym = True
    vc_type = LIST
    def __init__(self, count, n, added=(), first=False): self.count, self.n, self.added, self.first, self._v = count, n, list(added), first, 0
    @property
    def _ver(self): return self._v
    @staticmethod
    def fresh(name):
        p = cur(); c, n = z3.Int(p.fresh('count_' + name)), z3.Int(p.fresh('n_' + name))
        p.assume(z3.And(c >= 0, c <= n)); return Parts(c, n)
    def append(self, x): self.added.append(x); self._v += 1
    def vc_len(self): return Num(self.n + len(self.added))
    def __bool__(self): return cur().decide(self.n + len(self.added) > 0)
    def vc_comp(self, kind, f, cond):
        if cond is not None: raise E.Unsupported('comprehension')
        q = f(Probe())
        if not isinstance(q, Attr): raise E.Unsupported('comprehension over ' + kind)
        return Column(self, self._v, q.name)
    def __getattr__(self, k): E.noattr(k, 'a list of inventory objects')
class Probe:
    def __getattr__(self, k): return Attr(k)
class Attr:
    def __init__(self, n): self.name = n
    def __getattr__(self, k): E.noattr(k, 'an attribute')
class Column:
    is_sym = True
    def __init__(self, parts, ver, name): self.parts, self.ver, self.name = parts, ver, name
    def vc_ext(self, how): return agg(how, self)
    def __getattr__(self, k): E.noattr(k, 'a list of attributes')
class Agg:
    def __init__(self, how, c): self.how, self.c = how, c
    def __getattr__(self, k): E.noattr(k, 'a mean')
def agg(how, x):
    if not isinstance(x, Column): raise E.Unsupported(how + ' of ' + type(x).__name__)
    return Agg(how, x)
def is_agg(v, how, parts, name): return isinstance(v, Agg) and v.how == how and v.c.parts is parts and v.c.ver == parts._v and v.c.name == name
class Inv(Ob):
    def __init__(self): Ob.__init__(self, None, {}); self.__dict__['networks'] = Parts(z3.IntVal(0), z3.IntVal(0), first=True)
class Net(Ob):
    def __init__(self, code, k): Ob.__init__(self, code, k); self.__dict__['stations'] = Parts(z3.IntVal(0), z3.IntVal(0), first=True)
class Site(Ob):
    def __init__(self): Ob.__init__(self, None, {})
class Sta(Ob):
    def __init__(self, code, k): Ob.__init__(self, code, k); self.__dict__.update(channels=Parts(z3.IntVal(0), z3.IntVal(0), first=True), site=Site())
class Chan(Ob): pass
class Equip(Ob):
    def __init__(self, k): Ob.__init__(self, None, k)

def inventory(p, mod, hold, b, by, times):
    b.clear(); facts()
    m, r0 = z3.Ints('n_rows r0'); p.assume(z3.And(m >= 1, r0 >= 0, r0 < m))
    f = {c: z3.Function('listed_' + c, I, S) for c in CODES + ['SN']}
    tab = SDF({**{c: Arr(m, get=lambda i, g=g: Cell(g(i))) for c, g in f.items()}, 'elevation': Arr.fresh('listed_elevation', m)}, m)
    for c in f: p.universal(lambda i, g=f[c]: g(i) != NA, m)
    p.index(r0, m)
    for c in CODES: p.assume(XS[c] == f[c](r0))
    n = z3.Int('n_coords'); p.assume(n >= 0)
    cf = {c: z3.Function('coord_' + c, I, S) for c in CODES + ['SN']}
    cols = {c: Arr.fresh('coord_' + c, n) for c in ('lat', 'lon', 'elevation')}
    if by != 'serial number': cols.update({c: Arr(n, get=lambda i, g=cf[c]: Cell(g(i))) for c in CODES})
    if by != 'codes': cols['SN'] = Arr(n, get=lambda i: Cell(cf['SN'](i)))
    if times:
        ts, te = z3.Function('coord_start', I, R), z3.Function('coord_end', I, R)
        cols.update(starttime=Arr(n, get=lambda i: UTC(ts(i))), endtime=Arr(n, get=lambda i: UTC(te(i))))
    coords = Lines(cols, n); coords.derived = []
    b.update(p=p, f=f, cf=cf, tab=tab, r0=r0, m=m, coords=coords, by=by, times=times)
    hold['info'] = lambda x: tab if x == 'TABLE' else (_ for _ in ()).throw(E.Unsupported('station table'))
    hold['time'] = lambda x: x if isinstance(x, UTC) else ('time', x)
    r = mod['make_gem_inventory']('TABLE', coords, 'RESPONSE') if times else mod['make_gem_inventory']('TABLE', coords)
    p.prove('the inventory of all networks is returned', z3.BoolVal(isinstance(r, Inv) and r is b.get('inv')))
    if not isinstance(r, Inv): return
    p.prove('a listed network/station/location has one channel if it has coordinates, else none', r.networks.count == z3.If(HASC(*[XS[c] for c in CODES]), 1, 0))
class Lines(SDF):
    """the coordinates; derived selections are noted"""
    def rows(self, key):
        r = SDF.rows(self, key); self.__dict__['derived'].append(r); return r
    def __setattr__(self, k, v):
        if k == 'derived': self.__dict__[k] = v
        else: SDF.__setattr__(self, k, v)
class Level(LoopContract):
    kind, var, attr, obj = None, None, None, None
    def __init__(self, b): self.b = b
    def owns(self, v): return v == self.var
    def src(self, L):
        if not isinstance(L.items, Vals) or L.items.kind != self.kind: raise E.Unsupported('loop over ' + self.kind + ' codes')
        return L.items
    def parts(self, env):
        o = env[self.var]
        if not isinstance(o, self.obj): raise E.Unsupported(self.var)
        return o.__dict__[self.attr]
    def entry(self, L, env):
        self.src(L); q = self.parts(env)
        self.b['p'].prove('nothing in it at first', z3.BoolVal(q.first and not q.added))
        self.rows(L)
    def rows(self, L): pass
    def havoc(self, L, v, val):
        if v != self.var: return NotImplemented
        if not isinstance(val, self.obj): raise E.Unsupported(self.var)
        r = val._havoc_new(v); r.__dict__[self.attr] = Parts.fresh(self.attr); return r
    def outer(self): return z3.BoolVal(True)
    def inv(self, L, k, count):
        x = HASC(*[XS[c] for c in CODES])
        return z3.Implies(self.outer(), count == z3.If(x, self.src(L).pc(k), z3.IntVal(0)))
    def assume(self, L, env, k):
        q = self.parts(env); self.b['q_' + self.kind] = q; self.b['cur_' + self.kind] = self.src(L).el(k.t)
        self.b['p'].assume(z3.And(self.src(L).pc(k.t) >= 0, self.inv(L, k.t, q.count)))
    def exit(self, L, env):
        self.b['done_' + self.kind] = env[self.var]; self.b['q_' + self.kind] = self.parts(env)
        self.b['p'].s.fact(self.src(L).pc(self.src(L).n) == self.src(L).count)
    def end(self, L, env, k1):
        b, p = self.b, self.b['p']
        q = self.parts(env)
        p.prove('nothing is removed or replaced', z3.BoolVal(q is b['q_' + self.kind]))
        p.prove('at most one is added', z3.BoolVal(len(q.added) <= 1))
        if q is not b['q_' + self.kind] or len(q.added) > 1: return
        c = self.added(q.added[0], env) if q.added else self.none(env)
        if c is None: return
        p.prove('the codes of a row of the table appear once if it has coordinates', self.inv(L, k1.t, q.count + c))
class Networks(Level):
    kind, var, attr, obj = 'network', 'inventory', 'networks', Inv
    def rows(self, L): self.b['p'].prove('networks of the whole table', z3.BoolVal(self.src(L).a.ix is self.b['tab'].ix))
    def added(self, o, env):
        b, p = self.b, self.b['p']
        if not isinstance(o, Net): raise E.Unsupported('network')
        p.cover('network')
        st = o.__dict__['stations']
        p.prove('the network holds the stations of this network code', z3.And(o.code.t == b['cur_network'], z3.BoolVal(b.get('done_station') is o)))
        p.prove('no empty network', st.n + len(st.added) > 0)
        p.prove('the network span covers its stations', z3.BoolVal(is_agg(o.set.get('start_date'), 'min', st, 'start_date') and is_agg(o.set.get('end_date'), 'max', st, 'end_date')))
        return z3.If(b['cur_network'] == XS['network'], st.count, 0)
    def none(self, env):
        b, p = self.b, self.b['p']
        p.cover('no network')
        p.prove('a network with stations is not left out', b['done_station'].__dict__['stations'].n + len(b['done_station'].__dict__['stations'].added) == 0)
        return z3.IntVal(0)
    def exit(self, L, env): Level.exit(self, L, env); self.b['inv'] = env['inventory']
class Stations(Level):
    kind, var, attr, obj = 'station', 'network', 'stations', Net
    def rows(self, L):
        b, p = self.b, self.b['p']; a = self.src(L).a
        sel(p, b, a, ['network'])
    def outer(self): return self.b['cur_network'] == XS['network']
    def added(self, o, env):
        b, p = self.b, self.b['p']
        if not isinstance(o, Sta): raise E.Unsupported('station')
        p.cover('station')
        ch = o.__dict__['channels']
        p.prove('the station holds the channels of this station code', z3.And(o.code.t == b['cur_station'], z3.BoolVal(b.get('done_location') is o)))
        p.prove('no empty station', ch.n + len(ch.added) > 0)
        p.prove('station coordinates are the mean of its channels', z3.BoolVal(all(is_agg(o.set.get(k), 'mean', ch, k) for k in ('latitude', 'longitude', 'elevation'))))
        p.prove('the station span covers its channels', z3.BoolVal(is_agg(o.set.get('start_date'), 'min', ch, 'start_date') and is_agg(o.set.get('end_date'), 'max', ch, 'end_date')))
        return z3.If(b['cur_station'] == XS['station'], ch.count, 0)
    def none(self, env):
        b, p = self.b, self.b['p']
        p.cover('no station')
        d = b['done_location'].__dict__['channels']
        p.prove('a station with channels is not left out', d.n + len(d.added) == 0)
        return z3.IntVal(0)
def sel(p, b, a, codes):
    """the column belongs to exactly the rows with the current codes"""
    q = z3.Int(p.fresh('q')); p.assume(z3.And(q >= 0, q < b['m'])); p.index(q, b['m'])
    j = a.ix.locate(q, b['tab'].ix); m = z3.IntVal(a.n) if isinstance(a.n, int) else a.n
    own = z3.And([b['f'][c](q) == b['cur_' + c] for c in codes])
    p.prove('rows of the current ' + ' and '.join(codes), own == z3.And(j >= 0, j < m, a.ix.origin(j, b['tab'].ix) == q))
class Locations(Level):
    kind, var, attr, obj = 'location', 'station', 'channels', Sta
    def rows(self, L):
        b, p = self.b, self.b['p']
        sel(p, b, self.src(L).a, ['network', 'station'])
    def outer(self): return z3.And(self.b['cur_network'] == XS['network'], self.b['cur_station'] == XS['station'])
    def assume(self, L, env, k):
        Level.assume(self, L, env, k); b = self.b
        b['coords'].derived.clear(); b['loop_location'] = (L, k)
    def begin(self, L, env, x):
        b, p = self.b, self.b['p']; a, w = b['w_location']
        b['row'] = a.ix.origin(w, b['tab'].ix)         # a row with the current codes
        p.index(b['row'], b['m'])
    def line(self):
        b, p = self.b, self.b['p']
        d = b['coords'].derived
        if len(d) != 1: raise E.Unsupported('coordinates of a location')
        l = d[0]; n = z3.IntVal(l.n) if isinstance(l.n, int) else l.n
        p.s.fact(HASC(b['cur_network'], b['cur_station'], b['cur_location']) == (n > 0))
        q = z3.Int(p.fresh('q')); nc = b['coords'].n
        p.assume(z3.And(q >= 0, q < nc)) if p.check(nc > 0) != z3.unsat and p.check(nc <= 0) == z3.unsat else p.s.fact(z3.Implies(nc > 0, z3.And(q >= 0, q < nc)))
        j = l.ix.locate(q, b['coords'].ix)
        p.prove('coordinates are those of this location', z3.Implies(nc > 0, self.own(q) == z3.And(j >= 0, j < n, l.ix.origin(j, b['coords'].ix) == q)))
        return l, n
    def own(self, q):
        b = self.b; cf = b['cf']
        if b['by'] == 'serial number': return INTOF(cf['SN'](q)) == INTOF(b['f']['SN'](self.first()))
        return z3.And([cf[c](q) == b['cur_' + c] for c in CODES] + [cf[c](q) != NA for c in CODES])
    def first(self):
        """the row of the table with the current codes (each is listed once)"""
        return self.b['row']
    def none(self, env):
        b, p = self.b, self.b['p']
        self.once(); l, n = self.line()
        p.cover('no coordinates')
        p.prove('a location with coordinates is not left out', n == 0)
        return z3.IntVal(0)
    def once(self):
        """precondition: each network/station/location is listed once"""
        b, p = self.b, self.b['p']
        same = lambda i: z3.Implies(z3.And([i >= 0, i < b['m']] + [b['f'][c](i) == b['cur_' + c] for c in CODES]), i == b['row'])
        p.universal(same, b['m'])
    def added(self, o, env):
        b, p = self.b, self.b['p']
        if not isinstance(o, Chan): raise E.Unsupported('channel')
        self.once(); l, n = self.line()
        p.cover('channel')
        p.prove('a channel only with coordinates', n > 0)
        f = b['f']; s = o.set
        for c in CODES: p.prove('the row of the channel has the current codes', f[c](b['row']) == b['cur_' + c])
        loc = s.get('location_code')
        p.prove('location code', loc.t == b['cur_location'] if isinstance(loc, Cell) else z3.BoolVal(False))
        p.prove('channel code', z3.BoolVal(o.code == 'HDF'))
        eq = lambda a, w: E.real(num(a).t) == E.real(num(w).t) if E._isnumlike(a) else z3.BoolVal(False)
        for k, c in (('latitude', 'lat'), ('longitude', 'lon'), ('elevation', 'elevation')): p.prove('own ' + k, eq(s.get(k), l.cols[c].at(z3.IntVal(0))))
        if b['times']:
            p.prove('start padded by one hour', eq(s.get('start_date'), l.cols['starttime'].at(z3.IntVal(0)) - 3600))
            p.prove('end padded by one hour', eq(s.get('end_date'), l.cols['endtime'].at(z3.IntVal(0)) + 3600))
        eqs = [x for x in (s.get('equipments'), s.get('sensor')) if x is not None]
        sn = [x.set.get('serial_number') for x in eqs if isinstance(x, Equip)]
        p.prove('own serial number', z3.And([x.t == f['SN'](b['row']) for x in sn]) if sn and all(isinstance(x, Cell) for x in sn) and len(sn) == len(eqs) else z3.BoolVal(False))
        p.prove('the given response', z3.BoolVal(s.get('response') == ('RESPONSE' if b['times'] else 'GEM RESPONSE') and s.get('sample_rate') == 100))
        return z3.If(b['cur_location'] == XS['location'], 1, 0)

# ------------------------------------------------------------------ station tables
def combos():
    r = random.Random(4)
    names = ['SN', 'network', 'station', 'location', 'elevation']
    out = []
    cap = lambda n: r.choice([n.lower(), n.upper(), n.capitalize(), n, n.swapcase()])
    for src in ('header', 'frame'):
        for drop in ([], ['elevation'], ['network'], ['location'], ['network', 'location', 'elevation']):
            if src == 'frame' and set(drop) & {'network', 'location'}: continue
            for _ in range(3):
                c = [n for n in names if n not in drop]; r.shuffle(c)
                out.append((src, [cap(n) for n in c]))
    out += [('header', ['SN', 'Network', 'Station', 'Location']), ('frame', names), ('frame', names[:4]), ('none', names), ('none', names[:4])]
    return out
class File:
    """the text file: heading texts, then rows"""
    vc_type = None
def table(p, pr, hold, src, heads):
    facts()
    m = z3.Int('n_rows'); p.assume(m >= (1 if src == 'none' else 0))
    f = {h.lower(): z3.Function('cell_' + h.lower(), I, S) for h in heads}
    cells = lambda h: Arr(m, get=lambda i, g=f[h.lower()]: Cell(g(i)))
    el = Arr.fresh('elevation', m, nan=True) if src == 'frame' else None
    for h, g in f.items():
        if src != 'frame': p.universal(lambda i, g=g: g(i) != NA, m)
        elif h in ('sn', 'station'): p.universal(lambda i, g=g: g(i) != NA, m)
    def csv(name, **k):
        if name != 'FILE': raise E.Unsupported('read_csv')
        dt = k.pop('dtype', None)
        if k.pop('keep_default_na', True) is not False: raise E.Unsupported('read_csv with default missing values')
        hdr, nrows, names = k.pop('header', 'infer'), k.pop('nrows', None), k.pop('names', None)
        if k.pop('index_col', None) not in (None, False): raise E.Unsupported('index_col')
        if k: raise E.Unsupported('read_csv options')
        if nrows == 1 and hdr is None and names is None:
            if src != 'none': return {j: [h] for j, h in enumerate(heads)}
            return {j: ['1234.5' if j == 4 else '077' if j == 0 else 'XX'] for j, h in enumerate(heads)}
        if nrows is not None: raise E.Unsupported('nrows')
        if src == 'none' and names is not None and hdr in ('infer', None):
            if len(names) != len(heads): p.prove('one name per column', z3.BoolVal(False)); raise E.Unsupported('names')
            if str(getattr(dt, '__name__', dt)) not in ('str', 'object') and not (isinstance(dt, dict) and all(n in dt for n in names)): p.prove('cells are read as texts', z3.BoolVal(False))
            return SDF({n: cells(h) for n, h in zip(names, heads)}, m)
        if src != 'none' and names is None and hdr == 'infer':
            ok = str(getattr(dt, '__name__', dt)) in ('str', 'object') or isinstance(dt, dict) and all(n in dt for n in heads)
            if not ok: p.prove('cells are read as texts', z3.BoolVal(False))
            return SDF({h: cells(h) for h in heads}, m)
        p.prove('headings are read where there are some', z3.BoolVal(False)); raise E.Unsupported('read_csv')
    pd = PdModel(); pd.read_csv = csv
    mod = pr.module('gem_network', extra={'pandas': pd})
    if src == 'frame': arg = SDF({h: (el if h.lower() == 'elevation' else cells(h)) for h in heads}, m)
    else: arg = 'FILE'
    r = mod['_get_station_info'](arg)
    if not isinstance(r, SDF): raise E.Unsupported('result')
    p.cover('read')
    p.prove('the table has the five columns', z3.BoolVal(set(r.cols) >= {'SN', 'network', 'station', 'location', 'elevation'}))
    n = z3.IntVal(r.n) if isinstance(r.n, int) else r.n
    p.prove('every row is kept', n == m)
    i = z3.Int('i'); p.assume(z3.And(i >= 0, i < m)) if p.check(m > 0) != z3.unsat and src == 'none' else p.assume(z3.And(i >= 0, i < m))
    p.index(i, m)
    low = [h.lower() for h in heads]
    for c in ('SN', 'network', 'station', 'location'):
        v = r.cols[c].at(i)
        from vc.cells import cell
        v = cell(v)
        g = f.get(c.lower())
        if v is None: p.prove(c + ' of a row', z3.BoolVal(False)); continue
        p.prove(c + ' of a row', v.t == (BLANK if g is None else z3.If(g(i) == NA, BLANK, g(i)) if c in ('network', 'location') else g(i)))
    v = num(r.cols['elevation'].at(i))
    nn = v.nan if v.nan is not None else z3.BoolVal(False)
    if 'elevation' not in low: w = z3.RealVal(-9999)
    elif src == 'frame':
        e = num(el.at(i)); w = z3.If(e.nan if e.nan is not None else z3.BoolVal(False), z3.RealVal(-9999), E.real(e.t))
    else: w = z3.If(f['elevation'](i) == BLANK, z3.RealVal(-9999), VALOF(f['elevation'](i)))
    p.prove('elevation of a row', z3.And(z3.Not(nn), E.real(v.t) == w))

# ------------------------------------------------------------------ renaming
FILE, START, MINS = z3.Function('input_file', I, S), z3.Function('start_of_trace', I, R), z3.Function('min_start', I, R)
PART = {k: z3.Function(k + '_of', R, I) for k in ('year', 'month', 'day', 'julday', 'hour', 'minute', 'second')}
SNPART = z3.Function('third_part_of_name', S, S)
class T(UTC):
    __slots__ = ()
    def ite(self, c, o): return T(z3.If(E.tobool(c), self.t, o.t))
    year = property(lambda s: Num(PART['year'](s.t))); month = property(lambda s: Num(PART['month'](s.t))); day = property(lambda s: Num(PART['day'](s.t)))
    julday = property(lambda s: Num(PART['julday'](s.t))); hour = property(lambda s: Num(PART['hour'](s.t))); minute = property(lambda s: Num(PART['minute'](s.t))); second = property(lambda s: Num(PART['second'](s.t)))
class InPath(Item):
    def split(self, s, *a):
        if s == '/': return [None, InName(self.t)]
        raise E.Unsupported('split of a path')
    def __getattr__(self, k): E.noattr(k, 'a path')
class InName:
    def __init__(self, t): self.t = t
    def split(self, s, *a):
        if s != '.': raise E.Unsupported('split of a file name')
        return ['time', '', Cell(SNPART(self.t)), '', 'HDF', 'mseed']
class InFiles(PathSeq):
    def symget(self, k): return InPath(self.get(num(k).t))
    def sort(self): self.sorted = True
    def vc_sorted(self): return InFiles(self.n, self.get, True)
class Stats:
    def __init__(self, k): self.__dict__.update(k=k, set={})
    @property
    def starttime(self): return T(START(self.k))
    def __setattr__(self, k, v): self.set[k] = v
    def __getattr__(self, k):
        s = self.__dict__.get('set', {})
        if k in s: return s[k]
        E.noattr(k, 'trace stats')
class Tr:
    def __init__(self, k): self.__dict__.update(stats=Stats(k))
    def __setattr__(self, k, v): cur().prove('samples and times are unchanged', z3.BoolVal(False)); raise E.Unsupported('trace changed')
    def __getattr__(self, k): E.noattr(k, 'a trace')
class St:
    is_sym = True
    def __init__(self, n, b): self.n, self.b, self.traces, self.log = n, b, {}, []
    def symlen(self): return self.n
    def symget(self, k): t = Tr(num(k).t); self.b['trace'] = t; return t
    def vc_len(self): return Num(self.n)
    def __getitem__(self, k):
        if k != 0: raise E.Unsupported('trace of a stream')
        return Tr(z3.IntVal(0))
    def write(self, *a, **k): self.log.append((a, k))
    def vc_comp(self, kind, f, cond):
        if cond is not None: raise E.Unsupported('comprehension')
        v = f(Tr(z3.Int('any_trace')))
        if isinstance(v, T) and v.t.eq(START(z3.Int('any_trace'))): return Starts(self)
        raise E.Unsupported('comprehension over traces')
    def __getattr__(self, k): E.noattr(k, 'a stream')
class Starts(list):
    """start times of all traces; min() of it is the earliest"""
    def __init__(self, st): list.__init__(self, [T(MINS(st.n))])
class Traces(LoopContract):
    def __init__(self, b): self.b = b
    def owns(self, v): return v == 't1'
    def entry(self, L, env):
        b, p = self.b, self.b['p']
        if L.items is not b['st']: raise E.Unsupported('loop over traces')
        p.s.fact(MINS(0) == START(0))
        b['acc'] = isinstance(env.get('t1'), T) and p.check(env['t1'].t != START(0)) == z3.unsat
    def havoc(self, L, v, val): return T(MINS(L.k.t)) if v == 't1' and self.b['acc'] else NotImplemented
    def assume(self, L, env, k): self.b['kt'] = k.t
    def end(self, L, env, k1):
        b, p = self.b, self.b['p']
        k = b['kt']; p.s.fact(MINS(k + 1) == z3.If(START(k) < MINS(k), START(k), MINS(k)))
        if b['acc']: p.prove('earliest start so far', env['t1'].t == MINS(k + 1) if isinstance(env['t1'], T) else z3.BoolVal(False))
        s = b['trace'].stats.set
        p.prove('only the codes of a trace are changed', z3.BoolVal(set(s) == {'network', 'station', 'location'}))
        if set(s) == {'network', 'station', 'location'}: b['codes_ok'] = s; b['f_codes'](s)
    def exit(self, L, env): self.b['traces_done'] = True
class Code:
    def __init__(self, c): self.c = c
    def __format__(self, s): return E.strtoken(self, s)
class Files(LoopContract):
    def __init__(self, b): self.b = b
    def owns(self, v): return v == 'outfile_pattern'
    def entry(self, L, env):
        b, p = self.b, self.b['p']
        it = L.items.parts[-1] if type(L.items).__name__ == 'SymZip' else L.items
        p.prove('every input file is read once', z3.BoolVal(isinstance(it, InFiles)))
        b['pat'] = env['outfile_pattern']
    def havoc(self, L, v, val):
        if v != 'outfile_pattern': return NotImplemented
        return self.b['given'] if cur().decide(z3.Bool('first_file')) else self.b['fixed']
    def assume(self, L, env, k): self.b['k'] = k.t; self.b['st'] = None; self.b['traces_done'] = False; self.b['codes_ok'] = None
    def end(self, L, env, k1):
        b, p = self.b, self.b['p']
        sn = SNPART(FILE(b['k'])); st = b['st']
        p.prove('names keep their form', z3.BoolVal(env['outfile_pattern'] in (b['given'], b['fixed'])))
        i = z3.Int(p.fresh('i')); p.index(i, b['m'])
        if st is None or not st.log:
            p.cover('skipped'); p.prove('a file is skipped only if its serial number is not listed', z3.Implies(z3.And(i >= 0, i < b['m']), b['f']['SN'](i) != sn)); return
        p.cover('written')
        p.prove('a file is written once', z3.BoolVal(len(st.log) == 1))
        p.prove('all traces are given codes', z3.BoolVal(b['traces_done']))
        a, k = st.log[0]
        path = a[0]; fmt = k.get('format', a[1] if len(a) > 1 else None)
        p.prove('in the format asked for', z3.BoolVal(fmt == 'FMT' and set(k) <= {'format'}))
        t1 = T(MINS(st.n))
        d = {'year': t1.year, 'mon': t1.month, 'day': t1.day, 'jd': t1.julday, 'hour': t1.hour, 'min': t1.minute, 'sec': t1.second, 'net': Code('network'), 'sta': Code('station'), 'loc': Code('location'), 'chan': 'HDF', 'fmt': 'FMT'}
        want = 'OUT/' + b['fixed'].format(**d)
        g, w = E.strparts(path), E.strparts(want)
        p.prove('the output name has the requested form', z3.BoolVal(len(g) == len(w)))
        if len(g) != len(w): return
        for x, y in zip(g, w):
            if isinstance(x, str) or isinstance(y, str): p.prove('text of the output name', z3.BoolVal(x == y)); continue
            p.prove('digits of the output name', z3.BoolVal(x[1] == y[1]))
            if isinstance(y[0], Code): b['f_codes']({y[0].c: x[0]}); continue
            p.prove('output name is built from the earliest start', E.same(x[0], y[0]))
def rename(p, mod, hold, b, pat):
    b.clear(); facts()
    m, n = z3.Ints('n_rows n_files'); p.assume(z3.And(m >= 0, n >= 1))
    f = {c: z3.Function('listed_' + c, I, S) for c in CODES + ['SN']}
    for c in f: p.universal(lambda i, g=f[c]: g(i) != NA, m)
    tab = SDF({**{c: Arr(m, get=lambda i, g=g: Cell(g(i))) for c, g in f.items()}, 'elevation': Arr.fresh('listed_elevation', m)}, m)
    given = pat or '{year}-{mon}-{day}T{hour}_{min}_{sec}.{net}.{sta}.{loc}.{chan}.{fmt}'
    fixed = given
    for k, w in (('year', 4), ('mon', 2), ('day', 2), ('hour', 2), ('min', 2), ('sec', 2), ('jd', 3)): fixed = fixed.replace('{' + k + '}', '{' + k + ':0%dd}' % w)
    b.update(p=p, m=m, f=f, given=given, fixed=fixed)
    hold['info'] = lambda x: tab
    hold['glob'] = lambda t: InFiles(n, lambda k: FILE(k), False) if t == 'PATTERN' else (_ for _ in ()).throw(E.Unsupported('glob'))
    def readms(fn, *a, **k):
        if a or k or not isinstance(fn, InPath): raise E.Unsupported('read')
        p.prove('the input file itself is read', fn.t == FILE(b['k']))
        nt = z3.Int(p.fresh('n_traces')); p.assume(nt >= 1)
        b['st'] = St(nt, b); return b['st']
    hold['readms'] = readms
    p.universal(lambda i: SNPART(FILE(i)) != NA, n)
    def codes(s):
        """the codes given to a trace are those of one row with the serial number of the file"""
        sn = SNPART(FILE(b['k'])); r = None
        for c in s:
            g = s[c]
            if not (isinstance(g, Cell) and g.t.num_args() == 1 and g.t.decl().eq(f[c])): p.prove('codes come from the column of the same name', z3.BoolVal(False)); return
            a = g.t.arg(0); r = a if r is None else r
            p.prove('codes come from one row', a == r)
        p.prove('codes come from the row of the serial number', z3.And(r >= 0, r < m, f['SN'](r) == sn))
    b['f_codes'] = codes
    r = mod['rename_files']('PATTERN', 'TABLE', 'OUT', 'FMT', **({} if pat is None else {'outfile_pattern': pat}))
    p.prove('the station table is returned', z3.BoolVal(r is tab))

"""Paths as opaque items: folders and files of unknown number and name."""
import z3
from . import engine as E
from .engine import cur, SBool, Num, num, mark
from .npmodel import ModelNS, LIST
from .idlist import IdList, Item, X, S
I, B = z3.IntSort(), z3.BoolSort()
ISDIR = z3.Function('is_folder', S, B)
SNOF = z3.Function('serial_of_name', S, S)          # the part of the file name before "gps"
NFILES = z3.Function('n_files_of_X', S, I)          # GPS files of instrument X in a folder
LATEST = z3.Function('latest_file_of_X', S, S)      # the last of them in order of name

class Path(Item):
    """a path; joins give text with the path as a token"""
    def __add__(self, o): return E.strtoken(self, '') + o
    def __radd__(self, o): return o + E.strtoken(self, '')
    def __format__(self, s): return E.strtoken(self, s)
    def split(self, s, *a):
        if s != '/' or a: raise E.Unsupported('split of a path')
        return LastOf(Name(self.t))
    def __getattr__(self, k): E.noattr(k, 'a path')
class LastOf:
    def __init__(self, v): self.v = v
    def __getitem__(self, k):
        if k != -1: raise E.Unsupported('part of a path')
        return self.v
class FirstOf:
    def __init__(self, v): self.v = v
    def __getitem__(self, k):
        if k != 0: raise E.Unsupported('part of a name')
        return self.v
class Name:
    """the last component of a path"""
    def __init__(self, t): self.t = t
    def split(self, s, *a):
        if s != 'gps': raise E.Unsupported('split of a file name')
        return FirstOf(Item(SNOF(self.t)))
    def partition(self, s): return self.split(s)
    def __getattr__(self, k): E.noattr(k, 'a file name')
class PathObj:
    def __init__(self, x): self.x = x
    @property
    def name(self): return Name(self.x.t)
    def is_dir(self): return self.x.isdir()
    def __getattr__(self, k): E.noattr(k, 'a path object')
class OS:
    """os, for paths"""
    sep = '/'
    def __init__(self, hold):
        self.path = ModelNS('os.path', isdir=lambda d: cur().decide(ISDIR(d.t)) if isinstance(d, Path) else (_ for _ in ()).throw(E.Unsupported('isdir')),
                            isfile=lambda d: not cur().decide(ISDIR(d.t)) if isinstance(d, Path) else (_ for _ in ()).throw(E.Unsupported('isfile')),
                            basename=lambda d: Name(d.t) if isinstance(d, Path) else (_ for _ in ()).throw(E.Unsupported('basename')),
                            join=lambda a, *b: '/'.join([a + '' if not isinstance(a, str) else a, *[x if isinstance(x, str) else '' + x for x in b]]))
    def __getattr__(self, k): E.noattr(k, 'os')
class PathSeq:
    """a sequence of paths of unknown length"""
    is_sym = True
    vc_type = LIST
    def __init__(self, n, get, sorted=None): self.n, self.get, self.sorted = n, get, sorted
    def same(self, o): return self.n is o.n and self.get is o.get
    def as_list(self): return self
    def symlen(self): return self.n
    def symget(self, k): return Path(self.get(num(k).t))
    def vc_len(self): return Num(self.n)
    def vc_sorted(self): return PathSeq(self.n, self.get, True)
    def sort(self): self.sorted = True
    def __iter__(self): raise E.Unsupported('iteration over paths outside a loop')
    def __getattr__(self, k): E.noattr(k, 'a list of paths')
def Globbed(p, seq):
    """glob gives the paths in no particular order; `seq` is their sorted order"""
    return PathSeq(seq.n, seq.get, False)
class FilesOf:
    """the files of instrument X in a folder"""
    is_sym = True
    vc_type = LIST
    def __init__(self, p, d, sorted=False): self.p, self.d, self.sorted = p, d, sorted; p.s.fact(NFILES(d) >= 0)
    def symlen(self): return NFILES(self.d)
    def symget(self, k): raise E.Unsupported('files of a folder')
    def vc_len(self): return Num(NFILES(self.d))
    def vc_sorted(self): return FilesOf(self.p, self.d, True)
    def sort(self): self.sorted = True
    def __bool__(self): return self.p.decide(NFILES(self.d) > 0)
    def __getitem__(self, k):
        if not self.p.decide(NFILES(self.d) > 0): raise mark(IndexError('list index out of range'))
        if k == -1 and self.sorted: return Path(LATEST(self.d))
        return Path(z3.Const(self.p.fresh('some_file'), S))
    def __iter__(self): raise E.Unsupported('iteration over files')
    def __getattr__(self, k): E.noattr(k, 'a list of files')
def split_glob(t):
    """(folder, rest) of a pattern that begins with a folder"""
    ps = E.strparts(t) if isinstance(t, str) else []
    ps = [x[0] if isinstance(x, tuple) and x[1] == '' else x for x in ps]
    out = []
    for x in ps:
        if isinstance(x, str) and out and isinstance(out[-1], str): out[-1] += x
        else: out.append(x)
    if not out or not isinstance(out[0], Path): raise E.Unsupported('glob pattern')
    return out[0].t, out[1:]

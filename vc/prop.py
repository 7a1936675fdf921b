"""Per-property driver: proofs (this process), then the concrete contract oracle
(replay of countermodels plus the labelled bounded search) in /opt/venv, then evidence."""
import sys, os, json, time, subprocess, tempfile, shutil, importlib, hashlib, traceback, signal, select, pickle
from . import engine as E
from .loader import Module, Runtime
from .npmodel import NpModel, BUILTINS, ModelNS
from .pdmodel import PdModel
from . import libmodels

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
VENV = '/opt/venv/bin/python'

SIGS = json.load(open(os.path.join(ROOT, 'vc', 'sigs.json')))

def bound(node, stub, ref):
    """call a contract stub the same way however the caller wrote the call: arguments without a
    default by position, the others by the name they had when the contract was written"""
    a = node.args
    if a.vararg or a.kwarg or a.posonlyargs or a.kwonlyargs: return stub
    names = [x.arg for x in a.args]
    req = len(names) - len(a.defaults)
    ref = ref or names
    if len(ref) < req: return stub
    called = [n if n in ref else ref[i] if i < len(ref) and ref[i] not in names else n for i, n in enumerate(names)]
    def call(*args, **kw):
        if len(args) > len(names): raise TypeError(f'{node.name}() takes {len(names)} arguments')
        got = dict(zip(names, args))
        for k, v in kw.items():
            if k in got or k not in names: raise TypeError(f'{node.name}() argument {k}')
            got[k] = v
        for n in names[:req]:
            if n not in got: raise TypeError(f'{node.name}() missing argument {n}')
        return stub(*[got[n] for n in names[:req]], **{c: got[n] for n, c in list(zip(names, called))[req:] if n in got})
    return call

class Result:
    """picklable outcome of a Run"""
    def __init__(self):
        self.obl, self.covers, self.need_covers, self.fns = {}, set(), [], []
        self.paths = self.completed = self.queries = self.cvc5 = 0
        self.solver_s = self.wall = 0.0
        self.unsupported, self.loops_cut = None, set()

class Prover:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.runs = []
        self.todo = []
        self.assumptions = []
        self.functions = []
        self.notes = []
        self.covers_missing = []
    def source(self, rel):
        return open(os.path.join(REPO, rel), encoding='utf-8').read()
    def module(self, name, bounded=False, extra=None, stubs=None, loops=None, unroll=40, source=None, tree=None):
        """load gemlog/<name>.py instrumented, with library models and contract stubs"""
        models = libmodels.Models(extra or {})
        rt = Runtime(models, bounded, unroll)
        if loops: rt.loop_contracts.update(loops)
        ns = dict(BUILTINS)
        path = os.path.join(REPO, 'gemlog', name + '.py') if source is None else name
        m = Module(path, name, rt, ns, source=source, text_tree=tree)
        m.rt = rt
        names = SIGS.get(name, {})
        for k, v in (stubs or {}).items():
            m.ns[k] = bound(m.functions[k], v, names.get(k)) if k in m.lines and callable(v) else v
        return m
    def run(self, name, body, functions=(), covers=(), **kw):
        """register: prove everything the body asks for, on every path"""
        if self.only and self.only not in name: return None
        self.todo.append((name, body, list(functions), list(covers), kw))
    def execute(self, stop, limit, jobs):
        """every registered run in its own forked process"""
        t_end = time.time() + limit
        live, todo = {}, list(enumerate(self.todo))
        out = {}
        stopped, grace = None, 0
        while todo or live:
            while todo and len(live) < jobs and not stopped:
                i, item = todo.pop(0)
                r, w = os.pipe()
                sys.stdout.flush(); sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    code = 1
                    try:
                        os.close(r)
                        data = pickle.dumps(self._one(*item))
                        with os.fdopen(w, 'wb') as f: f.write(data)
                        code = 0
                    except BaseException: traceback.print_exc()
                    finally:
                        sys.stdout.flush(); os._exit(code)
                os.close(w)
                live[r] = (i, pid, bytearray())
            if not live: break
            for fd in select.select(list(live), [], [], 0.5)[0]:
                i, pid, buf = live[fd]
                chunk = os.read(fd, 1 << 20)
                if chunk: buf.extend(chunk); continue
                os.close(fd); os.waitpid(pid, 0); del live[fd]
                if buf: out[i] = pickle.loads(bytes(buf))
            if not stopped and time.time() > t_end: stopped = 'time budget of this check'
            if not stopped and not grace and stop(): grace = time.time() + 40
            if not stopped and grace and time.time() > grace: stopped = 'not finished: a failing input was found first'
            if stopped:
                for fd, (i, pid, buf) in live.items():
                    try: os.kill(pid, signal.SIGKILL)
                    except OSError: pass
                    os.waitpid(pid, 0); os.close(fd)
                live = {}
        self.stopped = stopped
        for i, (name, body, fns, covers, kw) in enumerate(self.todo):
            r = out.get(i)
            if r is None:
                r = Result(); r.name, r.fns, r.need_covers = name, fns, covers
                r.unsupported = stopped or 'the prover process ended abnormally'
            self.runs.append(r)
    def _one(self, name, body, fns, covers, kw):
        t = time.time()
        r = E.Run(name, body, **kw)
        try:
            r.explore()
        except E.Signal as e:
            r.unsupported = f'{type(e).__name__}: {e}'
        except Exception as e:
            r.unsupported = f'{type(e).__name__}: {e}'
            r.tb = traceback.format_exc()
            if os.environ.get('VC_DEBUG'): traceback.print_exc()
        finally:
            E.CUR = None
        if os.environ.get('VC_DEBUG'):
            bad = [f'{o.status}:{o.name.split("/",1)[1]}' for o in r.obl.values() if o.status != 'discharged']
            print(f'   {name}: obl={len(r.obl)} paths={r.paths}/{r.completed} q={r.queries} solver={r.solver_s:.1f} wall={time.time() - t:.1f} covers={sorted(r.covers)} {r.unsupported or ""} {bad}', flush=True)
        x = Result()
        x.name, x.fns, x.need_covers, x.unsupported = name, fns, covers, r.unsupported
        x.covers, x.paths, x.completed, x.queries, x.solver_s, x.wall = set(r.covers), r.paths, r.completed, r.queries, r.solver_s, time.time() - t
        x.loops_cut = set(getattr(r, 'loops_cut', set()))
        x.cvc5 = getattr(r, 'cvc5', 0)
        for k, o in r.obl.items():
            q = x.obl[k] = E.Obligation(o.name)
            q.instances = o.instances
            q.failed, q.unknown = json.loads(json.dumps([o.failed, o.unknown], default=str))
        return x
    def assume_note(self, *s): self.assumptions.extend(x for x in s if x not in self.assumptions)

def harvest_consts():
    """numeric and short text literals of the code under verification (to aim the bounded search)"""
    import ast
    nums, strs = set(), set()
    for f in sorted(os.listdir(os.path.join(REPO, 'gemlog'))):
        if not f.endswith('.py'): continue
        try: tree = ast.parse(open(os.path.join(REPO, 'gemlog', f)).read())
        except SyntaxError: continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant):
                if isinstance(n.value, (int, float)) and not isinstance(n.value, bool) and abs(n.value) < 1e12: nums.add(n.value)
                elif isinstance(n.value, str) and len(n.value) <= 12: strs.add(n.value)
    return sorted(nums), sorted(strs)

def build_copy(scratch, need_ext):
    """a private copy of the package, with the C extension rebuilt from the current source"""
    dst = os.path.join(scratch, 'pkg')
    os.makedirs(dst)
    shutil.copytree(os.path.join(REPO, 'gemlog'), os.path.join(dst, 'gemlog'),
                    ignore=shutil.ignore_patterns('*.so', '*.c', '__pycache__', 'build'))
    if not need_ext: return dst, None
    code = ("import sys,os;os.chdir(sys.argv[1]);"
            "from setuptools import setup,Extension;from Cython.Build import cythonize;import numpy;"
            "sys.argv=['setup.py','-q','build_ext','--inplace'];"
            "setup(name='gemlog',packages=['gemlog'],ext_modules=cythonize([Extension('gemlog.parsers',['gemlog/parsers.pyx'],include_dirs=[numpy.get_include()])],quiet=True))")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', CFLAGS='-O1 -w')
    p = subprocess.Popen([VENV, '-c', code, dst], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=dst)
    return dst, p

def known_findings():
    p = os.path.join(ROOT, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []

def main(pid, tier, seed, proofs=True, oracle=True, only=None):
    t0 = time.time()
    sys.setrecursionlimit(20000)
    scratch = tempfile.mkdtemp(prefix=f'verif-{pid}-')
    try:
        return _main(pid, tier, seed, scratch, t0, proofs, oracle, only)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def _main(pid, tier, seed, scratch, t0, proofs, oracle, only):
    sys.path.insert(0, ROOT)
    mod = importlib.import_module(f'props.{pid.lower()}')
    need_ext = getattr(mod, 'NEEDS_EXT', False)
    pkg, build = build_copy(scratch, need_ext and oracle)
    pr = Prover(pid, tier)
    pr.only = only
    # bounded search runs concurrently with the proofs
    out_path = os.path.join(scratch, 'oracle.json')
    orc = None
    def start_oracle(models, phase, outp):
        nums, strs = harvest_consts()
        cfg = {'seed': seed, 'tier': tier, 'models': models, 'phase': phase, 'scratch': os.path.join(scratch, 'w_' + phase), 'nums': nums, 'strs': strs,
               'budget': (getattr(mod, 'BUDGET', {}).get(tier) or (100 if tier == 'quick' else 420))}
        os.makedirs(cfg['scratch'], exist_ok=True)
        cp = os.path.join(scratch, f'cfg_{phase}.json')
        json.dump(cfg, open(cp, 'w'))
        env = dict(os.environ, PYTHONPATH=pkg, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', HOME=cfg['scratch'], OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
                   PYTHONHASHSEED='0', MPLCONFIGDIR=cfg['scratch'], VERIF_REPO=REPO)
        return subprocess.Popen([VENV, os.path.join(ROOT, 'oracles', pid.lower() + '.py'), '--cfg', cp, '--out', outp],
                                env=env, cwd=cfg['scratch'], stdout=open(outp + '.log', 'w'), stderr=subprocess.STDOUT, start_new_session=True)
    build_log = ''
    if build is not None:
        build_log = build.communicate()[0].decode(errors='replace')
        if build.returncode != 0:
            print(build_log[-3000:]); print('cannot build the extension module'); return 3
    if oracle: orc = start_oracle([], 'search', out_path)
    # proofs
    perr = None
    if proofs:
        E.RLIMIT = 40_000_000 if tier == 'quick' else 200_000_000
        try: mod.prove(pr)
        except Exception as e:
            perr = traceback.format_exc()
            print(perr)
        kf0 = {(k['property'], k['key']) for k in known_findings() if k.get('status') == 'known'}
        def stop():
            if orc is None or orc.poll() is None or not os.path.exists(out_path): return False
            try: return any((pid, v['key']) not in kf0 for v in json.load(open(out_path))['violations'])
            except ValueError: return False
        pr.execute(stop, (480 if tier == 'quick' else 2400), min(7, os.cpu_count() or 2))
    obligations, discharged, failed, unknown = 0, 0, [], []
    fn_ok, fn_bad = [], []
    per_fn = {}
    for r in pr.runs:
        bad = r.unsupported
        if not bad and r.completed == 0 and not r.obl:
            bad = 'no path and no obligation'
        if not bad:
            miss = [c for c in r.need_covers if c not in r.covers]
            if miss and not any(o.failed or o.unknown for o in r.obl.values()):
                bad = f'cover goal not reached: {miss}'
        if bad: fn_bad.append({'run': r.name, 'reason': bad, 'functions': r.fns})
        for o in r.obl.values():
            obligations += 1
            if o.failed: failed.append((r, o))
            elif o.unknown: unknown.append((r, o))
            elif bad: pass
            else: discharged += 1
        per_fn[r.name] = {'functions': r.fns, 'obligations': len(r.obl), 'vc_instances': sum(o.instances for o in r.obl.values()), 'paths': r.paths, 'completed_paths': r.completed,
                          'solver_s': round(r.solver_s, 2), 'queries': r.queries, 'wall_s': round(r.wall, 2), 'unsupported': bad,
                          'loops_cut': sorted(getattr(r, 'loops_cut', set())), 'covers': sorted(r.covers),
                          'names': {o.name: o.status for o in r.obl.values()}}
    # replay of countermodels
    models = []
    for r, o in failed:
        for f in o.failed[:3]:
            models.append({'obligation': o.name, 'run': r.name, 'model': f.get('model', {})})
    res = None
    violations = []
    def collect(p, path, limit):
        try: p.wait(timeout=limit); log = ''
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL); p.wait(); log = '\n[killed: time]'
        log = open(path + '.log', errors='replace').read()[-6000:] + log
        if os.path.exists(path): return json.load(open(path)), log
        return None, log
    replay_res = None
    if oracle:
        if models:
            rp = start_oracle(models, 'replay', os.path.join(scratch, 'replay.json'))
            replay_res, rlog = collect(rp, os.path.join(scratch, 'replay.json'), 200)
            if replay_res: violations += replay_res['violations']
        res, log = collect(orc, out_path, 600 if tier == 'quick' else 3000)
        if res is None:
            print(log[-4000:]); print('the concrete oracle did not finish')
            if not failed: return 3
        else: violations += res['violations']
    kf = known_findings()
    edir = os.path.join(ROOT, 'evidence'); os.makedirs(edir, exist_ok=True)
    rdir = os.path.join(edir, 'replay'); os.makedirs(rdir, exist_ok=True)
    groups = {}
    for b in fn_bad: groups.setdefault(b['reason'], []).append(b['run'])
    for k, v in groups.items(): print('  bounded only:', ', '.join(v[:4]) + (f' and {len(v) - 4} more' if len(v) > 4 else ''), '-', k)
    code = 0
    seen_known, new = {}, []
    for v in violations:
        hit = None
        for k in kf:
            if k.get('status') == 'known' and k['property'] == pid and v.get('key') and v['key'] == k['key']: hit = k; break
        if hit: seen_known[hit['key']] = hit
        else: new.append(v)
    for k in kf:
        if k.get('status') == 'known' and k['property'] == pid:
            print(f"KNOWN-FINDING: property={pid} {k['what']}" + ('' if k['key'] in seen_known or not oracle else ' (not reproduced on this tree)'))
    if new:
        v = new[0]
        fn = os.path.join(rdir, f'{pid}-{hashlib.sha1(json.dumps(v, sort_keys=True, default=str).encode()).hexdigest()[:8]}.json')
        json.dump({'property': pid, 'violation': v, 'others': new[1:6], 'failed_obligations': [o.name for r, o in failed],
                   'how': f'{VENV} {ROOT}/oracles/{pid.lower()}.py --replay {fn} (PYTHONPATH = tree under test)'}, open(fn, 'w'), indent=1, default=str)
        print(f"  {v.get('what')}")
        print(f'VIOLATION property={pid} replay={fn}')
        code = 1
    elif failed or unknown:
        names = [o.name for r, o in failed + unknown]
        fn = os.path.join(rdir, f'{pid}-obligation-{hashlib.sha1(chr(10).join(names).encode()).hexdigest()[:8]}.json')
        json.dump({'property': pid, 'failed_obligations': [{'name': o.name, 'status': o.status, 'detail': (o.failed or o.unknown)[:2]} for r, o in failed + unknown]}, open(fn, 'w'), indent=1, default=str)
        for n in names[:8]: print('  obligation not discharged:', n)
        print(f'VIOLATION property={pid} replay={fn} no-failing-input-found')
        code = 1
    if proofs and perr is None and obligations == 0 and getattr(mod, 'LEVEL', 'proof') == 'proof' and not fn_bad:
        print('no obligations were generated'); code = code or 3
    level = getattr(mod, 'LEVEL', 'proof')
    trusted = list(pr.assumptions)
    cov = {'obligations': obligations, 'discharged': discharged,
           'checker_cmd': f'python3-vt /verif/check.py {pid} (z3 {E.z3.get_version_string()} via its Python API; SMT queries from the executed source)',
           'trusted_base': trusted,
           'functions_under_contract': sorted(set(f for r in pr.runs if not r.unsupported for f in r.fns)),
           'functions_bounded_only': sorted(set(f for b in fn_bad for f in b['functions']) | set(getattr(mod, 'BOUNDED_ONLY', []))),
           'degraded': fn_bad, 'prover_error': perr,
           'undischarged': [o.name for r, o in failed + unknown],
           'solver_seconds': round(sum(r.solver_s for r in pr.runs), 2), 'solver_queries': sum(r.queries for r in pr.runs),
           'runs': per_fn}
    if res:
        cov['bounded'] = {k: res[k] for k in ('evaluations', 'distinct_nontrivial', 'rule', 'by_kind', 'bound') if k in res}
        cov['bounded']['label'] = 'bounded: run-time contract evaluation on the real code; never counted as proved'
        cov['samples'] = res.get('samples', [])[:4]
        cov['evaluations'] = res['evaluations']; cov['distinct_nontrivial'] = res['distinct_nontrivial']; cov['rule'] = res.get('rule', '')
    cov['explanation'] = getattr(mod, 'EXPLAIN', '')
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': trusted, 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    json.dump(ev, open(os.path.join(edir, f'{pid}.json'), 'w'), indent=1, default=str)
    print(f'{pid}: {discharged}/{obligations} obligations discharged ({len(failed)} failed, {len(unknown)} unknown), {len(fn_bad)} run(s) beyond the verifier, '
          f'{cov.get("evaluations", 0)} concrete contract evaluations, {ev["wall_s"]} s')
    return code

"""Shared runner of the concrete contract oracles (executed by /opt/venv on the real code).

An oracle module defines
  check(case) -> list of (key, text)   the contract evaluated on one concrete case; [] = holds
  gen(rng, ctx) -> iterator of cases   bounded search: boundaries, harvested constants, random
  from_model(ob, model) -> cases       concretisations of a verifier countermodel (optional)
Cases are JSON-serialisable dicts with a 'kind'."""
import sys, os, signal, json, time, random, argparse, traceback, io, contextlib, shutil, warnings, tempfile

class Ctx:
    def __init__(self, cfg):
        self.seed, self.tier = cfg['seed'], cfg['tier']
        self.nums, self.strs = cfg['nums'], cfg['strs']
        self.scratch = cfg['scratch']
        self.thorough = self.tier == 'thorough'
        self.t_end = time.time() + cfg['budget']
    def n(self, quick, thorough): return thorough if self.thorough else quick

@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        o, e = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
        try: yield sys.stdout
        finally: sys.stdout, sys.stderr = o, e

@contextlib.contextmanager
def scratch_dir(base=None):
    d = tempfile.mkdtemp(prefix='case-', dir=base)
    old = os.getcwd()
    os.chdir(d)
    try: yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)

class Hang(BaseException): pass
CASE_SECONDS = 100          # a case takes at most a few seconds
def _hang(sig, frame):
    fs = [f'{os.path.basename(f.filename)}:{f.name}' for f in traceback.extract_stack(frame) if '/gemlog/' in f.filename]
    raise Hang(' in '.join(reversed(fs[-3:])) or 'no function of the code under test')
def run_case(check, case):
    signal.signal(signal.SIGALRM, _hang)
    signal.setitimer(signal.ITIMER_REAL, CASE_SECONDS, 5)
    try:
        with quiet(), scratch_dir(os.environ.get('ORC_SCRATCH')):
            return [(k, t) for k, t in check(case)]
    except OracleSkip:
        return None
    except Hang as e:
        return [('hang', f'no result after {CASE_SECONDS} s (running {e})')]
    finally: signal.setitimer(signal.ITIMER_REAL, 0)

class OracleSkip(Exception): pass

def main(check, gen, from_model=None, rule='', bound='', dedup=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('--cfg'); ap.add_argument('--out'); ap.add_argument('--replay')
    a = ap.parse_args()
    if a.replay:
        v = json.load(open(a.replay))['violation']
        with scratch_dir():
            r = run_case(check, v['case'])
        print('REPRODUCED' if r else 'not reproduced', r)
        sys.exit(1 if r else 0)
    cfg = json.load(open(a.cfg))
    ctx = Ctx(cfg)
    os.environ['ORC_SCRATCH'] = ctx.scratch
    viol, seen, kinds, samples = [], set(), {}, []
    ev = 0
    t0 = time.time()
    def consume(cases, why):
        nonlocal ev
        keys = set()
        for case in cases:
            if time.time() > ctx.t_end: kinds['[stopped by time budget]'] = 1; break
            ev += 1
            s = json.dumps(case, sort_keys=True, default=str)
            seen.add(hash(s))
            kinds[case.get('kind', '?')] = kinds.get(case.get('kind', '?'), 0) + 1
            try:
                r = run_case(check, case)
            except Exception as e:
                tb = traceback.format_exc()
                if any('/gemlog/' in f.filename for f in traceback.extract_tb(e.__traceback__)):
                    r = [('crash', f'unexpected {type(e).__name__} from the code under test: {e}; ' + tb[-600:])]
                elif isinstance(e, (KeyError, IndexError, AttributeError, TypeError, ValueError, ZeroDivisionError, FileNotFoundError, StopIteration)):
                    r = [('malformed', f'the result lacks what the contract says it has: {type(e).__name__}: {e}; ' + tb[-500:])]
                else: raise RuntimeError('oracle failed on ' + s[:2000] + '\n' + tb)
            if r is None: continue
            if kinds[case.get('kind', '?')] <= 1 and len(samples) < 4: samples.append(json.loads(s) if len(s) < 3000 else {'kind': case.get('kind'), 'truncated': s[:1500]})
            for key, text in r:
                if key in keys: continue
                keys.add(key)
                viol.append({'key': key, 'what': text, 'case': case, 'found_by': why})
            if len(keys) >= 12 or 'hang' in keys: break
    if cfg['phase'] == 'replay':
        for m in cfg['models']:
            try: cases = list(from_model(m['obligation'], m['model'])) if from_model else []
            except Exception: cases = []
            try: consume(cases, 'countermodel of ' + m['obligation'])
            except RuntimeError as e: print(e)
    else:
        consume(gen(random.Random(ctx.seed), ctx), 'bounded search')
    json.dump({'evaluations': ev, 'distinct_nontrivial': len(seen), 'rule': rule, 'bound': bound, 'by_kind': kinds, 'samples': samples,
               'violations': viol, 'wall': time.time() - t0}, open(a.out, 'w'), default=str)

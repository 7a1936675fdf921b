"""Regenerates MANIFEST.json: claims every property with a props/<id>.py, lists the rest as not_applicable."""
import json, os, importlib, sys
R = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, R)
sys.dont_write_bytecode = True
NA = json.load(open(os.path.join(R, 'not_applicable.json')))
checks, na = [], []
for l in open(os.path.join(R, 'properties.jsonl')):
    pid = json.loads(l)['id']
    if os.path.exists(f'{R}/props/{pid.lower()}.py'):
        m = importlib.import_module(f'props.{pid.lower()}')
        checks.append({'property': pid, 'quick_cmd': f'python3-vt check.py {pid}', 'thorough_cmd': f'python3-vt check.py {pid} --tier thorough',
                       'technique': 'contract-based deductive verification (symbolic execution of the real functions against contracts, z3), run-time contract replay on the real code',
                       'level': getattr(m, 'LEVEL', 'proof'), 'level_note': m.EXPLAIN})
    else: na.append({'property': pid, 'reason': NA.get(pid, 'no check yet (being built)')})
json.dump({'version': 1, 'setup_cmd': 'python3-vt -c "import z3, cvc5" && /opt/venv/bin/python -c "import obspy, pandas, Cython"', 'checks': checks, 'not_applicable': na},
          open(f'{R}/MANIFEST.json', 'w'), indent=1)

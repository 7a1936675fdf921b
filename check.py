#!/usr/bin/env python3-vt
"""python3-vt /verif/check.py C03 [--tier quick|thorough] [--no-proof] [--no-oracle]"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vc import prop
a = sys.argv[1:]
tier = os.environ.get('VERIF_TIER') or 'quick'
if '--tier' in a: tier = a[a.index('--tier') + 1]
seed = int(os.environ.get('VERIF_SEED') or 1)
only = a[a.index('--only') + 1] if '--only' in a else None
sys.stdout.reconfigure(line_buffering=True)
rc = prop.main(a[0], tier, seed, proofs='--no-proof' not in a, oracle='--no-oracle' not in a, only=only)
sys.exit(rc)

import json,sys
d=json.load(open(f'/verif/evidence/{sys.argv[1]}.json'))['coverage']
for k,v in d['runs'].items():
    bad={a:b for a,b in v['names'].items() if b!='discharged'}
    print(f"{k}: obl={v['obligations']} inst={v['vc_instances']} paths={v['paths']}/{v['completed_paths']} q={v['queries']} solver={v['solver_s']} wall={v['wall_s']} cov={v['covers']} UNSUP={v['unsupported']}")
    for a,b in bad.items(): print('    ',b,a)

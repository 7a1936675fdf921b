import os, sys, json, subprocess, tempfile, shutil
def mk(id, prop, edits, demo, needs, breaks, files=('gemsim.py',)):
    """edits: list of (file, old, new)"""
    d=f'/verif/seeded/{id}'; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    w=tempfile.mkdtemp(prefix='mk'); subprocess.run(['git','clone','-q','/repo',w+'/r'],check=True)
    for f,o,n in edits:
        p=f'{w}/r/{f}'; s=open(p, newline='').read()
        if s.count(o)!=1: print(id,'edit matches',s.count(o),'times:',o[:60]); sys.exit(1)
        open(p,'w',newline='').write(s.replace(o,n))
    diff=subprocess.run(['git','-C',w+'/r','diff'],capture_output=True,text=True).stdout
    open(d+'/patch.diff','w').write(diff); shutil.rmtree(w)
    open(d+'/demo.py','w').write(demo)
    open(d+'/demo.sh','w').write('''#!/bin/bash
# run with cwd = the tree under test
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
cd "$W" && PYTHONPATH="$R:$D" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg HOME="$W" /opt/venv/bin/python "$D/demo.py"
''')
    for f in files: shutil.copy(f'/verif/oracles/{f}', d)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)

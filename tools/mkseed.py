#!/usr/bin/env python3
"""mkseed.py SPEC.py: SPEC defines SEEDS = [dict(id, prop, edits=[(file, old, new)], demo=str, needs=str, breaks=str)].
Writes seeded/<id>/ (patch.diff made in a scratch copy of /repo's HEAD sources)."""
import sys,os,subprocess,shutil,json,tempfile
ns={}
exec(open(sys.argv[1]).read(),ns)
only=sys.argv[2:]
for s in ns['SEEDS']:
    if only and s['id'] not in only: continue
    d='/verif/seeded/'+s['id']
    w=tempfile.mkdtemp()
    subprocess.check_call(['git','-C','/repo','worktree','add','-q','--detach',w+'/r','HEAD'])
    try:
        for f,a,b in s['edits']:
            p=w+'/r/stable-fs/src/'+f
            t=open(p).read()
            assert t.count(a)==1,(s['id'],f,a,t.count(a))
            open(p,'w').write(t.replace(a,b))
        diff=subprocess.check_output(['git','-C',w+'/r','diff']).decode()
    finally:
        subprocess.call(['git','-C','/repo','worktree','remove','--force',w+'/r'])
        shutil.rmtree(w)
    os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(diff)
    w=s.get('wasm')
    open(d+'/demo.rs','w').write(('' if w else ns.get('PRELUDE',''))+s['demo'])
    shutil.copy('/verif/tools/demo-wasm.sh' if w else '/verif/tools/demo.sh',d+'/demo.sh'); os.chmod(d+'/demo.sh',0o755)
    json.dump({"property":s['prop'],"needs":s['needs'],"what_it_breaks":s['breaks']},open(d+'/meta.json','w'),indent=1)
    print('wrote',d)

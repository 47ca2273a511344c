"""mkseed(id, prop, [(file, old, new)], needs, breaks, demo_py, ranks): writes /verif/seeded/id"""
import os, subprocess, json, shutil
def mkseed(id, prop, edits, needs, breaks, demo, ranks=1, timeout=120, shim=False):
    d='/verif/seeded/'+id
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    w='/tmp/mkseed-wt'
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(['git','-C','/repo','worktree','prune'])
    subprocess.check_call(['git','clone','-q','/repo',w])
    for f,a,b in edits:
        s=open(w+'/'+f).read(); assert s.count(a)==1,(id,f,s.count(a),a); open(w+'/'+f,'w').write(s.replace(a,b))
    p=subprocess.run(['git','-C',w,'diff'],stdout=subprocess.PIPE,text=True).stdout
    assert p
    open(d+'/patch.diff','w').write(p)
    open(d+'/demo.py','w').write(demo.lstrip('\n'))
    if shim: shutil.copy('/verif/harness/pfftshim.py', d+'/pfftshim.py')
    run = "mpirun -n %d python -m mpi4py" % ranks if ranks>1 else "python"
    open(d+'/demo.sh','w').write('''#!/bin/bash
# exit 0 if the property holds on this input, nonzero otherwise
D=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/lib/env.sh ] && . /opt/vp/lib/env.sh
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 PYTHONDONTWRITEBYTECODE=1
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export TMPDIR=$T PYTHONPATH=/repo:$D
cd "$T"
timeout -k 5 %d %s "$D/demo.py"
''' % (timeout, run))
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d+'/meta.json','w'), indent=1)
    shutil.rmtree(w)

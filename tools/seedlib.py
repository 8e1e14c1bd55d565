"""mkseed(id, prop, [(file, old, new)...], needs, breaks, demo_cpp): writes /verif/seeded/<id> from /repo's HEAD"""
import os, subprocess, json, shutil
DEMO = '''#!/bin/bash
# exit 0: the property holds for the case in demo.cpp; nonzero: it does not
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++20 -O1 -fopenmp -w -DNDEBUG -I/repo/_build/include/auto -I/repo/include -I/usr/include/libxml2 -isystem /usr/include/eigen3 -isystem /usr/include/hdf5/serial -isystem /usr/include/opencascade \\
  "$D/demo.cpp" -o "$T/demo" -L/repo/_build -lhexed -Wl,-rpath,/repo/_build $EXTRA -L/usr/lib/x86_64-linux-gnu/hdf5/serial || exit 3
cd "$T" && OMP_NUM_THREADS=4 timeout 120 ./demo
'''
def mkseed(id, prop, edits, needs, breaks, demo, only=None):
    d = '/verif/seeded/' + id
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    assert not subprocess.run(['git','-C','/repo','status','--porcelain'],capture_output=True,text=True).stdout.strip()
    try:
        for f, old, new in edits:
            p = '/repo/' + f; s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git','-C','/repo','diff'],capture_output=True,text=True).stdout
    finally:
        subprocess.run(['git','-C','/repo','checkout','--','.'],capture_output=True)
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.sh','w').write(DEMO); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo.cpp','w').write(demo.lstrip())
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)

"""helper: seed(id, prop, [(file, old, new)...], needs, breaks, demo_py=..., demo_cxx=...) writes /verif/seeded/<id>/"""
import json, os, subprocess, shutil
def seed(id, prop, edits, needs, breaks, demo_py=None, demo_cxx=None, cxx_flags='-I src/geomap', cxx_src='src/geomap/*.cxx', libs='-lvigraimpex'):
    d=os.environ.get('SEEDOUT','/tmp/sd/seeded/')+id; os.makedirs(d, exist_ok=True)
    w='/tmp/seedwt'
    shutil.rmtree(w,ignore_errors=True)
    subprocess.check_call(['git','clone','-q','/repo',w])
    try:
        for f,o,n in edits:
            p=os.path.join(w,f); s=open(p,newline='',errors='surrogateescape').read()
            assert s.count(o)==1, (id,f,s.count(o))
            open(p,'w',newline='',errors='surrogateescape').write(s.replace(o,n))
        diff=subprocess.check_output(['git','-C',w,'diff'])
        open(d+'/patch.diff','wb').write(diff)
    finally:
        shutil.rmtree(w,ignore_errors=True)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
    if demo_py:
        open(d+'/demo.py','w').write(demo_py)
        open(d+'/demo.sh','w').write('''#!/bin/bash
# exit 0: behaves as promised; nonzero: broken
B="$PWD/_build"
export PYTHONPATH="$B/python:$B/py3/utils:$B/py3/maputils:$B/py3/applications" PYTHONDONTWRITEBYTECODE=1
exec timeout 200 python3 "$(dirname "$0")/demo.py"
''')
    else:
        open(d+'/demo.cxx','w').write(demo_cxx)
        open(d+'/demo.sh','w').write('''#!/bin/bash
# exit 0: behaves as promised; nonzero: broken
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=gnu++14 -O0 -w -DNDEBUG %s "$(dirname "$0")/demo.cxx" %s -o "$T/demo" %s || exit 2
timeout 100 "$T/demo"
''' % (cxx_flags, cxx_src, libs))

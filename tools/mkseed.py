"""usage: mkseed(id, prop, file, [(old,new)...], demo_py, needs, breaks)"""
import os, json, subprocess
def mkseed(id, prop, edits, demo, needs, breaks):
    d='/verif/seeded/'+id; os.makedirs(d, exist_ok=True)
    subprocess.check_call('git -C /repo checkout -- .', shell=True)
    for f, old, new in edits:
        p='/repo/'+f; s=open(p).read(); assert s.count(old)==1, (id, f, s.count(old), old[:60]); open(p,'w').write(s.replace(old,new))
    diff=subprocess.check_output('git -C /repo diff', shell=True, text=True)
    subprocess.check_call('git -C /repo checkout -- .', shell=True)
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.py','w').write("import os, sys\nsys.path.insert(0, os.getcwd())\nimport logging\nlogging.disable(logging.CRITICAL)\n"+demo)
    open(d+'/demo.sh','w').write('#!/bin/bash\n# run in the repository after the build; exit 0 if the behaviour is right\nexport PYTHONDONTWRITEBYTECODE=1\nexec timeout 120 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(d+'/demo.sh',0o755)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks}, open(d+'/meta.json','w'), indent=1)

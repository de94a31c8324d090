#!/usr/bin/env python3
"""plant.py ID : confirm seeded/ID (build, tests, demo both ways) and run its check."""
import sys, subprocess, json, os
R='/repo'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def clean(): sh('git -C /repo checkout -- .')
notest = '--notest' in sys.argv; nocheck='--nocheck' in sys.argv
ids=[a for a in sys.argv[1:] if not a.startswith('--')]
base=set(json.load(open('/opt/vp/BASELINE.json')).get('tests', []) or [])
for i in ids:
    d='/verif/seeded/'+i
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'dirty'
    m=json.load(open(d+'/meta.json'))
    r=sh('bash %s/demo.sh'%d, cwd=R, timeout=300)
    out=[i, 'demo-clean=%d'%r.returncode]
    if r.returncode: print(r.stdout[-1500:])
    a=sh('git -C /repo apply %s/patch.diff'%d)
    if a.returncode: print(a.stdout); continue
    try:
        r=sh('bash %s/demo.sh'%d, cwd=R, timeout=300)
        out.append('demo-bug=%d'%r.returncode); 
        if not r.returncode: print(r.stdout[-800:])
        if not notest:
            b=sh('bash /opt/vp/build.sh'); out.append('build=%d'%b.returncode)
            t=sh('bash /opt/vp/test.sh /tmp/plant.json')
            failed=[l for l in t.stdout.splitlines() if l.startswith(('FAILED','ERROR katcp')) and 'test_no_memory_leak_invalid_server_no_reconnect' not in l]
            out.append('testfail=%d'%len(failed)); 
            if failed: print('\n'.join(failed[:6]))
        if not nocheck:
            c=sh('VERIF_SEED=1 VERIF_TIER=quick harness/check %s'%m['property'], cwd='/verif', timeout=900)
            viol=[l for l in c.stdout.splitlines() if l.startswith('  [')]
            out.append('check=%d %s'%(c.returncode, (viol or ['-'])[0][:160]))
    finally:
        clean()
    print(' | '.join(out), flush=True)

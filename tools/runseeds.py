#!/usr/bin/env python3
"""runseeds.py [ids...]: run the claimed check of each planted change on a patched copy (development tool)"""
import json, os, subprocess, sys, shutil, glob
ids = sys.argv[1:] or sorted(os.path.basename(d) for d in glob.glob('/verif/seeded/*'))
for i in ids:
    prop = json.load(open('/verif/seeded/%s/meta.json' % i))['property']
    w = '/tmp/rs_' + i
    shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    subprocess.run('git -C /repo archive HEAD | tar x -C %s && cd %s && git apply /verif/seeded/%s/patch.diff' % (w, w, i), shell=True, check=True)
    p = subprocess.run(['python3', '/verif/check.py', prop], env=dict(os.environ, SVA_REPO=w), capture_output=True, text=True)
    shutil.rmtree(w)
    l = [x for x in p.stdout.splitlines() if x.strip()]
    print(i, prop, 'CAUGHT' if p.returncode == 1 else 'MISSED rc=%d' % p.returncode, '|', (l[0] if l else '')[:160], flush=True)

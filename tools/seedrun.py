#!/usr/bin/env python3
"""Runs the check named in every seeded/<id>/meta.json against a scratch copy of /repo with the patch applied.  seedrun.py [ID...]"""
import json, os, subprocess, sys, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
for i in ids:
    d = f'{V}/seeded/{i}'; prop = json.load(open(d + '/meta.json'))['property']; t = tempfile.mkdtemp(prefix='seed')
    subprocess.run(f'cp -a /repo/include {t}/ && cd {t} && git init -q . && git apply {d}/patch.diff', shell=True, check=True)
    r = subprocess.run([V + '/check.py', prop, '--repo', t], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    print(f'{i:28} {prop} exit={r.returncode} {"CAUGHT" if r.returncode == 1 and v else "MISSED"} {r.stdout.splitlines()[-1][:150] if r.stdout else ""}', flush=True)
    shutil.rmtree(t)
    f = V + '/tools/seed_results.json'; res = json.load(open(f)) if os.path.exists(f) else {}
    res[i] = 'caught by ' + prop if r.returncode == 1 and v else f'missed (exit {r.returncode})'; json.dump(res, open(f, 'w'), indent=1, sort_keys=True)

#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (one source for both)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/checks'); import spec
P = []
def p(id, title, statement, over, text, why, files, mech, note=''):
    assert len(title) <= 80, title
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])), note))
I = 'include/qlmps/'
G = I + 'one_dim_tn/mpo/mpogen/'
exec(open(V + '/tools/properties.py').read())
with open(V + '/properties.jsonl', 'w') as f:
    for d, _ in P: f.write(json.dumps(d) + '\n')
NA = {k: v for k, v in NOT_APPLICABLE.items()}
checks = []
for d, note in P:
    if d['id'] in NA: continue
    assert d['id'] in spec.PROPERTIES, d['id']
    checks.append(dict(property=d['id'], quick_cmd=f"python3 check.py {d['id']} --tier quick", thorough_cmd=f"python3 check.py {d['id']} --tier thorough",
        technique='symbolic execution of the real code (clang LLVM bitcode of the current headers) with an SMT solver (Z3, cross-checked by cvc5); counterexamples replayed natively',
        level=spec.PROPERTIES[d['id']].get('level', 'model_checking'), level_note=note or 'every value within the stated bounds is decided by the solver; nothing is claimed beyond them'))
for k in spec.PROPERTIES: assert any(d['id'] == k for d, _ in P), k
m = dict(version=1, setup_cmd='make -s -j8 -C sx/engine OUT=/verif/build', checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())],
         notes='sx (in sx/engine) is a symbolic executor for LLVM bitcode written for this task; see DESIGN.md')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
# DESIGN.md
def bounds(u):
    q = ' '.join(f'{a}={b}' for a, b in u['quick'].get('params', {}).items()); t = ' '.join(f'{a}={b}' for a, b in u['thorough'].get('params', {}).items() if u['quick'].get('params', {}).get(a) != b)
    return f"| {u['name']} | {u['what']} | `{u['src']}` {q} | {t or 'same'} |"
out = []
for d, note in P:
    i = d['id']; out.append(f"### {i} {d['title']}\n")
    if i in NA: out.append(f"Not applicable: {NA[i]}\n"); continue
    pr = spec.PROPERTIES[i]; out.append(DECIDE[i] + '\n'); out.append('Beyond the tests: ' + d['why_tests_cant'] + '.\n')
    if pr['assumptions']: out.append('Assumed: ' + '; '.join(pr['assumptions']) + '.\n')
    out.append('| unit | what | harness and quick bounds | thorough changes |\n|---|---|---|---|'); out += [bounds(u) for u in pr['units']]; out.append('')
kf = json.load(open(V + '/known_findings.json')); fixed = []
for l in kf['fixed']:
    a, c, w = l[len('fixed: property='):].split(' ', 2); fixed.append(f'| {a} | {c} | {w} |')
res = {}
if os.path.exists(V + '/tools/seed_results.json'): res = json.load(open(V + '/tools/seed_results.json'))
seeds = ['| planted bug | property | needs | outcome |', '|---|---|---|---|']
for i in sorted(os.listdir(V + '/seeded')):
    j = json.load(open(f'{V}/seeded/{i}/meta.json')); seeds.append(f"| {i} | {j['property']} | {j['needs']} | {res.get(i, 'not run')} |")
s = open(V + '/tools/DESIGN.in').read().replace('@@PROPERTIES@@', '## Properties\n\nHarness parameters are explained at the top of each harness.\n\n' + '\n'.join(out)).replace('@@FIXED@@', '\n'.join(fixed)).replace('@@SEEDS@@', '\n'.join(seeds))
open(V + '/DESIGN.md', 'w').write(s)
print(len(P), 'properties,', len(checks), 'checks,', len(NA), 'not applicable')

#!/usr/bin/env python3
"""Runs the check of one property:  check.py <PROPERTY> [--tier quick|thorough] [--repo DIR] [--unit NAME] [--jobs N]

For every unit (harness) of the property: compile harness + /repo's current headers to LLVM bitcode, execute it symbolically (sx + Z3), replay a
sample of the explored paths and every counterexample against a native (ASan/UBSan) build of the same code.
Exit 0: held within the bounds.  Exit 1 + VIOLATION line: a reproduced counterexample.  Exit 2: no verdict (never reported as success).
"""
import argparse, json, os, shutil, subprocess, sys, tempfile, time, concurrent.futures as cf
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'checks'))
import spec as SPEC
LL = '/usr/lib/llvm-18/bin/'
SYM = ['clang++-18', '-std=c++17', '-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-pic', '-fno-pie', '-gline-tables-only',
       '-Wno-everything', '-c', '-emit-llvm']
NAT = ['g++', '-std=c++17', '-O1', '-g', '-w']
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined']

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

def build_engine():
    b = os.path.join(V, 'build')
    r = sh(['flock', '/tmp/.sx_build_lock', 'make', '-s', '-j8', '-C', os.path.join(V, 'sx/engine'), 'OUT=' + b])
    if r.returncode: print(r.stdout); raise SystemExit(2)
    return os.path.join(b, 'sx')

CACHE = {} # compiled harnesses of this run
class Unit:
    def __init__(s, pid, u, tier, work, args):
        s.pid, s.u, s.tier, s.args = pid, u, tier, args
        s.name = u['name']; s.src = os.path.join(V, 'checks', u['src'])
        s.d = os.path.join(work, s.name); os.makedirs(s.d)
        t = dict(u.get('quick', {})); 
        if tier == 'thorough': t.update(u.get('thorough', {}))
        s.params = dict(t.get('params', {})); s.timeout = t.get('timeout', 600 if tier == 'quick' else 3000)
        s.samples = t.get('samples', 24); s.alarm = t.get('alarm', 20)
        for p in args.P: k, v = p.split('='); s.params[k] = int(v)
        s.defs = list(u.get('defs', ['-DNDEBUG']))
        s.inc = ['-I' + os.path.join(V, 'checks')] + ['-I' + os.path.join(V, i) for i in u.get('inc', [])] + ['-I' + os.path.join(args.repo, 'include')]
    def key(s): return (s.u['src'], tuple(s.defs), tuple(s.inc))
    def compile_sym(s):
        c = CACHE.get(('sym',) + s.key())
        if c: os.link(c, s.d + '/l.bc'); return None
        e = s.compile_sym_()
        if not e: CACHE[('sym',) + s.key()] = s.d + '/l.bc'
        return e
    def compile_nat(s, out, flags):
        k = ('nat', tuple(flags)) + s.key()
        if k in CACHE: os.link(CACHE[k], out); return None
        e = s.compile_nat_(out, flags)
        if not e: CACHE[k] = out
        return e
    def compile_sym_(s):
        m = os.path.join(V, 'sx/models')
        base = SYM + ['-I' + m + '/include', '-I' + m]
        h, r, l = s.d + '/h.bc', s.d + '/r.bc', s.d + '/l.bc'
        a = subprocess.Popen(base + s.defs + s.inc + [s.src, '-o', h], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        b = subprocess.Popen(base + ['-fno-builtin', m + '/rt_model.cpp', '-o', r], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        oa, ob = a.communicate()[0], b.communicate()[0]
        if a.returncode or b.returncode: return oa[-3000:] + ob[-3000:]
        x = sh([LL + 'llvm-link', h, r, '-o', l])
        return x.stdout if x.returncode else None
    def compile_nat_(s, out, flags):
        x = sh(NAT + flags + s.defs + ['-I' + os.path.join(V, 'sx/models')] + s.inc + [s.src, os.path.join(V, 'sx/rt/native.cpp'), '-o', out])
        return x.stdout[-3000:] if x.returncode else None
    def env(s, extra=None):
        e = dict(os.environ); e.update({'SXP_' + k: str(v) for k, v in s.params.items()}); e['SX_ALARM'] = str(s.alarm)
        e['ASAN_OPTIONS'] = 'detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=1:handle_abort=1'; e['UBSAN_OPTIONS'] = 'print_stacktrace=1'
        e.update(extra or {}); return e
    def native(s, exe, inputs, tag, extra=None, pre=()):
        d = tempfile.mkdtemp(dir=s.d); f = d + '/in.txt'
        with open(f, 'w') as o:
            for n, w, v in inputs: o.write(f"{n.replace(' ', '_')} {w} {v}\n")
        try:
            r = subprocess.run(list(pre) + [exe, f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d, env=s.env(dict(extra or {}, SX_TRACE='1')), timeout=s.alarm * 3 + 30)
            rc, out, err = r.returncode, r.stdout.decode('latin1'), r.stderr.decode('latin1')
        except subprocess.TimeoutExpired: rc, out, err = -14, '', 'timeout'
        shutil.rmtree(d, ignore_errors=True)
        return rc, out, err

def failed(rc, out, err):
    """why a native run counts as a failure of the real code, or None"""
    for l in out.splitlines():
        if l.startswith('@FAIL'): return l[6:]
    if rc == -14: return 'no termination (killed by the alarm)'
    for m in ('ERROR: AddressSanitizer', 'runtime error:', 'ERROR: LeakSanitizer'):
        for l in err.splitlines():
            if m in l: return l.strip()[:300]
    if rc < 0: return f'killed by signal {-rc}'
    if rc == 99: return 'valgrind: use of an uninitialised value'
    if rc not in (0, 7): return f'exit status {rc}'
    return None

def run_unit(pid, u, tier, work, args, sx):
    U = Unit(pid, u, tier, work, args); res = {'unit': U.name, 'harness': u['src'], 'bounds': dict(U.params), 'what': u.get('what', '')}
    nat = U.d + '/nat'
    with cf.ThreadPoolExecutor(2) as ex:
        fn = ex.submit(U.compile_nat, nat, SAN); es = U.compile_sym(); en = fn.result() if es else None
        if es: res['error'] = 'harness does not compile:\n' + es; return res
        out = U.d + '/o.json'; dump = U.d + '/q'
        cmd = [sx, U.d + '/l.bc', '--out', out, '--entry', 'sx_main', '--jobs', str(args.jobs), '--timeout', str(U.timeout), '--samples', str(U.samples), '--seed', str(args.seed), '--dump', dump]
        for k, f in (('steps', '--steps'), ('enum', '--enum'), ('query_ms', '--query-ms'), ('frontier', '--frontier')):
            if k in u: cmd += [f, str(u[k])]
        if args.keep: cmd.append('--keep-going')
        for k, v in U.params.items(): cmd += ['-P', f'{k}={v}']
        t0 = time.time(); r = sh(cmd); res['sx_wall_s'] = round(time.time() - t0, 2)
        en = fn.result()
    if en: res['error'] = 'native harness does not compile:\n' + en; return res
    if not os.path.exists(out): res['error'] = f'sx gave no report (status {r.returncode}): {r.stdout[-2000:]}'; return res
    o = json.load(open(out), strict=False)
    res.update({k: o.get(k) for k in ('paths', 'forks', 'instructions', 'asserts_checked', 'asserts_symbolic', 'exits', 'assume_pruned', 'inconclusive', 'queries', 'queries_sat', 'queries_unsat', 'queries_unknown', 'query_cache_hits', 'solver_s', 'max_query_s', 'max_steps', 'reached', 'notes', 'unsupported', 'known')})
    res['functions'] = o['functions']; res['lines'] = o['lines']; res['missing'] = sorted(set(u.get('reach', o['reach_declared'])) - set(o['reached']))
    res['violations'] = []; res['unconfirmed'] = []; res['validated'] = 0; res['mismatch'] = []
    # counterexamples: replay against the real code
    seen = set()
    for v in o['violations']:
        if v['msg'] in seen and len(seen) > 20: continue
        seen.add(v['msg'])
        why = failed(*U.native(nat, v['inputs'], 'v')); mode = 'asan+ubsan build'
        if not why:
            for fl, extra, pre, md in ((['-O0'], {'MALLOC_PERTURB_': '85'}, (), '-O0, malloc fill 0x55'), ([], {}, ('valgrind', '-q', '--error-exitcode=99'), 'valgrind'), (['-ftrivial-auto-var-init=pattern'], {'MALLOC_PERTURB_': '1'}, (), 'pattern-initialised automatic variables')):
                alt = U.d + '/nat_' + md.split()[0].strip('-,'); 
                if not os.path.exists(alt) and U.compile_nat(alt, fl): continue
                why = failed(*U.native(alt, v['inputs'], 'v', extra, pre))
                if why: mode = md; break
        (res['violations'] if why else res['unconfirmed']).append(dict(v, native=why, mode=mode))
    # translation validation: explored paths, concretely
    if not res['violations']:
        def one(s): return s, U.native(nat, s['inputs'], 's')
        with cf.ThreadPoolExecutor(args.jobs) as ex:
            for s, (rc, so, se) in ex.map(one, o['samples'][:U.samples * 8 if tier == 'thorough' else U.samples]):
                why = failed(rc, so, se)
                if why: res['violations'].append({'kind': 'native', 'msg': 'explored path fails natively: ' + why, 'where': '', 'inputs': s['inputs'], 'native': why, 'mode': 'asan+ubsan build'}); break
                obs = [l.split() for l in so.splitlines() if l.startswith('@OBS')]
                want = [[t.replace(' ', '_'), x] for t, x in s['obs']]; got = [['_'.join(l[1:-1]), int(l[-1])] for l in obs]
                if '@DIVERGE' in so or ('@END' not in so) or want != got: res['mismatch'].append({'inputs': s['inputs'], 'engine': want[:12], 'native': got[:12], 'tail': so[-200:]})
                else: res['validated'] += 1
    res['example_paths'] = [{'inputs': [f"{n}={v}" for n, w, v in s['inputs']][:24], 'observed': [f"{t}={x}" for t, x in s['obs']][:8]} for s in o['samples'][:2]]
    # second solver on a sample of the queries
    res['cvc5'] = cvc5_check(U.d, 40 if tier == 'quick' else 300, args)
    return res

def cvc5_check(d, limit, args):
    qs = []
    for f in sorted(os.listdir(d)):
        if not f.startswith('q.'): continue
        for q in open(d + '/' + f, errors='replace').read().split('(reset)\n'):
            if '(echo "expect ' in q and '(check-sat)' in q: qs.append((q.replace(q[q.index('(echo "expect'):q.index('(check-sat)')], ''), q.split('(echo "expect ')[1].split('"')[0].strip()))
    step = max(1, len(qs) // limit); qs = qs[::step][:limit]
    if not qs: return {'checked': 0, 'agree': 0}
    def one(q):
        try: r = subprocess.run(['cvc5', '--lang', 'smt2', '--tlimit', '20000'], input=q[0], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=40).stdout
        except Exception: return 'timeout'
        a = r.strip().splitlines()
        return 'agree' if a and a[0] == q[1] else ('timeout' if not a or a[0] not in ('sat', 'unsat') else 'DISAGREE')
    with cf.ThreadPoolExecutor(args.jobs) as ex: rs = list(ex.map(one, qs))
    return {'checked': len(rs), 'agree': rs.count('agree'), 'disagree': rs.count('DISAGREE'), 'no_answer': rs.count('timeout')}

def main():
    ap = argparse.ArgumentParser(); ap.add_argument('property'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--repo', default='/repo'); ap.add_argument('--unit'); ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1)); ap.add_argument('--keep', action='store_true'); ap.add_argument('-P', action='append', default=[]); ap.add_argument('--debug', action='store_true')
    args = ap.parse_args(); args.seed = int(os.environ.get('VERIF_SEED', '1') or 1); t0 = time.time(); pid = args.property
    P = SPEC.SELF if pid == 'SELF' else SPEC.PROPERTIES[pid]; sx = build_engine(); work = tempfile.mkdtemp(prefix='sxcheck.')
    results = []
    try:
        for u in P['units']:
            if args.unit and u['name'] != args.unit: continue
            if u.get('tier') == 'thorough' and args.tier != 'thorough': continue
            r = run_unit(pid, u, args.tier, work, args, sx); results.append(r)
            if 'error' in r: print(f"[{pid}/{r['unit']}] ERROR {r['error']}")
            else: print(f"[{pid}/{r['unit']}] bounds={r['bounds']} paths={r['paths']} asserts={r['asserts_checked']} queries={r['queries']} solver={r['solver_s']:.1f}s wall={r['sx_wall_s']}s validated={r['validated']} cvc5={r['cvc5'].get('agree')}/{r['cvc5'].get('checked')}")
            sys.stdout.flush()
            if r.get('violations'): break
        # verdict
        known = [k for k in json.load(open(V + '/known_findings.json')).get('findings', []) if k['property'] == pid] if os.path.exists(V + '/known_findings.json') else []
        hit = {k for r in results for k in (r.get('known') or [])}; listed = {k['id'] for k in known}
        bad = []; rc = 0; nviol = 0
        for r in results:
            if 'error' in r: bad.append(f"{r['unit']}: {r['error'][:300]}"); continue
            if r['missing']: bad.append(f"{r['unit']}: reachability witnesses not reached: {r['missing']}")
            if r['inconclusive']: bad.append(f"{r['unit']}: exploration incomplete: {r['notes']}")
            if r['unsupported']: bad.append(f"{r['unit']}: not encodable: {r['unsupported']}")
            if r['mismatch']: bad.append(f"{r['unit']}: engine and native build disagree: {json.dumps(r['mismatch'][:1])[:600]}")
            if r['unconfirmed']: bad.append(f"{r['unit']}: counterexample did not reproduce: {json.dumps(r['unconfirmed'][:1])[:800]}")
            if r['queries_unknown']: bad.append(f"{r['unit']}: {r['queries_unknown']} solver queries without an answer")
            if r['cvc5'].get('disagree'): bad.append(f"{r['unit']}: Z3 and cvc5 disagree")
            if pid != 'SELF' and not r['asserts_checked'] and not r['violations']: bad.append(f"{r['unit']}: no assertion evaluated")
        for h in sorted(hit - listed): bad.append(f'finding {h} is not listed in known_findings.json')
        for r in results:
            for i, v in enumerate(r.get('violations') or []):
                d = os.path.join(V, 'build', 'replays', f"{pid}-{r['unit']}-{i}"); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
                u = next(x for x in P['units'] if x['name'] == r['unit']); U = Unit(pid, u, args.tier, tempfile.mkdtemp(dir=work), args)
                open(d + '/input.txt', 'w').write(''.join(f"{n.replace(' ', '_')} {w} {x}\n" for n, w, x in v['inputs']))
                json.dump(v, open(d + '/violation.json', 'w'), indent=1)
                build = ' '.join(NAT + SAN + U.defs + ['-I' + V + '/sx/models'] + U.inc + [U.src, V + '/sx/rt/native.cpp', '-o', '"$t/replay"'])
                open(d + '/replay.sh', 'w').write('#!/bin/bash\n# ' + v['msg'].replace('\n', ' ') + '\nh=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); ' + build + ' || exit 9\ncd "$t"; ' + ' '.join(f'SXP_{k}={x}' for k, x in U.params.items()) + f' SX_TRACE=1 SX_ALARM={U.alarm} ASAN_OPTIONS=detect_leaks=0 ./replay "$h/input.txt"; r=$?; cd /; rm -r "$t"; exit $r\n'); os.chmod(d + '/replay.sh', 0o755)
                print(f"[{pid}/{r['unit']}] {v['kind']}: {v['msg']} at {v['where']}; native ({v['mode']}): {v['native']}")
                print('   inputs: ' + ' '.join(f'{n}={x}' for n, w, x in v['inputs'])[:600])
                print(f"VIOLATION property={pid} replay={d}/replay.sh"); nviol += 1; rc = 1
        if not nviol and bad:
            rc = 2
            for b in bad: print(f'[{pid}] NO VERDICT: {b}')
        if rc == 0:
            for k in known: print(f"KNOWN-FINDING: property={pid} {k['what']}" + ('' if k['id'] in hit else ' (not re-triggered within the bounds of this tier)'))
        tot = lambda k: sum((r.get(k) or 0) for r in results)
        fns = sorted({f for r in results for f in r.get('functions', [])}); lines = {l for r in results for l in r.get('lines', [])}
        ev = {'property': pid, 'tier': args.tier, 'seed': args.seed, 'level': P.get('level', 'model_checking'), 'wall_s': round(time.time() - t0, 2), 'violations': nviol,
              'assumptions': P.get('assumptions', []) + SPEC.COMMON_ASSUMPTIONS,
              'coverage': {'states': tot('paths'), 'transitions': tot('forks'), 'traces_validated_against_impl': tot('validated'), 'exhaustive': rc != 2 and not nviol,
                  'obligations': tot('asserts_checked'), 'obligations_needing_solver': tot('asserts_symbolic'), 'instructions_executed_symbolically': tot('instructions'),
                  'solver_queries': tot('queries'), 'solver_queries_sat': tot('queries_sat'), 'solver_queries_unsat': tot('queries_unsat'), 'solver_seconds': round(tot('solver_s'), 2), 'max_query_seconds': max([r.get('max_query_s') or 0 for r in results] or [0]),
                  'queries_checked_by_cvc5': sum(r.get('cvc5', {}).get('checked', 0) for r in results), 'cvc5_disagreements': sum(r.get('cvc5', {}).get('disagree', 0) for r in results), 'cvc5_no_answer': sum(r.get('cvc5', {}).get('no_answer', 0) for r in results),
                  'explanation': 'states = completed symbolic paths (each stands for all inputs satisfying its path condition), transitions = branch points where both sides were feasible; obligations = assertions decided; traces = explored paths replayed on a native ASan/UBSan build with equal observations',
                  'source_lines_covered': len(lines), 'functions_encoded': fns,
                  'samples': [p for r in results for p in r.get('example_paths', [])][:6],
                  'units': [{k: r.get(k) for k in ('unit', 'what', 'harness', 'bounds', 'paths', 'forks', 'asserts_checked', 'asserts_symbolic', 'assume_pruned', 'exits', 'queries', 'solver_s', 'sx_wall_s', 'validated', 'reached', 'cvc5', 'error', 'notes')} for r in results]}}
        os.makedirs(V + '/evidence', exist_ok=True); json.dump(ev, open(f'{V}/evidence/{pid}.json', 'w'), indent=1)
        print(f"[{pid}] {'HOLDS within bounds' if rc == 0 else 'VIOLATED' if rc == 1 else 'NO VERDICT'} tier={args.tier} wall={time.time() - t0:.1f}s"); sys.stdout.flush()
    finally:
        if args.debug: print('work dir', work)
        else: shutil.rmtree(work, ignore_errors=True)
    return rc
if __name__ == '__main__': sys.exit(main())

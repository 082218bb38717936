#!/usr/bin/env python3
"""Runs the analyses that decide one property and reports.

usage: tools/check.py <property id> [quick|thorough]      decide one property (exit 0 or 1)
       tools/check.py --setup                             build the analyser and warm the dependency builds
       tools/check.py --record <id>...                    rewrite the floors of tools/floors.json (by hand only)
"""
import glob, hashlib, json, os, re, shutil, subprocess, sys, time, traceback
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SA_REPO', '/repo')
T = os.path.join(V, 'target')
sys.path.insert(0, os.path.join(V, 'tools'))
from plan import PLAN

def sysroot():
    return subprocess.check_output(['rustc', '+nightly', '--print', 'sysroot'], text=True).strip()

class Fatal(Exception): pass

def build_engine():
    exe = os.path.join(V, 'engine', 'target', 'release', 'sa')
    src = sorted(glob.glob(V + '/engine/src/*.rs')) + [V + '/engine/Cargo.toml', V + '/engine/Cargo.lock']
    h = hashlib.sha256()
    for s in src: h.update(open(s, 'rb').read())
    h.update(sysroot().encode())
    stamp = os.path.join(V, 'engine', 'target', 'stamp')
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest(): return exe
    env = dict(os.environ); env.pop('RUSTFLAGS', None); env.pop('RUSTC_WORKSPACE_WRAPPER', None)
    p = subprocess.run(['cargo', '+nightly', 'build', '--release', '--offline', '--target-dir', V + '/engine/target'], cwd=V + '/engine', env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0: raise Fatal('the analyser does not build:\n' + p.stdout[-3000:])
    open(stamp, 'w').write(h.hexdigest())
    return exe

def run_engine(roots, ptrw, limit, tag, tree):
    """analyse the given roots of the contracts crate against the library in `tree`"""
    exe = build_engine()
    out = os.path.join(T, 'out-' + tag); shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    td = os.path.join(T, 'harness')
    for k in ('nt-hive', 'nt_hive', 'contracts'):
        for d in glob.glob(f'{td}/debug/.fingerprint/{k}-*') + glob.glob(f'{td}/debug/build/{k}'): shutil.rmtree(d, ignore_errors=True)
    env = dict(os.environ)
    env.update(LD_LIBRARY_PATH=sysroot() + '/lib', RUSTC_WORKSPACE_WRAPPER=exe, CARGO_TARGET_DIR=td, CARGO_INCREMENTAL='0', RUST_MIN_STACK='268435456',
        RUSTFLAGS='-Zalways-encode-mir -Coverflow-checks=on -Zmir-opt-level=0 -Awarnings', SA_ROOT=','.join(roots), SA_OUT=out, SA_PTRW=','.join(map(str, ptrw)), SA_TIME=str(limit), SA_JOBS=str(os.cpu_count() or 4))
    cmd = ['cargo', '+nightly', 'check', '--offline', '--manifest-path', V + '/harness/Cargo.toml']
    if tree != '/repo': cmd += ['--config', f'patch.crates-io.dummy.path="{tree}"']
    p = subprocess.run(cmd, cwd=V + '/harness', env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    res = []
    for f in sorted(glob.glob(out + '/*.json')):
        try: res.append(json.load(open(f)))
        except Exception as e: raise Fatal(f'unreadable analysis result {f}: {e}')
    shutil.rmtree(out, ignore_errors=True)
    if p.returncode != 0 and not res: raise Fatal('the library or a contract no longer compiles together (anchors missing):\n' + p.stdout[-4000:])
    return res

def known():
    k = []
    for l in open(V + '/known_findings.txt'):
        l = l.rstrip('\n')
        if not l or l.startswith('#') or l.startswith('fixed:'): continue
        m = re.match(r'finding: property=(\S+) key=(.*?) :: (.*)$', l)
        if not m: raise Fatal('known_findings.txt: ' + l)
        k.append(m.groups())
    return k

def norm(s):
    # generated names and lifetimes may differ between builds
    return re.sub(r"'[a-z_]+", "'_", s)

def decide(pid, tier):
    plan = PLAN[pid]
    t0 = time.time()
    viol, cov, assumptions = [], {}, list(plan.get('assumptions', []))
    floors = json.load(open(V + '/tools/floors.json')) if os.path.exists(V + '/tools/floors.json') else {}
    if 'roots' in plan:
        roots = plan['roots']; ptrw = plan.get('ptrw', [64])
        if tier == 'thorough': roots = plan.get('thorough_roots', roots); ptrw = plan.get('thorough_ptrw', ptrw)
        res = run_engine(roots + ['c00'], ptrw, 400 if tier == 'quick' else 3000, pid, REPO)
        viol += judge(pid, plan, res, floors.get(pid, {}), ptrw, cov, tier)
    for mod in plan.get('structural', []):
        import importlib
        m = importlib.import_module(mod)
        viol += m.run(pid, tier, cov, T, REPO)
    return finish(pid, tier, plan, viol, cov, assumptions, t0)

def judge(pid, plan, res, fl, ptrw, cov, tier):
    viol = []
    rules = plan['rules']
    by = {}
    for r in res: by.setdefault((r['root'], r['ptrw']), r)
    # the analyser must still see what it is known to see
    for (root, w), r in sorted(by.items()):
        if not root.startswith('c00::'): continue
        want = root.split('::')[1].split('_')[0]
        got = {f['rule'] for f in r['findings']}
        if want == 'ok': bad = bool(got) or r['gave_up']
        else: bad = want not in got
        if bad: raise Fatal(f'self test {root} (w{w}): expected {want}, got {sorted(got)} {r["gave_up"]}')
    cov['self_tests'] = sum(1 for k in by if k[0].startswith('c00::'))
    if not cov['self_tests']: raise Fatal('no self test ran')
    mine = [r for k, r in sorted(by.items()) if not k[0].startswith('c00::')]
    have = {k[0] for k in by}
    for root in fl.get('roots', []):
        if root not in have: viol.append(('anchor', root, 'this analysis root no longer exists or no longer takes no argument', ''))
    if not mine: viol.append(('anchor', pid, 'no analysis root', ''))
    obligations = discharged = 0
    und = {}
    for r in mine:
        root = r['root']
        if r['gave_up']: viol.append(('undecided', root, 'the analysis could not decide this operation: ' + r['gave_up'], ''))
        for k, n in r['proved'].items():
            if ('contract: ' in k) == ('check' in rules) or rules & {'panic', 'overflow'}: obligations += n
        for f in r['findings']:
            # recursion is the operation's, whichever function it is found in
            if f['msg'].startswith('recursion of '): f = dict(f, func=root, msg='recursion to a depth the hive decides')
            if f['rule'] in rules or f['rule'] in ('unmodelled',): viol.append((f['rule'], f['func'], f['msg'], f['trace'])); obligations += 1
        if 'term' in rules:
            obligations += sum(1 for k in r['loops'] if not k.startswith('contracts::'))
        msgs = {k[10:] for k in r['proved'] if k.startswith('contract: ')} if 'check' in rules else set()
        missing = set(fl.get('checks', {}).get(root, [])) - msgs - {f['msg'] for f in r['findings']}
        for m in sorted(missing):
            if not r['gave_up']: viol.append(('anchor', root, f'the obligation "{m}" is no longer reached', ''))
    u = {}
    for r in mine:
        for k, n in r['unmodelled'].items(): u[k] = u.get(k, 0) + n
    loops = {}
    for r in mine:
        for k, v in r['loops'].items():
            if not k.startswith('contracts::'): loops[k] = v
    funcs = sorted({f for r in mine for f in r['funcs']})
    cov.update(roots=[f"{r['root']} (usize {r['ptrw']} bit): {r['steps']} abstract block steps, {r['calls']} calls, {r['lp'][0]} numeric queries, {r['ms']} ms" for r in mine],
        functions_of_the_library=[f for f in funcs if 'nt_hive' in f and not f.startswith('contracts::')],
        functions_total=len(funcs), summarised_library_functions=[f for f in funcs if f.endswith('[model]')],
        calls_with_unknown_effect=u, loops=loops, obligations=obligations, discharged=max(0, obligations - len(viol)),
        rules=sorted(rules))
    return viol

def finish(pid, tier, plan, viol, cov, assumptions, t0):
    kn = known()
    uniq = {}
    for v in viol: uniq.setdefault((v[0], norm(v[1]), norm(v[2])), v)
    real, seen = [], []
    for key, v in sorted(uniq.items()):
        ks = '|'.join(key)
        hit = [k for k in kn if k[0] == pid and norm(k[1]) == ks]
        if hit: seen.append((hit[0], v))
        else: real.append((ks, v))
    for k, v in seen: print(f'KNOWN-FINDING: property={pid} {k[2]}')
    d = os.path.join(V, 'evidence'); os.makedirs(d, exist_ok=True)
    cov.setdefault('explanation', plan['explanation'])
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=plan.get('level', 'other'), coverage=cov, assumptions=assumptions, wall_s=round(time.time() - t0, 2), violations=len(real))
    json.dump(ev, open(f'{d}/{pid}.json', 'w'), indent=1)
    print(f"{pid} {plan['title']}: {cov.get('obligations', 0)} obligations, {cov.get('functions_total', 0)} functions, {len(real)} violation(s), {round(time.time() - t0, 1)} s")
    if not real: return 0
    rp = f'{d}/{pid}.violations.txt'
    with open(rp, 'w') as f:
        for ks, v in real: f.write(f'rule: {v[0]}\nwhere: {v[1]}\nwhat: {v[2]}\n{v[3]}\n\n')
    for ks, v in real[:20]:
        print(f'  {v[0]} in {v[1]}: {v[2]}')
        if v[3]: print('     ' + v[3].split('\n')[0][:600])
    print(f'VIOLATION property={pid} replay={rp}')
    return 1

def main():
    if sys.argv[1] == '--setup':
        build_engine()
        run_engine(['c00'], [64], 60, 'setup', REPO)
        return 0
    if sys.argv[1] == '--record':
        p = V + '/tools/floors.json'
        fl = json.load(open(p)) if os.path.exists(p) else {}
        for pid in sys.argv[2:]:
            plan = PLAN[pid]
            if 'roots' not in plan: continue
            res = run_engine(plan['roots'], plan.get('ptrw', [64]), 840, pid, REPO)
            fl[pid] = dict(roots=sorted({r['root'] for r in res}), checks={r['root']: sorted(k[10:] for k in r['proved'] if k.startswith('contract: ')) for r in res} if 'check' in plan['rules'] else {})
        json.dump(fl, open(p, 'w'), indent=1, sort_keys=True)
        return 0
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    try:
        return decide(pid, tier)
    except Fatal as e:
        # fail closed
        viol = [('anchor', pid, 'the check could not be carried out on this tree', str(e))]
    except Exception:
        viol = [('anchor', pid, 'the check could not be carried out on this tree', traceback.format_exc())]
    print(viol[0][3])
    return finish(pid, tier, PLAN[pid], viol, {}, [], time.time())

if __name__ == '__main__': sys.exit(main())

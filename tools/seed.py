#!/usr/bin/env python3
"""Development aid: makes and confirms a planted bug. usage: seed.py <definition file>...   (see tools/seeds/)
A definition is a python file with: prop, needs, breaks, edits=[(file, old, new)...], demo (main.rs)"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = '/tmp/seed-scratch'
def sh(c, cwd, **k): return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    ok = True
    if not os.path.exists(S): subprocess.check_call(['cp', '-a', '/repo', S])
    for f in sys.argv[1:]:
        n = os.path.basename(f)[:-3]
        g = {}
        exec(open(f).read(), g)
        d = f'{V}/seeded/{n}'
        sh('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', S)
        for file, old, new in g['edits']:
            t = open(f'{S}/{file}').read()
            c = t.count(old)
            if c != 1: print(n, 'EDIT matches', c, 'times:', old); ok = False; break
            open(f'{S}/{file}', 'w').write(t.replace(old, new))
        else:
            patch = sh('git diff', S).stdout
            shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
            open(d + '/patch.diff', 'w').write(patch)
            demo = g['demo']
            if 'hb::' in demo: shutil.copy(V + '/tools/seedlib/hb.rs', d); demo = 'mod hb;\n' + demo
            if 'shell' in g: open(d + '/demo.sh', 'w').write(g['shell'])
            else: shutil.copy(V + '/tools/seedlib/demo.sh', d)
            os.chmod(d + '/demo.sh', 0o755)
            if demo: open(d + '/main.rs', 'w').write(demo)
            json.dump(dict(property=g['prop'], needs=g['needs'], what_it_breaks=g['breaks']), open(d + '/meta.json', 'w'), indent=1)
            # confirm
            p = sh('. /opt/vp/env.sh; export CARGO_TARGET_DIR=/tmp/seed-target; timeout 120 cargo test --all-features --offline 2>&1 | tail -30; cargo build --no-default-features --offline 2>&1 | tail -5', S)
            tests = 'test result: ok. 11 passed' in p.stdout and 'error' not in p.stdout.split('Doc-tests')[-1]
            bad = subprocess.run(d + '/demo.sh', cwd=S, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            sh('git checkout -q -- .', S)
            good = subprocess.run(d + '/demo.sh', cwd=S, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            res = tests and bad.returncode != 0 and good.returncode == 0
            builds = bad.returncode != 2 or 'shell' in g or g.get('rejected')
            if not res or not builds: ok = False
            print(n, g['prop'], 'OK' if res and builds else 'REJECTED', 'tests', tests, 'demo patched', bad.returncode, 'unpatched', good.returncode)
            if not res or not builds:
                print(p.stdout[-1500:] if not tests else '', bad.stdout[-800:], good.stdout[-800:])
                shutil.rmtree(d)
    return 0 if ok else 1
sys.exit(main())

#!/usr/bin/env python3
"""mkseed.py SEEDFILE...  build seeded changes from description files (python: dict SEED) and confirm them.

A description has: id, property, file, edits [(old,new)], needs, breaks, demo (C++ source, or sh), optional flags.
For each: patch is made in a scratch worktree of /repo, the stable tests are built and run there is left to
vcheck (--tests runs them here too); the demo must exit 0 on the clean tree and nonzero on the patched one."""
import sys, os, subprocess, shutil, json, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run with cwd = the fiction working tree; exits 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++20 -w -O1 %(flags)s -I include -isystem vendors/undirected_graph/source -isystem vendors/combinations -isystem vendors/graph-coloring/Header %(inc)s \\
    "$here/demo.cpp" %(extra)s -o "$tmp/demo" -lfmt -pthread || exit 3
timeout 120 "$tmp/demo"
'''

def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def main():
    ns = {}
    todo = []
    for f in sys.argv[1:]:
        if f.startswith('--'):
            continue
        ns = {}
        exec(open(f).read(), ns)
        todo += ns['SEEDS']
    only = [a[7:] for a in sys.argv if a.startswith('--only=')]
    scratch = tempfile.mkdtemp(prefix='seed_', dir='/var/tmp')
    wt = scratch + '/repo'
    sh('cp -a /repo %s' % wt)
    try:
        for s in todo:
            if only and s['id'] not in only:
                continue
            d = HERE + '/seeded/' + s['id']
            os.makedirs(d, exist_ok=True)
            sh('git checkout -q -- .', cwd=wt)
            edits = s['edits'] if isinstance(s['edits'][0], tuple) and len(s['edits'][0]) == 3 else [(s['file'],) + tuple(e) for e in s['edits']]
            for fn, a, b in edits:
                p = wt + '/' + fn
                t = open(p).read()
                if t.count(a) != 1:
                    print(s['id'], 'edit matches', t.count(a), 'times:', a[:60]); break
                open(p, 'w').write(t.replace(a, b))
            else:
                open(d + '/patch.diff', 'w').write(sh('git diff', cwd=wt).stdout)
                if 'sh' in s:
                    open(d + '/demo.sh', 'w').write(s['sh'])
                else:
                    open(d + '/demo.sh', 'w').write(DEMO % dict(flags=s.get('flags', ''), extra=s.get('extra', ''), inc=s.get('inc', '')))
                if 'demo' in s:
                    open(d + '/demo.cpp', 'w').write(s['demo'])
                for n, t in s.get('files', {}).items():
                    open(d + '/' + n, 'w').write(t)
                os.chmod(d + '/demo.sh', 0o755)
                json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
                bad = sh('bash %s/demo.sh' % d, cwd=wt)
                tests = ''
                if '--tests' in sys.argv:
                    h = sh('ninja -C _build 2>&1 | tail -3; ctest --test-dir _build 2>&1 | grep "tests passed"', cwd=wt)
                    tests = h.stdout.strip().split('\n')[-1]
                sh('git checkout -q -- .', cwd=wt)
                good = sh('bash %s/demo.sh' % d, cwd=wt)
                ok = good.returncode == 0 and bad.returncode not in (0, 3)
                print(s['id'], 'OK' if ok else 'NOT CONFIRMED', 'clean', good.returncode, 'patched', bad.returncode, bad.stdout.strip()[-150:].replace('\n', ' | '), tests)
                if not ok:
                    print(good.stdout[-600:], bad.stdout[-600:])
                if '--check' in sys.argv:
                    sh('git apply %s/patch.diff' % d, cwd=wt)
                    r = sh('python3 run.py %s --quick' % s['property'], cwd=HERE, env=dict(os.environ, VERIF_REPO=wt))
                    print('   check exit', r.returncode, [l for l in r.stdout.split('\n') if 'model ' in l or 'VIOL' in l][:3])
                    if r.returncode == 2:
                        print(r.stdout[-1500:])
                    sh('git checkout -q -- .', cwd=wt)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

main()

#!/usr/bin/env python3
"""run.py ID            run the check of property ID (VERIF_TIER, VERIF_SEED from the environment)
   run.py ID --thorough  the same with the thorough bounds
   run.py ID --replay F  re-execute one recorded counterexample on the code in /repo
   run.py ID --keep DIR  build in DIR and keep it (for development)

Every check compiles its harnesses from /repo's working tree into a scratch directory (removed at
the end), explores the models in them exhaustively, writes evidence/ID.json and prints
VIOLATION / KNOWN-FINDING lines."""
import sys, os, json, glob, subprocess, tempfile, shutil, time, fnmatch, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
from checks.registry import CHECKS  # noqa: E402

CXX = os.environ.get('VERIF_CXX', 'g++')
BASE_INC = ['-I' + HERE + '/lib', '-I' + REPO + '/include',
            '-isystem', REPO + '/vendors/undirected_graph/source', '-isystem', REPO + '/vendors/combinations',
            '-isystem', REPO + '/vendors/graph-coloring/Header']
BASE_FLAGS = ['-std=c++20', '-w', '-fvisibility=hidden', '-pthread']
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def expand(s):
    return s.replace('@REPO@', REPO).replace('@VERIF@', HERE)


def build(h, work):
    """Compile all sources of a harness in parallel and link them."""
    name = h['name']
    flags = list(BASE_FLAGS) + ['-O%s' % h.get('opt', '1')]
    if h.get('san', True):
        flags += SAN
    if h.get('debug', False) or h.get('san', True):
        flags += ['-g1']
    flags += [expand(f) for f in h.get('flags', [])]
    pre = []
    for i in h.get('inc_first', []):
        pre += ['-I' + expand(i)]
    inc = pre + BASE_INC
    for i in h.get('inc', []):
        inc += ['-isystem', expand(i)]
    cxx = h.get('cxx', CXX)
    srcs = []
    for s in h['src']:
        e = expand(s)
        if not e.startswith('/'):
            e = os.path.join(HERE, 'checks', s)
        g = sorted(glob.glob(e))
        if not g:
            raise CheckError('no source ' + e)
        srcs += g
    objs, jobs = [], []
    for s in srcs:
        o = os.path.join(work, name + '.' + os.path.basename(s) + '.o')
        objs.append(o)
        fl = list(flags)
        if any(fnmatch.fnmatch(os.path.basename(s), p) for p in h.get('plain', [])):
            fl = [f for f in fl if f not in h.get('plain_drop', [])]
        if not any(fnmatch.fnmatch(os.path.basename(s), p) for p in h.get('plain', [])):
            fl = fl + h.get('cflags', [])
        jobs.append([cxx] + fl + inc + ['-c', s, '-o', o])
    exe = os.path.join(work, name)
    return jobs, [cxx] + flags + objs + ['-o', exe] + [expand(l) for l in h.get('link', [])], exe


def load_known():
    known = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: '):
                f = line[len('known: '):]
                prop, rest = f.split(' ', 1)
                key, _, what = rest.partition(' -- ')
                known.append((prop.split('=', 1)[1], key.split('=', 1)[1].strip(), what.strip()))
    return known


def main():
    t0 = time.time()
    args = sys.argv[1:]
    pid = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in args:
        tier = 'thorough'
    elif '--quick' in args:
        tier = 'quick'
    replay = args[args.index('--replay') + 1] if '--replay' in args else None
    only = args[args.index('--only') + 1] if '--only' in args else None
    keep = args[args.index('--keep') + 1] if '--keep' in args else None
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    chk = CHECKS[pid]
    if keep:
        os.makedirs(keep, exist_ok=True)
        work = keep
    else:
        work = tempfile.mkdtemp(prefix='verif_%s_' % pid, dir=os.environ.get('VERIF_SCRATCH', '/var/tmp'))
    try:
        rc = run(pid, chk, tier, seed, work, replay, only, t0)
    finally:
        if not keep:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def run(pid, chk, tier, seed, work, replay, only, t0):
    harnesses = chk['harnesses']
    if tier != 'thorough':
        harnesses = [h for h in harnesses if not h.get('thorough_only')]
    rec = json.load(open(replay)) if replay else None
    if rec:
        harnesses = [h for h in harnesses if h['name'] == rec['harness']]
    if only:
        harnesses = [h for h in harnesses if h['name'] == only.split('/')[0]]
    # ---- build
    plans = [build(h, work) for h in harnesses]
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        futs = [(j, ex.submit(sh, j)) for jobs, _, _ in plans for j in jobs]
        for j, f in futs:
            r = f.result()
            if r.returncode != 0:
                sys.stdout.write(r.stdout[:3000] + "\n")
                print('ERROR: harness of %s does not compile against %s' % (pid, REPO))
                return 2
        for r in ex.map(sh, [p[1] for p in plans]):
            if r.returncode != 0:
                sys.stdout.write(r.stdout[-4000:] + '\n')
                print('ERROR: harness of %s does not link' % pid)
                return 2
    t_build = time.time() - t0
    if rec:
        env = dict(os.environ, VERIF_SEED=str(seed), VERIF_WORK=work)
        r = subprocess.run([plans[0][2], '--replay', rec['model'], ','.join(map(str, rec['trace'])) + ','] +
                           (['--thorough'] if rec.get('tier') == 'thorough' else []), env=env)
        print('replay ended with status', r.returncode)
        return 0 if r.returncode == 0 else 1
    # ---- run
    results, logs = [], {}
    internal = False
    known = load_known()
    cut = {} if not any(k[0] == pid for k in known) else dict(VERIF_NO_CUT='1')
    for h, (_, _, exe) in zip(harnesses, plans):
        out = os.path.join(work, 'out_' + h['name'])
        os.makedirs(out, exist_ok=True)
        env = dict(os.environ, VERIF_SEED=str(seed), VERIF_TIER=tier, VERIF_WORK=work, **cut)
        cmd = [exe, '--out', out, '--jobs', str(h.get('jobs', 8))]
        if 'limit' in h:
            cmd += ['--limit', str(h['limit'])]
        if tier == 'thorough':
            cmd.append('--thorough')
        if only and '/' in only:
            cmd += ['--only', only.split('/')[1]]
        r = sh(cmd, env=env)
        if r.returncode not in (0,):
            internal = True
            sys.stdout.write(r.stdout[-3000:])
        for f in sorted(glob.glob(out + '/*.json')):
            d = json.load(open(f))
            d['harness'] = h['name']
            lf = f[:-5] + '.log'
            if os.path.exists(lf):
                t = open(lf, errors='replace').read()
                d['log'] = t[-6000:] if len(t) > 12000 else t
                if 'MC-INTERNAL' in t:
                    internal = True
                    print(t[-2000:])
            results.append(d)
    if '--times' in sys.argv:
        tm = {}
        for d in results:
            k = d['harness'] + '/' + d['model']
            tm[k] = (tm.get(k, (0, 0))[0] + d['cpu'], max(tm.get(k, (0, 0))[1], d['cpu']))
        for k in sorted(tm, key=lambda k: -tm[k][0]):
            print('%8.1f s (longest shard %.1f s) %s' % (tm[k][0], tm[k][1], k))
    # ---- judge
    hit, new = {}, []
    for d in results:
        for v in d['violations']:
            k = next((x for x in known if x[0] == pid and fnmatch.fnmatchcase(d['model'] + ': ' + v['key'], x[1])), None)
            if k:
                hit[k[1]] = k
            else:
                new.append((d, v))
    for k in known:
        if k[0] == pid and k[1] in hit:
            print('KNOWN-FINDING: property=%s %s' % (pid, k[2] or k[1]))
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    for old in glob.glob(os.path.join(HERE, 'replays', pid + '-*.json')):
        os.unlink(old)
    for i, (d, v) in enumerate(new[:10]):
        rp = os.path.join(HERE, 'replays', '%s-%d.json' % (pid, i))
        with open(rp, 'w') as f:
            json.dump(dict(property=pid, harness=d['harness'], model=d['model'], tier=tier, key=v['key'], msg=v['msg'],
                           trace=v['trace'], notes=v['notes'], log=d.get('log', '')[-6000:]), f, indent=1)
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        print('  model %s: %s' % (d['model'], v['key'][:400]))
        if v['msg'] != v['key']:
            print('  ' + v['msg'][:700])
    # ---- evidence
    models = {}
    for d in results:
        m = models.setdefault(d['harness'] + '/' + d['model'],
                              dict(bound=d['bound'], states=0, transitions=0, executions=0, pruned=0, samples=[], complete=True))
        for k in ('states', 'transitions', 'executions', 'pruned'):
            m[k] += d[k]
        m['complete'] = m['complete'] and not d['truncated']
        m['samples'] += d['samples']
    samples = []
    for n, m in models.items():
        samples += [n + ': ' + s for s in m.pop('samples')[:3]]
    cov = dict(states=sum(m['states'] for m in models.values()),
               transitions=sum(m['transitions'] for m in models.values()),
               traces_validated_against_impl=sum(m['executions'] for m in models.values()),
               exhaustive=all(m['complete'] for m in models.values()) and bool(models),
               models=models, samples=samples[:40] or ['none'],
               known_findings=[k[2] or k[1] for k in hit.values()], build_s=round(t_build, 1))
    ev = dict(property=pid, tier='thorough' if tier == 'thorough' else 'quick', seed=seed, level=chk['level'], coverage=cov,
              assumptions=chk.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s [%s]: %d states, %d transitions, %d executions in %d models, %d new violations, %d known, %.1f s (build %.1f s)' %
          (pid, tier, cov['states'], cov['transitions'], cov['traces_validated_against_impl'], len(models), len(new), len(hit),
           time.time() - t0, t_build))
    if new:
        return 1
    if internal or not results:
        print('ERROR: the explorer itself failed')
        return 2
    return 0


if __name__ == '__main__':
    main()

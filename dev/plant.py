"""dev/plant.py: build seeded/<id>/ from a spec file (development aid).
Spec: python file defining BUGS = [dict(id, property, edits=[(file, old, new)],
needs, breaks, demo)], demo = python text; confirms everything in a scratch copy."""
import json, os, re, shutil, subprocess, sys, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# run with cwd = the repository; exit 0 iff the property holds
here="$(cd "$(dirname "$0")" && pwd)"
scratch="$(mktemp -d)"
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR="$scratch" DEMO_SCRATCH="$scratch" \\
    timeout 250 /opt/venv/bin/python -W ignore "$here/demo.py"
rc=$?
rm -rf "$scratch"
exit $rc
'''
def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)
def main(spec, only=()):
    for b in runpy.run_path(spec)['BUGS']:
        if only and b['id'] not in only:
            continue
        W = '/tmp/plant/' + b['id']
        shutil.rmtree(W, ignore_errors=True)
        os.makedirs('/tmp/plant', exist_ok=True)
        sh('cp', '-a', '/repo', W)
        for f, old, new in b['edits']:
            p = os.path.join(W, f)
            s = open(p).read()
            assert s.count(old) == 1, (b['id'], f, old, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git', '-C', W, 'diff').stdout
        D = os.path.join(V, 'seeded', b['id'])
        shutil.rmtree(D, ignore_errors=True)
        os.makedirs(D)
        open(D + '/patch.diff', 'w').write(diff)
        open(D + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
        open(D + '/demo.sh', 'w').write(SH)
        os.chmod(D + '/demo.sh', 0o755)
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(D + '/meta.json', 'w'), indent=1)
        a = sh(D + '/demo.sh', cwd='/repo')
        z = sh(D + '/demo.sh', cwd=W)
        t = sh('/opt/venv/bin/python', '-W', 'ignore', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'tests', cwd=W)
        last = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else t.stderr[-200:]
        # original lines only
        bl = sh('git', '-C', '/repo', 'log', '--format=%s').stdout
        ok = a.returncode == 0 and z.returncode != 0 and ' passed' in last and 'failed' not in last and any(l[:1] == '-' and l[:3] != '---' for l in diff.splitlines())
        print(b['id'], 'OK' if ok else 'BAD', 'clean rc', a.returncode, 'bug rc', z.returncode, last)
        if not ok:
            print(a.stdout[-800:], a.stderr[-800:], '| bug:', z.stdout[-500:], z.stderr[-500:])
        env = dict(os.environ, SA_ROOT=W)
        r = sh('python3-vt', os.path.join(V, 'sa/check.py'), b['property'], 'quick', env=env)
        v = [l for l in r.stdout.splitlines() if 'rule' in l or 'NO ANSWER' in l]
        print('    check rc', r.returncode, (v or [''])[0][:200])
        shutil.rmtree(W)
if __name__ == '__main__':
    main(sys.argv[1], sys.argv[2:])

#!/usr/bin/env python3
"""Try planted changes: python3 tools/seed.py [--check-only] ID...
For each /verif/seeded/ID: apply to /repo, build, run the stable tests, run demo.sh on the changed and on the
unchanged tree, undo; then run the check of its property against a scratch copy (VP_REPO) in parallel.
Prints one line per change and writes seeded/RESULTS.json.  No check uses this."""
import json, os, subprocess, sys, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def git(*a): return sh(['git', '-C', '/repo', *a])
base = '--base' in sys.argv and sys.argv[sys.argv.index('--base') + 1] or None

def confirm(i):
    d = f'{V}/seeded/{i}'; r = {}
    a = git('apply', f'{d}/patch.diff')
    if a.returncode: return {'error': 'patch does not apply: ' + a.stdout}
    try:
        b = sh(['bash', '/opt/vp/build.sh'])
        if b.returncode: return {'error': 'build failed: ' + b.stdout[-800:]}
        o = tempfile.mktemp(suffix='.json')
        sh(['bash', '/opt/vp/test.sh', o]); t = json.load(open(o)); os.unlink(o)
        base = json.load(open('/opt/vp/BASELINE.json'))
        r['tests'] = stable_ok(t, base)
        x = sh(['bash', f'{d}/demo.sh'], cwd='/repo', timeout=300); r['demo_changed'] = x.returncode; r['demo_out'] = x.stdout[-300:]
    finally: git('checkout', '--', '.')
    return r

def stable_ok(t, base):
    passed = set(t.get('passed', []))
    need = base.get('passed') or base.get('stable') or base.get('stable_pass') or []
    return all(n in passed for n in need) and bool(need)

def check(i, seed='1'):
    d = f'{V}/seeded/{i}'; m = json.load(open(f'{d}/meta.json'))
    w = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
    try:
        sh(['cp', '-a', '/repo', w + '/repo'])
        a = sh(['git', '-C', w + '/repo', 'apply', f'{d}/patch.diff'])
        if a.returncode: return 'patch does not apply'
        sh(['mkdir', w + '/verif']); sh(f'cd {V} && git ls-files -z --cached --others --exclude-standard | grep -zv ^seeded | xargs -0 cp --parents -t {w}/verif', shell=True)
        env = dict(os.environ, VP_REPO=w + '/repo', VERIF_SEED=seed, VERIF_TIER='quick')
        c = sh(['timeout', '900', 'python3', 'check.py', m['property']], cwd=w + '/verif', env=env)
        v = f'VIOLATION property={m["property"]}' in c.stdout
        return ('CAUGHT' if c.returncode == 1 and v else 'missed' if c.returncode == 0 else f'rc={c.returncode} {c.stdout[-300:]}')
    finally: shutil.rmtree(w)

ids = [a for a in sys.argv[1:] if not a.startswith('--')] or sorted(os.listdir(f'{V}/seeded'))
ids = [i for i in ids if os.path.isdir(f'{V}/seeded/{i}')]
res = {}
if '--check-only' not in sys.argv:
    for i in ids: res[i] = confirm(i)
    sh(['bash', '/opt/vp/build.sh'])
    for i in ids:
        if 'error' not in res[i]: res[i]['demo_clean'] = sh(['bash', f'{V}/seeded/{i}/demo.sh'], cwd='/repo').returncode
def report(i):
    r = res.setdefault(i, {}); p = json.load(open(f'{V}/seeded/{i}/meta.json'))['property']; r['check'] = check(i)
    ok = '--check-only' in sys.argv or ('error' not in r and r['tests'] and r['demo_changed'] not in (0, 3) and r['demo_clean'] == 0)
    print(f'{i:28} {p} {"ok " if ok else "BAD"} {r["check"]}' + ('' if ok else ' ' + json.dumps(r)), flush=True)
with ThreadPoolExecutor(4) as ex: list(ex.map(report, ids))

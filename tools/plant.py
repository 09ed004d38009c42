"""Builds and confirms planted bugs from a description file.

usage: plant.py FILE.py [ID ...]   (FILE.py defines PLANTS, a list of dicts:
id, prop, file (or files), edits [(old, new) or (file, old, new)], demo, needs,
breaks).  For each: scratch copy of /repo, apply, compile, run the stable
tests, run the demo on both trees, run the quick check of the property (and of
no other) against the copy; written to /verif/seeded/<id> when confirmed."""
import importlib.util, json, os, shutil, subprocess, sys, tempfile
V = '/verif'
HEAD = '''import os, sys, tempfile, warnings
_d = tempfile.TemporaryDirectory()
os.symlink(os.getcwd(), os.path.join(_d.name, 'causets'))
sys.path.insert(0, _d.name)
sys.pycache_prefix = os.path.join(_d.name, 'pycache')
os.environ['MPLBACKEND'] = 'Agg'
'''
SH = '''#!/bin/bash
# Run with cwd = the repository: exit 0 if it behaves as it should.
exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **kw)


def main():
    spec = importlib.util.spec_from_file_location('plants', sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    want = set(sys.argv[2:])
    for p in m.PLANTS:
        if want and p['id'] not in want:
            continue
        print(p['id'], one(p), flush=True)


def one(p):
    top = tempfile.mkdtemp(prefix='plant-')
    try:
        R = os.path.join(top, 'repo')
        shutil.copytree('/repo', R, symlinks=True)
        for e in p['edits']:
            f, old, new = e if len(e) == 3 else (p['file'],) + tuple(e)
            path = os.path.join(R, f)
            s = open(path, newline='').read()
            old, new = (t.replace('\n', '\r\n') for t in (old, new))
            if s.count(old) != 1:
                return f'BAD EDIT ({s.count(old)} matches): {old[:60]!r}'
            with open(path, 'w', newline='') as h:
                h.write(s.replace(old, new))
        diff = subprocess.check_output(['git', '-C', R, 'diff', '--binary'])
        base = subprocess.check_output(
            ['git', '-C', R, 'rev-list', '--max-parents=0', 'HEAD'],
            text=True).strip()
        touched = 0
        for f in {e[0] if len(e) == 3 else p['file'] for e in p['edits']}:
            bl = subprocess.check_output(
                ['git', '-C', R, 'blame', '-s', '-l', '--root', 'HEAD', '--', f], text=True,
                errors='replace').split('\n')
            n = 0
            for l in subprocess.check_output(
                    ['git', '-C', R, 'diff', '-U0', '--', f], text=True,
                    errors='replace').split('\n'):
                if l.startswith('@@'):
                    a = l.split()[1][1:].split(',')
                    k = int(a[1]) if len(a) > 1 else 1
                    for i in range(int(a[0]), int(a[0]) + k):
                        if not bl[i - 1].startswith(base):
                            n += 1
            touched += n
        d = os.path.join(top, 'seed')
        os.makedirs(d)
        open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
        open(os.path.join(d, 'demo.py'), 'w').write(
            f"'''{p['breaks']}'''\n" + HEAD + p['demo'])
        open(os.path.join(d, 'demo.sh'), 'w').write(SH)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': p['prop'], 'needs': p['needs'],
                   'what_it_breaks': p['breaks']},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        # stable tests
        base = json.load(open('/opt/vp/BASELINE.json'))
        env = dict(os.environ, PYTHONPATH=os.path.join(top, 'p'),
                   MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1',
                   PYTHONPYCACHEPREFIX=os.path.join(top, 'pyc'))
        os.makedirs(os.path.join(top, 'p'))
        os.symlink(R, os.path.join(top, 'p', 'causets'))
        work = os.path.join(top, 'w')
        os.makedirs(work)
        mods = [f[:-3] for f in sorted(os.listdir(R)) if f.startswith('test_')
                and f.endswith('.py')]
        r = run(['/opt/venv/bin/python', '-m', 'unittest'] +
                ['causets.' + x for x in mods], env=env, cwd=work, timeout=300)
        if r.returncode:
            return 'TESTS FAIL ' + r.stdout[-600:]
        for _ in range(3):
            a = run(['bash', os.path.join(d, 'demo.sh')], cwd='/repo',
                    timeout=300)
            b = run(['bash', os.path.join(d, 'demo.sh')], cwd=R, timeout=300)
            if a.returncode:
                return 'DEMO FAILS ON CLEAN ' + a.stdout[-500:]
            if not b.returncode:
                return 'DEMO PASSES ON PATCHED'
        c = run(['/opt/venv/bin/python', 'harness/run.py', p['prop'],
                 '--tier', 'quick', '--seed', '1'], cwd=V, timeout=900,
                env=dict(os.environ, CAUSETS_REPO=R,
                         CAUSETS_EVIDENCE=os.path.join(top, 'ev')))
        if touched:  # not a change of the original code: judged, not kept
            return f'NOT KEPT ({touched} lines of fix commits); ' + (
                'CAUGHT' if c.returncode == 1 else
                f'MISSED exit {c.returncode} ' + c.stdout[-300:])
        out = os.path.join(V, 'seeded', p['id'])
        os.makedirs(out, exist_ok=True)
        for f in os.listdir(d):
            shutil.copy2(os.path.join(d, f), out)
        rec = os.path.join(V, 'tools', 'caught.json')
        seen = json.load(open(rec)) if os.path.exists(rec) else {}
        seen[p['id']] = p['prop'] if c.returncode == 1 else None
        json.dump(dict(sorted(seen.items())), open(rec, 'w'), indent=1)
        n = json.dumps([x for x in c.stdout.splitlines() if 'x] ' in x][:1])
        return f'kept; check exit {c.returncode} ' + \
            ('CAUGHT ' if c.returncode == 1 else 'MISSED ' + c.stdout[-300:]) \
            + n[:200] + ' | demo: ' + b.stdout.strip()[-100:]
    finally:
        shutil.rmtree(top)


if __name__ == '__main__':
    main()

"""Reverts each repair of known_findings.json in a scratch copy of /repo and
runs the quick check of its property there: it has to report the defect.
usage: revert.py [HASH ...]"""
import json, os, re, shutil, subprocess, sys, tempfile


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **kw)


for l in json.load(open('/verif/known_findings.json'))['fixed']:
    P, h, what = re.match(r'fixed: property=(\S+) (\S+) (.*)', l).groups()
    if len(sys.argv) > 1 and h not in sys.argv[1:]:
        continue
    top = tempfile.mkdtemp(prefix='revert-')
    R = os.path.join(top, 'repo')
    shutil.copytree('/repo', R, symlinks=True)
    r = run(['git', '-C', R, '-c', 'user.name=x', '-c', 'user.email=x@x',
             'revert', '-n', h])
    if r.returncode:
        print(P, h, what, 'CONFLICT', flush=True)
    else:
        c = run(['/opt/venv/bin/python', 'harness/run.py', P, '--tier',
                 'quick', '--seed', '1'], cwd='/verif',
                env=dict(os.environ, CAUSETS_REPO=R,
                         CAUSETS_EVIDENCE=os.path.join(top, 'ev')))
        print(P, h, what, {0: 'MISSED', 1: 'caught'}.get(
            c.returncode, f'exit {c.returncode}'), flush=True)
    shutil.rmtree(top)

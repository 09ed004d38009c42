"""Runs the quick check of its property (or the checks given by number) against
every change in /verif/seeded in a scratch copy; updates tools/caught.json.
usage: evalseeds.py [ID ...]"""
import json, os, shutil, subprocess, sys, tempfile
V = '/verif'
rec = os.path.join(V, 'tools', 'caught.json')
seen = json.load(open(rec)) if os.path.exists(rec) else {}
for i in sorted(os.listdir(V + '/seeded')):
    if len(sys.argv) > 1 and i not in sys.argv[1:]:
        continue
    d = f'{V}/seeded/{i}'
    P = json.load(open(d + '/meta.json'))['property']
    top = tempfile.mkdtemp(prefix='eval-')
    R = top + '/repo'
    shutil.copytree('/repo', R, symlinks=True)
    subprocess.run(['git', '-C', R, 'apply', d + '/patch.diff'], check=True)
    c = subprocess.run(['/opt/venv/bin/python', 'harness/run.py', P, '--tier',
                        'quick', '--seed', '1'], cwd=V, text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       env=dict(os.environ, CAUSETS_REPO=R,
                                CAUSETS_EVIDENCE=top + '/ev'))
    hit = f'VIOLATION property={P} ' in c.stdout and c.returncode == 1
    seen[i] = P if hit else None
    print(i, 'caught' if hit else f'MISSED exit {c.returncode}', flush=True)
    shutil.rmtree(top)
    json.dump(dict(sorted(seen.items())), open(rec, 'w'), indent=1)

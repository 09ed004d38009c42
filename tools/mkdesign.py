"""Writes /verif/DESIGN.md: tools/design_head.md and the generated sections."""
import importlib, json, os, sys, textwrap, warnings
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/harness')
sys.path.insert(0, '/opt/causets-path')
warnings.simplefilter('ignore')
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True
TECH = json.load(open(V + '/tools/technique.json'))
caught = json.load(open(V + '/tools/caught.json'))


def wrap(s, ind=''):
    return '\n'.join(textwrap.wrap(s, 80, initial_indent=ind,
                                   subsequent_indent=' ' * len(ind)))


out = [open(V + '/tools/design_head.md').read().rstrip(), '',
       '## 5. The properties', '']
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)
    m = importlib.import_module('checks.' + p['id'].lower())
    out += [f"### {p['id']} {p['title']}", '', wrap(p['statement']), '']
    out += [wrap('**Technique:** ' + TECH[p['id']] + '.', '* '),
            wrap('**Workloads and oracle:** ' + m.RULE, '* '),
            wrap('**Bounds (cases quick/thorough):** ' + ', '.join(
                f'{w.name} {w.quick}/{w.thorough}' for w in m.WORKLOADS) +
                '; required observations: ' + ', '.join(
                f'{k} >= {v}' for k, v in m.REQUIRED.items()) + '.', '* ')]
    for a in getattr(m, 'ASSUMPTIONS', []):
        out.append(wrap('**Not judged / assumed:** ' + a, '* '))
    out += [wrap('**Why beyond the tests:** ' + p['why_tests_cant'] +
                 ' The check drives ' + p['quantifier']['text'] +
                 ' by sampling, with every answer compared to the oracle.',
                 '* ')]
    hits = [i for i, c in caught.items() if c == p['id']]
    out += [wrap('**Planted changes reported (quick):** ' + (', '.join(
        sorted(hits)) or 'none') + '.', '* '), '']
out += ['Cost: a quick check takes 2-14 s on 8 cores (all 31 about 150 s), a '
        'thorough', 'check runs 10-20 times as many cases (20 s to 5 min).',
        '', '## 6. Planted changes and repairs', '',
        '| change | property | needs | reported |', '|---|---|---|---|']
for i in sorted(os.listdir(V + '/seeded')):
    d = json.load(open(f'{V}/seeded/{i}/meta.json'))
    out.append(f"| {i} | {d['property']} | "
               f"{d['needs'].replace('|', '/')} | "
               f"{'quick' if caught.get(i) else 'no'} |")
out += ['', 'Repairs in /repo (`known_findings.json`):', '']
out += ['* ' + f for f in
        json.load(open(V + '/known_findings.json'))['fixed']]
open(V + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')

'''Writes DESIGN.md from tools/design_head.md, known_findings.json, seeded/ and tools/missed.json.'''
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = json.load(open(f'{HERE}/tools/missed.json'))
fixes = []
for line in json.load(open(f'{HERE}/known_findings.json'))['fixed']:
    p, c, what = line.removeprefix('fixed: property=').split(' ', 2)
    fixes.append(f'| {p} | {c} | {what} |')
seeds = []
for name in sorted(os.listdir(f'{HERE}/seeded')):
    m = json.load(open(f'{HERE}/seeded/{name}/meta.json'))
    seeds.append(f'| {name} | {m["needs"]} | {"missed" if name in missed else "caught"} |')
text = open(f'{HERE}/tools/design_head.md').read()
text = text.replace('@FIXES@', '\n'.join(fixes)).replace('@SEEDS@', '\n'.join(seeds))
text = text.replace('@MISSED@', '\n' + '\n'.join(f'* {k}: {v}' for k, v in sorted(missed.items())))
open(f'{HERE}/DESIGN.md', 'w').write(text)
assert not set(missed) - set(os.listdir(f'{HERE}/seeded')), 'unknown bugs in missed.json'
print(len(seeds), 'bugs,', len(missed), 'missed at first')

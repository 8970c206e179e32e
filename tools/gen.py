#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from lib/props*.py (run after editing them)."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'lib'))
from props import PROPS, NA
HOOK_COMMITS = [l.split()[0] for l in subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s'], capture_output=True, text=True).stdout.splitlines() if ' verif:' in l]
def tech(c):
    t = []
    if c['verus']: t.append('Verus contracts on functions extracted from /repo each run')
    if c['kani']: t.append('Kani contract harnesses on the compiled crate')
    return '; '.join(t + ['bounded replay of the same contracts on the real code'])
def quant(c): return dict(over=c['over'], text=c['text'])
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for i, c in sorted(PROPS.items()):
        for p in c['files']:
            assert os.path.exists('/repo/' + p), (i, p)
        a = dict(files=c['files'], mechanism=[dict(name=n, where=w) for n, w in c['mech']])
        if c.get('hook'): a['hook_needed'] = c['hook']
        assert len(c['title']) <= 80, i
        f.write(json.dumps(dict(id=i, title=c['title'], statement=c['statement'], quantifier=quant(c), why_tests_cant=c['why'], anchors=a), ensure_ascii=False) + '\n')
    for n in NA:
        f.write(json.dumps(dict(id=n['id'], title=n['title'], statement=n['statement'], quantifier=quant(n), why_tests_cant=n['why'],
                                anchors=dict(files=n['files'], mechanism=[dict(name=a, where=b) for a, b in n['mech']])), ensure_ascii=False) + '\n')
m = dict(version=1, setup_cmd='bash setup.sh',
         hooks=dict(guard='cfg(ass_verif)', enable='RUSTFLAGS="--cfg ass_verif" cargo build / cargo kani (set by check.py)', source_commits=HOOK_COMMITS),
         checks=[dict(property=i, quick_cmd=f'python3 check.py {i} quick', thorough_cmd=f'python3 check.py {i} thorough',
                      technique=tech(c), level=c['level'], level_note=c['note'] + (' Assumes: ' + '; '.join(c['assumptions']) + '.' if c.get('assumptions') else '') + (' Trusts: ' + '; '.join(c['trusted']) + '.' if c.get('trusted') else ''))
                 for i, c in sorted(PROPS.items())],
         not_applicable=[dict(property=n['id'], reason=n['reason']) for n in NA])
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
PV = '/opt/veriftools/pyvenv/bin/python'
code = '''
import json,jsonschema,sys
h=sys.argv[1]
jsonschema.validate(json.load(open(h+'/MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open(h+'/properties.jsonl'): jsonschema.validate(json.loads(l), s)
print('schemas ok')
'''
subprocess.run([PV if os.path.exists(PV) else 'python3-vt', '-c', code, HERE], check=True)
# DESIGN.md section 2 is regenerated from the same table
D = os.path.join(HERE, 'DESIGN.md')
t = open(D).read()
rows = ''
for i, c in sorted(PROPS.items()):
    rows += f"\n### {i} — {c['title']}\n{c['statement']}\n\n"
    rows += f"* Decided by: " + '; '.join((['Verus units ' + ', '.join('`verus/%s.vrs`' % u for u in c['verus'])] if c['verus'] else []) + (['Kani harnesses `%s_*` in ' % i.lower() + ', '.join('`kani/%s`' % k for k in c['kani'])] if c['kani'] else []) + ['replay `%s`' % i]) + '.\n'
    rows += f"* {c['note']}\n"
    if c.get('bounded'): rows += f"* Bounded stand-in: {c['bounded']}\n"
    if c.get('assumptions'): rows += '* Assumptions: ' + '; '.join(c['assumptions']) + '.\n'
    if c.get('trusted'): rows += '* Trusted: ' + '; '.join(c['trusted']) + '.\n'
    rows += f"* Why tests cannot: {c['why']}\n"
if NA:
    rows += '\n### Not applicable\n' + ''.join(f"* **{n['id']}** {n['title']}: {n['reason']}\n" for n in NA)
B, E_ = '<!-- properties: generated by tools/gen.py -->', '<!-- end of generated properties -->'
if '@@PROPS@@' in t: t = t.replace('@@PROPS@@', B + '\n' + E_)
SB, SE = '<!-- seeds: generated by tools/gen.py -->', '<!-- end of generated seeds -->'
if '@@SEEDS@@' in t: t = t.replace('@@SEEDS@@', SB + '\n' + SE)
R = json.load(open(HERE + '/tools/seed_results.json')) if os.path.exists(HERE + '/tools/seed_results.json') else {}
S = '| Seed | Property | Needs | Check of the property |\n|---|---|---|---|\n'
for i in sorted(os.listdir(HERE + '/seeded')):
    f = f'{HERE}/seeded/{i}/meta.json'
    if os.path.exists(f):
        m_ = json.load(open(f)); r_ = R.get(i)
        S += f"| `{i}` | {m_['property']} | {m_['needs']} | {'not run' if not r_ else ('caught by ' + (r_['by'] or 'proof')) if r_['rc'] == 1 else 'missed'} |\n"
x, y = t.index(SB) + len(SB), t.index(SE)
t = t[:x] + '\n' + S + '\n' + t[y:]
a, b = t.index(B) + len(B), t.index(E_)
open(D, 'w').write(t[:a] + '\n' + rows + '\n' + t[b:])

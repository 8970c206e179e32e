#!/usr/bin/env python3
"""seed.py [--nocheck] [--notest] ID...: confirms planted bugs of /verif/seeded against /repo and shows whether the check of their property sees them.
Applies patch.diff to /repo, builds, runs the stable tests, demo.sh (must fail) and check.py, undoes the patch, runs demo.sh (must pass)."""
import json, os, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def demo(d): return sh(f'bash {d}/demo.sh', cwd='/repo', timeout=400)
args = sys.argv[1:]
nocheck = '--nocheck' in args; notest = '--notest' in args
args = [a for a in args if not a.startswith('--')]
base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
assert not sh('git -C /repo status --porcelain').stdout.strip(), '/repo is not clean'
for i in args:
    d = f'{HERE}/seeded/{i}'
    meta = json.load(open(d + '/meta.json')); t0 = time.time(); r = [i, meta['property']]
    try:
        a = sh(f'git -C /repo apply {d}/patch.diff')
        if a.returncode: print(i, 'DOES NOT APPLY', a.stderr); continue
        if not notest:
            b = sh('bash /opt/vp/build.sh')
            if b.returncode: print(i, 'DOES NOT BUILD', b.stderr[-1500:]); continue
            sh('bash /opt/vp/test.sh /tmp/seed.json')
            miss = base - set(json.load(open('/tmp/seed.json'))['passed'])
            r.append('tests ok' if not miss else f'TESTS FAIL {sorted(miss)[:6]}')
            p = demo(d); r.append('demo fails' if p.returncode else 'DEMO PASSES WITH PATCH')
            if p.returncode and 'panicked' not in p.stderr and 'FAIL' not in p.stdout: r.append('DEMO ERROR? ' + p.stderr[-400:])
        if not nocheck:
            t1 = time.time()
            c = sh(f'python3 {HERE}/check.py {meta["property"]} quick', cwd=HERE)
            r.append(f'check rc={c.returncode} ({time.time()-t1:.0f}s)')
            r += ['\n    ' + l[:260] for l in c.stdout.split('\n') if l.startswith(('VIOL', 'failed', 'failing', 'undecided'))][:7]
    finally:
        sh('git -C /repo checkout -- .')
    if not notest:
        p = demo(d); r.append('\n    demo clean ok' if p.returncode == 0 else '\n    DEMO FAILS ON CLEAN: ' + (p.stdout + p.stderr)[-600:])
    print(*r, flush=True)
    if not nocheck:
        F = HERE + '/tools/seed_results.json'; R = json.load(open(F)) if os.path.exists(F) else {}
        vl = [l for l in c.stdout.split('\n') if l.startswith('VIOLATION')]
        ob = [l.split(': ')[0].split('obligation ')[-1].strip() for l in c.stdout.split('\n') if 'failed obligation' in l]
        R[i] = dict(rc=c.returncode, by=('proof' if ob else '') + (' and ' if ob and 'failing input' in c.stdout else '') + ('replayed input' if 'failing input:' in c.stdout else ''), nfi='no-failing-input-found' in ' '.join(vl))
        json.dump(R, open(F, 'w'), indent=1, sort_keys=True)

#!/usr/bin/env python3
"""check.py PROPERTY  -- decides one property on /repo's current working tree.

Three engines, all run on every invocation, from /repo's current source:
  verus : contracts injected into functions extracted mechanically from /repo (lib/verusunit.py)
  kani  : contract harnesses of /verif/kani/<crate>, compiled against /repo's crates (lib/kanirun.py)
  replay: the same contracts as executable predicates, run on the real code; turns a failed
          obligation into a concrete failing input and is the bounded stand-in for what no
          verifier reaches (lib/replayrun.py)
Outcome: exit 0 (held on everything decided), exit 1 with a VIOLATION line, exit 2 (no answer).
"""
import json, os, sys, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
from props import PROPS
import kanirun, verusunit, replayrun

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cfg = PROPS[prop]
    t0 = time.time()
    work = os.path.join(HERE, '.build', 'run-' + prop)
    os.makedirs(work, exist_ok=True)
    with ThreadPoolExecutor(4) as ex:
        fr = ex.submit(replayrun.run, prop, cfg, tier, seed, work)
        fk = [ex.submit(kanirun.run, crate, prop, tier, work, cfg) for crate in cfg.get('kani', [])]
        fv = ex.submit(verusunit.run_units, cfg.get('verus', []), tier, work)
        rep, kan, ver = fr.result(), [f.result() for f in fk], fv.result()

    known = json.load(open(os.path.join(HERE, 'known_findings.json')))['findings']
    known = [k for k in known if k.get('property') == prop and k.get('status') == 'open']
    failing, seen = [], []
    for v in rep['violations']:
        k = next((k for k in known if k['contract'] == v['contract'] and k['input'] in v['input']), None)
        (seen.append((k, v)) if k else failing.append(v))
    refuted = [dict(engine='kani', **o) for k in kan for o in k['failed']] + [dict(engine='verus', **o) for o in ver['failed']]
    undecided = [u for k in kan for u in k['undecided']] + ver['undecided'] + rep['undecided']
    # no failing input from the executable contracts: have Kani's counterexample executed on the real code
    for o in refuted:
        if not failing and o['engine'] == 'kani' and time.time() - t0 < 480:
            kanirun.playback(o['crate'], o['harness'], o, work); break
    # a verifier counterexample that was executed on the real code counts as a failing input
    played = [o for o in refuted if o.get('input')]

    obligations = sum(k['obligations'] for k in kan) + ver['obligations']
    discharged = sum(k['discharged'] for k in kan) + ver['discharged']
    nviol = len(failing) + len(refuted)
    cov = dict(
        obligations=obligations, discharged=discharged,
        checker_cmd='; '.join([k['cmd'] for k in kan] + ver['cmds']) or replayrun.CMD,
        trusted_base=sorted(set(cfg.get('trusted', []) + ver['trusted'] + (kanirun.TRUSTED if kan else []))),
        functions_under_contract=cfg.get('functions', []) + ver['functions'],
        kani_harnesses=[h for k in kan for h in k['harnesses']],
        verus_units=ver['units'],
        solver_seconds=round(sum(k['solver_s'] for k in kan) + ver['solver_s'], 2),
        vacuity=dict(kani_covers_reached=sum(k['covers'] for k in kan), verus_probes_refuted=ver['probes']),
        undecided=undecided,
        bounded_stand_in=dict(label='bounded: executable contracts on the real code, never counted as proved',
                              evaluations=rep['evaluations'], distinct_nontrivial=rep['distinct'],
                              contracts=rep['contracts'], samples=rep['samples'], clauses=cfg.get('bounded', '')),
        evaluations=rep['evaluations'], distinct_nontrivial=rep['distinct'],
        rule='seeded generator per contract (see replay/src); an evaluation is one contract on one input, distinct by (contract, rendered input)',
        samples=rep['samples'][:20],
    )
    level = cfg['level']
    if level == 'other':
        cov['explanation'] = cfg['note']
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=cfg.get('assumptions', []) + ver['assumptions'], wall_s=round(time.time() - t0, 2), violations=nviol)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)

    for k, v in seen:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for u in undecided:
        print('undecided:', u)
    print(f"{prop} {tier}: obligations {discharged}/{obligations} discharged, replay {rep['evaluations']} evaluations, {ev['wall_s']} s")
    if failing or refuted:
        rdir = os.path.join(HERE, 'evidence', 'replay'); os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f'{prop}.json')
        with open(path, 'w') as f:
            json.dump(dict(property=prop, seed=seed, tier=tier, failing_inputs=failing, failed_obligations=refuted,
                           replay_cmd=f'{rep["cmd"]}' ), f, indent=1)
        for o in refuted:
            print(f"failed obligation [{o['engine']}]: {o['name']}: {o['reason'][:300]}")
        for v in failing[:5]:
            print(f"failing input: {v['contract']}: {v['input'][:300]} -> {v['what'][:300]}")
        tail = '' if (failing or played) else ' no-failing-input-found'
        print(f'VIOLATION property={prop} replay={path}{tail}')
        return 1
    if rep['fatal'] and discharged == 0:
        print('no answer:', rep['fatal'])
        return 2
    return 0

sys.exit(main())

"""Builds and runs the replay engine (executable contracts) against /repo's current tree."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMD = 'cargo build (replay crate, path deps on /repo) && replay <property> <out> <seed> <tier>'

def build(feat, hooks, timeout=600):
    env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
    env['CARGO_TARGET_DIR'] = os.path.join(HERE, '.build', 'replay' if hooks else 'replay-nohooks')
    env['RUSTFLAGS'] = '--cfg ass_verif' if hooks else ''
    env.pop('CARGO_ENCODED_RUSTFLAGS', None)
    p = subprocess.run(['cargo', 'build', '--no-default-features', '--features', feat],
                       cwd=os.path.join(HERE, 'replay'), env=env, capture_output=True, text=True, timeout=timeout)
    return p.returncode == 0, p.stderr, os.path.join(env['CARGO_TARGET_DIR'], 'debug', 'replay')

def run(prop, cfg, tier, seed, work):
    out = dict(violations=[], evaluations=0, distinct=0, contracts={}, samples=[], undecided=[], fatal='', cmd='')
    try:
        ok, err, exe = build(cfg['feat'], True)
        if not ok:
            out['undecided'].append('replay: does not build with the hooks on (private item changed); retried without them')
            ok, err2, exe = build(cfg['feat'], False)
            if not ok:
                out['fatal'] = 'replay engine does not build against /repo: ' + err[-1500:]
                out['undecided'].append(out['fatal'])
                return out
        js = os.path.join(work, 'replay.json')
        if os.path.exists(js): os.remove(js)
        cmd = [exe, prop, js, str(seed), tier]
        out['cmd'] = ' '.join(cmd)
        lim = 400 if tier == 'quick' else 3000
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, timeout=lim)
            rc, se = p.returncode, p.stderr
        except subprocess.TimeoutExpired:
            rc, se = 'timeout', ''
        if not os.path.exists(js) and not os.path.exists(js + '.last') and rc != 'timeout':
            # the process died (abort, stack overflow): run again, recording each evaluation first
            try: subprocess.run(cmd, capture_output=True, text=True, timeout=lim, env=dict(os.environ, REPLAY_TRACE='1'))
            except subprocess.TimeoutExpired: pass
        if os.path.exists(js):
            d = json.load(open(js))
            out.update(violations=d['violations'], evaluations=d['evaluations'], distinct=d['distinct'],
                       contracts=d['contracts'], samples=d['samples'])
        else:
            # the engine writes the contract it is about to evaluate; abort/hang = totality violation
            last = {}
            try: last = json.load(open(js + '.last'))
            except Exception: pass
            if last:
                out['violations'].append(dict(contract=last.get('contract', '?'), input=last.get('input', '?'),
                                              what=f'the call did not return normally (process ended: {rc}) {se[-300:]}'))
            else:
                out['fatal'] = f'replay ended with {rc}: {se[-500:]}'
                out['undecided'].append(out['fatal'])
    except subprocess.TimeoutExpired:
        out['fatal'] = 'replay build timed out'
        out['undecided'].append(out['fatal'])
    return out

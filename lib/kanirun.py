"""Runs the Kani contract harnesses whose name starts with <property>_ (thorough: also deep<property>x_)."""
import glob, os, re, shutil, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUSTED = ['kani 0.68.0 / CBMC 6.11 / CaDiCaL and rustc codegen', 'Kani models of std (alloc, panics as assertion failures)']
UNDEC = re.compile(r'unwinding assertion|is not currently supported|unsupported|not supported by Kani|reachable unsupported|recursion unwinding', re.I)

def env():
    e = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTFLAGS='--cfg ass_verif')
    e['CARGO_TARGET_DIR'] = os.path.join(HERE, '.build', 'kani')
    return e

def harness_names(crate, prefixes):
    names = []
    for f in sorted(glob.glob(os.path.join(HERE, 'kani', crate, 'src', '*.rs'))):
        t = open(f).read()
        names += re.findall(r'\bfn\s+((?:%s)\w+)' % '|'.join(prefixes), t)
        names += re.findall(r'\b((?:%s)\w+)\s+\d' % '|'.join(prefixes), t)
    return sorted(set(names))

def parse(text):
    cur, res = {}, {}
    blocks = re.split(r'(?m)^(?=Thread \d+: )', text)
    for b in blocks:
        m = re.match(r'Thread (\d+): (.*)', b, re.S)
        if not m: continue
        t, body = m.group(1), m.group(2)
        c = re.match(r'Checking harness ([\w:]+)\.\.\.', body)
        if c:
            cur[t] = c.group(1); continue
        h = cur.get(t)
        if h: res[h.split('::')[-1]] = body
    return res

def run(crate, prop, tier, work, cfg):
    pre = [prop.lower() + '_']
    if tier == 'thorough': pre.append('deep' + prop.lower() + 'x_')
    names = harness_names(crate, pre)
    skip = set() if tier == 'thorough' else set(cfg.get('kani_thorough_only', []))
    names = [n for n in names if n not in skip]
    ht, total = ('200s', 560) if tier == 'quick' else ('1500s', 5400)
    cmd = ['cargo', 'kani', '--output-format', 'terse', '-j', '8', '-Z', 'stubbing', '-Z', 'unstable-options', '--harness-timeout', ht]
    for n in names: cmd += ['--harness', n]
    out = dict(failed=[], undecided=[], obligations=0, discharged=0, harnesses=[], covers=0, solver_s=0.0,
               cmd=f'(kani/{crate}) cargo kani -Z stubbing --harness {prop.lower()}_*  [{len(names)} harnesses]')
    try:
        p = subprocess.run(cmd, cwd=os.path.join(HERE, 'kani', crate), env=env(), capture_output=True, text=True, timeout=total)
        text = p.stdout
        err = p.stderr
    except subprocess.TimeoutExpired as e:
        text = (e.stdout or b'').decode('utf8', 'replace') if isinstance(e.stdout, bytes) else (e.stdout or '')
        err = 'total time limit'
        subprocess.run(['pkill', '-f', os.path.join(HERE, '.build', 'kani')], capture_output=True)
    res = parse(text)
    if not res:
        out['undecided'].append(f'kani/{crate}: no harness ran: {err[-800:]}')
        return out
    for n in names:
        body = res.get(n)
        if body is None:
            out['undecided'].append(f'kani/{crate}::{n}: not decided (time limit)'); continue
        m = re.search(r'\*\* (\d+) of (\d+) failed', body)
        tm = re.search(r'Verification Time: ([\d.]+)s', body)
        secs = float(tm.group(1)) if tm else 0.0
        out['solver_s'] += secs
        if not m:
            out['undecided'].append(f'kani/{crate}::{n}: {body.strip()[-200:]}'); continue
        bad, tot = int(m.group(1)), int(m.group(2))
        out['obligations'] += tot
        fails = re.findall(r'Failed Checks: (.*)\n(?:\s*File: (.*))?', body)
        cov = re.search(r'\*\* (\d+) of (\d+) cover properties satisfied', body)
        if 'VERIFICATION:- SUCCESSFUL' in body and bad == 0:
            if cov and cov.group(1) != cov.group(2):
                out['undecided'].append(f'kani/{crate}::{n}: reachability cover not satisfied (vacuous)'); continue
            out['covers'] += int(cov.group(1)) if cov else 0
            out['discharged'] += tot
            out['harnesses'].append(dict(name=n, checks=tot, seconds=round(secs, 2), result='discharged'))
            continue
        real = [(a, b) for a, b in fails if not UNDEC.search(a)]
        und = [a for a, b in fails if UNDEC.search(a)]
        if und or not real:
            out['undecided'].append(f'kani/{crate}::{n}: {"; ".join(und)[:300] or body.strip()[-200:]}')
            out['discharged'] += max(0, tot - bad)
            continue
        out['discharged'] += tot - bad
        out['harnesses'].append(dict(name=n, checks=tot, seconds=round(secs, 2), result='FAILED'))
        o = dict(name=f'kani/{crate}::{n}', harness=n, crate=crate, reason='; '.join(f'{a} ({b})' for a, b in real), output=body.strip()[-3000:])
        out['failed'].append(o)
    return out

def playback(crate, name, o, work):
    """Ask Kani for the counterexample and execute it on the real code (scratch copy of the harness crate)."""
    scratch = os.path.join(work, 'playback-' + crate)
    try:
        shutil.rmtree(scratch, ignore_errors=True)
        shutil.copytree(os.path.join(HERE, 'kani', crate), scratch, ignore=shutil.ignore_patterns('target'))
        e = env(); e['CARGO_TARGET_DIR'] = os.path.join(HERE, '.build', 'kani-playback')
        subprocess.run(['cargo', 'kani', '-Z', 'concrete-playback', '--concrete-playback=inplace', '-Z', 'stubbing', '--exact', '--harness',
                        next(iter(qualified(crate, name)), name)], cwd=scratch, env=e, capture_output=True, text=True, timeout=150)
        t = '\n'.join(open(f).read() for f in glob.glob(os.path.join(scratch, 'src', '*.rs')))
        m = re.search(r'fn (kani_concrete_playback_%s\w*)\(\) \{(.*?)kani::concrete_playback_run' % name, t, re.S)
        if not m: return
        p = subprocess.run(['cargo', 'kani', 'playback', '-Z', 'concrete-playback', '--', m.group(1)], cwd=scratch, env=e,
                           capture_output=True, text=True, timeout=150)
        txt = p.stdout + p.stderr
        if re.search(r'test result: FAILED', txt):
            o['input'] = re.sub(r'\s+', ' ', m.group(2))[:2000]
            o['executed'] = txt[-1500:]
    except Exception as ex:  # playback is best effort; the failed obligation stands on its own
        o['playback_error'] = str(ex)[:300]
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def qualified(crate, name):
    for f in glob.glob(os.path.join(HERE, 'kani', crate, 'src', '*.rs')):
        if re.search(r'\b%s\b' % name, open(f).read()):
            mod = os.path.basename(f)[:-3]
            return [name if mod == 'lib' else f'{mod}::{name}']
    return []

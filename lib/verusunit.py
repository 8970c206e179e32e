"""Deductive units: Verus contracts injected into functions extracted from /repo on every run.

A unit is verus/<name>.vrs: Verus text (spec functions, lemmas, trusted external specifications) with blocks

    //@@ fn <path> <Type::name | name>      extract this function, verbatim, from /repo
    //@ret r                                name the return value
    //@spec                                 contract text, placed between signature and body
    //@loop K [it]                          invariants of the K-th loop (source order); `it` names its iterator
    //@loopstart K / //@loopend K         proof text at the start / end of the body of the K-th loop
    //@before "text" / //@after "text"      proof text placed before/after the line containing text
    //@start / //@finish                    proof text at the start / end of the body
    //@replace "old" => "new"               stated normalisation (recorded as a drop in the evidence)
    //@opt-replace ...                      the same, not an error when absent
    //@re pattern => template               regular-expression normalisation (captured source text is kept); also
                                            opt-re (may be absent), sig-re (on the signature), re-all (several matches)
 //@strmatch expr                      a match on string literals becomes the same comparisons in order
    //@frag "from" "to" / //@sig text       only these statements of the body, under this signature
                                            (a `Type::fn/closure` name extracts a named closure)
    //@@ end
    //@@ struct <path> <Name> [derive(..)]  extract a struct/enum definition
    //@@ strs <path> <NAME>                 a constant list of strings, as a specification and a function giving it

What extraction drops: doc comments, attributes (#[inline], #[must_use], #[cfg]; of the cfg'd items the
std build is kept), `pub(super)`/`pub(crate)` become `pub`.  Nothing else changes but listed //@replace lines.
A lost anchor, an unsupported construct or a resource limit makes the unit undecided, never an alarm.
"""
import json, os, re, subprocess, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('ASS_REPO', '/repo')
VERUS = os.environ.get('VERUS', 'verus')

class Lost(Exception): pass

def scan(src, i, stop):
    """index of the first char in `stop` at bracket depth 0 from i, skipping strings/comments/chars"""
    d, n = 0, len(src)
    while i < n:
        c = src[i]
        if src.startswith('//', i):
            j = src.find('\n', i); i = n if j < 0 else j; continue
        if src.startswith('/*', i):
            i = src.index('*/', i) + 2; continue
        m = re.match(r'b?r(#*)"', src[i:i+12])
        if m and (i == 0 or not (src[i-1].isalnum() or src[i-1] == '_')):
            i = src.index('"' + m.group(1), i + m.end()) + 1 + len(m.group(1)); continue
        if c == '"':
            i += 1
            while src[i] != '"': i += 2 if src[i] == '\\' else 1
            i += 1; continue
        if c == "'":
            m = re.match(r"'(\\u\{[0-9a-fA-F]+\}|\\x[0-9a-fA-F]{2}|\\.|[^\\'])'", src[i:i+14], re.S)
            if m: i += m.end(); continue
            i += 1; continue
        if d == 0 and c in stop: return i
        if c in '([{': d += 1
        elif c in ')]}':
            d -= 1
            if d < 0: raise Lost('unbalanced')
        i += 1
    raise Lost('end of file')

def match_close(src, i):
    """index just past the bracket matching the one at i"""
    close = {'{': '}', '(': ')', '[': ']'}[src[i]]
    return scan(src, i + 1, close) + 1

def read(path):
    p = os.path.join(REPO, path)
    if not os.path.exists(p): raise Lost(f'{path} is gone')
    return open(p).read()

def blank(src):
    """source with comments and string contents blanked (same length), for keyword searches"""
    out, i, n = list(src), 0, len(src)
    while i < n:
        if src.startswith('//', i):
            j = src.find('\n', i); j = n if j < 0 else j
            for k in range(i, j): out[k] = ' '
            i = j; continue
        m = re.match(r'b?r(#*)"', src[i:i+12])
        if m and (i == 0 or not (src[i-1].isalnum() or src[i-1] == '_')):
            j = src.index('"' + m.group(1), i + m.end()) + 1 + len(m.group(1))
            for k in range(i, j): out[k] = ' '
            i = j; continue
        if src[i] == '"':
            j = i + 1
            while src[j] != '"': j += 2 if src[j] == '\\' else 1
            for k in range(i + 1, j): out[k] = ' '
            i = j + 1; continue
        if src[i] == "'":
            m = re.match(r"'(\\u\{[0-9a-fA-F]+\}|\\x[0-9a-fA-F]{2}|\\.|[^\\'])'", src[i:i+14], re.S)
            if m:
                for k in range(i + 1, i + m.end() - 1): out[k] = ' '
                i += m.end(); continue
        i += 1
    return ''.join(out)

def strip(text):
    """drop doc comments, comments and attributes; keep the std side of cfg(feature = "nostd") pairs"""
    out, i = [], 0
    while i < len(text):
        m = re.match(r'#!?\[', text[i:])
        if m and (i == 0 or text[i-1] in ' \t\n{}(;,'):
            j = match_close(text, i + m.end() - 1)
            attr = text[i:j]
            i = j
            if re.search(r'cfg\((feature\s*=\s*"nostd"|not\(feature\s*=\s*"(std|simd|plugins|rope|stream|arena|search-index|multi-thread)"\)|not\(feature = "std"\))\)', attr):
                b = blank(text)
                k = i
                while k < len(b) and b[k] not in ';{,': k += 1
                # skip the guarded statement / item
                if b[k] == '{':
                    i = match_close(text, k)
                else:
                    i = scan(text, i, ';,') + 1
            continue
        if text.startswith('//', i):
            j = text.find('\n', i); i = len(text) if j < 0 else j; continue
        if text[i] == '"':
            j = i + 1
            while text[j] != '"': j += 2 if text[j] == '\\' else 1
            out.append(text[i:j+1]); i = j + 1; continue
        m = re.match(r"'(\\u\{[0-9a-fA-F]+\}|\\x[0-9a-fA-F]{2}|\\.|[^\\'])'", text[i:i+14], re.S)
        if m: out.append(m.group(0)); i += m.end(); continue
        out.append(text[i]); i += 1
    s = ''.join(out)
    s = re.sub(r'\bpub\((super|crate|in [\w:]+)\)', 'pub', s)
    return re.sub(r'\n\s*\n+', '\n', s)

def find_item(src, pat, lo, hi):
    b = blank(src)
    ms = [m for m in re.finditer(pat, b[:hi]) if m.start() >= lo]
    t = b.find('#[cfg(test)]')
    ms = [m for m in ms if t < 0 or m.start() < t] or ms
    return ms

def impl_ranges(src, ty):
    b = blank(src)
    out = []
    for m in re.finditer(r'\bimpl\b[^{;]*\{', b):
        head = b[m.start():m.end()]
        h = re.sub(r'<[^<>]*(<[^<>]*>[^<>]*)*>', '', head)
        mm = re.search(r'(?:\bfor\s+)?(?:&\s*(?:mut\s+)?)?([\w:]+)\s*(?:where[^{]*)?\{$', h.strip())
        if mm and mm.group(1).split('::')[-1] == ty:
            out.append((m.end() - 1, match_close(src, m.end() - 1)))
    return out

def get_fn(path, name):
    if '/' in name:
        # a named closure of a function: its captured variables become parameters (//@sig-re)
        outer, name = name.split('/')
        _, body = get_fn(path, outer)
        m = re.search(r'\blet\s+(?:mut\s+)?%s\s*=\s*(?:move\s*)?\|([^|]*)\|\s*(->\s*[^{]+)?' % re.escape(name), blank(body))
        if not m or body[m.end()] != '{': raise Lost(f'closure {name} not found in {outer}')
        return f'pub fn {name}({m.group(1)}) {m.group(2) or ""}', body[m.end():match_close(body, m.end())]
    src = read(path)
    rngs = [(0, len(src))]
    anycfg, name = name.endswith('!'), name.rstrip('!')      # `name!`: also when it is there for simd only
    if '::' in name:
        ty, name = name.split('::')
        rngs = impl_ranges(src, ty)
        if not rngs: raise Lost(f'impl {ty} not found in {path}')
    for lo, hi in rngs:
        for m in find_item(src, r'(?:pub(?:\([^)]*\))?\s+)?(?:const\s+)?(?:unsafe\s+)?fn\s+%s\b' % re.escape(name), lo, hi):
            # honour cfg attributes in front of it: skip the variant for disabled features
            pre = src[max(0, m.start() - 400):m.start()]
            pre = pre[max(pre.rfind('}'), pre.rfind(';')) + 1:]
            if not anycfg and re.search(r'cfg\((feature\s*=\s*"(nostd)"|not\(feature\s*=\s*"(?:std|rope|stream|arena|search-index|multi-thread)"\)|feature\s*=\s*"simd")', pre): continue
            j = scan(src, m.end(), '{;')
            if src[j] == ';': continue
            e = match_close(src, j)
            return src[m.start():j], src[j:e]
    raise Lost(f'fn {name} not found in {path}')

def get_item(path, name):
    src = read(path)
    for m in find_item(src, r'(?:pub(?:\([^)]*\))?\s+)?(?:struct|enum|const|type|static)\s+%s\b' % re.escape(name), 0, len(src)):
        j = scan(src, m.end(), '{;')
        if src[j] == '{':
            e = match_close(src, j)
            return src[m.start():e]
        return src[m.start():j + 1]
    raise Lost(f'item {name} not found in {path}')

def loops(body):
    """positions of the `{` opening each loop body, and of the keyword, in source order"""
    b, out = blank(body), []
    for m in re.finditer(r'\b(while|for|loop)\b', b):
        if m.group(1) == 'for' and not re.match(r'for\s+[^;{}]*?\bin\b', b[m.start():m.start() + 200]): continue
        try: out.append((m.start(), m.group(1), scan(body, m.end(), '{')))
        except Lost: continue
    return out

def quoted(s):
    return [bytes(x, 'utf8').decode('unicode_escape') for x in re.findall(r'"((?:[^"\\]|\\.)*)"', s)]

def str_match(body, expr, name):
    """`match EXPR { "a" | "b" => X, _ => Y }` as if/else comparisons, same arms, same order"""
    m = re.search(r'\bmatch\s+' + re.escape(expr) + r'\s*\{', body)
    if not m: raise Lost(f'{name}: match {expr} is gone')
    end = match_close(body, m.end() - 1)
    inner, i, arms = body[m.end():end - 1], 0, []
    while inner[i:].strip():
        j = i
        while True:
            j = scan(inner, j, '=')
            if inner[j:j + 2] == '=>': break
            j += 1
        pat = inner[i:j].strip(); i = j + 2
        while inner[i].isspace(): i += 1
        if inner[i] == '{':
            k = match_close(inner, i); arm = inner[i:k]
            while k < len(inner) and (inner[k].isspace() or inner[k] == ','): k += 1
        else:
            try: k = scan(inner, i, ',')
            except Lost: k = len(inner)
            arm = '{ ' + inner[i:k].strip() + ' }'; k += 1
        arms.append((pat, arm)); i = k
    out, has_else = [], False
    for pat, arm in arms:
        lits = re.findall(r'"(?:[^"\\]|\\.)*"', pat)
        if pat == '_': out.append(arm); has_else = True; break
        if re.sub(r'[\s|]', '', re.sub(r'"(?:[^"\\]|\\.)*"', '', pat)): raise Lost(f'{name}: arm {pat!r} is not a string literal')
        out.append('if ' + ' || '.join(f'sm == {l}' for l in lits) + ' ' + arm)
    if not has_else: raise Lost(f'{name}: match {expr} has no default arm')
    return body[:m.start()] + '{ let sm = ' + expr + '; ' + ' else '.join(out) + ' }' + body[end:]

def build_fn(path, name, block, drops, probe):
    sig, body = get_fn(path, name)
    sig, body = strip(sig), strip(body)
    spec, ret, lsp, starts, finishes, hints = '', None, {}, '', '', []
    cur = None
    text_for = {}
    order = []
    for ln in block:
        m = re.match(r'\s*//@(\S+)\s*(.*)$', ln)
        if m:
            k, arg = m.group(1), m.group(2)
            if k == 'ret': ret = arg.strip(); cur = None
            elif k in ('re', 'opt-re', 'sig-re', 're-all'):
                a, bb = re.match(r'(.*?)\s+=>\s?(.*)$', arg).groups()
                tgt = sig if k == 'sig-re' else body
                n = len(re.findall(a, tgt))
                if n == 0:
                    if k == 'opt-re': continue
                    raise Lost(f'{name}: pattern {a!r} is gone')
                if n > 1 and k != 're-all': raise Lost(f'{name}: pattern {a!r} matches {n} times')
                tgt = re.sub(a, bb, tgt)
                if k == 'sig-re': sig = tgt
                else: body = tgt
                drops.append(f'{name}: /{a}/ -> {bb!r}')
                cur = None
            elif k in ('replace', 'opt-replace', 'sig-replace', 'replace-all'):
                q = quoted(arg)
                a, bb = q[0], q[1]
                tgt = sig if k == 'sig-replace' else body
                if a not in tgt:
                    if k == 'opt-replace': continue
                    raise Lost(f'{name}: text {a!r} is gone')
                if k == 'sig-replace': sig = sig.replace(a, bb, 1)
                elif k == 'replace-all' : body = body.replace(a, bb)
                else: body = body.replace(a, bb, 1)
                drops.append(f'{name}: {a!r} -> {bb!r}')
                cur = None
            elif k == 'strmatch':
                body = str_match(body, arg.strip(), name)
                drops.append(f'{name}: match on string literals of {arg.strip()} as the same comparisons in order')
                cur = None
            elif k == 'frag':
                # only the statements from the first text up to (not including) the second
                q = quoted(arg)
                p0 = body.find(q[0])
                p1 = body.find(q[1], p0 + 1) if p0 >= 0 else -1
                if p1 < 0: raise Lost(f'{name}: fragment {q} is gone')
                body = '{\n' + body[p0:p1] + '}'
                drops.append(f'{name}: only the statements from {q[0]!r} up to {q[1]!r}')
                cur = None
            elif k == 'sig':
                sig = arg; drops.append(f'{name}: as {arg}'); cur = None
            else:
                cur = (k, arg.strip(), len(order)); order.append(cur); text_for[cur] = ''
        elif cur is not None:
            text_for[cur] += ln + '\n'
    inserts = []  # (pos, text) into body
    lp = loops(body)
    for key in order:
        k, arg, _ = key
        t = text_for[key]
        if k == 'spec': spec = t
        elif k == 'loop':
            parts = arg.split()
            n = int(parts[0])
            if n >= len(lp): raise Lost(f'{name}: loop {n} is gone')
            inserts.append((lp[n][2], '\n' + t))
            if len(parts) > 1:
                if lp[n][1] != 'for': raise Lost(f'{name}: loop {n} is no longer a for loop')
                mm = re.compile(r'\bin\b').search(blank(body), lp[n][0])
                inserts.append((mm.end(), f' {parts[1]}:'))
        elif k == 'loopend':
            if int(arg) >= len(lp): raise Lost(f'{name}: loop {arg} is gone')
            inserts.append((match_close(body, lp[int(arg)][2]) - 1, '\n' + t))
        elif k == 'loopstart':
            if int(arg) >= len(lp): raise Lost(f'{name}: loop {arg} is gone')
            inserts.append((lp[int(arg)][2] + 1, '\n' + t))
        elif k in ('before', 'after'):
            a = quoted(arg)[0]
            p = body.find(a)
            if p < 0: raise Lost(f'{name}: anchor {a!r} is gone')
            if k == 'before':
                inserts.append((body.rfind('\n', 0, p) + 1, t))
            else:
                inserts.append((body.find('\n', p) + 1, t))
        elif k == 'start': starts += t
        elif k == 'finish': finishes += t
        else: raise Lost(f'bad directive {k}')
    if probe:
        for (_, kw, pos) in lp:
            inserts.append((pos + 1, f' proof {{ if probe_nd({pos}) {{ assert(false); }} }} /*probe*/ '))
    n_loops = len(lp)
    if n_loops and 'loop' not in [k[0] for k in order] and not any(k[0] == 'nospec' for k in order):
        pass
    for pos, t in sorted(inserts, key=lambda x: -x[0]):
        body = body[:pos] + t + body[pos:]
    inner = body[1:]
    if starts or probe:
        inner = ('\n proof { if probe_nd(0) { assert(false); } } /*probe*/\n' if probe else '\n') + starts + inner
    if finishes:
        k = inner.rindex('}')
        inner = inner[:k] + finishes + inner[k:]
    if ret:
        m = re.search(r'->\s*', sig)
        if not m: raise Lost(f'{name}: no return type')
        ty = sig[m.end():].strip()
        w = ''
        if re.search(r'\bwhere\b', ty):
            ty, w = re.split(r'\bwhere\b', ty, 1); w = ' where ' + w
        sig = sig[:m.start()] + f'-> ({ret}: {ty.strip()})' + w
    nprobe = (1 + n_loops) if probe else 0
    return f'{sig.rstrip()}\n{spec}{{{inner}\n', nprobe

def build(unit, probe=False):
    lines = open(os.path.join(HERE, 'verus', unit + '.vrs')).read().split('\n')
    out, funcs, drops, i, probes = [], [], [], 0, 0
    line_no = lambda: sum(x.count('\n') + 1 for x in out)
    while i < len(lines):
        m = re.match(r'\s*//@@ (\w+)\s+(.*)$', lines[i])
        if m and m.group(1) == 'include':
            lines[i:i+1] = open(os.path.join(HERE, 'verus', m.group(2).strip())).read().split('\n')
            continue
        if not m:
            out.append(lines[i]); i += 1; continue
        kind, args = m.group(1), m.group(2).split(None, 2)
        if kind == 'struct':
            s = strip(get_item(args[0], args[1]))
            opts = args[2] if len(args) > 2 else ''
            d = re.search(r'derive\([^)]*\)', opts)
            if 'pubfields' in opts:
                h, t = s.split('{', 1)
                s = h + '{' + re.sub(r'(?m)^(\s*)(?!pub\b)(\w+\s*:)', r'\1pub \2', t)
            for a, bb in zip(*[iter(quoted(opts))] * 2):
                if a not in s: raise Lost(f'{args[1]}: text {a!r} is gone')
                s = s.replace(a, bb); drops.append(f'{args[1]}: {a!r} -> {bb!r}')
            if not s.startswith('pub'): s = 'pub ' + s
            out.append(('#[%s]\n' % d.group(0) if d else '') + s)
            i += 1
        elif kind == 'strs':
            m = re.search(r'const %s: &\[&str\] =\s*&\[(.*?)\];' % args[1], open(os.path.join(REPO, args[0])).read(), re.S)
            if not m or re.sub(r'"[^"\\]*"|[\s,]', '', m.group(1)): raise Lost(f'{args[1]}: list of strings not found')
            v = ', '.join(x + '@' for x in re.findall(r'"[^"]*"', m.group(1)))
            out.append(f'pub open spec fn {args[1]}_is() -> Seq<Seq<char>> {{ seq![{v}] }}\n'
                       f'#[verifier::external_body]\npub fn {args[1]}() -> (r: &\'static [&\'static str]) ensures texts(r@) == {args[1]}_is() {{ unimplemented!() }}')
            drops.append(f'{args[1]}: constant list read from {args[0]}')
            i += 1
        elif kind == 'fn':
            block, i = [], i + 1
            while not re.match(r'\s*//@@ end', lines[i]):
                block.append(lines[i]); i += 1
            i += 1
            a = line_no()
            txt, np = build_fn(args[0], args[1], block, drops, probe)
            out.append(txt); probes += np
            funcs.append(dict(name=f'{args[0]}::{args[1]}', lo=a + 1, hi=line_no()))
        else: raise Lost('bad block ' + kind)
    text = '\n'.join(out)
    if probe: text = re.sub(r'(?m)^verus! *\{', 'verus! { pub uninterp spec fn probe_nd(i: int) -> bool;', text, count=1)
    return text, funcs, drops, probes

OBL = re.compile(r'postcondition not satisfied|precondition not satisfied|assertion failed|assertion not satisfied|invariant not satisfied|possible arithmetic|possible division|'
                 r'possible bit shift|decreases not satisfied|could not prove termination|unreachable|index out of|loop ensures not satisfied|at this exit|split assertion failure|forall|failed', re.I)
SOFT = re.compile(r'rlimit|Resource limit|timed out|not all errors may have been reported', re.I)

def run_verus(path, extra, timeout):
    t0 = time.time()
    try:
        p = subprocess.run([VERUS, '--output-json', '--time', '--multiple-errors', '12', path] + extra, capture_output=True, text=True, timeout=timeout,
                           cwd=os.path.dirname(path))
    except subprocess.TimeoutExpired:
        return None, 'time limit', time.time() - t0, {}
    js = {}
    k = p.stdout.find('{')
    if k >= 0:
        try: js = json.loads(p.stdout[k:])
        except Exception: js = {}
    return js.get('verification-results'), p.stderr, time.time() - t0, js

def errors(stderr):
    out = []
    for b in re.split(r'\n(?=error|warning|note: )', '\n' + stderr):
        b = b.strip('\n')
        if not b.startswith('error'): continue
        head = b.split('\n')[0]
        if re.match(r'error: aborting', head): continue
        locs = [int(x) for x in re.findall(r'--> [^\n:]*:(\d+):\d+', b)] + [int(x) for x in re.findall(r':::\s[^\n:]*:(\d+):\d+', b)]
        more = [int(x) for x in re.findall(r'(?m)^\s*(\d+)\s*\|', b)]
        out.append((head, locs, more, b))
    return out

def run_unit(unit, tier, work):
    r = dict(unit=unit, verified=0, errors=0, failed=[], undecided=[], functions=[], drops=[], trusted=[], probes=0, solver_s=0.0, assumptions=[])
    try:
        text, funcs, drops, _ = build(unit)
        ptext, pf, _, nprobe = build(unit, True)
    except (Lost, ValueError, IndexError, KeyError) as e:
        r['undecided'].append(f'verus/{unit}: extraction: {e}')
        return r
    d = os.path.join(work, 'verus-' + unit); os.makedirs(d, exist_ok=True)
    path, ppath = os.path.join(d, unit + '.rs'), os.path.join(d, unit + '_probe.rs')
    open(path, 'w').write(text); open(ppath, 'w').write(ptext)
    r['functions'] = [f['name'] for f in funcs]
    r['drops'] = drops
    raw = open(os.path.join(HERE, 'verus', unit + '.vrs')).read()
    raw = re.sub(r'(?m)^\s*//@@ include\s+(\S+)\s*$', lambda m: open(os.path.join(HERE, 'verus', m.group(1))).read(), raw)
    for m in re.finditer(r'(assume_specification[^\n]*|external_body\][^{;]*?(?:fn|struct)\s+\w+|external_fn_specification|external_type_specification[^\n]*\n[^\n]*|admit\(\)|\bassume\([^\n]*|uninterp spec fn \w+|axiom fn \w+)', raw):
        r['trusted'].append(f'verus/{unit}: ' + re.sub(r'\s+', ' ', m.group(0)).strip()[:160])
    from concurrent.futures import ThreadPoolExecutor
    lim = 400 if tier == 'quick' else 900
    with ThreadPoolExecutor(2) as ex:
        fp = ex.submit(run_verus, ppath, ['--rlimit', (re.search(r'(?m)^// probe rlimit (\d+)$', raw) or [0, '30'])[1]], lim)
        res, err, secs, js = run_verus(path, [], lim)
        res2, err2, secs2, _ = fp.result()
    r['solver_s'] = secs
    if res is None or res.get('encountered-vir-error') or (res.get('verified', 0) == 0 and res.get('errors', 0) == 0):
        r['undecided'].append(f'verus/{unit}: not accepted by the verifier front end: ' + re.sub(r'\s+', ' ', err)[:400])
        return r
    r['verified'], r['errors'] = res.get('verified', 0), res.get('errors', 0)
    if r['errors']:
        hits = {}
        for head, locs, more, block in errors(err):
            f = next((f for l in locs + more for f in funcs if f['lo'] <= l <= f['hi']), None)
            if SOFT.search(head) or f is None or not OBL.search(head):
                if f is not None or SOFT.search(head):
                    r['undecided'].append(f'verus/{unit}: {f["name"] if f else "?"}: {head}')
                else:
                    r['undecided'].append(f'verus/{unit}: lemma or front-end error: {head}')
                continue
            hits.setdefault(f['name'], []).append((head, block))
        for n, hs in hits.items():
            r['failed'].append(dict(name=f'verus/{unit}: {n}', reason='; '.join(sorted({h for h, _ in hs})), output='\n'.join(b for _, b in hs)[:4000]))
        if not hits and not r['undecided']:
            r['undecided'].append(f'verus/{unit}: errors without a location: {err[:300]}')
    # vacuity: every function start and loop body must be reachable under its contract
    r['solver_s'] += secs2
    pl = ptext.split('\n')
    want = {i + 1 for i, l in enumerate(pl) if '/*probe*/' in l}
    got, soft = set(), set()
    for head, locs, more, block in errors(err2 or ''):
        got |= {l for l in locs if l in want}
        f = SOFT.search(head) and next((f for l in locs + more for f in pf if f['lo'] <= l <= f['hi']), None)
        if f: soft |= {l for l in want if f['lo'] <= l <= f['hi']}   # the solver gave up on refuting it: no verdict
    r['probes'] = len(got)
    want -= soft
    if want - got and not r['failed'] and not r['undecided']:
        r['undecided'].append(f'verus/{unit}: vacuity probe accepted (contradictory precondition or invariant) at generated lines {sorted(want - got)[:6]}')
        r['verified'] = 0
    return r

def run_units(units, tier, work):
    from concurrent.futures import ThreadPoolExecutor
    out = dict(failed=[], undecided=[], obligations=0, discharged=0, functions=[], trusted=[], probes=0, solver_s=0.0, cmds=[], units=[], assumptions=[])
    if not units: return out
    with ThreadPoolExecutor(4) as ex:
        rs = list(ex.map(lambda u: run_unit(u, tier, work), units))
    for r in rs:
        out['failed'] += r['failed']; out['undecided'] += r['undecided']
        out['obligations'] += r['verified'] + r['errors'] + (1 if r['undecided'] and not r['verified'] else 0)
        out['discharged'] += r['verified']
        out['functions'] += r['functions']; out['trusted'] += r['trusted']; out['probes'] += r['probes']
        out['solver_s'] += r['solver_s']
        out['assumptions'] += [f'extraction normalisation: {x}' for x in r['drops']]
        out['units'].append(dict(unit=r['unit'], verified=r['verified'], errors=r['errors'], functions=r['functions'], probes=r['probes']))
    out['cmds'] = [f'verus --output-json .build/run-*/verus-{u}/{u}.rs (extracted from /repo on this run)' for u in units]
    out['trusted'] += ['verus 0.2026.09.13 with Z3 and vstd specifications of core/alloc', 'lib/verusunit.py extraction (brace matcher)']
    return out

if __name__ == '__main__':
    import sys
    r = run_unit(sys.argv[1], 'quick', '/tmp/vu')
    for f in r['failed']: print('FAILED', f['name'], f['reason']); print(f['output'])
    r['failed'] = len(r['failed'])
    print(json.dumps(r, indent=1))

PROPS = {}
def P(id, **k):
    k.setdefault('level', 'proof'); k.setdefault('kani', []); k.setdefault('verus', [])
    for f in ('trusted', 'assumptions'):
        if isinstance(k.get(f), str): k[f] = [k[f]]
    PROPS[id] = k
NA = []   # (property text id, reason)

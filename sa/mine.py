"""Integer constants of the analysed code: the sizes at which it may begin to behave differently.

A size-dependent branch compares a size with a constant, so every constant found in the functions
analysed (literals, folded constant expressions, named constants) and in the extracted value graphs
is a candidate; the checks look at the sizes around each of them."""
from . import vdg


def consts(*terms):
    """integers occurring in value graphs"""
    seen, out, st = set(), set(), list(terms)
    while st:
        t = st.pop()
        if isinstance(t, (tuple, list)):
            st.extend(t)
            continue
        if not hasattr(t, 'op') or t.id in seen:
            continue
        seen.add(t.id)
        if t.op in ('i', 'lin'):
            out.add(abs(t.a[0]))
        st.extend(t.a)
    return out


def fold(n, out):
    """value of a constant integer expression, or None; collects every constant met"""
    if isinstance(n, list):
        for x in n:
            fold(x, out)
        return None
    if not isinstance(n, dict):
        return None
    k = n.get('k')
    if k == 'Lit' and n.get('t') == 'int':
        v = int(n['v'])
        out.add(v)
        return -v if n.get('neg') else v
    if k == 'Const':
        for f in ('val', 'int'):
            x = n.get(f)
            if isinstance(x, str) and x.lstrip('-').isdigit():
                out.add(abs(int(x)))
                return int(x)
        return None
    if k in ('Scope', 'Cast', 'Use', 'Coerce', 'Borrow', 'Deref', 'Block', 'PlaceTypeAscription'):
        if k == 'Block':
            b = n['b']
            fold(b.get('s'), out)
            return fold(b.get('e'), out)
        return fold(n.get('v'), out)
    if k == 'Binary':
        a, b = fold(n['l'], out), fold(n['r'], out)
        if a is not None and b is not None and abs(b) < 128:
            try:
                r = {'Shl': lambda: a << b, 'Mul': lambda: a * b, 'Add': lambda: a + b, 'Sub': lambda: a - b,
                     'Div': lambda: a // b, 'Shr': lambda: a >> b}[n['op']]()
            except (KeyError, ValueError, ZeroDivisionError):
                return None
            out.add(abs(r))
            return r
        return None
    for x in n.values():
        if isinstance(x, (dict, list)):
            fold(x, out)
    return None


def literals(W, keys=None):
    """integer constants of the functions analysed so far (and of their closures)"""
    memo = W.__dict__.setdefault('_lits', {})
    out = set()
    keys = keys if keys is not None else list(W.I.calls_seen)
    for k in keys:
        if k not in memo:
            s = set()
            for b in W.dump['bodies']:
                if b['key'] == k or b['key'].startswith(k + '::{closure'):
                    fold(b['body'], s)
            memo[k] = s
        out |= memo[k]
    return out


def around(cs, lo, hi, base=()):
    """sizes worth looking at: around every constant, within [lo, hi]"""
    out = set(base)
    for c in cs:
        if c < 3:
            continue
        out |= {c - 1, c, c + 1}
    return sorted(x for x in out if lo <= x <= hi)

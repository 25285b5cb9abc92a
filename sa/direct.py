"""Samples directed at branch conditions.

A value graph that compares two field elements behaves differently where the comparison holds, and a random
sample never gets there.  Every comparison met while evaluating a sample is recorded with its difference; where
the difference is an affine function of one input, that input is solved for, and the sample is taken again."""
from .vdg import P


def toward(probe, cands, known=(), per=2):
    """probe(over) -> {comparison: difference}; cands: (label, name, idx, value).  Yields (label, over, comparison)
    with overrides of a single input under which the comparison holds"""
    base = probe({})
    conds = [k for k, d in base.items() if d]
    left = {k: per for k in conds if k not in known}
    for lab, name, idx, val in cands:
        if not any(left.values()):
            break
        at = {0: base}
        for s in (1, 2):
            at[s] = probe(shift(name, idx, val + s))
        for k in list(left):
            if not left[k] or k not in at[1] or k not in at[2]:
                continue
            d0, d1, d2 = base[k], at[1][k], at[2][k]
            sl = (d1 - d0) % P
            if sl == 0 or (d2 - d1 - sl) % P:
                continue
            o = shift(name, idx, (val - d0 * pow(sl, -1, P)) % P)
            if probe(o).get(k) == 0:
                left[k] -= 1
                yield lab, o, k


def shift(name, idx, val):
    """override one (element of an) input"""
    val %= P
    if not idx:
        return {name: val}
    return {name: (idx, val)}


def resolve(over, get):
    """turn element overrides into functions; get(name, *idx) gives the other elements"""
    r = {}
    for k, x in over.items():
        if isinstance(x, tuple):
            r[k] = (lambda k, x: lambda *i: x[1] if tuple(i) == tuple(x[0]) else get(k, *i))(k, x)
        else:
            r[k] = x
    return r

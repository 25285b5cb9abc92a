"""Native hashes, reusable constraint helpers, constants, generators, encodings."""
import itertools
import random
from .gadgets import *
from .proto import isok, iserr, norm
from ..gadget import *
from .. import mine
from ..evalr import hz
from ..direct import toward, resolve

HC = 'r1cs::gadgets::helper_constraints::'


# ------------------------------------------------------------------------------------ native hashes
@check('C26', None)
def c26(ctx, W):
    I = W.I
    st = I.new_state()
    r = I.call_key(st, W.fn(HC + 'mimc::mimc'), [sym('l', 'F'), sym('r', 'F'), W.symseq('rc', FE_), sym('n', 'I')], {})
    zs = mine.literals(W, list(I.calls_seen))
    for n in sorted({0, 1, 2, 3, 5, 20, 91, 322} | set(mine.around(zs, 3, 5000)[:40])):
        nm = 'MiMC'
        with ctx.guard(nm):
            S = Sample(ctx.seed, {'n': n, '#rc': n})
            f = lambda x, *i: S.symbol(x, 'F', i)
            pan = S.ev(st.cells[PANIC])
            ctx.expect(nm, 'mimc', pan is None and S.ev(r) == mimc(f('l'), f('r'), [f('rc', i) for i in range(n)]),
                       'mimc with %d rounds %s' % (n, 'panics: %s' % pan if pan else 'is not (x + c)^3 + y, iterated'))
    rounds = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 1), (2, 3, 1), (4, 6, 4), (4, 56, 4)]
    if ctx.thorough:
        rounds += [(4, 55, 4), (4, 57, 4), (16, 16, 16)]
    for kind in ('Cube', 'Inverse', 'Quint'):
        for w in (3, 5, 9):
            g = WithParams(W)
            g.kind, g.width = kind, w
            pp, sb = g.params(), g.sbox()
            calls = [('Poseidon_permutation', [W.symseq('x', FE_, n=vdg.I(w)), pp, sb], lambda x, m: permutation(x, m, kind))]
            if w == 3:
                calls.append(('Poseidon_hash_2', [sym('x', 'F', vdg.I(0)), sym('x', 'F', vdg.I(1)), pp, sb], lambda x, m: hash_n(x[:2], m, kind)))
            else:
                k = w - 1
                calls.append(('Poseidon_hash_%d' % k, [W.symseq('x', FE_, n=vdg.I(k)), pp, sb], lambda x, m, k=k: hash_n(x[:k], m, kind)))
            for fn, args, spec in calls:
                nm = '%s, %s S-box' % (fn, kind)
                with ctx.guard(nm):
                    st = I.new_state()
                    r = I.call_key(st, W.fn(HC + 'poseidon::' + fn), args, {})
                    zs = mine.around(mine.literals(W), 5, 70)
                    extra = [(z // 2, 0, z - z // 2) for z in zs[:20]] + [(1, z, 0) for z in zs[:20]] if w == 3 or ctx.thorough else []
                    for fb, pr, fe in rounds + extra:
                        for special in (False, True):
                            m = g.prm(ctx.seed, fb, pr, fe)
                            ov = dict(g.pover(m))
                            if special:     # S-box inputs of zero
                                ov['x'] = lambda i: 0
                                m['rk'] = lambda i: 0
                                ov['pp.round_keys'] = m['rk']
                            S = Sample(ctx.seed, g.pints(m), ov)
                            x = [S.symbol('x', 'F', (i,)) for i in range(w)]
                            pan = S.ev(st.cells[PANIC])
                            v = S.ev(r) if pan is None else None
                            exp = spec(x, m)
                            ctx.expect(nm, fn, pan is None and (list(v) == exp if isinstance(exp, list) else v == exp),
                                       '%s with %d+%d+%d rounds, width %d %s' % (fn, fb, pr, fe, w, 'panics: %s' % pan if pan else 'is not the Poseidon function of its inputs'))
                    # where something the function compares happens to be equal
                    for fb, pr, fe in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 1), (2, 1, 2)):
                        m = g.prm(ctx.seed, fb, pr, fe)
                        F = lambda nm_, *i: Sample(ctx.seed).symbol(nm_, 'F', i)

                        def sample(o):
                            return Sample(ctx.seed, g.pints(m), dict(g.pover(m), **resolve(o, F)))

                        def probe(o):
                            S = sample(o)
                            S.eqs = {}
                            S.ev(r)
                            return S.eqs
                        for lab, o, k in toward(probe, [('input %d' % i, 'x', (i,), F('x', i)) for i in sorted({0, 1, w - 2, w - 1})], per=1):
                            S = sample(o)
                            v, exp = S.ev(r), spec([S.symbol('x', 'F', (i,)) for i in range(w)], m)
                            ctx.expect(nm, fn, list(v) == exp if isinstance(exp, list) else v == exp,
                                       '%s with %d+%d+%d rounds is not the Poseidon function where %s makes two values it compares equal' % (fn, fb, pr, fe, lab))
                ctx.sample(nm)
    ctx.floor('MiMC', 5)
    ctx.floor('Poseidon_permutation, Quint S-box', 15)


# ------------------------------------------------------------------------------------ constants
def grain(n, t, rf, rp, p):
    """the Poseidon paper's Grain LFSR: field GF(p), S-box x^5"""
    b = [int(c) for c in '01' + '0001' + format(n, '012b') + format(t, '012b') + format(rf, '010b') + format(rp, '010b')] + [1] * 30

    def nb():
        x = b[62] ^ b[51] ^ b[38] ^ b[23] ^ b[13] ^ b[0]
        b.pop(0)
        b.append(x)
        return x
    for _ in range(160):
        nb()

    def bit():
        while True:
            a, c = nb(), nb()
            if a:
                return c
    while True:
        v = 0
        for _ in range(n):
            v = 2 * v + bit()
        if v < p:
            yield v


PARTIAL = {3: 55, 5: 56, 9: 57}


@check('C27', None)
def c27(ctx, W):
    I = W.I
    PP = W.adt('PoseidonParams')
    fs = W.fields(PP)
    where_ = 'PoseidonParams::new'
    for w, rp in PARTIAL.items():
        g = grain(255, w, 8, rp, P)
        ref = [next(g) for _ in range((8 + rp) * w)]
        for fb, fe, pr in ((4, 4, rp), (1, 2, 3), (0, 0, 0), (3, 1, 0), (8 + rp, 0, 0)):
            with ctx.guard('parameters'):
                st = I.new_state()
                r = I.call_key(st, W.method(PP, 'new'), [vdg.I(w), vdg.I(fb), vdg.I(fe), vdg.I(pr)], {})
                S = Sample(ctx.seed)
                pan = S.ev(st.cells[PANIC])
                if not ctx.expect('parameters', where_, pan is None, 'building the parameters for width %d, %d+%d+%d rounds panics: %s' % (w, fb, pr, fe, pan)):
                    continue
                v = dict(zip(fs, S.ev(r).fs))
                n = (fb + fe + pr) * w
                ctx.expect('round numbers', where_, (v['width'], v['full_rounds_beginning'], v['full_rounds_end'], v['partial_rounds']) == (w, fb, fe, pr),
                           'the parameters do not hold the width and numbers of rounds asked for')
                rk = list(v['round_keys'])
                ctx.expect('number of round keys', where_, len(rk) >= n, 'only %d round keys for %d additions' % (len(rk), n))
                bad = next((i for i, (a, b) in enumerate(zip(rk, ref)) if a != b), None)
                ctx.expect('round keys', 'ROUND_CONSTS_W_%d' % w, bad is None,
                           lambda: 'round constant %d of width %d is not that of the Grain generator of the Poseidon specification' % (bad, w))
                ctx.ok('round keys/compared', len(rk))
                mds = [list(x) for x in v['MDS_matrix']]
                if ctx.expect('shape of the MDS matrix', where_, len(mds) == w and all(len(x) == w for x in mds), 'the matrix is not %d x %d' % (w, w)):
                    bad = next(((i, j) for i in range(w) for j in range(w) if mds[i][j] * (i + j + w) % P != 1), None)
                    ctx.expect('MDS matrix', 'MDS_ENTRIES_W_%d' % w, bad is None, lambda: 'entry %s is not that of the Cauchy matrix 1/(i + j + %d): the matrix need not be MDS' % (bad, w))
        ctx.sample('width %d: %d round constants regenerated' % (w, len(ref)))
        with ctx.guard('too many rounds'):
            st = I.new_state()
            I.call_key(st, W.method(PP, 'new'), [vdg.I(w), vdg.I(4), vdg.I(5), vdg.I(rp)], {})
            ctx.expect('too many rounds', where_, Sample(1).ev(st.cells[PANIC]) is not None, 'more rounds than there are constants for, and no refusal')
    with ctx.guard('unsupported width'):
        for w in (0, 1, 2, 4, 6, 8, 10):
            st = I.new_state()
            I.call_key(st, W.method(PP, 'new'), [vdg.I(w), vdg.I(1), vdg.I(1), vdg.I(1)], {})
            ctx.expect('unsupported width', where_, Sample(1).ev(st.cells[PANIC]) is not None, 'parameters for the unsupported width %d' % w)
    ctx.floor('round keys', 10)
    ctx.floor('MDS matrix', 10)


# ------------------------------------------------------------------------------------ generators
@check('C29', None)
def c29(ctx, W):
    I = W.I
    with ctx.guard('generators'):
        st = I.new_state()
        r = I.call_key(st, W.fn('utils::get_generators'), [sym('prefix', 'str'), sym('n', 'I')], {})
        cs = mine.literals(W) | mine.consts(r, st.cells[PANIC])
        for n in sorted({0, 1, 2, 3, 9, 10, 11, 101, 130, 1025} | set(mine.around(cs, 3, 70000)[-12:])):
            with ctx.guard('generators'):
                seen = {}
                pres = ('g', 'h', 'g1', '', 'Gx', 'Gy', 'generator G', 'generator H') if n < 200 else ('g', 'h', 'generator G')
                for pre in pres:
                    S = Sample(ctx.seed, {'n': n}, {'prefix': pre})
                    pan = S.ev(st.cells[PANIC])
                    if not ctx.expect('generators/no panic', 'get_generators', pan is None, 'panics: %s' % pan):
                        break
                    v = list(S.ev(r))
                    ctx.expect('generators/number', 'get_generators', len(v) == n, '%d generators instead of %d' % (len(v), n))
                    ctx.expect('generators/distinct', 'get_generators', len(set(map(repr, v))) == len(v), 'two of the %d generators are the same point' % n)
                    seen[pre] = v
                    S2 = Sample(ctx.seed, {'n': n + 3}, {'prefix': pre})
                    ctx.expect('generators/prefix-stable', 'get_generators', list(S2.ev(r))[:n] == v, 'the first %d generators depend on how many are asked for' % n)
                names = [x for x in seen if not x[-1:].isdigit() and x]
                vals = {x: set(map(repr, seen[x])) for x in names}
                for a, b in itertools.combinations(names, 2):
                    ctx.expect('generators/independent', 'get_generators', not vals[a] & vals[b],
                               'generators for the prefixes %r and %r coincide' % (a, b))
        with ctx.guard('generators at large indices'):
            el = vdg.get(r, sym('k', 'I'))
            ks = sorted(set(range(12)) | {10 ** e + d for e in range(1, 10) for d in (-1, 0, 1)} | {2 ** e + d for e in (8, 15, 16, 31) for d in (-1, 0, 1)}
                        | set(mine.around(cs, 3, 2 ** 32)[:200]))
            seen = {}
            for pre in ('g', 'h', 'G', 'generator G', 'generator H', ' g', 'a much longer prefix, of more than thirty-two characters, G',
                        'a much longer prefix, of more than thirty-two characters, H'):
                for k in ks:
                    x = repr(hz(Sample(ctx.seed, {'n': ks[-1] + 2, 'k': k}, {'prefix': pre}).ev(el)))
                    ctx.expect('generators at large indices', 'get_generators', x not in seen,
                               lambda: 'generator %d for the prefix %r is generator %d for the prefix %r' % ((k, pre) + seen[x][::-1]))
                    seen.setdefault(x, (pre, k))
    ctx.floor('generators', 20)


# ------------------------------------------------------------------------------------ encodings
SERDE = {'serde_core::ser::Serialize': 'serialize', 'serde_core::de::Deserialize': 'deserialize',
         'serde::ser::Serialize': 'serialize', 'serde::de::Deserialize': 'deserialize'}


def walk(n):
    if isinstance(n, dict):
        yield n
        for v in n.values():
            for x in walk(v):
                yield x
    elif isinstance(n, list):
        for v in n:
            for x in walk(v):
                yield x


def callee(n):
    return (n.get('f') or {}).get('name') if n.get('k') == 'Call' else None


def peel(n):
    while isinstance(n, dict) and n.get('k') in ('Borrow', 'Deref', 'Scope', 'Coerce', 'Use', 'PlaceTypeAscription'):
        n = n['v']
    return n


def encoded_fields(body):
    """[(name, field)] in the order they are written; field None where it is not a plain field of the value"""
    out = []
    for n in walk(body):
        if callee(n) == 'serialize_field':
            name, x = peel(n['args'][1]), peel(n['args'][2])
            out.append((name.get('v') if name.get('t') == 'str' else None, x['i'] if x.get('k') == 'Field' and peel(x['v']).get('k') == 'Var' else None))
    return out


def text_of(p):
    import re
    p = p.get('sub', p)
    m = re.match(r'Branch\(\[(.*)\]\): str', p.get('txt', ''))
    if not m:
        return None
    return bytes(int(x.split('_')[0]) for x in m.group(1).split(',') if x.strip()).decode()


def patvariant(p):
    while p.get('k') in ('Deref',):
        p = p['sub']
    return p.get('vi') if p.get('k') in ('Variant', 'Leaf', 'Adt') else None


def patbinds(p):
    out = []
    for x in walk(p):
        if x.get('k') == 'Bind':
            out.append(x['v'])
    return out


def built(body, adt):
    """field -> variable, of the constructed value"""
    for n in walk(body):
        if n.get('k') == 'Adt' and n.get('p') == adt:
            return {i: peel(x) for i, x in n['fs']}
    return None


def roots(body):
    """variable -> variable it was taken out of by let x = match y { Some(x) => x, .. }"""
    out = {}
    for n in walk(body):
        if n.get('k') == 'L' and n['p'].get('k') == 'Bind' and isinstance(n.get('i'), dict):
            i = peel(n['i'])
            if i.get('k') == 'Match' and peel(i['v']).get('k') == 'Var':
                out[n['p']['v']] = peel(i['v'])['v']
    return out


@check('C28', None)
def c28(ctx, W):
    impls = {}
    for i in W.dump['impls']:
        if i.get('trait') in SERDE:
            t = W.prog.ty(i['self'])
            if t[0] == 'adt':
                impls.setdefault(t[1], {})[SERDE[i['trait']]] = i
    for adt in (PROOF, IPPPROOF):
        nm = adt.split('::')[-1]
        fs = W.fields(adt)
        im = impls.get(adt, {})
        if not ctx.expect('encodable', nm, 'serialize' in im and 'deserialize' in im, 'a proof has no encoding or no decoding'):
            continue
        if not (im['serialize']['derived'] and im['deserialize']['derived']):
            for f in fs:
                ctx.undecided('component encoded', 'hand-written encoding of %s' % nm)
                ctx.undecided('component decoded', 'hand-written encoding of %s' % nm)
            continue
        sbody = W.prog.bodies[im['serialize']['items']['serialize']]['body']
        enc = encoded_fields(sbody)
        some_ = {i for n in walk(sbody) if n.get('k') == 'If' for _, i in encoded_fields({k: n.get(k) for k in ('t', 'e')})}
        for k, f in enumerate(fs):
            ctx.expect('component always encoded', '%s.%s' % (nm, f), k not in some_,
                       'component %s of %s is written under a condition only: where it is left out, decoding does not give it back' % (f, nm))
        names = [n for n, _ in enc]
        for k, f in enumerate(fs):
            w = [n for n, i in enc if i == k]
            if any(i is None for _, i in enc) and not w:
                ctx.undecided('component encoded', 'custom encoding of a field of %s' % nm)
                continue
            ctx.expect('component encoded', '%s.%s' % (nm, f), len(w) == 1, 'component %s of %s is written %d times by its encoding: a proof does not survive encoding and decoding' % (f, nm, len(w)))
        ctx.expect('distinct names', nm, len(set(names)) == len(names), 'two components are written under one name')
        de = [b for b in W.dump['bodies'] if b['key'].startswith(im['deserialize']['items']['deserialize'] + '::')]
        by = {}
        for b in de:
            by.setdefault(b.get('name'), []).append(b)
        with ctx.guard('component decoded'):
            # name -> key variant -> variable -> field, in maps
            vs = by['visit_str'][0]['body']
            key = {}
            for n in walk(vs):
                if n.get('k') == 'Match':
                    for a in n['arms']:
                        s = text_of(a['p'])
                        for x in walk(a['b']):
                            if x.get('k') == 'Adt' and x['p'].endswith('__Field') and s is not None:
                                key[s] = x['vi']
            vm = by['visit_map'][0]['body']
            assign = {}
            for n in walk(vm):
                if n.get('k') == 'Match':
                    for a in n['arms']:
                        v = patvariant(a['p'])
                        tgt = [peel(x['l'])['v'] for x in walk(a['b']) if x.get('k') == 'Assign' and peel(x['l']).get('k') == 'Var']
                        src = [x for x in walk(a['b']) if callee(x) in ('next_value', 'next_value_seed')]
                        if v is not None and len(tgt) == 1 and src:
                            assign[v] = tgt[0]
            root, made = roots(vm), built(vm, adt)
            if made is None or not key or not assign:
                raise Undecided('decoding of %s has an unknown form' % nm)
            for k, f in enumerate(fs):
                w = [n for n, i in enc if i == k]
                src = made.get(k)
                v = src['v'] if src is not None and src.get('k') == 'Var' else None
                v = root.get(v, v)
                got = assign.get(key.get(w[0])) if w else None
                ctx.expect('component decoded', '%s.%s' % (nm, f), got is not None and got == v,
                           'component %s of %s is not decoded from what it was encoded to' % (f, nm))
        with ctx.guard('component decoded in order'):
            vq = by['visit_seq'][0]['body']
            made = built(vq, adt)
            lets = [n['p']['v'] for n in walk(vq) if n.get('k') == 'L' and n['p'].get('k') == 'Bind' and isinstance(n.get('i'), dict)
                    and any(callee(x) in ('next_element', 'next_element_seed') for x in walk(n['i']))]
            order = []
            for v in lets:
                order += [k for k, x in (made or {}).items() if x.get('k') == 'Var' and x['v'] == v]
            if made is None or not lets:
                raise Undecided('decoding of %s has an unknown form' % nm)
            ctx.expect('component decoded in order', nm, order == [i for _, i in enc],
                       'compact encodings of %s are read in another order (%s) than written (%s)' % (nm, [fs[i] for i in order], [fs[i] if i is not None else '?' for _, i in enc]))
        ctx.sample('%s: %s' % (nm, ', '.join('%s=%s' % (n, fs[i] if i is not None else '?') for n, i in enc)))
    ctx.floor('component encoded', 19)
    ctx.floor('component decoded', 19)


# ------------------------------------------------------------------------------------ helper constraints
class Helper(object):
    def __init__(self, name, path, commits, args, cases):
        self.name, self.path, self.commits, self.args, self.cases = name, path, commits, args, cases


def aq(I, st, var, name, prover):
    """an allocated quantity"""
    return struct(AQ, 0, var, some(sym(name, 'F')) if prover else NONE)


def helpers(W, seed):
    fi = {f: i for i, f in enumerate(W.fields(AQ))}

    def q(var, name, prover):
        fs = [None] * len(fi)
        fs[fi['variable']], fs[fi['assignment']] = var, some(sym(name, 'F')) if prover else NONE
        return struct(AQ, 0, *fs)
    x = prf('hx', seed)
    out = [
        Helper('bit', 'bit::bit_gadget', ['v'], lambda pr: lambda I, st, cs, vs: [cs, q(vs[0], 'v', pr)],
               [({'v': 0}, {}, True), ({'v': 1}, {}, True), ({'v': 2}, {}, False), ({'v': P - 1}, {}, False), ({'v': x}, {}, False)]),
        Helper('non-zero', 'non_zero::is_nonzero_gadget', ['v', 'w'], lambda pr: lambda I, st, cs, vs: [cs, vs[0], vs[1]],
               [({'v': 1, 'w': 1}, {}, True), ({'v': x, 'w': pow(x, -1, P)}, {}, True), ({'v': 0, 'w': 0}, {}, False), ({'v': 0, 'w': 1}, {}, False),
                ({'v': x, 'w': x}, {}, False), ({'v': x, 'w': 0}, {}, False)]),
    ]

    def mined(path, lo, hi):
        ks = [b['key'] for b in W.dump['bodies'] if HC + path in b['key']]
        return mine.around(mine.literals(W, ks), lo, hi)[:24]
    for n in sorted({0, 1, 2, 4, 7, 16, 32, 33, 64, 130} | set(mined('positive_no', 5, 250))):
        cs = [({'v': v % P}, {'n': n}, 0 <= v < 2 ** n) for v in sorted({0, 1, 2 ** n - 1, 2 ** n, 2 ** n + 1, -1, 2 ** n // 2, x})]
        out.append(Helper('range of %d bits' % n, 'positive_no::positive_no_gadget', ['v'],
                          lambda pr: lambda I, st, cs, vs: [cs, q(vs[0], 'v', pr), sym('n', 'I')], cs))
    for k in sorted({0, 1, 3, 9, 17, 40} | set(mined('vector_sum', 4, 200))):
        names = ['v%d' % i for i in range(k)]
        vals = [prf('vs', seed, i) if i else 5 for i in range(k)]
        good = 0 if k == 0 else 5 if k == 1 else 77
        if k >= 3:
            vals[-1] = (good - sum(vals[:-1])) % P
        a = dict(zip(names, vals))
        cs = [(a, {'s': good}, True), (a, {'s': good + 1}, False)]
        if k:
            cs.append((dict(a, v0=6), {'s': good}, False))
            cs.append((dict(a, **{names[-1]: (vals[-1] + 1) % P}), {'s': good}, False))
            for t in (2 ** 8 + 3, 2 ** 16 + 3, 2 ** 32 + 3, 2 ** 58 + 3, 2 ** 63, 2 ** 64 - 1):
                av = dict(a, **{names[-1]: (vals[-1] + t - good) % P})
                cs.append((av, {'s': t}, True))
                cs += [(av, {'s': t % 2 ** w}, False) for w in (8, 16, 32, 58, 63) if t % 2 ** w != t]
                cs += [(dict(av, **{names[-1]: (av[names[-1]] - t + t % 2 ** w) % P}), {'s': t}, False) for w in (8, 16, 32, 58, 63) if t % 2 ** w != t]
        out.append(Helper('sum of %d' % k, 'vector_sum::vector_sum_constraints', names, lambda pr: lambda I, st, cs, vs: [cs, lit(*vs), sym('s', 'I')], cs))
    return out, q


def settle(ctx, name, path, W, commits, args, cases, prm=None):
    """cases: (values of the committed wires, parameters, whether they satisfy the relation)"""
    R = Recorder(W)
    fn = HC + path
    runs = {pr: R.call_cs(fn, pr, args(pr), {'CS': ('adt', PROVER if pr else VERIFIER, ())}, commits) for pr in (True, False)}
    for asg, ints, true in cases:
        what = '%s %s' % (', '.join('%s=%d' % (k, x if x < P // 2 else x - P) for k, x in asg.items()), ints or '')
        GSample.W = W
        base = dict(prm[0] if prm else {})
        base.update({k: x for k, x in ints.items()})
        ov = dict(prm[1] if prm else {})
        ov.update(asg)
        ov.update(getattr(ints, 'over', {}))
        if true:
            with ctx.guard(name + '/completeness'):
                log, res, pan = runs[True].at(GSample(ctx.seed, base, ov))
                if pan is not None or not isok(res) or log is None:
                    ctx.violation(name + '/completeness', fn, '%s for %s' % ('panics: %s' % pan if pan else 'fails', what))
                else:
                    sy = System(log)
                    bad = sy.badwire() or (sy.unassigned() and 'unassigned wires') or sy.violated()
                    ctx.expect(name + '/completeness', fn, bad is None, 'satisfying values (%s) violate constraint %s' % (what, bad))
                    lg2, r2, p2 = runs[False].at(GSample(ctx.seed, base, ov))
                    sv = System(lg2) if lg2 is not None else None
                    ctx.expect(name + '/agreement', fn, sv is not None and [norm(c) for c in sv.cons] == [norm(c) for c in sy.cons] and sv.ngates == sy.ngates,
                               'prover and verifier build different constraints (%s)' % what)
        nm = name + ('/acceptance' if true else '/soundness')
        with ctx.guard(nm):
            log, res, pan = runs[False].at(GSample(ctx.seed, base, ov))
            if pan is not None or not isok(res) or log is None:
                ctx.violation(nm, fn, '%s for %s' % ('panics: %s' % pan if pan else 'fails', what))
                continue
            sy = System(log)
            rnd = random.Random(ctx.seed)
            known = {('C', j): asg[c] % P for j, c in enumerate(commits)}
            verdict, w = Solver(sy, lambda: rnd.getrandbits(255), 6000).run(known)
            if verdict == '?':
                ctx.undecided(nm, w)
            else:
                ctx.expect(nm, fn, verdict == ('yes' if true else 'no'),
                           'the constraints are %s by values that do %ssatisfy the relation: %s' % ('satisfied' if verdict == 'yes' else 'excluded', '' if true else 'not ', what))
    ctx.sample(name)


@check('C24', None)
def c24(ctx, W):
    hs, q = helpers(W, ctx.seed)
    jobs = [lambda c, h=h: settle(c, h.name, h.path, W, h.commits, h.args, h.cases) for h in hs]

    def perm(c, w, kind):
        g = WithParams(W)
        g.kind, g.width = kind, w
        m = g.prm(ctx.seed, 1, 1, 1)
        x = [prf('px', i, ctx.seed) for i in range(w)]
        out = permutation(x, m, kind)
        names = ['x%d' % i for i in range(w)]

        class D(dict):
            pass

        def case(o, true):
            d = D()
            d.over = {'out': lambda i: o[i] % P}
            d['#out'] = w
            return (dict(zip(names, x)), d, true)
        bad = [out[:i] + [out[i] + 1] + out[i + 1:] for i in range(w)]
        sw = [out[1], out[0]] + out[2:]
        settle(c, 'Poseidon permutation, width %d, %s S-box' % (w, kind), 'poseidon::Poseidon_permutation_gadget', W, names,
               lambda pr: lambda I, st, cs, vs: [cs, lit(*[q(v, n, pr) for v, n in zip(vs, names)]), g.params(), g.sbox(), W.symseq('out', FE_)],
               [case(out, True)] + [case(b, False) for b in bad] + [case(sw, False)], (g.pints(m), g.pover(m)))
    for w in (9, 5, 3):
        for kind in ('Cube', 'Inverse', 'Quint'):
            jobs.insert(0, lambda c, w=w, kind=kind: perm(c, w, kind))

    def mim(c, n=4):
        rc = [prf('mrc', i) for i in range(n)]
        l, r = prf('ml'), prf('mr')
        t = mimc(l, r, rc)

        class D(dict):
            pass
        cs = []
        for o, true in ((t, True), (t + 1, False), (mimc(r, l, rc), False), (l, False)):
            d = D()
            d.over = {'out': o % P, 'rc': lambda i: rc[i]}
            d['n'] = d['#rc'] = n
            cs.append(({'l': l, 'r': r}, d, true))
        settle(c, 'MiMC', 'mimc::mimc_gadget', W, ['l', 'r'],
               lambda pr: lambda I, st, cs_, vs: [cs_, q(vs[0], 'l', pr), q(vs[1], 'r', pr), sym('n', 'I'), W.symseq('rc', FE_), sym('out', 'F')], cs)
    ks = [b['key'] for b in W.dump['bodies'] if HC + 'mimc' in b['key']]
    jobs += [lambda c, n=n: mim(c, n) for n in sorted({1, 2, 4, 30} | set(mine.around(mine.literals(W, ks), 3, 300)[:20]))]
    ctx.parallel(jobs)
    for h in hs:
        ctx.floor(h.name, 3)
    ctx.floor('MiMC', 4)
    for w in (3, 5, 9):
        ctx.floor('Poseidon permutation, width %d, Quint S-box' % w, 6)

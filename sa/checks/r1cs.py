"""Checks on the R1CS prover and verifier."""
from ..registry import check
from ..core import *
from ..client import *
from ..oracle import *
from ..evalr import H as HASH
from .. import mine
from ..direct import toward, resolve

TRUST = ('value graphs are extracted from the type-checked THIR of the current tree by abstract interpretation (branches '
         'joined, loops summarised as recurrences, calls resolved through the type checker); equalities between graphs are '
         'decided by random interpretation over the scalar field (one-sided error < 2^-240 per comparison); '
         'trusted: the models of std, amcl_wrapper and merlin, and the reference equations in sa/oracle.py')

SHAPES = [
    (0, {}),
    (0, {'V': 1, 'A1': 1, 'C1': 1}),
    (0, {'V': 1, 'S1': 1, 'C1': 1}),
    (0, {'V': 2, 'A1': 1, 'M1': 1, 'C1': 2, 'E1': 2}),
    (0, {'V': 2, 'A1': 2, 'M1': 2, 'S1': 3, 'B1': 1, 'U1': 2, 'C1': 4, 'E1': 3}),
    (0, {'V': 1, 'M1': 3, 'U1': 3, 'C1': 1}),
    (1, {'V': 3, 'A2': 3, 'C2': 2, 'E2': 2}),
    (1, {'V': 1, 'A1': 2, 'C1': 1}),
    (1, {'V': 2, 'A1': 1, 'M1': 2, 'S1': 1, 'C1': 3, 'A2': 1, 'M2': 2, 'S2': 3, 'C2': 2, 'B2': 1, 'E1': 1, 'E2': 2}),
    (1, {'V': 2, 'S1': 3, 'C1': 2, 'S2': 2, 'U2': 3, 'C2': 3}),
    (2, {'V': 1, 'A1': 1, 'C1': 1, 'A2': 2, 'C2': 1}),
    (0, {'V': 1, 'A1': 1, 'C1': 3, 'K': 6}),
    (1, {'V': 1, 'A1': 1, 'C1': 2, 'A2': 1, 'C2': 3, 'K': 6}),
    (3, {'V': 1, 'A1': 1, 'C1': 1, 'S2': 1, 'C2': 1}),
    (2, {'V': 2, 'M1': 3, 'S1': 1, 'C1': 2, 'S2': 1, 'M2': 1, 'B2': 1, 'C2': 2}),
    (0, {'V': 3, 'A1': 1, 'C1': 4, 'D': 1}),
    (1, {'V': 4, 'M1': 1, 'C1': 3, 'A2': 1, 'C2': 3, 'D': 3}),
    (0, {'V': 3, 'A1': 1, 'C1': 4, 'D': 2}),
]


# larger systems, longer linear combinations, special values (zero, one, minus one, repeated ones)
LARGER = [
    (0, {'V': 3, 'A1': 17, 'M1': 3, 'C1': 20, 'T': 9}),
    (0, {'V': 2, 'A1': 63, 'S1': 3, 'C1': 5}),
    (1, {'V': 3, 'A1': 9, 'M1': 2, 'C1': 7, 'A2': 21, 'M2': 2, 'S2': 3, 'C2': 18, 'T': 6}),
    (1, {'V': 40, 'A1': 2, 'C1': 45, 'C2': 3}),
    (0, {'V': 3, 'A1': 3, 'M1': 3, 'S1': 3, 'C1': 5, 'E1': 2, 'Z': 1}),
    (0, {'V': 2, 'M1': 4, 'U1': 2, 'C1': 6, 'E1': 3, 'Z': 2}),
    (1, {'V': 3, 'A1': 2, 'M1': 2, 'S1': 1, 'C1': 3, 'A2': 2, 'M2': 2, 'S2': 3, 'C2': 4, 'E2': 3, 'Z': 3}),
]

HUGE = 70000


def sizes(ctx, W, sides):
    """sizes around the constants of the prover's and the verifier's code"""
    cs = set()
    for ncb in (0, 1):
        p, v = sides.get(ncb)
        cs |= set(c for c in mine.consts(p.result, p.panic, v.result, v.panic, *list(p.outs.values()) + list(v.outs.values())) if c > 40)
    cs |= mine.literals(W)
    return mine.around(cs, 4, HUGE)


def shapes(ctx, n_extra=0, W=None, sides=None, cap=600):
    out = list(SHAPES)
    if ctx.thorough:
        n_extra = max(n_extra, 40)
    for k in range(n_extra):
        h = HASH('shape', ctx.seed, k)
        c = {}
        for j, nm in enumerate(('V', 'A1', 'M1', 'S1', 'B1', 'U1', 'C1', 'E1', 'A2', 'M2', 'S2', 'B2', 'U2', 'C2', 'E2')):
            c[nm] = (h >> (5 * j)) % 4
        if k % 3 == 2:
            c['Z'] = 1 + k
        out.append(((h >> 90) % 3, c))
    if W is not None:
        out += LARGER
        zs = sizes(ctx, W, sides)
        for z in zs:
            if z <= cap:
                out.append((0, {'V': 1, 'A1': z, 'C1': 2}))
                out.append((1, {'V': 1, 'A1': 1, 'A2': z, 'C1': 1, 'C2': 2}))
                out.append((0, {'V': 2, 'M1': z, 'C1': 1}))
                out.append((0, {'V': z, 'A1': 1, 'C1': 4}))
                out.append((0, {'V': 2, 'A1': 2, 'C1': 2, 'T': z}))
                out.append((0, {'V': 1, 'S1': z, 'C1': 2}))
                out.append((1, {'V': 1, 'A1': 2, 'S2': z, 'C2': 2}))
            out.append((0, {'V': 1, 'A1': 2, 'C1': z}))
            if z <= 5000:
                out.append((1, {'V': 1, 'A1': 2, 'C1': 1, 'C2': z}))
    return out


def spots(ctx, n, sizes=(), k=6):
    """positions worth perturbing in a sequence of n"""
    if n <= 8:
        return list(range(n))
    out = {0, 1, n // 2 - 1, n // 2, n - 2, n - 1}
    out |= {x for x in sizes if x < n}
    out |= {HASH('spot', ctx.seed, n, j) % n for j in range(k)}
    return sorted(out)


def label(ncb, c):
    return 'callbacks=%d %s' % (ncb, ' '.join('%s=%d' % kv for kv in sorted(c.items()) if kv[1]))


class Sides(object):
    """prover and verifier graphs, one pair per number of randomising callbacks"""

    def __init__(self, W):
        self.W = W
        self.p, self.v = {}, {}

    def get(self, ncb):
        if ncb not in self.p:
            self.p[ncb] = run_side(self.W, True, ncb)
            self.v[ncb] = run_side(self.W, False, ncb)
        return self.p[ncb], self.v[ncb]


def bindproof(term, val, over, ints):
    if term.op == 'sym':
        over[term.a[0]] = val
    elif term.op == 'struct':
        for x, y in zip(term.a[2:], val.fs):
            bindproof(x, y, over, ints)
    elif term.op == 'comp':
        nm = term.a[2].a[0]
        ints[term.a[1].a[0]] = len(val)
        v = list(val)
        over[nm] = lambda *i: v[i[-1]]
    else:
        raise Undecided('proof field ' + term.op)


class Session(object):
    """prover's graph interpreted at one circuit shape, and the verifier's on the resulting proof"""

    def __init__(self, W, sides, ncb, counts, seed, pover=None):
        self.W, self.ncb, self.counts, self.seed = W, ncb, counts, seed
        self.p, self.v = sides.get(ncb)
        self.R = Ref(W, counts, seed, ncb).run()
        self.ints = self.R.ints()
        self.over = dict(self.R.over)
        self.pover = dict(self.over, **(pover or {}))
        self.S = Sample(seed, self.ints, self.pover)

    def prove(self):
        pan = self.S.ev(self.p.panic)
        if pan is not None:
            return ('panic', pan)
        r = self.S.ev(self.p.result)
        if r.vi != 0:
            return ('err', r.fs[0])
        self.proof = r.fs[0]
        V = self.S.ev(self.p.outs['V'])
        self.V = [x.fs[0] for x in V]
        return ('ok', None)

    def verifier(self, over=None, ints=None, seed=None):
        o = dict(self.over)
        i = dict(self.ints)
        bindproof(self.v.proof, self.proof, o, i)
        V = self.V
        o['V'] = lambda j: V[j]
        o.update(over or {})
        i.update(ints or {})
        self.S2 = Sample(self.seed, i, o, rseed=1)
        return self.S2

    def verify(self, over=None, ints=None):
        S = self.verifier(over, ints)
        pan = S.ev(self.v.panic)
        if pan is not None:
            return ('panic', pan)
        r = S.ev(self.v.result)
        return ('ok', None) if r.vi == 0 else ('err', r.fs[0])


PROVE = 'r1cs::prover::Prover::prove'
VERIFY = 'r1cs::verifier::Verifier::verify'


@check('C01', TRUST)
def c01(ctx, W):
    """prover and verifier transcripts agree"""
    sides = Sides(W)
    for ncb, c in shapes(ctx, 0, W, sides):
        name = 'transcript agreement'
        with ctx.guard(name):
            s = Session(W, sides, ncb, c, ctx.seed)
            r = s.prove()
            if r[0] != 'ok':
                ctx.undecided(name, 'prover: %r' % (r,))
                continue
            S2 = s.verifier()
            a, b = s.S.ev(s.p.transcript), S2.ev(s.v.transcript)
            ctx.sample('%s: %d transcript events' % (label(ncb, c), len(a)))
            if a != b:
                i = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                ev = (a[i:i + 1] or b[i:i + 1])[0]
                ctx.violation(name, '%s vs %s' % (PROVE, VERIFY),
                              'for the circuit shape [%s] event %d of the transcript differs: prover %s, verifier %s'
                              % (label(ncb, c), i, evs(a, i), evs(b, i)))
            else:
                ctx.ok(name)
            with ctx.guard('challenges handed to the randomised phase agree'):
                ctx.expect('challenges handed to the randomised phase agree', 'RandomizedConstraintSystem::challenge_scalar',
                           s.S.ev(s.p.outs['Z']) == S2.ev(s.v.outs['Z']),
                           'a challenge drawn inside a randomisation callback differs between prover and verifier for [%s]'
                           % label(ncb, c))
    ctx.floor('transcript agreement', 10)
    from .ippchk import ipp_transcripts
    ipp_transcripts(ctx, W)


def evs(t, i):
    if i >= len(t):
        return 'none'
    e = t[i]
    return '%s %r %s' % (e[0], e[1] if len(e) > 1 else '', repr(e[2])[:60] if len(e) > 2 else '')


# ------------------------------------------------------------------------------------------------
def fixedchal(seed, rec=None):
    """challenges that depend on their position and label only"""
    def f(tag, lab):
        v = HASH('fixed', seed, len(tag), lab) % P
        if rec is not None:
            rec[len(tag), lab] = v
        return v
    return f


def msgs_of(t):
    return [e for e in t if e[0] == 'app']


def whole(m):
    """is the absorbed message an injective image of one value: all of its bytes, or a literal"""
    if isinstance(m, bytes):
        return True
    if isinstance(m, tuple) and m and m[0] in ('bytes', 'pbytes'):
        return True
    if isinstance(m, tuple) and m and m[0] == '[]':
        xs = m[1:]
        bo = [x for x in xs if isinstance(x, tuple) and x and x[0] == 'byteof']
        for s in set(x[1] for x in bo):
            at = set(x[2] for x in bo if x[1] == s)
            if s[0] == 'bytes' and len(at) != 48:
                return False
            # a point is determined by x and the parity of y
            if s[0] == 'pbytes' and not (set(range(1, 49)) | {96}) <= at:
                return False
    return True


def proof_messages(proof_term):
    """(name, index or None) of every component of a proof"""
    out = []

    def rec(t):
        if t.op == 'sym':
            out.append((t.a[0], None))
        elif t.op == 'struct':
            for x in t.a[2:]:
                rec(x)
        elif t.op == 'comp':
            out.append((t.a[2].a[0], t.a[1].a[0]))
    rec(proof_term)
    return out


def cut(t, k):
    """events before the k-th challenge"""
    n = 0
    for i, e in enumerate(t):
        if e[0] == 'chal':
            if n == k:
                return i
            n += 1
    return None


@check('C02', TRUST)
def c02(ctx, W):
    """Fiat-Shamir: each challenge is bound to everything sent before it"""
    sides = Sides(W)
    # which challenge (counted after the client's own) each message has to precede
    before = {'A_I1': -1, 'A_O1': -1, 'S1': -1, 'V': -1, 'A_I2': 0, 'A_O2': 0, 'S2': 0,
              'T_1': 2, 'T_3': 2, 'T_4': 2, 'T_5': 2, 'T_6': 2, 't_x': 4, 't_x_blinding': 4, 'e_blinding': 4}
    for ncb, c in [s for s in shapes(ctx, 0, W, sides, 40) if s[1].get('A1', 0) + s[1].get('A2', 0) + s[1].get('S1', 0) >= 1]:
        with ctx.guard('messages precede challenges'):
            s = Session(W, sides, ncb, c, ctx.seed)
            if s.prove()[0] != 'ok':
                ctx.undecided('messages precede challenges', 'prover')
                continue
            for who, side, S in (('prover', s.p, s.S), ('verifier', s.v, s.verifier())):
                where = PROVE if who == 'prover' else VERIFY
                t = S.ev(side.transcript)
                for e in t:
                    if e[0] == 'app':
                        ctx.expect('whole encodings are absorbed', where, whole(e[2]),
                                   'the message labelled %r is absorbed only in part: two different values give the same transcript' % (e[1],))
                ncl = ncb     # client challenges come first
                absorbed = {}
                for i, e in enumerate(t):
                    if e[0] == 'app':
                        absorbed.setdefault(repr(val_of(e[2])), i)
                pr = s.proof
                fs = W.fields(PROOF)
                chal_at = [i for i, e in enumerate(t) if e[0] == 'chal']

                def need(name, val, k):
                    idx = ncl + k if k >= 0 else 0
                    if k == -1 and ncl == 0:
                        idx = 0
                    if idx >= len(chal_at):
                        ctx.undecided('messages precede challenges', 'fewer challenges than expected')
                        return
                    # identical values (identities) may be absorbed under another name
                    pos = absorbed.get(repr(val))
                    ctx.expect('messages precede challenges/' + name.split('[')[0], where, pos is not None and pos < chal_at[idx],
                               'for the circuit shape [%s], %s of the %s is %s, so challenge number %d does not depend on it'
                               % (label(ncb, c), name, who, 'never absorbed' if pos is None else 'absorbed only after it', idx))
                for j, V in enumerate(s.V):
                    need('commitment[%d]' % j, V, -1)
                for nm, k in before.items():
                    if nm == 'V' or nm not in fs:
                        continue
                    need(nm, pr.fs[fs.index(nm)], k)
                ipp = pr.fs[fs.index('ipp_proof')]
                ifs = W.fields(IPPPROOF)
                for nm in ('L', 'R'):
                    for j, x in enumerate(ipp.fs[ifs.index(nm)]):
                        need('%s[%d]' % (nm, j), x, 5 + j)
            ctx.sample('%s: %d events' % (label(ncb, c), len(t)))
    # the challenges handed to callbacks are the transcript's own: drawing one changes all that follows
    for ncb in (1, 2, 3):
        c = {'V': 1, 'A1': 1, 'C1': 1, 'A2': 1}
        for who in ('prover', 'verifier'):
            nm = "callbacks are handed the transcript's challenges"
            with ctx.guard(nm):
                rec = {}
                s = Session(W, sides, ncb, c, ctx.seed, {'CHAL': fixedchal(ctx.seed, rec)})
                s.over['CHAL'] = fixedchal(ctx.seed, rec)
                if s.prove()[0] != 'ok':
                    ctx.undecided(nm, 'prover')
                    continue
                rec.clear()
                S, side = (Sample(ctx.seed, s.ints, s.pover), s.p) if who == 'prover' else (s.verifier(), s.v)
                zz = S.ev(side.outs['Z'])
                t = S.ev(side.transcript)
                for j, z in enumerate(zz):
                    at = [k for k, x in rec.items() if x == z]
                    ctx.expect(nm, PROVE if who == 'prover' else VERIFY,
                               len(at) == 1 and at[0][0] < len(t) and t[at[0][0]][0] == 'chal' and t[at[0][0]][1] == at[0][1],
                               'the challenge given to callback %d of the %s does not come from the transcript of the proof: it does not affect later challenges' % (j, who))
    ctx.floor("callbacks are handed the transcript's challenges", 12)
    # a change of any message changes every later challenge of the verifier
    for ncb, c in [(0, {'V': 2, 'A1': 2, 'M1': 1, 'C1': 1}), (1, {'V': 2, 'A1': 1, 'A2': 2, 'C1': 1})]:
        p, v = sides.get(ncb)
        R = Ref(W, c, ctx.seed, ncb).run()
        base_i = dict(R.ints())
        lg = R.pad.bit_length() - 1
        for nm, ln in proof_messages(v.proof):
            if ln:
                base_i[ln] = lg
        rec0 = chal_events(v, Sample(ctx.seed, base_i, R.over))
        tests = [(nm, ln, 1) for nm, ln in proof_messages(v.proof)] + [('V', 'kV', 0)]
        for nm, ln, _ in tests:
            if nm.endswith('.a') or nm.endswith('.b'):
                continue      # the last message: no challenge follows
            for j in range(base_i[ln] if ln else 1):
                o = dict(R.over)
                if ln:
                    o[nm] = (lambda nm, j: lambda *i: (HASH('F', ctx.seed, nm, tuple(i)) + (1 if i[-1] == j else 0)) % P)(nm, j)
                else:
                    o[nm] = HASH('other', nm) % P
                with ctx.guard('challenges change with every message'):
                    rec1 = chal_events(v, Sample(ctx.seed, base_i, o))
                    # the last challenge follows every message
                    ctx.expect('challenges change with every message', VERIFY, rec0[-1] != rec1[-1],
                               'changing %s leaves the last challenge as it was: it is not bound to the message' % nm)
    # statements that must not share transcripts
    with ctx.guard('distinct statements have distinct transcripts'):
        p0, v0 = sides.get(0)
        p1, v1 = sides.get(1)
        c = {'V': 1, 'A1': 1}
        R0, R1 = Ref(W, c, ctx.seed, 0).run(), Ref(W, c, ctx.seed, 1).run()
        i0 = R0.ints()
        for nm, ln in proof_messages(v0.proof):
            if ln:
                i0[ln] = 0
        e0 = [e for e in Sample(ctx.seed, i0, R0.over).ev(v0.transcript) if e[0] == 'app']
        e1 = [e for e in Sample(ctx.seed, i0, R1.over).ev(v1.transcript) if e[0] == 'app']
        ctx.expect('distinct statements have distinct transcripts', 'Verifier::create_randomized_constraints', e0 != e1,
                   'one-phase and two-phase proofs absorb the same messages: nothing separates the two protocols')
        # the number of multipliers reaches the transcript (inner-product domain separator)
        Ra = Ref(W, {'V': 1, 'A1': 2}, ctx.seed, 0).run()
        Rb = Ref(W, {'V': 1, 'A1': 4}, ctx.seed, 0).run()
        ia, ib = Ra.ints(), Rb.ints()
        ta = Sample(ctx.seed, dict(ia, **{ln: 1 for _, ln in proof_messages(v0.proof) if ln}), Ra.over).ev(v0.transcript)
        tb = Sample(ctx.seed, dict(ib, **{ln: 1 for _, ln in proof_messages(v0.proof) if ln}), Rb.over).ev(v0.transcript)
        ctx.expect('number of commitments and vector length are absorbed', VERIFY, lens(ta) >= 1,
                   'no length (number of committed values) is absorbed')
    for ncb, c in [(0, {'V': 1, 'A1': 2, 'M1': 1, 'C1': 1}), (1, {'V': 1, 'A1': 1, 'A2': 2, 'C1': 1, 'C2': 1})]:
        challenge_range(ctx, W, sides, ncb, c)
    ctx.floor('challenges take 128 bits', 10)
    ctx.floor('messages precede challenges', 60)
    ctx.floor('challenges change with every message', 15)
    from .ippchk import ipp_binding
    ipp_binding(ctx, W)


def challenge_range(ctx, W, sides, ncb, c):
    """a challenge takes too many values to be guessed: different squeezed values stay different where they are used"""
    name = 'challenges take 128 bits'
    with ctx.guard(name):
        s = Session(W, sides, ncb, c, ctx.seed, {'CHAL': fixedchal(ctx.seed)})
        s.over['CHAL'] = fixedchal(ctx.seed)
        if s.prove()[0] != 'ok':
            ctx.undecided(name, 'prover')
            return
        S2 = s.verifier()
        n = len([e for e in s.S.ev(s.p.transcript) if e[0] == 'chal'])

        def only(k, x):
            fixed = fixedchal(ctx.seed)
            return lambda tag, lab: x if sum(e[0] == 'chal' for e in tag) == k else fixed(tag, lab)

        def seen(side, S):
            S.eqs = {}
            try:
                if S.ev(side.panic) is not None:
                    return ()
                r = hz(S.ev(side.result))
            except Dead:
                return ()
            return r if side is s.p else tuple(sorted((k[2], v) for k, v in S.eqs.items()))
        for who, where, side, base, rs in (('prover', PROVE, s.p, s.pover, 0), ('verifier', VERIFY, s.v, S2.over, 1)):
            ints = s.ints if side is s.p else S2.ints
            for k in range(n):
                got, small = set(), None
                for i in range(0, 255, 1 if ctx.thorough else 3 if k else 2):
                    S = Sample(ctx.seed, ints, dict(base, CHAL=only(k, 1 << i)), rseed=rs)
                    got.add(seen(side, S))
                    if S.chalb:
                        small = min(S.chalb.values())
                tot = len(range(0, 255, 1 if ctx.thorough else 3 if k else 2))
                ctx.expect(name, where, 2 * len(got) > tot and (small is None or small >= 16),
                           'challenge number %d of the %s takes too few values%s: of %d squeezed values differing in their bits, %d lead to different outcomes'
                           % (k, who, '' if small is None else ' (it is read from %d bytes)' % small, tot, len(got)))


def lens(t):
    return len([e for e in t if e[0] == 'app' and isinstance(e[2], bytes) and len(e[2]) == 8])


def val_of(m):
    if isinstance(m, bytes):
        return int.from_bytes(m, 'big') if len(m) == 48 else m
    if m and m[0] in ('bytes', 'pbytes'):
        return m[1]
    if m and m[0] == '[]':
        for x in m[1:]:
            if isinstance(x, tuple) and x and x[0] == 'byteof':
                return x[1][1]
    return m


def chal_events(v, S):
    """transcript prefixes at which challenges are drawn (the challenge is a function of the prefix)"""
    t = S.ev(v.transcript)
    return [tuple(t[:i]) for i, e in enumerate(t) if e[0] == 'chal']


def refused(ctx, W, api, before, after):
    name = 'refused allocation'
    I = W.I
    F2 = lambda i: some(tup(sym('fl', 'F', vdg.I(i)), sym('fr', 'F', vdg.I(i))))
    F1 = lambda i: some(sym('fs', 'F', vdg.I(i)))
    with ctx.guard(name):
        m = sum(a == 'allocate_multiplier' for a in after)
        gates = min(2, m + (before + len(after) - m + 1) // 2)
        side = Side(W, True)
        st = I.new_state()
        ref = side.setup(st, 0, {k: 0 for k in ('V', 'A1', 'M1', 'S1', 'B1', 'U1', 'C1', 'E1')})
        for i in range(before):
            I.call_key(st, side.key('allocate', 1), [ref, F1(100 + i)], {})
        full = F2(50) if api == 'allocate_multiplier' else F1(50)
        r = I.call_key(st, side.key(api, 1), [ref, ite(ieq(sym('refuse', 'I'), ONE), NONE, full)], {})
        I.settle(st, r)
        rs = [I.call_key(st, side.key(a, 1), [ref, (F2 if a == 'allocate_multiplier' else F1)(i)], {}) for i, a in enumerate(after)]
        me = I.read(st, side.cell.root, ())
        n = must(W, I, st, W.method(PROVER, 'num_multipliers'), [me])
        lv = lit(*[tup(struct(VAR, W.variant(VAR, k), vdg.I(i)), sym('w', 'F', vdg.I(i), vdg.I(j)))
                   for i in range(gates) for j, k in enumerate(('MultiplierLeft', 'MultiplierRight', 'MultiplierOutput'))])
        val = must(W, I, st, side.key('evaluate_lc', 1), [ref, struct(LC, 0, lv)])
        S = Sample(ctx.seed, {'refuse': 1})
        if S.ev(r).vi != 1:
            ctx.undecided(name, 'not refused')
            return
        got = [hz(S.ev(x)) for x in rs], S.ev(n), hz(S.ev(val))
        # the same calls without the refused one
        side = Side(W, True)
        st = I.new_state()
        ref = side.setup(st, 0, {k: 0 for k in ('V', 'A1', 'M1', 'S1', 'B1', 'U1', 'C1', 'E1')})
        for i in range(before):
            I.call_key(st, side.key('allocate', 1), [ref, F1(100 + i)], {})
        rs = [I.call_key(st, side.key(a, 1), [ref, (F2 if a == 'allocate_multiplier' else F1)(i)], {}) for i, a in enumerate(after)]
        me = I.read(st, side.cell.root, ())
        n = must(W, I, st, W.method(PROVER, 'num_multipliers'), [me])
        val = must(W, I, st, side.key('evaluate_lc', 1), [ref, struct(LC, 0, lv)])
        exp = [hz(S.ev(x)) for x in rs], S.ev(n), hz(S.ev(val))
        ctx.expect(name, 'Prover::' + api, got == exp,
                   'after a refused %s (with %d single allocation(s) before it) the calls %s return %s; without the refused call %s'
                   % (api, before, ', '.join(after), got, exp))


# ------------------------------------------------------------------------------------------------
@check('C03', TRUST)
def c03(ctx, W):
    """the verifier accepts exactly the proofs that satisfy the verification equation"""
    sides = Sides(W)
    zs = sizes(ctx, W, sides)
    singles = [(ncb, {'V': 1, 'A1': 1, 'C1': 2, 'A2': ncb, 'C2': ncb, 'K': k}) for k in range(1, 7) for ncb in (0, 1)]
    ctx.parallel([lambda k, x=x: acceptance(k, W, sides, zs, *x) for x in shapes(ctx, 0, W, sides) + singles])
    ctx.floor('acceptance/valid proofs', 10)
    ctx.floor('acceptance', 200)


def fraction(q):
    """q as a fraction of two numbers about as small as possible"""
    r0, r1, s0, s1 = P, q, 0, 1
    while r1 * r1 > P:
        k = r0 // r1
        r0, r1, s0, s1 = r1, r0 - k * r1, s1, s0 - k * s1
    return r1, s1


def acceptance(ctx, W, sides, zs, ncb, c, dropped=False):
    if True:
        p, v = sides.get(ncb)
        seed = ctx.seed + 17
        R = Ref(W, c, seed, ncb).run()
        name = 'acceptance' if not dropped else 'no constraint dropped'
        with ctx.guard(name):
            lg = R.pad.bit_length() - 1
            ints = R.ints()
            msgs = proof_messages(v.proof)
            for nm, ln in msgs:
                if ln:
                    ints[ln] = lg
            rec = {}
            over = dict(R.over, CHAL=fixedchal(seed, rec))
            S = Sample(seed, ints, over)
            S.ev(v.result)
            t = S.ev(v.transcript)
            for z in [S.ev(v.outs['Z'])]:
                if z:
                    R.randomised(z)
            chals = [(i, e) for i, e in enumerate(t) if e[0] == 'chal']
            vals = [rec.get((i, e[1])) for i, e in chals][ncb:]
            labs = [e[1] for i, e in chals][ncb:]
            if len(vals) < 5 + lg:
                ctx.violation(name, VERIFY, 'the verifier draws only %d challenges; y, z, u, x, w and %d for the inner product are needed' % (len(vals), lg))
                return
            if any(x is None for x in vals):
                # a challenge nobody uses: give it its value all the same
                vals = [HASH('fixed', seed, i, e[1]) % P for i, e in chals][ncb:]
            # y, z, u, x may be drawn in another order within their group
            by = dict(zip([l for l in labs[:5]], vals[:5]))
            if all(k in by for k in (b'y', b'z', b'u', b'x', b'w')):
                ch = {k: by[k.encode()] for k in 'yzuxw'}
            else:
                ch = dict(zip('yzuxw', vals[:5]))
            ch['ipp'] = vals[5:5 + lg]

            def get(nm, *ix):
                return S.symbol(nm, 'F', ix)
            pr = {}
            for nm, ln in msgs:
                k = nm.split('.')[-1]
                pr[k] = [get(nm, j) for j in range(ints[ln])] if ln else get(nm)
            G = [get('G', i) for i in range(R.pad)]
            Hh = [get('H', i) for i in range(R.pad)]
            V = [get('V', j) for j in range(len(R.v))]
            g, h = get('g'), get('h')

            def solved(dP=0, dt=0, R=R, **chg):
                """components that leave residuals (dP, dt)"""
                q = dict(pr, **chg)
                q['A_I1'] = q['T_1'] = 0
                EP, Et = residuals(R, ch, q, V, g, h, G, Hh)
                xi = pow(ch['x'], P - 2, P)
                return {'proof.A_I1': (dP - EP) * xi % P, 'proof.T_1': (dt - Et) * xi % P}

            def accept(o, over2=None):
                oo = dict(over)
                oo.update({'proof.A_I1': o['proof.A_I1'], 'proof.T_1': o['proof.T_1']})
                oo.update(over2 or {})
                S2 = Sample(seed, ints, oo)
                pan = S2.ev(v.panic)
                if pan is not None:
                    return 'panic'
                return S2.ev(v.result).vi == 0
            if dropped:
                # proofs for the same system without one of its constraints
                full = R.cons
                wf = weights(R, ch['z'])
                for q in spots(ctx, len(full), zs, 4):
                    for how in ('left out', 'skipped'):
                        R.cons = full[:q] + ([[]] if how == 'left out' else []) + full[q + 1:]
                        if weights(R, ch['z']) == wf:
                            continue
                        ctx.expect(name, VERIFY, accept(solved()) is not True,
                                   'a proof for the system with constraint %d of %d %s is accepted: the constraint is not enforced (circuit shape [%s])'
                                   % (q, len(full), how, label(ncb, c)))
                # ... or without a term of one
                for q in spots(ctx, len(full), zs, 4):
                    k = len(full[q])
                    for i in range(k) if k <= 6 else spots(ctx, k, zs, 4):
                        rest = full[q][:i] + full[q][i + 1:]
                        same = [x for x in full[q] if x[0] == full[q][i][0]]
                        for cut in [rest] + ([[x for x in full[q] if x[0] != full[q][i][0]] + [full[q][i]]] if len(same) > 2 else []):
                            R.cons = full[:q] + [cut] + full[q + 1:]
                            if weights(R, ch['z']) == wf:
                                continue
                            ctx.expect('no term dropped', VERIFY, accept(solved()) is not True,
                                       'a proof for the system without term %d of constraint %d is accepted: the term is not enforced (circuit shape [%s])'
                                       % (i, q, label(ncb, c)))
                R.cons = full
                return
            good = solved()
            r = accept(good)
            ctx.expect(name + '/valid proofs', VERIFY, r is True,
                       'a proof satisfying both verification equations is %s for the circuit shape [%s]'
                       % ('rejected' if r is False else 'met with a panic', label(ncb, c)))
            ctx.sample('%s: acceptance set compared at a solution of both equations and at its perturbations' % label(ncb, c))

            def reject(what, r):
                ctx.expect(name + '/' + what.split('[')[0], VERIFY, r is not True,
                           'the verifier accepts with %s altered (circuit shape [%s]): the verification equation does not hold'
                           % (what, label(ncb, c)))
            for nm, ln in msgs:
                if nm == 'proof.A_I1' or nm == 'proof.T_1':
                    reject(nm.split('.')[-1], accept(dict(good, **{nm: (good[nm] + 1) % P})))
                    continue
                if ln:
                    for j in spots(ctx, ints[ln], zs):
                        f = (lambda nm, j: lambda *i: (get(nm, *i) + (1 if i[-1] == j else 0)) % P)(nm, j)
                        reject('%s[%d]' % (nm.split('.')[-1], j), accept(good, {nm: f}))
                else:
                    reject(nm.split('.')[-1], accept(good, {nm: (get(nm) + 1) % P}))
            wV = weights(R, ch['z'])[3]
            for j in spots(ctx, len(V), zs):
                if wV[j] == 0:
                    continue        # the commitment occurs in no constraint
                f = (lambda j: lambda i: (get('V', i) + (1 if i == j else 0)) % P)(j)
                reject('commitment[%d]' % j, accept(good, {'V': f}))
            for nm in ('G', 'H'):
                for j in spots(ctx, R.pad, zs):
                    f = (lambda nm, j: lambda i: (get(nm, i) + (1 if i == j else 0)) % P)(nm, j)
                    reject('generator %s[%d]' % (nm, j), accept(good, {nm: f}))
            # both equations, not a combination of them that the prover can foresee: whatever value is tested
            # against the identity, it may not vanish on residuals chosen before the coefficient is known
            def tested(dP, dt, rs=0):
                S2 = Sample(seed, ints, dict(over, **solved(dP, dt)), rseed=rs)
                S2.eqs = {}
                S2.ev(v.result)
                return S2.eqs
            t00, t10, t01 = tested(0, 0), tested(1, 0), tested(0, 1)
            # ... nor be one of few
            u10, u01 = tested(1, 0, 1), tested(0, 1, 1)
            for k in t00:
                if t00[k] == 0 and all(k in q and q[k] for q in (t10, t01, u10, u01)):
                    a, b = fraction(t01[k] * u10[k] * pow(t10[k] * u01[k], -1, P) % P)
                    ctx.expect(name + '/both equations', VERIFY, (a, b) in ((1, 1), (-1, 1)) or max(abs(a), abs(b)) >> 60,
                               'the two equations are combined with a coefficient that takes few values: a prover can foresee it by chance')
            # challenges that follow every component of the proof are as good as fresh coins
            absorbed = {}
            for i, e in enumerate(t):
                if e[0] == 'app':
                    absorbed.setdefault(repr(val_of(e[2])), i)
            allc = []
            for nm, ln in msgs:
                allc += [get(nm, j) for j in range(ints[ln])] if ln else [get(nm)]
            after = max(absorbed.get(repr(x), 10 ** 9) for x in allc)

            def late(tag, lab):
                if len(tag) > after:
                    return HASH('fresh', seed, len(tag), lab) % P
                return over['CHAL'](tag, lab)
            d = HASH('delta', seed) % P
            atk = [(1, P - 1), (1, 1)]
            for k in t00:
                if k in t10 and k in t01 and t00[k] == 0 and t10[k] and t01[k]:
                    atk.append((P - t01[k] * pow(t10[k], -1, P) % P, 1))
            for aP, at in atk:
                o = solved(dP=aP * d % P, dt=at * d % P)
                S2 = Sample(seed, ints, dict(over, CHAL=late, **o), rseed=77)
                reject('both equations[a combination whose coefficient is known beforehand]', S2.ev(v.panic) is None and S2.ev(v.result).vi == 0)
            reject('only the first equation', accept(solved(dt=5)))
            reject('only the second equation', accept(solved(dP=5)))
            # where something the verifier compares happens to be equal
            def at(o, dP, dt):
                q = resolve(o, get)
                T = Sample(seed, ints, dict(over, **q))
                gt = lambda nm, *ix: T.symbol(nm, 'F', ix)
                pr2 = {}
                for nm, ln in msgs:
                    pr2[nm.split('.')[-1]] = [gt(nm, j) for j in range(ints[ln])] if ln else gt(nm)
                pr2['A_I1'] = pr2['T_1'] = 0
                EP, Et = residuals(R, ch, pr2, [gt('V', j) for j in range(len(V))], gt('g'), gt('h'),
                                   [gt('G', i) for i in range(R.pad)], [gt('H', i) for i in range(R.pad)])
                xi = pow(ch['x'], P - 2, P)
                return dict(q, **{'proof.A_I1': (dP - EP) * xi % P, 'proof.T_1': (dt - Et) * xi % P})

            def probe(o, *d):
                S2 = Sample(seed, ints, dict(over, **at(o, *d)))
                S2.eqs = {}
                S2.ev(v.result)
                return S2.eqs
            if R.pad <= 4:
                cands = []
                for nm, ln in msgs:
                    if nm not in ('proof.A_I1', 'proof.T_1'):
                        cands += [(nm, nm, (j,), get(nm, j)) for j in sorted({0, ints[ln] - 1}) if j >= 0] if ln else [(nm, nm, (), get(nm))]
                cands += [('a commitment', 'V', (j,), V[j]) for j in sorted({0, len(V) - 1}) if V]
                cands += [('g', 'g', (), g), ('h', 'h', (), h), ('a generator', 'G', (0,), G[0])]
                todo = [(lab, o) for d in ((0, 0), (5, 7)) for lab, o, k in toward(lambda o: probe(o, *d), cands)]
                todo = [('%s such that what the verifier compares is equal' % l, o) for l, o in todo]
                todo += [('%s zero' % nm, {nm: 0} if not ln else {nm: (lambda *i: 0)}) for nm, ln in msgs if nm not in ('proof.A_I1', 'proof.T_1')]
                todo += [('all scalars zero', {nm: 0 for nm, ln in msgs if nm.split('.')[-1] in ('t_x', 't_x_blinding', 'e_blinding', 'a', 'b')})]
                for lab, o in todo:
                    for d in ((0, 0), (5, 0), (0, 5)):
                        S2 = Sample(seed, ints, dict(over, **at(o, *d)))
                        r = S2.ev(v.panic) is None and S2.ev(v.result).vi == 0
                        ctx.expect(name + '/special proofs', VERIFY, r == (d == (0, 0)),
                                   'a proof %s the verification equations is %s with %s (circuit shape [%s])'
                                   % ('satisfying' if d == (0, 0) else 'not satisfying', 'accepted' if r else 'rejected', lab, label(ncb, c)))


# ------------------------------------------------------------------------------------------------
@check('C04', TRUST)
def c04(ctx, W):
    """honest proofs verify"""
    sides = Sides(W)
    for ncb, c in shapes(ctx, 6, W, sides):
        for extra in (0, 3):
            name = 'honest proof accepted'
            c2 = dict(c)
            R = Ref(W, c, ctx.seed, ncb).run()
            c2['G'] = c2['H'] = R.pad + extra
            with ctx.guard(name):
                s = Session(W, sides, ncb, c2, ctx.seed)
                r = s.prove()
                if not ctx.expect('prover completes', PROVE, r[0] == 'ok', lambda: 'proving a satisfied circuit of shape [%s] %s (%s)' % (
                        label(ncb, c), {'panic': 'panics', 'err': 'fails'}[r[0]], r[1])):
                    continue
                r = s.verify()
                ctx.expect(name, VERIFY, r[0] == 'ok', lambda: 'the proof an honest prover makes for a satisfied circuit of shape [%s] is %s (%s)' % (
                    label(ncb, c), {'panic': 'met with a panic', 'err': 'rejected'}[r[0]], r[1]))
                ctx.sample('%s: n1=%d n2=%d padded=%d' % (label(ncb, c), s.R.n1, s.R.n2, s.R.pad))
    ctx.floor('honest proof accepted', 12)


# ------------------------------------------------------------------------------------------------
@check('C05', TRUST)
def c05(ctx, W):
    """every constraint and every gate is enforced"""
    sides = Sides(W)
    zs = sizes(ctx, W, sides)
    todo = shapes(ctx, 0, W, sides, 200)
    singles = [(ncb, {'V': 1, 'A1': 1, 'M1': 1, 'C1': 2, 'A2': ncb, 'C2': ncb, 'K': k}) for k in range(1, 6) for ncb in (0, 1)]
    ctx.parallel([lambda k, x=x: enforced(k, W, sides, zs, *x) for x in todo] +
                 [lambda k, x=x: acceptance(k, W, sides, zs, *x, dropped=True) for x in todo + singles])
    ctx.floor('no constraint dropped', 100)
    ctx.floor('no term dropped', 100)
    ctx.floor('constraint enforced', 12)
    ctx.floor('constraint of a callback enforced', 8)
    ctx.floor('constraint enforced jointly', 12)
    ctx.floor('coefficient enforced', 40)


def enforced(ctx, W, sides, zs, ncb, c):
    base = Session(W, sides, ncb, c, ctx.seed)
    name = 'constraint enforced'
    with ctx.guard(name):
        if base.prove()[0] != 'ok' or base.verify()[0] != 'ok':
            ctx.undecided(name, 'no accepted honest proof to start from')
            return
        # 1. both sides use the same statement, some constraints of which are not satisfied
        lcs = [k for k in base.R.lcs if k[0][:2] == 'cc' and base.R.lcs[k]]
        lcs = [lcs[i] for i in spots(ctx, len(lcs), zs, 2 if len(lcs) > 500 else 6)]

        def attempt(name, off, what):
            """off: {(constraint): offset of its constant term}"""
            def coef(nm):
                def f(*i):
                    x = base.R.lcs[nm, i[:-1]][i[-1]][1]
                    d = off.get((nm, i[:-1]))
                    return (x + d) % P if d is not None and i[-1] == len(base.R.lcs[nm, i[:-1]]) - 1 else x
                return f
            o = {nm + '.c': coef(nm) for nm in set(k[0] for k in off)}
            s = Session(W, sides, ncb, c, ctx.seed, o)
            s.over.update(o)
            with ctx.guard(name):
                r = s.prove()
                if r[0] != 'ok':
                    ctx.ok(name)
                    return
                r = s.verify()
                ctx.expect(name, VERIFY, r[0] != 'ok', what)
        for nm, ix in lcs:
            attempt(name, {(nm, ix): 1},
                    'constraint %d of phase %s is not satisfied by the prover\'s assignment, yet its proof is accepted (shape [%s])'
                    % (ix[0], nm[-1], label(ncb, c)))
        # the constraints that callbacks impose with their challenges
        for cb in range(ncb):
            o = {'rzx': lambda c, cb=cb: (base.R.val(base.R.rz[c]) + (c == cb)) % P} if cb else {'rz.val': (base.R.val(base.R.rz[0]) + 1) % P}
            s = Session(W, sides, ncb, c, ctx.seed, o)
            s.over.update(o)
            with ctx.guard('constraint of a callback enforced'):
                r = s.prove()
                r = s.verify() if r[0] == 'ok' else r
                ctx.expect('constraint of a callback enforced', VERIFY, r[0] != 'ok',
                           'the constraint imposed by callback %d is not satisfied, yet the proof is accepted (shape [%s])' % (cb, label(ncb, c)))
        pairs = [(a, b) for i, a in enumerate(lcs) for b in lcs[:i]]
        if len(pairs) > 30:
            pairs = [pairs[i] for i in spots(ctx, len(pairs), (), 20)]
        if len(base.R.cons) > 500:
            pairs = pairs[:6]
        for a, b in pairs:
            for d in (P - 1, 1) if len(pairs) < 10 else (P - 1,):
                attempt('constraint enforced jointly', {a: 1, b: d},
                        'constraints %d of phase %s and %d of phase %s are both violated, with residuals that cancel, and the proof is accepted (shape [%s])'
                        % (a[1][0], a[0][-1], b[1][0], b[0][-1], label(ncb, c)))
        if len(base.R.cons) > 500:
            return
        # 2. the verifier's statement differs in one coefficient or one variable
        slots = [(k, t) for k, lc in base.R.lcs.items() if k[0][:2] != 'ee' for t in range(len(lc))]
        for i in spots(ctx, len(slots), zs, 8) if len(slots) > 40 else range(len(slots)):
            (nm, ix), t = slots[i]
            v, cf = base.R.lcs[nm, ix][t]
            if base.R.val(v) != 0:
                def coef(*i, nm=nm, ix=ix, t=t):
                    x = base.R.lcs[nm, i[:-1]][i[-1]][1]
                    return (x + 1) % P if (i[:-1] == ix and i[-1] == t) else x
                with ctx.guard('coefficient enforced'):
                    r = base.verify({nm + '.c': coef})
                    ctx.expect('coefficient enforced', VERIFY, r[0] != 'ok',
                               'a proof is accepted for a statement with another coefficient in %s %d, term %d (%s) (shape [%s])'
                               % (KIND[nm[:2]], ix[0], t, v, label(ncb, c)))
            other = (ONEV, 0) if v != (ONEV, 0) else None
            if other and base.R.val(v) != 1 and cf % P:
                def vv(*i, nm=nm, ix=ix, t=t, other=other):
                    return base.R.sv(other if (i[:-1] == ix and i[-1] == t) else base.R.lcs[nm, i[:-1]][i[-1]][0])
                with ctx.guard('variable enforced'):
                    r = base.verify({nm + '.v': vv})
                    ctx.expect('variable enforced', VERIFY, r[0] != 'ok',
                               'a proof is accepted for a statement with another variable in %s %d, term %d (shape [%s])'
                               % (KIND[nm[:2]], ix[0], t, label(ncb, c)))
        # 3. the committed values
        used = sorted(set(i for lc in base.R.cons for (k, i), x in lc if k == COMM and x % P))
        # a commitment whose terms cancel, in every constraint, is not constrained
        used = [j for j in used if any(sum(x for (k, i), x in lc if (k, i) == (COMM, j)) % P for lc in base.R.cons)]
        for j in [used[i] for i in spots(ctx, len(used), zs)]:
            V = base.V
            with ctx.guard('commitment enforced'):
                r = base.verify({'V': lambda i, j=j: (V[i] + (1 if i == j else 0)) % P})
                ctx.expect('commitment enforced', VERIFY, r[0] != 'ok',
                           'a proof is accepted against another commitment %d (shape [%s])' % (j, label(ncb, c)))
        ctx.sample('%s: %d constraints' % (label(ncb, c), len(base.R.cons)))


KIND = {'ml': 'the left input of product', 'mr': 'the right input of product', 'nl': 'the left input of product',
        'nr': 'the right input of product', 'cc': 'constraint'}


# ------------------------------------------------------------------------------------------------
def var_of(R, v):
    for k, i in R.vi.items():
        if i == v.vi:
            return (k, v.fs[0] if v.fs else 0)


def samecomms(c):
    """equal commitments, where the openings are"""
    if not c.get('D'):
        return {}
    fresh = Sample(5)
    return {'V': lambda j: fresh.symbol('V', 'F', (j if c['D'] == 2 and j % 2 else 0,))}


@check('C06', TRUST)
def c06(ctx, W):
    """variable allocation"""
    sides = Sides(W)
    longer = [(ncb, {'V': 2, 'A1': 2, 'E1': 1, 'E2': ncb, 'T': z}) for z in sizes(ctx, W, sides) if z > 600 for ncb in (0, 1)]
    for ncb, c in shapes(ctx, 10, W, sides) + longer:
        R = Ref(W, c, ctx.seed, ncb).run()
        s = Session(W, sides, ncb, c, ctx.seed)
        for who, side, S in (('Prover', s.p, s.S), ('Verifier', s.v, Sample(ctx.seed, dict(s.ints, **{
                ln: R.pad.bit_length() - 1 for _, ln in proof_messages(s.v.proof) if ln}), dict(s.over, **samecomms(c))))):
            for k in ('V', 'A1', 'M1', 'S1', 'B1', 'U1', 'A2', 'M2', 'S2', 'B2', 'U2'):
                if k.endswith('2') and not ncb:
                    continue
                api = {'V': 'commit', 'A': 'allocate_multiplier', 'M': 'multiply', 'S': 'allocate', 'B': 'multiply',
                       'U': 'allocate_single'}[k[0]]
                adt = who if not k.endswith('2') else 'Randomizing' + who
                name = 'allocation/' + api
                with ctx.guard(name):
                    got = S.ev(side.outs[k])
                    exp = R.ret[k]
                    if len(got) != len(exp):
                        ctx.undecided(name, 'length')
                        continue
                    for j, (g, e) in enumerate(zip(got, exp)):
                        if k == 'V':
                            v = var_of(R, g.fs[1]) if who == 'Prover' else var_of(R, g)
                        elif k[0] == 'S':
                            v = var_of(R, g.fs[0]) if g.vi == 0 else 'an error'
                        elif k[0] == 'A':
                            v = tuple(var_of(R, x) for x in g.fs[0].fs) if g.vi == 0 else 'an error'
                        elif k[0] == 'U':
                            v = 'an error' if g.vi else (var_of(R, g.fs[0].fs[0]),
                                                         var_of(R, g.fs[0].fs[1].fs[0]) if g.fs[0].fs[1].vi == 1 else None)
                        else:
                            v = tuple(var_of(R, x) for x in g.fs)
                        ctx.expect(name, '%s::%s' % (adt, api), v == e,
                                   'call %d of %s in shape [%s] returns %s, but the variables it denotes are %s'
                                   % (j, api, label(ncb, c), v, e))
            for k in ('E1', 'E2'):
                if k == 'E2' and not ncb:
                    continue
                adt = who if k == 'E1' else 'Randomizing' + who
                with ctx.guard('evaluate_lc'):
                    got = S.ev(side.outs[k])
                    for j, (g, e) in enumerate(zip(got, R.ret[k])):
                        good = (g.vi == 1 and g.fs[0] == e) if who == 'Prover' else g.vi == 0
                        ctx.expect('evaluate_lc', '%s::evaluate_lc' % adt, good,
                                   'evaluating a linear combination in shape [%s] does not give its value under the assignment' % label(ncb, c))
        with ctx.guard('counts'):
            n1c = len([1 for x in R.cons]) if not ncb else None
            for nm, t in s.p.counted.items():
                got = s.S.ev(t)
                R1 = Ref(W, {k: x for k, x in c.items() if not k.endswith('2')}, ctx.seed, 0).run()
                exp = len(R1.cons) if nm == 'num_constraints' else R1.n
                ctx.expect('counts', 'Prover::' + nm, got == exp, '%s is %s for shape [%s], expected %s' % (nm, got, label(ncb, c), exp))
        ctx.sample(label(ncb, c))
    # a prover without an assignment must say so
    I = W.I
    for adt, ph in ((PROVER, 1),):
        for api in ('allocate', 'allocate_multiplier', 'allocate_single'):
            with ctx.guard('missing assignment'):
                side = Side(W, True)
                st = I.new_state()
                ref = side.setup(st, 0, {k: 0 for k in ('V', 'A1', 'M1', 'S1', 'B1', 'U1', 'C1', 'E1')})
                r = I.call_key(st, side.key(api, 1), [ref, NONE], {})
                v = Sample(1).ev(r)
                ctx.expect('missing assignment', 'Prover::' + api, v.vi == 1 and v.fs[0].vi == W.variant(ERR, 'MissingAssignment'),
                           'the prover accepts a variable without an assignment')
    # ... and carry on as if it had not been asked
    for api in ('allocate', 'allocate_multiplier', 'allocate_single'):
        for before in (0, 1, 2):
            for after in (('allocate', 'allocate'), ('allocate_single', 'allocate', 'allocate_multiplier'), ('allocate_multiplier', 'allocate')):
                refused(ctx, W, api, before, after)
    ctx.floor('refused allocation', 20)
    ctx.floor('allocation', 60)
    ctx.floor('evaluate_lc', 8)
    ctx.floor('missing assignment', 3)


# ------------------------------------------------------------------------------------------------
def rank(rows):
    rows = [list(r) for r in rows]
    rk = 0
    ncol = len(rows[0]) if rows else 0
    for col in range(ncol):
        piv = next((i for i in range(rk, len(rows)) if rows[i][col] % P), None)
        if piv is None:
            continue
        rows[rk], rows[piv] = rows[piv], rows[rk]
        inv = pow(rows[rk][col], P - 2, P)
        rows[rk] = [x * inv % P for x in rows[rk]]
        for i in range(len(rows)):
            if i != rk and rows[i][col]:
                f = rows[i][col]
                rows[i] = [(x - f * y) % P for x, y in zip(rows[i], rows[rk])]
        rk += 1
    return rk


@check('C08', TRUST)
def c08(ctx, W):
    """every commitment in a proof is blinded by its own fresh randomness"""
    sides = Sides(W)
    zs = sizes(ctx, W, sides)
    todo = list(SHAPES if not ctx.thorough else shapes(ctx)) + LARGER
    for z in zs:
        if z <= 70:
            todo += [(0, {'V': 1, 'A1': z, 'C1': 2}), (1, {'V': 1, 'A1': 1, 'A2': z, 'C2': 2})]
        if z <= 600:
            todo += [(0, {'V': z, 'A1': 1, 'C1': 4}), (0, {'V': 1, 'A1': 1, 'C1': z})]
    ctx.parallel([lambda k, x=x: blindings(k, W, sides, zs, *x) for x in todo])
    ctx.floor('blinding/independence', 6)
    ctx.floor('blinding/own randomness', 60)


def blindings(ctx, W, sides, zs, ncb, c):
    fs = W.fields(PROOF)
    if True:
        R = Ref(W, c, ctx.seed, ncb).run()
        p, v = sides.get(ncb)
        name = 'blinding'
        with ctx.guard(name):
            seen = {}

            def run(bump, basis, h):
                def rnd(k, ix):
                    seen[k, ix] = 1
                    return (HASH('r', k, ix) + (bump[1] * HASH('dir', bump[0], k, ix) if bump is not None else 0)) % P
                o = dict(R.over, CHAL=fixedchal(ctx.seed), RAND=rnd, g=0, h=h)
                o['G'] = lambda i: 1 if basis == ('G', i) else 0
                o['H'] = lambda i: 1 if basis == ('H', i) else 0
                S = Sample(ctx.seed, R.ints(), o)
                r = S.ev(p.result)
                if r.vi:
                    raise Undecided('prover error')
                return r.fs[0]
            base = run(None, None, 1)
            run(None, ('G', 0), 0)
            coins = sorted(seen, key=repr)
            pts = [x for x in PROOFPTS if x in fs]
            has2 = R.n2 > 0
            rows = []
            names = []
            obs = []          # (name, basis, h, field)
            for x in pts:
                if x in ('A_I2', 'A_O2', 'S2') and not has2:
                    continue
                obs.append((x, None, 1, x))
            pick = range(R.n) if R.n <= 10 else sorted({0, R.n1 - 1, R.n1, R.n - 1} & set(range(R.n)) | {z for z in zs if z < R.n and R.n < 40} | {HASH('m', R.n, c_) % R.n for c_ in range(3)})
            for i in pick:
                sname = 'S1' if i < R.n1 else 'S2'
                obs.append(('mask of the left wire %d' % i, ('G', i), 0, sname))
                obs.append(('mask of the right wire %d' % i, ('H', i), 0, sname))
            cache = {}

            def val(bump, o):
                key = (bump, o[1], o[2])
                if key not in cache:
                    cache[key] = run(bump, o[1], o[2])
                return cache[key].fs[fs.index(o[3])]
            cols = []
            for o in obs:
                # derivatives along random directions in the space of coins (exact up to degree two: a square of a
                # random value used elsewhere is not a random value of its own)
                rows.append([(val((k, 1), o) - val((k, -1), o)) % P for k in range(len(obs) + 1)])
                names.append(o[0])
            for nm, r in zip(names, rows):
                ctx.expect(name + '/own randomness', PROVE, any(r),
                           'for shape [%s], %s does not depend on any random value the prover draws' % (label(ncb, c), nm))
            rk = rank(rows)
            ctx.expect(name + '/independence', PROVE, rk == len(rows),
                       'for shape [%s], the %d blinded quantities of a proof (%s) are driven by only %d independent random values: some randomness is reused or missing'
                       % (label(ncb, c), len(rows), ', '.join(names), rk))
            ctx.sample('%s: %d random values, %d blinded quantities, rank %d' % (label(ncb, c), len(coins), len(rows), rk))


# ------------------------------------------------------------------------------------------------
@check('C10', TRUST)
def c10(ctx, W):
    """malformed proofs are rejected with an error, not a panic"""
    sides = Sides(W)
    zs = sizes(ctx, W, sides)
    for ncb, c in shapes(ctx) + LARGER:
        p, v = sides.get(ncb)
        R = Ref(W, c, ctx.seed, ncb).run()
        lnames = [ln for _, ln in proof_messages(v.proof) if ln]
        lg = R.pad.bit_length() - 1
        ks = sorted(set([0, 1, 2, 3, lg, lg + 1, 40, 70] + ([5, 6, 31, 32, 33, 63, 64, 65] if ctx.thorough else [64]) + [z for z in zs if z < 300 and (ncb, c) in SHAPES[:8]]))
        for a in ks:
            for b in ks:
                if a > 6 and b > 6 and a != b:
                    continue
                name = 'malformed proof'
                with ctx.guard(name):
                    ints = R.ints()
                    for ln, k in zip(lnames, (a, b)):
                        ints[ln] = k
                    S = Sample(ctx.seed, ints, R.over)
                    pan = S.ev(v.panic)
                    if not ctx.expect(name + '/no panic', VERIFY + ' -> ' + (strip_line(pan) if pan else ''), pan is None,
                                      lambda: 'a proof with %d left and %d right inner-product points for a circuit of shape [%s] makes the verifier panic at %s'
                                      % (a, b, label(ncb, c), pan)):
                        continue
                    r = S.ev(v.result)
                    ctx.expect(name + '/rejected', VERIFY, r.vi == 1,
                               'an arbitrary proof with %d/%d inner-product points is accepted for shape [%s]' % (a, b, label(ncb, c)))
    for ncb, c in SHAPES[1:9]:
        nm = 'surplus round points'
        with ctx.guard(nm):
            s = Session(W, sides, ncb, c, ctx.seed)
            if s.prove()[0] != 'ok' or s.verify()[0] != 'ok':
                ctx.undecided(nm, 'no accepted honest proof to start from')
                continue
            seqs = [(x, ln) for x, ln in proof_messages(s.v.proof) if ln]
            lg = s.S2.ints[seqs[0][1]]
            vals = {x: [s.S2.symbol(x, 'F', (i,)) for i in range(lg)] for x, ln in seqs}
            o = {x: (lambda *i, x=x: vals[x][i[-1]] if i[-1] < lg else 7 + i[-1]) for x, ln in seqs}
            for ds in ((1, 0), (0, 1), (1, 1), (-1, 0), (0, -1), (-1, -1), (32, 32)):
                if lg + min(ds) < 0:
                    continue
                r = s.verify(o, {ln: lg + d for (x, ln), d in zip(seqs, ds)})
                ctx.expect(nm, VERIFY, r[0] == 'err', 'an honest proof with %d/%d instead of %d inner-product points is %s (shape [%s])'
                           % (lg + ds[0], lg + ds[1], lg, 'accepted' if r[0] == 'ok' else 'met with a panic', label(ncb, c)))
    ctx.floor('surplus round points', 20)
    ctx.floor('malformed proof', 100)
    from .ippchk import ipp_malformed
    ipp_malformed(ctx, W)


def strip_line(s):
    import re
    return re.sub(r':\d+', '', str(s))


@check('C31', TRUST)
def c31(ctx, W):
    """randomised constraints are run once each, and when one fails so does the proof"""
    sides = Sides(W)
    for ncb, c in shapes(ctx) + [(3, {'V': 1, 'A1': 1, 'C1': 1}), (3, {'V': 2, 'A2': 1, 'C2': 2}), (1, {}), (2, {}), (3, {})]:
        nm = 'run once'
        with ctx.guard(nm):
            s = Session(W, sides, ncb, c, ctx.seed)
            r = s.prove()
            good = r[0] == 'ok' and s.verify()[0] == 'ok'
            for side, S, at in ((s.p, s.S, PROVE), (s.v, getattr(s, 'S2', None), VERIFY)):
                if S is None or r[0] == 'panic':
                    ctx.undecided(nm, 'no proof to start from')
                    continue
                k = len(S.ev(side.outs['Z']))
                ctx.expect(nm, at, k == ncb, '%d of the randomised constraints are run where %d were specified (shape [%s])' % (k, ncb, label(ncb, c)))
            if not good:
                ctx.undecided('failure reported', 'no accepted honest proof to start from')
                continue
            for f in range(ncb):
                for prover, at in ((True, PROVE), (False, VERIFY)):
                    side = failing(W, sides, prover, ncb, f)
                    t = Session(W, sides, ncb, c, ctx.seed)
                    t.proof, t.V = s.proof, s.V
                    with ctx.guard('failure reported', at):
                        if prover:
                            t.p = side
                            q = t.prove()
                        else:
                            t.v = side
                            q = t.verify()
                        ctx.expect('failure reported', at, q[0] == 'err', 'randomised constraint %d fails, yet %s (shape [%s])'
                                   % (f, 'the result is a panic' if q[0] == 'panic' else 'a proof is made' if prover else 'the proof is accepted', label(ncb, c)))
            ctx.sample('%s: %d failing' % (label(ncb, c), ncb))
    ctx.floor('run once', 20)
    ctx.floor('failure reported', 20)


def failing(W, sides, prover, ncb, f):
    k = ('fail', prover, ncb, f)
    if k not in sides.p:
        sides.p[k] = run_side(W, prover, ncb, fails=(f,))
    return sides.p[k]


@check('C11', TRUST)
def c11(ctx, W):
    """too few generators: a typed error, on both sides, for both vectors"""
    sides = Sides(W)
    want = W.variant(ERR, 'InvalidGeneratorsLength')
    for ncb, c in shapes(ctx, 0, W, sides, 100):
        if max(c.values() or [0]) > 500:
            continue
        p, v = sides.get(ncb)
        R = Ref(W, c, ctx.seed, ncb).run()
        ks = sorted(set(k for k in (0, R.n1 - 1, R.n1, R.n - 1, R.n, R.pad - 1, R.pad, R.pad + 2) if k >= 0))
        for a in ks:
            for b in ks:
                if a >= R.pad and b >= R.pad:
                    continue
                for who, side in (('Prover::prove', p), ('Verifier::verify', v)):
                    name = 'insufficient generators'
                    with ctx.guard(name):
                        ints = R.ints()
                        ints['#G'], ints['#H'] = a, b
                        for _, ln in proof_messages(v.proof):
                            if ln:
                                ints[ln] = R.pad.bit_length() - 1
                        S = Sample(ctx.seed, ints, R.over)
                        pan = S.ev(side.panic)
                        which = 'G' if a < R.pad else 'H'
                        if not ctx.expect(name + '/no panic', who + ' (%s)' % which, pan is None,
                                          lambda: '%s with %d and %d generators, %d needed, panics at %s (shape [%s])' % (who, a, b, R.pad, pan, label(ncb, c))):
                            continue
                        r = S.ev(side.result)
                        ctx.expect(name + '/error', who + ' (%s)' % which, r.vi == 1 and r.fs[0].vi == want,
                                   lambda: '%s with %d and %d generators, %d needed, returns %s (shape [%s])' % (who, a, b, R.pad, r, label(ncb, c)))
    ctx.floor('insufficient generators', 60)

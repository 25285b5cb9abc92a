"""The gadgets as protocols: prover/verifier agreement, blinding, verdicts, malformed input, composition."""
import random
from .gadgets import *
from ..direct import toward, resolve
from .r1cs import rank


def substatement(gad, per=1, thorough=False):
    """a few true statements of a gadget, of different sizes"""
    out = []
    for cases in gad.groups(7, thorough):
        t = [c for c in cases if c.true]
        out += t[:per]
    return out


def cheap(cases, n):
    """a spread of n cases"""
    if len(cases) <= n:
        return cases
    return [cases[i * (len(cases) - 1) // (n - 1)] for i in range(n)]


def hashes(W):
    gs = []
    for k in (2, 4, 8):
        for s in ('Cube', 'Inverse', 'Quint'):
            gs.append(Poseidon(W, k, s))
    return gs


def few(gad, ctx):
    cs = substatement(gad)
    if isinstance(gad, Merkle):
        cs = [c for c in cs if c.ints['depth'] <= 2]
        return cheap(cs, 6 if ctx.thorough else 3)
    if isinstance(gad, Poseidon):
        return cs[:4] if ctx.thorough else cs[:1]
    return [c for c in cs if not c.probe or ctx.thorough]


def isok(res):
    return isinstance(res, SV) and res.adt == RES and res.vi == 0


def iserr(res):
    return isinstance(res, SV) and res.adt == RES and res.vi == 1


def norm(c):
    return {w: a % P for w, a in c.items() if a % P}


# ------------------------------------------------------------------------------------ agreement
def agree(ctx, gad):
    p, v = gad.runs()
    nm = gad.name
    for c in few(gad, ctx):
        with ctx.guard(nm + '/agreement', gad.gen):
            S = gad.sample(c, ctx.seed)
            lp, rp, pan = p.at(S)
            if pan is not None or lp is None or not isok(rp):
                ctx.undecided(nm + '/agreement', 'the prover does not finish on a true statement')
                continue
            dp = p.last
            sp = System(lp)
            coms = list(rp.fs[0].fs[1])
            S2 = gad.sample(c, ctx.seed, {'#com': len(coms)}, {'com': lambda i: coms[i]})
            lv, rv, pan = v.at(S2)
            if pan is not None or lv is None:
                ctx.violation(nm + '/agreement', where(gad, 'ver'), 'the verifier %s on the commitments of an honest prover (%s)' % (
                    'panics: %s' % pan if pan else 'does not reach the verification', c.what))
                continue
            dv = v.last
            sv = System(lv)
            k = next((i for i, (a, b) in enumerate(zip(sp.cons, sv.cons)) if norm(a) != norm(b)), None)
            ctx.expect(nm + '/same constraints', where(gad, 'ver'),
                       k is None and len(sp.cons) == len(sv.cons) and sp.ngates == sv.ngates and sp.ncommits == sv.ncommits,
                       lambda: 'prover and verifier build different systems for %s: %d/%d constraints, %d/%d gates, %d/%d commitments; first difference at constraint %s: prover %s, verifier %s' % (
                           c.what, len(sp.cons), len(sv.cons), sp.ngates, sv.ngates, sp.ncommits, sv.ncommits, k,
                           showc(sp, k) if k is not None else '-', showc(sv, k) if k is not None else '-'))
            k = next((i for i, (a, b) in enumerate(zip(sp.coms, sv.coms)) if a != b), None)
            ctx.expect(nm + '/same commitments', where(gad, 'ver'), k is None,
                       lambda: 'commitment %d of the verifier is not the prover\'s (%s)' % (k, c.what))
            ctx.expect(nm + '/same transcript', where(gad, 'ver'), hz(dp.fs[1]) == hz(dv.fs[1]),
                       lambda: 'prover and verifier start from different transcripts: %r / %r' % (dp.fs[1], dv.fs[1]))
            ctx.expect(nm + '/label', where(gad), 'label' in repr(dp.fs[1]), 'the label of the caller does not reach the transcript')
            g, h, GG, HH = S.symbol('g', 'F', ()), S.symbol('h', 'F', ()), None, None
            ctx.expect(nm + '/same bases', where(gad), hz(dp.fs[3:]) == hz(dv.fs[3:]),
                       'prover and verifier use different generators')
            ctx.expect(nm + '/bases of the caller', where(gad), dp.fs[3] == g and dp.fs[4] == h, 'the generators g and h are not those of the caller')


def special_agree(ctx, gad):
    """the agreement does not depend on the values"""
    p, v = gad.runs()
    nm = gad.name + '/agreement at special values'
    for c in cheap(few(gad, ctx), 2) if len(few(gad, ctx)) > 2 else few(gad, ctx):
        with ctx.guard(nm, gad.gen):
            sample, todo = specials(gad, c, p, ctx)
            for what, o in todo:
                try:
                    A = sample(o)
                    lp, rp, pan = p.at(A)
                    if pan is not None or lp is None or not isok(rp):
                        continue
                    dp, sp = p.last, System(lp)
                    coms = list(rp.fs[0].fs[1])
                    B = sample(o)
                    B.ints['#com'], B.over['com'] = len(coms), lambda i: coms[i]
                    lv, rv, pan = v.at(B)
                except (Undecided, Dead):
                    continue
                ok_ = sp.badwire() is None and not sp.unassigned() and sp.violated() is None
                if lv is None:
                    ctx.expect(nm, where(gad, 'ver'), not ok_, 'the verifier %s on the commitments of an honest prover (%s, %s)' % (
                        'panics: %s' % pan if pan else 'does not reach the verification', c.what, what))
                    continue
                sv = System(lv)
                ctx.expect(nm, where(gad, 'ver'), list(map(norm, sp.cons)) == list(map(norm, sv.cons)) and sp.ngates == sv.ngates and sp.coms == sv.coms
                           and hz(dp.fs[1]) == hz(v.last.fs[1]),
                           'prover and verifier build different systems with %s (%s)' % (what, c.what))


@check('C20', None)
def c20(ctx, W):
    gs = allgadgets(W)
    gadgets_parallel(ctx, gs, agree)
    gadgets_parallel(ctx, [g for g in gs if not isinstance(g, Poseidon) or g.kind == 'Quint'], special_agree)
    for gad in gs:
        ctx.floor(gad.name, 5)


# ------------------------------------------------------------------------------------ verdicts
def verdicts(ctx, gad):
    p, v = gad.runs()
    c = few(gad, ctx)[0]
    nm = gad.name
    kinds = {k: x['n'] for k, x in enumerate(gad.W.prog.adts[ERR]['vs'])}
    with ctx.guard(nm + '/prover', gad.gen):
        for good, kind in [(1, 99)] + [(0, k) for k in kinds]:
            S = gad.sample(c, ctx.seed, {'prove succeeds': good, 'prove error': kind})
            lp, rp, pan = p.at(S)
            if pan is not None:
                ctx.violation(nm + '/prover', where(gad), 'the proving function panics (%s) %s' % (pan, 'on a true statement' if good else 'where the underlying prover returns an error'))
            elif good:
                if not isok(rp) or lp is None:
                    ctx.violation(nm + '/prover', where(gad), 'no proof of a true statement (%s)' % c.what)
                    continue
                pf = rp.fs[0].fs[0]
                ctx.expect(nm + '/prover', where(gad), pf == S.ev(sym('the proof', 'tag')), 'the proof returned is not the one the prover made: %r' % (pf,))
                sy = System(lp)
                coms = list(rp.fs[0].fs[1])
                ctx.expect(nm + '/commitments returned', where(gad), all(x in sy.coms for x in coms), 'a returned commitment is not one of the proof')
                n = len(coms)
            else:
                ctx.expect(nm + '/prover', where(gad), iserr(rp), 'an error of the underlying prover (%s) is not reported' % kinds[kind])
    with ctx.guard(nm + '/verifier', gad.ver):
        for good, kind in [(1, 99)] + [(0, k) for k in kinds]:
            S = gad.sample(c, ctx.seed, {'verify accepts': good, '#com': n, 'verify error': kind})
            lv, rv, pan = v.at(S)
            if pan is not None or lv is None:
                ctx.violation(nm + '/verifier', where(gad, 'ver'), 'the verifier %s' % ('panics: %s' % pan if pan else 'does not reach the verification'))
                continue
            ctx.expect(nm + '/verifier', where(gad, 'ver'), isok(rv) if good else iserr(rv),
                       'the verdict is not that of the underlying verifier, which %s' % ('accepts' if good else 'rejects with ' + kinds[kind]))
            d = v.last
            ctx.expect(nm + '/proof verified', where(gad, 'ver'), d.fs[2] == S.ev(sym('pf', 'tag')), 'not the given proof is verified')
            for i, (x, want) in enumerate((('g', S.symbol('g', 'F', ())), ('h', S.symbol('h', 'F', ())))):
                ctx.expect(nm + '/generators verified with', where(gad, 'ver'), d.fs[3 + i] == want, 'the proof is not verified with the generator %s of the caller' % x)
            for i, x in ((5, 'G'), (6, 'H')):
                ctx.expect(nm + '/generators verified with', where(gad, 'ver'), hz(d.fs[i]) == hz(S.ev(gad.ss(x))), 'the proof is not verified with the generators %s of the caller' % x)
            mine = [S.symbol('com', 'F', (i,)) for i in range(n)]
            sy = System(lv)
            ctx.expect(nm + '/commitments verified', where(gad, 'ver'), [x for x in sy.coms if x in mine] == mine,
                       'the verifier does not commit to each given commitment once, in order')


@check('C21', None)
def c21(ctx, W):
    gs = allgadgets(W)
    gadgets_parallel(ctx, gs, verdicts)
    for gad in gs:
        ctx.floor(gad.name, 8)


# ------------------------------------------------------------------------------------ malformed input
def malformed(ctx, gad):
    p, v = gad.runs()
    nm = gad.name
    for c in few(gad, ctx):
        with ctx.guard(nm + '/number of commitments', gad.ver):
            S = gad.sample(c, ctx.seed)
            lp, rp, pan = p.at(S)
            if pan is not None or not isok(rp):
                ctx.undecided(nm + '/number of commitments', 'no honest proof')
                continue
            n = len(list(rp.fs[0].fs[1]))
            exact = isinstance(gad, (Merkle, Hamming))
            for k in list(range(0, n)) + [n + 1, n + 2, n + 7]:
                if n > 14 and 4 < k < n - 4 and k % 3:
                    continue
                with ctx.guard(nm + '/number of commitments', gad.ver):
                    S = gad.sample(c, ctx.seed, {'#com': k})
                    lv, rv, pan = v.at(S)
                    if pan is not None:
                        ctx.violation(nm + '/number of commitments', where(gad, 'ver'), 'the verifier panics (%s) when given %d commitments instead of %d (%s)' % (pan, k, n, c.what))
                    elif k < n or exact:
                        ctx.expect(nm + '/number of commitments', where(gad, 'ver'), iserr(rv),
                                   'the verifier accepts %d commitments where the statement has %d (%s)' % (k, n, c.what))
                    else:
                        ctx.ok(nm + '/number of commitments')
    # the prover on inconsistent input
    c = few(gad, ctx)[-1]
    alts = []
    for k in ('#rho', '#inp', '#mp', '#new'):   # vectors whose sizes have to agree
        if k in c.ints:
            alts += [{k: x} for x in sorted({0, c.ints[k] - 1, c.ints[k] + 1}) if x >= 0 and x != c.ints[k]]
    for a in alts:
        with ctx.guard(nm + '/inconsistent prover input', gad.gen):
            S = gad.sample(c, ctx.seed, a)
            lp, rp, pan = p.at(S)
            ctx.expect(nm + '/inconsistent prover input', where(gad), pan is None and iserr(rp),
                       'inputs of inconsistent sizes (%s instead of %s): the prover %s' % (
                           ', '.join('%s=%d' % (k[1:], x) for k, x in a.items()), ', '.join(str(c.ints[k]) for k in a), 'panics: %s' % pan if pan else 'returns no error'))


@check('C22', None)
def c22(ctx, W):
    gs = allgadgets(W)
    gadgets_parallel(ctx, gs, malformed)
    for gad in gs:
        ctx.floor(gad.name, 4)


# ------------------------------------------------------------------------------------ blinding
def rngargs(gad):
    """the prover's arguments with no randomness but an RNG, and with neither"""
    if gad.rhoidx is None:
        return None, None
    b = gad.genargs()
    b[gad.rhoidx] = NONE
    none = list(b)
    b[-1] = some(sym('rng', 'tag'))
    return b, none


def blinding(ctx, gad):
    p, v = gad.runs()
    nm = gad.name
    runs = [('with the caller\'s randomness', p)]
    b, none = rngargs(gad)
    if b is not None:
        runs.append(('with a random number generator', gad.R.call(G + gad.gen, b + gad.tail(), gad.genv())))
        e = gad.R.call(G + gad.gen, none + gad.tail(), gad.genv())
    for c in few(gad, ctx):
        if b is not None:
            with ctx.guard(nm + '/no source of randomness', gad.gen):
                le, re, pan = e.at(gad.sample(c, ctx.seed))
                ctx.expect(nm + '/no source of randomness', where(gad), pan is None and iserr(re),
                           'with neither randomness nor a generator the prover %s' % ('panics: %s' % pan if pan else 'goes on'))
        for how, run in runs:
            with ctx.guard(nm + '/blinding', gad.gen):
                S = gad.sample(c, ctx.seed, rseed=1)
                l1, r1, pan = run.at(S)
                S2 = gad.sample(c, ctx.seed, rseed=2)
                l2, r2, pan2 = run.at(S2)
                if pan is not None or l1 is None or l2 is None or not isok(r1):
                    ctx.undecided(nm + '/blinding', 'no proof %s' % how)
                    continue
                s1, s2 = System(l1), System(l2)
                n = len(list(r1.fs[0].fs[1]))
                st = open_statics(gad, c, v, n, ctx.seed)
                if st is None:
                    ctx.undecided(nm + '/blinding', 'the verifier does not finish')
                    continue
                rows = [j for j in range(s1.ncommits) if ('C', j) not in st]
                if 1 < len(rows) <= (24 if ctx.thorough else 12):
                    # differences along random changes of everything drawn or given: no linear relation among the blindings
                    mat = []
                    for t in range(len(rows) + 2):
                        S3 = gad.sample(c, ctx.seed, {}, {'rho': lambda *i, t=t: prf('rho', t, i)} if run is p and b is not None else {}, rseed=100 + t)
                        l3, r3, pan3 = run.at(S3)
                        bl = System(l3).blind
                        mat.append([bl[j] for j in rows])
                    diff = [[(x - y) % P for x, y in zip(m, mat[0])] for m in mat[1:]]
                    rk = rank(diff)
                    ctx.expect(nm + '/independent blinding', where(gad), rk == len(rows),
                               'the %d blindings of a proof are driven by only %d independent values (%s, %s)' % (len(rows), rk, how, c.what))
                seen = {}
                rho = {S.symbol('rho', 'F', i) for i in [()] + [(k,) for k in range(S.ints.get('#rho', 0))]}
                for j, (x, y) in enumerate(zip(s1.blind, s2.blind)):
                    if ('C', j) in st:
                        ctx.expect(nm + '/constants', where(gad), s1.vals[('C', j)] * 1 % P == st[('C', j)] and x == 0,
                                   'commitment %d is computed by the verifier but the prover commits to another value' % j)
                        continue
                    good = (x in rho and run is p) or (x != y)
                    ctx.expect(nm + '/blinding', where(gad), good, 'committed value %d is blinded with %s, neither given by the caller nor drawn at random (%s, %s)' % (
                        j, x, how, c.what))
                    ctx.expect(nm + '/blinding not reused', where(gad), x not in seen, lambda: 'committed values %s and %d are blinded with the same scalar (%s, %s)' % (
                        seen.get(x), j, how, c.what))
                    seen[x] = j
                if run is p and rho and '#rho' in S.ints or (run is p and b is not None):
                    want = {S.symbol('rho', 'F', ())} if '#rho' not in S.ints else {S.symbol('rho', 'F', (k,)) for k in range(S.ints['#rho'])}
                    ctx.expect(nm + '/caller\'s randomness used', where(gad), want <= set(seen), 'randomness given by the caller is not used as blinding')
                    # it blinds the values of the statement
                    for r, wire in gad.role_of(s1, S).items():
                        if r in c.roles and r.startswith('rho'):
                            ctx.expect(nm + '/caller\'s randomness used', where(gad), s1.vals[wire] == c.roles[r] % P,
                                       'the caller\'s randomness blinds another value than the statement\'s (%s)' % c.what)


class Watch(object):
    """field inputs a sample reads"""

    def __init__(self, S):
        self.seen, self.S, self.f = {}, S, S.symbol
        S.symbol = self

    def __call__(self, name, sort, idx):
        x = self.f(name, sort, idx)
        if sort == 'F' and x.__class__ is int:
            self.seen[name, tuple(idx)] = x
        return x


def specials(gad, c, run, ctx, cap=10):
    """overrides with special values among the inputs of a case: single inputs and all of them, and inputs for which
    values that the code compares become equal"""
    def sample(o, rseed=1):
        S = gad.sample(c, ctx.seed, {}, {}, rseed=rseed)
        base = dict(S.over)
        w = Watch(gad.sample(c, ctx.seed))
        for k, x in resolve(o, lambda nm, *i: w(nm, 'F', i)).items():
            S.over[k] = x
        return S
    w = Watch(sample({}))
    run.at(w.S)
    ins = [(k, i, x) for (k, i), x in w.seen.items() if not k.startswith('pp.') and k not in ('rho', 'rc', 'g', 'h', 'G', 'H')]
    if len(ins) > cap:
        ins = [ins[j] for j in sorted({q * (len(ins) - 1) // (cap - 1) for q in range(cap)})]
    out = [('%s%s = %d' % (k, list(i) or '', v), {k: (i, v) if i else v}) for k, i, x in ins for v in (0, 1)]
    for k in sorted({k for k, i, x in ins}):
        for v in (0, 1):
            out.append(('every %s = %d' % (k, v), {k: (lambda *i, v=v: v) if any(i for k2, i, x in ins if k2 == k) else v}))

    def probe(o):
        S = sample(o)
        S.eqs = {}
        try:
            run.at(S)
        except (Undecided, Dead):
            pass
        return S.eqs
    for lab, o, k in toward(probe, [('%s%s' % (k, list(i) or ''), k, i, x) for k, i, x in ins], per=1):
        out.append((lab + ' such that compared values are equal', o))
        if len(out) > 6 * cap:
            break
    return sample, out


def special_blinding(ctx, gad):
    """blinding does not depend on the values committed to"""
    p, v = gad.runs()
    nm = gad.name + '/blinding of special values'
    for c in cheap(few(gad, ctx), 2) if len(few(gad, ctx)) > 2 else few(gad, ctx):
        with ctx.guard(nm, gad.gen):
            S = gad.sample(c, ctx.seed, rseed=1)
            l, r, pan = p.at(S)
            if pan is not None or l is None or not isok(r):
                continue
            st = open_statics(gad, c, v, len(list(r.fs[0].fs[1])), ctx.seed)
            if st is None:
                continue
            sample, todo = specials(gad, c, p, ctx)
            for what, o in todo:
                try:
                    A, B = sample(o, 1), sample(o, 2)
                    l1, r1, p1 = p.at(A)
                    l2, r2, p2 = p.at(B)
                except (Undecided, Dead):
                    continue
                if p1 is not None or p2 is not None or l1 is None or l2 is None or not isok(r1):
                    continue
                s1, s2 = System(l1), System(l2)
                rho = {A.symbol('rho', 'F', i) for i in [()] + [(k,) for k in range(A.ints.get('#rho', 0))]}
                seen = {}
                for j, (x, y) in enumerate(zip(s1.blind, s2.blind)):
                    if ('C', j) in st:
                        continue
                    ctx.expect(nm, where(gad), (x in rho or x != y) and x not in seen,
                               'committed value %d is blinded with %s, neither given by the caller nor freshly drawn, with %s (%s)' % (j, x, what, c.what))
                    seen[x] = j


@check('C09', None)
def c09(ctx, W):
    gs = allgadgets(W)
    gadgets_parallel(ctx, gs, blinding)
    gadgets_parallel(ctx, [g for g in gs if not isinstance(g, Poseidon) or g.kind == 'Quint'], special_blinding)
    for gad in gs:
        ctx.floor(gad.name + '/blinding', 1)


# ------------------------------------------------------------------------------------ composition
PRE = {'after commitments and gates': ['commit', 'gate', 'commit', 'gate'],
       'after a lone allocation': ['commit', 'half'],
       'after two lone allocations': ['half', 'half', 'commit', 'half']}


def shifted(sy, c0, g0):
    """constraints with the indices of what was there before removed; None if they touch it"""
    out = []
    for c in sy:
        d = {}
        for w, a in norm(c).items():
            if w[0] == '1':
                d[w] = a
                continue
            b = c0 if w[0] == 'C' else g0
            if w[1] < b:
                return None
            d[(w[0], w[1] - b)] = a
        out.append(d)
    return out


def compose(ctx, gad):
    nm = gad.name
    gad.runs()
    R = gad.R
    va = [x for x in gad.verargs() if x is not sym('pf', 'tag')]
    if gad.statics:
        va += [sym('g', 'F'), sym('h', 'F')]
    base = R.call_sub(G + gad.sub[0], True, gad.genargs(), gad.genv())
    baseV = R.call_sub(G + gad.sub[1], False, va)
    pres = dict(PRE)
    many = max(gad.mined(12, 5000) or [12])
    pres['after %d commitments and gates' % many] = ['commit', 'gate'] * many
    for how, pre in pres.items():
        rp = R.call_sub(G + gad.sub[0], True, gad.genargs(), gad.genv(), pre)
        rv = R.call_sub(G + gad.sub[1], False, va, {}, pre)
        c0 = pre.count('commit')
        npre = len(pre)
        for c in few(gad, ctx)[:3]:
            with ctx.guard(nm + '/composed', gad.sub[0]):
                S = gad.sample(c, ctx.seed)
                l0, r0, p0 = base.at(S)
                if p0 is not None or not isok(r0):
                    ctx.undecided(nm + '/composed', 'no honest proof')
                    continue
                n = len(list(r0.fs[0]))
                S = gad.sample(c, ctx.seed)
                l1, r1, p1 = rp.at(S)
                if p1 is not None or not isok(r1):
                    ctx.violation(nm + '/composed', gad.sub[0], 'in a constraint system used before (%s) the prover %s (%s)' % (
                        how, 'panics: %s' % p1 if p1 else 'returns an error', c.what))
                    continue
                s0, s1 = System(l0), System(l1)
                S = gad.sample(c, ctx.seed, {'#com': n})
                lv0, rv0, pv0 = baseV.at(S)
                S = gad.sample(c, ctx.seed, {'#com': n})
                lv, rr, pv = rv.at(S)
                if pv is not None or not isok(rr):
                    ctx.violation(nm + '/composed', gad.sub[1], 'in a constraint system used before (%s) the verifier %s (%s)' % (
                        how, 'panics: %s' % pv if pv else 'returns an error', c.what))
                    continue
                sv0, sv = System(lv0), System(lv)
                k = s1.violated() if s1.badwire() is None and not s1.unassigned() else 'wires'
                ctx.expect(nm + '/composed completeness', gad.sub[0], k is None, 'in a constraint system used before (%s) the prover\'s assignment violates %s (%s)' % (how, k, c.what))
                g0 = sum(1 for e in l1[:npre] if e[0] == 'gate')
                a, b = shifted(s1.cons, c0, g0), shifted(sv.cons, c0, g0)
                ctx.expect(nm + '/composed agreement', gad.sub[1], [norm(x) for x in s1.cons] == [norm(x) for x in sv.cons] and s1.ngates == sv.ngates,
                           'in a constraint system used before (%s) prover and verifier build different constraints (%s)' % (how, c.what))
                if b is not None and b == [norm(x) for x in sv0.cons] and sv.ngates - g0 == sv0.ngates:
                    ctx.ok(nm + '/composed')
                else:
                    # other wires, e.g. a multiplier shared with an earlier allocation: decide the statement anew
                    falsies(ctx, gad, c, rv, n, c0, s1, S, how)


def falsies(ctx, gad, c, rv, n, c0, sp, S, how):
    roles = gad.role_of(sp, S)
    done = False
    for cases in gad.groups(ctx.seed, False):
        for f in cases:
            if f.true or f.probe:
                continue
            done = True
            S = gad.sample(f, ctx.seed, {'#com': n})
            l, r, pan = rv.at(S)
            if l is None or not isok(r):
                continue
            sy = System(l)
            if any(x not in roles for x in f.roles):
                continue
            known = {roles[x]: y % P for x, y in f.roles.items()}
            if gad.statics:
                for j in range(sy.ncommits):
                    if j >= c0 + n:
                        known[('C', j)] = 0
            rnd = random.Random(ctx.seed)
            verdict, w = Solver(sy, lambda: rnd.getrandbits(255), 3000).run(known)
            if verdict == '?':
                ctx.undecided(gad.name + '/composed', w)
            else:
                ctx.expect(gad.name + '/composed', gad.sub[1], verdict == 'no', 'in a constraint system used before (%s) a false statement is accepted: %s' % (how, f.what))
        if done:
            return


@check('C23', None)
def c23(ctx, W):
    gs = allgadgets(W)
    gadgets_parallel(ctx, gs, compose)
    for gad in gs:
        ctx.floor(gad.name, 6)

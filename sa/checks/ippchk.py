"""Checks on the inner-product argument."""
from ..registry import check
from ..core import *
from ..oracle import svector
from ..evalr import H as HASH
from .. import vdg, mine
from ..direct import toward, resolve

IPPT = C + 'ipp::IPP'
VER = 'ipp::IPP::verify_ipp'
CRE = 'ipp::IPP::create_ipp'


def seqsym(name, n=None):
    n = n if n is not None else sym('#' + name, 'I')
    return mkcomp(n, lambda i: sym(name, 'F', i))


class Ipp(object):
    def __init__(self, W):
        self.W = W
        I = W.I
        n = sym('n', 'I')
        st = I.new_state()
        self.tc = I.new_cell(st, W.transcript(b'ipp'))
        self.proof = I.call_key(st, W.method(IPPT, 'create_ipp'), [
            self.tc.ref(), sym('Q', 'F'), seqsym('Gf', n), seqsym('Hf', n), seqsym('G', n), seqsym('H', n),
            seqsym('a', n), seqsym('b', n)], {})
        self.ptrans = I.read(st, self.tc.root, ())
        self.ppanic = st.cells[PANIC]
        st = I.new_state()
        tc = I.new_cell(st, W.transcript(b'ipp'))
        self.ver = I.call_key(st, W.method(IPPT, 'verify_ipp'), [
            n, tc.ref(), seqsym('Gf'), seqsym('Hf'), sym('P', 'F'), sym('Q', 'F'), seqsym('G'), seqsym('H'),
            sym('pa', 'F'), sym('pb', 'F'), seqsym('L'), seqsym('R')], {})
        self.vtrans = I.read(st, tc.root, ())
        self.vpanic = st.cells[PANIC]
        st = I.new_state()
        tc = I.new_cell(st, W.transcript(b'ipp'))
        self.vs = I.call_key(st, W.method(IPPT, 'verification_scalars'), [seqsym('L'), seqsym('R'), n, tc.ref()], {})
        self.vspanic = st.cells[PANIC]
        self.keys = [k for k in I.calls_seen if 'ipp::' in k]

    def ints(self, n, **kw):
        d = {'n': n}
        for k in ('Gf', 'Hf', 'G', 'H'):
            d['#' + k] = n
        lg = max(n - 1, 0).bit_length()
        d['#L'] = d['#R'] = lg
        d.update(kw)
        return d

    def honest(self, seed, n, given=None):
        """(verifier sample parameters) for the honest proof"""
        S = Sample(seed, {'n': n}, given)
        if S.ev(self.ppanic) is not None:
            return None, S
        pr = S.ev(self.proof)
        fs = self.W.fields(IPPPROOF)
        g = {k: pr.fs[fs.index(k)] for k in ('L', 'R', 'a', 'b')}
        F = lambda nm, i: S.symbol(nm, 'F', (i,))
        P0 = sum(F('a', i) * F('Gf', i) * F('G', i) + F('b', i) * F('Hf', i) * F('H', i) for i in range(n))
        P0 += sum(F('a', i) * F('b', i) for i in range(n)) * S.symbol('Q', 'F', ())
        over = dict(given or {}, **{'P': P0 % P, 'pa': g['a'], 'pb': g['b'], 'L': lambda i: g['L'][i], 'R': lambda i: g['R'][i]})
        return (over, self.ints(n, **{'#L': len(g['L']), '#R': len(g['R'])})), S


def get_ipp(W):
    if getattr(W, '_ipp', None) is None:
        W._ipp = Ipp(W)
    return W._ipp


SIZES = (1, 2, 4, 8, 16)


def ipp_transcripts(ctx, W):
    ip = get_ipp(W)
    for n in SIZES:
        with ctx.guard('inner-product transcript agreement'):
            h, S = ip.honest(ctx.seed, n)
            if h is None:
                ctx.undecided('inner-product transcript agreement', 'prover panics')
                continue
            S2 = Sample(ctx.seed, h[1], h[0])
            a, b = S.ev(ip.ptrans), S2.ev(ip.vtrans)
            ctx.expect('inner-product transcript agreement', '%s vs %s' % (CRE, VER), a == b,
                       'the transcripts of the two sides differ for vectors of size %d' % n)
    ctx.floor('inner-product transcript agreement', 5)


def ipp_binding(ctx, W):
    from .r1cs import whole, val_of
    ip = get_ipp(W)
    for n in SIZES[1:]:
        with ctx.guard('inner-product messages precede challenges'):
            S = Sample(ctx.seed, ip.ints(n))
            t = S.ev(ip.vtrans)
            ch = [i for i, e in enumerate(t) if e[0] == 'chal']
            lg = n.bit_length() - 1
            ctx.expect('inner-product messages precede challenges', VER, len(ch) >= lg, 'one challenge per round is needed')
            for j in range(min(lg, len(ch))):
                for nm in ('L', 'R'):
                    v = S.symbol(nm, 'F', (j,))
                    pos = [i for i, e in enumerate(t) if e[0] == 'app' and isinstance(e[2], tuple) and val_of(e[2]) == v]
                    ctx.expect('inner-product messages precede challenges', VER, bool(pos) and pos[0] < ch[j],
                               '%s of round %d is not absorbed before the challenge of that round' % (nm, j))
    with ctx.guard('inner-product length is absorbed'):
        ts = {}
        for lg in range(1, 32):
            n = 1 << lg
            t = Sample(ctx.seed, ip.ints(n)).ev(ip.vtrans)
            k = next(i for i, e in enumerate(t) if e[0] == 'chal')
            m = tuple(e for e in t[:k] if isinstance(e[-1], bytes))
            ctx.expect('inner-product length is absorbed', VER, m not in ts,
                       'the transcript up to the first challenge is the same for vectors of size %d and %s' % (n, ts.get(m)))
            ts.setdefault(m, n)
    ctx.floor('inner-product messages precede challenges', 20)


def ipp_malformed(ctx, W):
    from .r1cs import strip_line
    ip = get_ipp(W)
    ns = (0, 1, 2, 3, 4, 5, 8)
    cases = []
    for n in ns:
        lg = max(n - 1, 0).bit_length()
        for a in sorted({0, 1, lg, lg + 1, 31, 32, 63, 64, 65}):
            for b in sorted({0, 1, lg, lg + 1, 64}):
                cases.append((n, a, b, {}))
        for k in ('#G', '#H', '#Gf', '#Hf'):
            for d in (-1, 1, 3):
                if n + d >= 0:
                    cases.append((n, lg, lg, {k: n + d}))
    for n, a, b, kw in cases:
        with ctx.guard('malformed inner-product proof'):
            S = Sample(ctx.seed, ip.ints(n, **dict({'#L': a, '#R': b}, **kw)))
            pan = S.ev(ip.vpanic)
            if not ctx.expect('malformed inner-product proof/no panic', VER + ' -> ' + strip_line(pan or ''), pan is None,
                              lambda: 'verifying a proof with %d/%d rounds for size %d %s panics at %s' % (a, b, n, kw or '', pan)):
                continue
            ctx.expect('malformed inner-product proof/rejected', VER, S.ev(ip.ver).vi == 1,
                       'an arbitrary proof with %d/%d rounds is accepted for size %d %s' % (a, b, n, kw or ''))
    # an honest argument with round points too many or too few
    for n in (1, 2, 8):
        with ctx.guard('surplus round points'):
            h, S = ip.honest(ctx.seed, n)
            if h is None:
                ctx.undecided('surplus round points', 'prover panics')
                continue
            lg = h[1]['#L']
            L, R = ([h[0][x](i) for i in range(lg)] for x in 'LR')
            for dl, dr in ((1, 0), (0, 1), (1, 1), (5, 5), (-1, 0), (0, -1), (-1, -1)):
                if lg + min(dl, dr) < 0:
                    continue
                o = dict(h[0], L=lambda i: L[i] if i < lg else 7 + i, R=lambda i: R[i] if i < lg else 9 + i)
                S = Sample(ctx.seed, dict(h[1], **{'#L': lg + dl, '#R': lg + dr}), o)
                ctx.expect('surplus round points', VER, S.ev(ip.vpanic) is None and S.ev(ip.ver).vi == 1,
                           'an honest argument for size %d with %d/%d instead of %d round points is not rejected' % (n, lg + dl, lg + dr, lg))
    ctx.floor('malformed inner-product proof', 100)


def ipp_size(ctx, ip, n, zs):
    from .r1cs import fixedchal, spots
    lg = n.bit_length() - 1
    with ctx.guard('honest argument accepted'):
        h, S = ip.honest(ctx.seed, n)
        if ctx.expect('prover completes', CRE, h is not None, 'create_ipp panics on vectors of size %d' % n):
            S2 = Sample(ctx.seed, h[1], h[0])
            pan = S2.ev(ip.vpanic)
            ctx.expect('honest argument accepted', VER, pan is None and S2.ev(ip.ver).vi == 0,
                       'the honest argument for vectors of size %d is %s' % (n, 'rejected' if pan is None else 'met with a panic at %s' % pan))
            ctx.sample('size %d: %d rounds' % (n, h[1]['#L']))
            ctx.expect('logarithmic size', CRE, h[1]['#L'] == lg and h[1]['#R'] == lg,
                       'the argument for size %d has %d/%d round messages instead of %d' % (n, h[1]['#L'], h[1]['#R'], lg))
            # wrong statement: <a,b> other than claimed
            o = dict(h[0], P=(h[0]['P'] + S2.symbol('Q', 'F', ())) % P)
            S3 = Sample(ctx.seed, h[1], o)
            ctx.expect('false claim rejected', VER, S3.ev(ip.ver).vi == 1, 'a wrong inner product is accepted (size %d)' % n)
    if n <= 8:
        with ctx.guard('honest argument accepted'):
            F = lambda nm, *i: Sample(ctx.seed).symbol(nm, 'F', i)

            def probe(o):
                S = Sample(ctx.seed, {'n': n}, resolve(o, F))
                S.eqs = {}
                S.ev(ip.proof)
                return S.eqs
            cands = [('%s[%d]' % (x, j), x, (j,), F(x, j)) for x in ('a', 'b', 'G', 'H', 'Gf', 'Hf') for j in sorted({0, n - 1})] + [('Q', 'Q', (), F('Q'))]
            todo = [('%s such that what the prover compares is equal' % lab, resolve(o, F)) for lab, o, k in toward(probe, cands)]
            for xs in (('a',), ('b',), ('a', 'b'), ('Gf',), ('Hf',)):
                for v in (0, 1, P - 1):
                    todo.append(('%s all %s' % (' and '.join(xs), v if v < 2 else -1), {x: lambda i, v=v: v for x in xs}))
            todo += [('a equal to b', {'a': lambda i: F('b', i)}), ('G equal to H', {'G': lambda i: F('H', i)}), ('Q zero', {'Q': 0}),
                     ('only the first entries nonzero', {x: lambda i, x=x: F(x, i) if i == 0 else 0 for x in 'ab'}),
                     ('only the last entries nonzero', {x: lambda i, x=x: F(x, i) if i == n - 1 else 0 for x in 'ab'})]
            for lab, o in todo:
                h, S = ip.honest(ctx.seed, n, o)
                if ctx.expect('prover completes', CRE, h is not None, 'create_ipp panics on vectors of size %d with %s' % (n, lab)):
                    S2 = Sample(ctx.seed, h[1], h[0])
                    pan = S2.ev(ip.vpanic)
                    ctx.expect('honest argument accepted', VER, pan is None and S2.ev(ip.ver).vi == 0,
                               'the honest argument for vectors of size %d with %s is %s' % (n, lab, 'rejected' if pan is None else 'met with a panic at %s' % pan))
    # acceptance set
    with ctx.guard('acceptance'):
        rec = {}
        ints = ip.ints(n)
        over = {'CHAL': fixedchal(ctx.seed, rec)}
        S = Sample(ctx.seed, ints, over)
        t = S.ev(ip.vtrans)
        us = [HASH('fixed', ctx.seed, i, e[1]) % P for i, e in enumerate(t) if e[0] == 'chal']
        if len(us) < lg:
            ctx.violation('acceptance', VER, 'only %d challenges for %d rounds' % (len(us), lg))
            return
        us = us[:lg]
        s = svector(us, n)
        F = lambda nm, *i: S.symbol(nm, 'F', i)
        def expected(F):
            E = F('pa') * F('pb') * F('Q')
            for i in range(n):
                E += F('pa') * s[i] * F('Gf', i) * F('G', i) + F('pb') * s[n - 1 - i] * F('Hf', i) * F('H', i)
            for j, u in enumerate(us):
                u2 = u * u % P
                E -= u2 * F('L', j) + pow(u2, P - 2, P) * F('R', j)
            return E % P
        good = {'P': expected(F)}

        def acc(o):
            S2 = Sample(ctx.seed, ints, dict(over, **dict(good, **o)))
            return S2.ev(ip.vpanic) is None and S2.ev(ip.ver).vi == 0
        ctx.expect('acceptance/valid', VER, acc({}), 'an argument satisfying the verification equation is rejected (size %d)' % n)
        for nm, k in (('P', None), ('pa', None), ('pb', None), ('Q', None), ('G', n), ('H', n), ('Gf', n), ('Hf', n), ('L', lg), ('R', lg)):
            for j in ([0] if k is None else spots(ctx, k, zs)):
                if k is None:
                    o = {nm: ((good.get(nm) if nm in good else F(nm)) + 1) % P}
                else:
                    o = {nm: lambda i, nm=nm, j=j: (F(nm, i) + (1 if i == j else 0)) % P}
                ctx.expect('acceptance/' + nm, VER, not acc(o),
                           'the argument is accepted with %s%s altered (size %d)' % (nm, '' if k is None else '[%d]' % j, n))
        # where something the verifier compares happens to be equal, and at degenerate arguments
        def judged(what, o):
            S2 = Sample(ctx.seed, ints, dict(over, **resolve(o, F)))
            E = expected(lambda nm, *i: S2.symbol(nm, 'F', i))
            for q, d in ((E, 0), ((E + 1) % P, 1), (S2.symbol('P', 'F', ()), None)):
                S3 = Sample(ctx.seed, ints, dict(S2.over, P=q))
                r = S3.ev(ip.vpanic) is None and S3.ev(ip.ver).vi == 0
                ctx.expect('acceptance/special arguments', VER, r == (q == E),
                           'the argument is %s although the verification equation %s (size %d, %s)'
                           % ('accepted' if r else 'rejected', 'holds' if q == E else 'does not hold', n, what))
        if n <= 8:
            def probe(o):
                S2 = Sample(ctx.seed, ints, dict(over, **dict(good, **resolve(o, F))))
                S2.eqs = {}
                S2.ev(ip.ver)
                return S2.eqs
            pprobe = lambda o: probe(dict({'P': F('P')}, **o))
            cands = [(x, x, (), F(x)) for x in ('P', 'Q', 'pa', 'pb')]
            cands += [('%s[%d]' % (x, j), x, (j,), F(x, j)) for x, k in (('L', lg), ('R', lg), ('G', n), ('H', n), ('Gf', n), ('Hf', n))
                      for j in sorted({0, k - 1}) if k]
            for pr in (probe, pprobe):
                for lab, o, k in toward(pr, cands):
                    judged('%s such that what the verifier compares is equal' % lab, o)
            zero = lambda *xs: {x: (lambda *i: 0) if x in ('L', 'R', 'G', 'H', 'Gf', 'Hf') else 0 for x in xs}
            for xs in (('pa',), ('pb',), ('Q',), ('P',), ('L',), ('R',), ('L', 'R'), ('pa', 'pb'), ('pa', 'pb', 'Q'), ('G', 'H'), ('Gf', 'Hf'),
                       ('pa', 'pb', 'L', 'R')):
                judged('%s zero' % ', '.join(xs), zero(*xs))
            for x, y in (('L', 'R'), ('G', 'H'), ('Gf', 'Hf')):
                judged('%s equal to %s' % (x, y), {x: lambda i, y=y: F(y, i)})
            judged('pa equal to pb', {'pa': F('pb')})
    with ctx.guard('verification scalars'):
        over = {'CHAL': fixedchal(ctx.seed)}
        S = Sample(ctx.seed, ip.ints(n), over)
        r = S.ev(ip.vs)
        if r.vi == 0:
            tt = Sample(ctx.seed, ip.ints(n), over).ev(ip.vtrans)
            us = [HASH('fixed', ctx.seed, i, e[1]) % P for i, e in enumerate(tt) if e[0] == 'chal'][:lg]
            usq, uinv, s = r.fs[0].fs
            good = (list(usq) == [u * u % P for u in us] and list(uinv) == [pow(u * u % P, P - 2, P) for u in us]
                    and list(s)[:n] == svector(us, n))
            ctx.expect('verification scalars', 'ipp::IPP::verification_scalars', good,
                       'the squared challenges, their inverses or the folding vector are not those of the argument (size %d)' % n)


@check('C12', None)
def c12(ctx, W):
    """the inner-product argument"""
    ip = get_ipp(W)
    cs = mine.literals(W, ip.keys) | {c for c in mine.consts(ip.proof, ip.ptrans, ip.ver, ip.vtrans, ip.vs) if c > 40}
    zs = [z for z in mine.around(cs, 0, 4096)]
    pw = {1 << (z - 1).bit_length() for z in zs if 16 < z <= (1024 if ctx.thorough else 256)}
    # a small constant may count rounds
    pw |= {1 << (z + d) for z in cs if 4 < z <= 11 for d in (1, 2)}
    sizes = sorted(set(SIZES) | {32, 64, 256} | pw | {2 * x for x in pw if x < 256})
    ctx.parallel([lambda c, n=n: ipp_size(c, ip, n, zs) for n in sizes])
    ctx.floor('honest argument accepted', 5)
    ctx.floor('acceptance', 100)
    ctx.floor('verification scalars', 5)

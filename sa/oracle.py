"""Reference semantics, written from the protocol's documentation (not from the code under
analysis): the constraint system the client builds, as plain data, and the protocol's equations."""
from .vdg import P
from .evalr import SV, Sample, Tag, H
from .core import VAR

LEFT, RIGHT, OUT, COMM, ONEV = 'L', 'R', 'O', 'V', '1'


class Ref(object):
    """the statement (and assignment) denoted by a sequence of API calls"""

    def __init__(self, W, counts, seed, ncb):
        self.W, self.c, self.seed, self.ncb = W, counts, seed, ncb
        self.aL, self.aR, self.aO, self.v, self.vb = [], [], [], [], []
        self.cons = []
        self.pending = None
        self.n1 = None
        self.ret = {k: [] for k in ('V', 'A1', 'M1', 'S1', 'B1', 'U1', 'A2', 'M2', 'S2', 'B2', 'U2', 'E1', 'E2')}
        vs = [x['n'] for x in W.prog.adts[VAR]['vs']]
        self.vi = {LEFT: vs.index('MultiplierLeft'), RIGHT: vs.index('MultiplierRight'),
                   OUT: vs.index('MultiplierOutput'), COMM: vs.index('Committed'), ONEV: vs.index('One')}
        self.over = {}
        self.lcs = {}
        self.sample = Sample(seed)
        for nm in ('ml', 'mr', 'nl', 'nr', 'cc', 'ee'):
            for ph in '12':
                self._lcover(nm + ph)
        if counts.get('Z') or counts.get('D'):
            for nm in ('aL1', 'aR1', 'as1', 'au1', 'aL2', 'aR2', 'as2', 'au2', 'v', 'vb', 'asx', 'aLx', 'aRx'):
                self.over[nm] = lambda *ix, nm=nm: self.F(nm, *ix)
        self.over['rzx'] = lambda c: self.val(self.rz[c])
        self.over['rz.v'] = lambda: self.sv(self.rz[0])
        self.over['rz.val'] = lambda: self.val(self.rz[0])

    def F(self, name, *idx):
        z = self.c.get('Z')
        d = self.c.get('D')
        if d and name in ('v', 'vb') and (d == 1 or idx[0] % 2 == 0):
            # the same commitment several times, or a commitment to zero with no blinding
            return 0 if d == 2 else self.sample.symbol(name, 'F', (0,))
        if z:
            # special values: small ones, their negatives, repeated ones
            h = H('special', self.seed, z, name, idx)
            if h % 3:
                return (0, 1, P - 1, 2, 0, 1, self.sample.symbol('again', 'F', ()))[(h >> 8) % 7]
        return self.sample.symbol(name, 'F', idx)

    def sv(self, v):
        k, i = v
        return SV(VAR, self.vi[k], (i,) if k != ONEV else ())

    def _lcover(self, nm):
        self.over[nm + '.v'] = lambda *ix: self.sv(self.lcs[nm, ix[:-1]][ix[-1]][0])
        self.over[nm + '.c'] = lambda *ix: self.lcs[nm, ix[:-1]][ix[-1]][1]
        self.over['#' + nm] = lambda *ix: len(self.lcs[nm, ix])

    def val(self, v):
        k, i = v
        return {LEFT: self.aL, RIGHT: self.aR, OUT: self.aO, COMM: self.v}[k][i] if k != ONEV else 1

    def evlc(self, lc):
        return sum(self.val(v) * c for v, c in lc) % P

    def rndvar(self, *key):
        n, m = len(self.aL), len(self.v)
        h = H('rv', self.seed, key)
        opts = [(ONEV, 0)]
        if m:
            opts.append((COMM, (h >> 8) % m))
        if n:
            opts.append((LEFT, (h >> 16) % n))
            # the right input and output of a half-assigned gate have not been handed out yet
            done = [i for i in range(n) if i != self.pending]
            if done:
                opts += [(RIGHT, done[(h >> 24) % len(done)]), (OUT, done[(h >> 32) % len(done)])]
        return opts[h % 251 % len(opts)]

    def mklc(self, nm, j, zero=False):
        if self.c.get('K') and nm[:2] == 'cc' and j == 0:
            # a constraint of a single term, satisfied or not
            v = [(ONEV, 0), (COMM, 0), (LEFT, 0), (RIGHT, 0), (OUT, 0), None][self.c['K'] - 1]
            lc = [(v, self.F(nm + '.cf', j, 0))] if v else []
            self.lcs[nm, (j,)] = lc
            return lc
        k = H('lcn', self.seed, nm, j) % 4
        if self.c.get('T') and j == 0:
            k = self.c['T']
        elif len(self.cons) > 2000:
            k = 1
        lc = []
        for t in range(k):
            lc.append((self.rndvar(nm, j, t), self.F(nm + '.cf', j, t)))
        if k >= 2 and H('dup', self.seed, nm, j) % 2:
            lc.append((lc[0][0], self.F(nm + '.cf', j, 99)))      # repeated variable
        if zero:
            # make it satisfied: close with the constant, sometimes with another variable
            lc.append(((ONEV, 0), -self.evlc(lc) % P))
        self.lcs[nm, (j,)] = lc
        return lc

    # -------------------------------------------------------------- API semantics
    def commit(self, j):
        self.v.append(self.F('v', j))
        self.vb.append(self.F('vb', j))
        self.ret['V'].append((COMM, j))

    def gate(self, l, r):
        self.aL.append(l % P)
        self.aR.append(r % P)
        self.aO.append(l * r % P)
        i = len(self.aL) - 1
        return ((LEFT, i), (RIGHT, i), (OUT, i))

    def mult(self, ll, rl):
        g = self.gate(self.evlc(ll), self.evlc(rl))
        self.cons.append(list(ll) + [(g[0], P - 1)])
        self.cons.append(list(rl) + [(g[1], P - 1)])
        return g

    def alloc(self, x):
        if self.pending is None:
            self.gate(x, 0)
            self.pending = len(self.aL) - 1
            return (LEFT, self.pending)
        i = self.pending
        self.pending = None
        self.aR[i] = x
        self.aO[i] = self.aL[i] * x % P
        return (RIGHT, i)

    def phase(self, ph):
        s = str(ph)
        c = self.c
        for j in range(c.get('A' + s, 0)):
            self.ret['A' + s].append(self.gate(self.F('aL' + s, j), self.F('aR' + s, j)))
        for j in range(c.get('M' + s, 0)):
            self.ret['M' + s].append(self.mult(self.mklc('ml' + s, j), self.mklc('mr' + s, j)))
        for j in range(c.get('S' + s, 0)):
            self.ret['S' + s].append(self.alloc(self.F('as' + s, j)))
        for j in range(c.get('B' + s, 0)):
            self.ret['B' + s].append(self.mult(self.mklc('nl' + s, j), self.mklc('nr' + s, j)))
        for j in range(c.get('U' + s, 0)):
            v = self.alloc(self.F('au' + s, j))
            self.ret['U' + s].append((v, (OUT, v[1]) if v[0] == RIGHT else None))
        for j in range(c.get('C' + s, 0)):
            self.cons.append(self.mklc('cc' + s, j, True))
        for j in range(c.get('E' + s, 0)):
            self.ret['E' + s].append(self.evlc(self.mklc('ee' + s, j)))

    def run(self):
        for j in range(self.c.get('V', 0)):
            self.commit(j)
        self.phase(1)
        self.n1 = len(self.aL)
        self.pending = None
        if self.ncb:
            self.phase(2)
            self.rz = (self.rndvar('rz'),)
            for c in range(1, self.ncb):
                self.alloc(self.F('asx', c))
                self.gate(self.F('aLx', c), self.F('aRx', c))
                self.rz += ((LEFT, len(self.aL) - 1),)
        else:
            self.rz = ((ONEV, 0),)
        self.n2 = len(self.aL) - self.n1
        self.n = len(self.aL)
        self.pad = 1 if self.n <= 1 else 1 << (self.n - 1).bit_length()
        return self

    def randomised(self, zz):
        """the client's challenge-dependent constraints, one in every callback"""
        for v, z in zip(self.rz, zz[:self.ncb]):
            self.cons.append([(v, z), ((ONEV, 0), -z * self.val(v) % P)])

    def ints(self):
        d = {}
        for ph in '12':
            for k in 'AMSBUCE':
                d['k' + k + ph] = self.c.get(k + ph, 0)
        d['kV'] = self.c.get('V', 0)
        for nm in ('ml', 'mr', 'nl', 'nr', 'cc', 'ee'):
            for ph in '12':
                d['#' + nm + ph] = self.over['#' + nm + ph]
        d['#G'] = self.c.get('G', self.pad)
        d['#H'] = self.c.get('H', self.pad)
        return d


def weights(ref, z):
    """(wL, wR, wO, wV, wc): the constraint matrices combined with z, z^2, ..."""
    n, m = ref.n, len(ref.v)
    wL, wR, wO, wV, wc = [0] * n, [0] * n, [0] * n, [0] * m, 0
    e = z
    for lc in ref.cons:
        for (k, i), c in lc:
            if k == LEFT:
                wL[i] += e * c
            elif k == RIGHT:
                wR[i] += e * c
            elif k == OUT:
                wO[i] += e * c
            elif k == COMM:
                wV[i] -= e * c
            else:
                wc -= e * c
        e = e * z % P
    f = lambda xs: [x % P for x in xs]
    return f(wL), f(wR), f(wO), f(wV), wc % P


def svector(us, n):
    """the inner-product argument's folding exponents, challenges in creation order"""
    k = len(us)
    out = []
    for i in range(n):
        r = 1
        for j in range(k):
            bit = (i >> (k - 1 - j)) & 1
            r = r * (us[j] if bit else pow(us[j], P - 2, P)) % P
        out.append(r)
    return out


PROOFPTS = ('A_I1', 'A_O1', 'S1', 'A_I2', 'A_O2', 'S2', 'T_1', 'T_3', 'T_4', 'T_5', 'T_6')


def residuals(ref, ch, pr, V, g, h, G, H):
    """(E_P, E_t): both are the identity exactly for the proofs the protocol accepts.
    ch: dict of challenges y, z, u, x, w and the list ipp; pr: proof components by name"""
    y, z, u, x, w = (ch[k] for k in 'yzuxw')
    wL, wR, wO, wV, wc = weights(ref, z)
    n, N = ref.n, ref.pad
    yi = pow(y, P - 2, P)
    s = svector(ch['ipp'], N)
    a, b = pr['a'], pr['b']
    x2, x3 = x * x % P, x * x * x % P
    E = x * pr['A_I1'] + x2 * pr['A_O1'] + x3 * pr['S1'] + u * (x * pr['A_I2'] + x2 * pr['A_O2'] + x3 * pr['S2'])
    E += w * (pr['t_x'] - a * b) * g - pr['e_blinding'] * h
    e = 1
    delta = 0
    for i in range(N):
        l, r, o = (wL[i], wR[i], wO[i]) if i < n else (0, 0, 0)
        f = 1 if i < ref.n1 else u
        E += f * (x * e * r - a * s[i]) * G[i]
        E += f * (e * (x * l + o - b * s[N - 1 - i]) - 1) * H[i]
        delta += e * r * l
        e = e * yi % P
    for c, L, R in zip(ch['ipp'], pr['L'], pr['R']):
        E += c * c * L + pow(c * c % P, P - 2, P) * R
    t = x2 * sum(p * q for p, q in zip(wV, V)) + x * pr['T_1']
    for k in (3, 4, 5, 6):
        t += pow(x, k, P) * pr['T_%d' % k]
    t += (x2 * (wc + delta) - pr['t_x']) * g - pr['t_x_blinding'] * h
    return E % P, t % P

"""The gadgets: what the constraint systems they build enforce."""
import random
from ..registry import check
from ..core import *
from ..gadget import *
from ..circuit import System, Solver
from .. import vdg, mine

G = 'r1cs::gadgets::'
FE_ = ('adt', FE, ())
U64 = ('int', 'u64')
VEC = 'alloc::vec::Vec'


def prf(*xs):
    return HASH(*xs) % P


from ..evalr import H as HASH


# ------------------------------------------------------------------------------------ references
def sbox(kind, x):
    if kind == 'Cube':
        return pow(x, 3, P)
    if kind == 'Quint':
        return pow(x, 5, P)
    return pow(x, P - 2, P)


def permutation(state, prm, kind):
    w = len(state)
    st = [x % P for x in state]
    rk = iter(range(10 ** 6))
    fb, pr, fe = prm['fb'], prm['pr'], prm['fe']
    for r in range(fb + pr + fe):
        st = [(x + prm['rk'](next(rk))) % P for x in st]
        if fb <= r < fb + pr:
            st[-1] = sbox(kind, st[-1])
        else:
            st = [sbox(kind, x) for x in st]
        st = [sum(st[j] * prm['mds'](j, i) for j in range(w)) % P for i in range(w)]
    return st


def hash_n(inputs, prm, kind):
    return permutation([0] + list(inputs), prm, kind)[1]


def mimc(l, r, cs):
    for c in cs:
        l, r = (pow(l + c, 3, P) + r) % P, l
    return l


# ------------------------------------------------------------------------------------ specification
class Case(object):
    """a statement: public parameters, the values of the committed statement wires, and whether the
    statement is true"""

    def __init__(self, what, true, ints=None, over=None, roles=None, probe=False, free=None):
        """free: (public output, its one right value or None) - any other value of the output, with
        the committed values given, makes the statement false"""
        self.what, self.true, self.free = what, true, free
        self.ints, self.over, self.roles = dict(ints or {}), dict(over or {}), dict(roles or {})
        self.probe = probe


def total(name, f):
    """some value outside the range too"""
    if not callable(f):
        return f

    def g(*idx):
        try:
            return f(*idx)
        except IndexError:
            return prf('outside', name, idx)
    return g


class Gadget(object):
    ncom = None
    rhoidx = 1
    statics = False

    def __init__(self, W):
        self.W = W

    def ss(self, n, t=FE_):
        return self.W.symseq(n, t)

    def tail(self):
        return [BY(b'label'), sym('g', 'F'), sym('h', 'F'), self.ss('G'), self.ss('H')]

    def com(self):
        return [sym('pf', 'tag'), self.ss('com')]

    def runs(self):
        if not hasattr(self, '_runs'):
            R = Recorder(self.W)
            p = R.call(G + self.gen, self.genargs() + self.tail(), self.genv())
            v = R.call(G + self.ver, self.verargs() + self.tail())
            self._runs = p, v
            self.R = R
        return self._runs

    def genv(self):
        return {}

    def mined(self, lo, hi, cap=24):
        """sizes around the integer constants of the code of this gadget"""
        if not hasattr(self, '_mined'):
            p, v = self.runs()
            cs = mine.literals(self.W, [k for k in self.R.I.calls_seen if not k.startswith('#')])
            cs |= {c for c in mine.consts(p.result, p.done, p.panic, v.result, v.done, v.panic) if 40 < c < 10 ** 6}
            self._mined = cs
        out = mine.around(self._mined, lo, hi)
        return out if len(out) <= cap else out[:cap // 2] + out[-cap // 2:]

    def sample(self, case, seed, ints=None, over=None, rseed=0):
        i = {'prove succeeds': 1, 'verify accepts': 1, 'rho?': 1, 'prove error': 99, 'verify error': 99}
        i.update(case.ints)
        i.update(ints or {})
        o = {k: total(k, f) for k, f in case.over.items()}
        o.update(over or {})
        GSample.W = self.W
        return GSample(seed, i, o, rseed=rseed)

    def role_of(self, sys, S):
        """statement role -> committed wire, from the randomness the prover was given"""
        out = {}
        for j, b in enumerate(sys.blind):
            for k in range(16):
                for nm, idx in (('rho', ()), ('rho', (k,))):
                    if b is not None and b == S.symbol(nm, 'F', idx):
                        out['rho' if idx == () else 'rho%d' % k] = ('C', j)
        return out


class Bound(Gadget):
    name = 'bound check'
    gen = 'bound_check::gen_proof_of_bounded_num'
    ver = 'bound_check::verify_proof_of_bounded_num'
    sub = 'bound_check::prove_bounded_num', 'bound_check::verify_bounded_num'

    def genargs(self):
        return [sym('val', 'I'), some(sym('rho', 'F')), sym('lo', 'I'), sym('hi', 'I'), sym('bits', 'I'), NONE]

    def verargs(self):
        return [sym('lo', 'I'), sym('hi', 'I'), sym('bits', 'I')] + self.com()

    def groups(self, seed, thorough):
        rows = [(1, 0, 1), (2, 3, 5), (3, 0, 7), (3, 3, 7), (4, 10, 20), (2, 6, 6), (2, 0, 9), (3, 2 ** 40, 2 ** 40 + 6)]
        if thorough:
            rows += [(4, 0, 15), (4, 1, 16), (5, 7, 30), (5, 100, 131), (3, 2 ** 64 - 8, 2 ** 64 - 1)]
        for bits, lo, hi in rows:
            pub = {'lo': lo, 'hi': hi, 'bits': bits}
            vs = list(range(lo - 3, hi + 4)) + [lo + 2 ** bits, hi - 2 ** bits, prf('v', seed, lo), P // 2]
            cs = []
            for v in dict.fromkeys(vs):
                t = lo <= v <= hi and v - lo < 2 ** bits and hi - v < 2 ** bits
                cs.append(Case('v=%d in [%d,%d], %d bits' % (v, lo, hi, bits), t, dict(pub, val=v), {}, {'rho': v % P}))
            yield cs
        big = [(32, 0, 2 ** 32 - 1), (64, 0, 2 ** 64 - 1), (64, 2 ** 63, 2 ** 64 - 1), (40, 1000, 2 ** 40)]
        for z in self.mined(6, 64):
            big += [(z, 5, 2 ** z - 1), (z, 2 ** z - 2 ** (z // 2), 2 ** z - 1)]
        for bits, lo, hi in dict.fromkeys(big):
            pub = {'lo': lo, 'hi': hi, 'bits': bits}
            cs = []
            for v in (lo, hi, (lo + hi) // 2, lo + HASH(seed, 'b') % (hi - lo), hi + 1, lo - 1, lo + 2 ** bits, hi - 2 ** bits,
                      lo + 2 ** (bits - 1), hi + 2 ** (bits - 1), prf(seed, 'w', bits)):
                t = lo <= v <= hi and v - lo < 2 ** bits and hi - v < 2 ** bits
                cs.append(Case('v=%d in [%d,%d], %d bits' % (v, lo, hi, bits), t, dict(pub, val=v), {}, {'rho': v % P}))
            yield cs


class SetGadget(Gadget):
    def genargs(self):
        return [sym('val', 'F'), some(sym('rho', 'F')), self.ss('set'), NONE]

    def verargs(self):
        return [self.ss('set')] + self.com()

    def groups(self, seed, thorough):
        plan = [(k, '') for k in (0, 1, 2, 3, 5, 8, 17, 33)] + [(k, d) for k in (2, 3, 4) for d in ('equal', 'zeros')] + [(4, 'ends')]
        plan += [(k, '') for k in self.mined(6, 300)] + ([(k, d) for k in (6, 70) for d in ('', 'equal', 'ends')] if thorough else [])
        for k, d in dict.fromkeys(plan):
            st = [prf(seed, 'set', k, i) for i in range(k)]
            if k == 3 or d == 'zeros':
                st[1] = 0
            if d == 'zeros':
                st[-1] = 0
            if d == 'equal':
                st[1] = st[0]
            if d == 'ends':
                st[-1] = st[0]
            ov = lambda x, st=st: {'set': lambda i: st[i], 'val': x % P}
            cs = []
            vs = (list(st) if k < 9 else [st[0], st[1], st[k // 2], st[-2], st[-1], st[HASH(seed, k) % k]]) + [prf(seed, 'out', k), 0, 1, P - 1]
            if k > 1:
                vs += [st[0] + st[1], st[0] * st[1] % P, P - st[0]]
            for v in dict.fromkeys(x % P for x in vs):
                cs.append(Case('value %s the set of %d' % ('in' if v in st else 'outside', k), self.spec(v in st),
                               {'#set': k}, ov(v), {'rho': v}))
            yield cs


class SetMembership(SetGadget):
    name = 'set membership'
    gen = 'set_membership::gen_proof_of_set_membership'
    ver = 'set_membership::verify_proof_of_set_membership'
    sub = 'set_membership::prove_set_membership', 'set_membership::verify_set_membership'

    def spec(self, i):
        return i


class SetNonMembership(SetGadget):
    name = 'set non-membership'
    gen = 'set_non_membership::gen_proof_of_set_non_membership'
    ver = 'set_non_membership::verify_proof_of_set_non_membership'
    sub = 'set_non_membership::prove_set_non_membership', 'set_non_membership::verify_set_non_membership'

    def spec(self, i):
        return not i


class SetAlt(Gadget):
    name = 'set membership by bitmap'
    gen = 'set_membership_alt::gen_proof_of_set_membership_alt'
    ver = 'set_membership_alt::verify_proof_of_set_membership_alt'
    sub = 'set_membership_alt::prove_set_membership_alt', 'set_membership_alt::verify_set_membership_alt'

    def genargs(self):
        return [sym('val', 'I'), some(sym('rho', 'F')), self.ss('set', U64), NONE]

    def verargs(self):
        return [self.ss('set', U64)] + self.com()

    def groups(self, seed, thorough):
        sets = [[], [5], [0, 9], [3, 7, 20], [0, 1, 2, 3], [2 ** 64 - 1, 17, 2 ** 40]]
        if thorough:
            sets += [[11, 4, 90, 7, 1], [HASH(seed, 's', i) % 2 ** 64 for i in range(6)]]
        for k in [8, 16, 33] + self.mined(6, 200) + ([70] if thorough else []):
            sets.append([HASH(seed, 's', k, i) % 2 ** 64 for i in range(k)])
        for st in sets:
            vs = (list(st) if len(st) < 9 else [st[0], st[-1], st[-2], st[len(st) // 2]]) + [1, 2, 6, 0]
            if len(st) > 1:
                vs += [st[0] + st[1], st[1] - st[0], (st[0] + st[1]) * pow(2, -1, P) % P, sum(st), prf(seed, 'alt')]
            cs = []
            for v in dict.fromkeys(x % P for x in vs):
                cs.append(Case('value %d, set %s' % (v, st), v in st, {'#set': len(st), 'set': lambda i, st=st: st[i], 'val': v},
                               {}, {'rho': v}))
            yield cs


class NonZero(Gadget):
    name = 'non-zero'
    gen = 'non_zero::gen_proof_of_non_zero_val'
    ver = 'non_zero::verify_proof_of_non_zero_val'
    sub = 'non_zero::prove_non_zero_val', 'non_zero::verify_non_zero_val'

    def genargs(self):
        return [sym('val', 'F'), some(sym('rho', 'F')), NONE]

    def verargs(self):
        return self.com()

    def groups(self, seed, thorough):
        yield [Case('value %d' % v, v != 0, {}, {'val': v}, {'rho': v}) for v in (1, 0, P - 1, 2, prf(seed, 'nz'))]


class Hamming(Gadget):
    name = 'Hamming distance'
    rhoidx = None
    gen = 'hamming_distance::gen_proof_for_hamming_distance'
    ver = 'hamming_distance::verify_proof_for_hamming_distance'
    sub = 'hamming_distance::prove_hamming_distance', 'hamming_distance::verify_hamming_distance'

    def genargs(self):
        return [self.ss('orig'), self.ss('new'), sym('cnt', 'I')]

    def verargs(self):
        return [self.ss('new'), sym('cnt', 'I')] + self.com()

    def role_of(self, sys, S):
        out = {}
        for j in range(sys.ncommits):
            for k in range(S.ints['#orig']):
                # equal values: in order
                if 'orig%d' % k not in out and sys.vals[('C', j)] == S.symbol('orig', 'F', (k,)):
                    out['orig%d' % k] = ('C', j)
                    break
        return out

    def groups(self, seed, thorough):
        plan = [(0, []), (1, []), (1, [0]), (3, [1]), (4, [0, 2, 3]), (3, []), (2, [0, 1])]
        for k in [9, 17] + self.mined(6, 130) + ([40] if thorough else []):
            plan += [(k, [0, k - 1]), (k, list(range(1, k))), (k, [k // 2])]
        plan = [(k, d, None, None) for k, d in plan]
        # small and special values, differing by one; zeros; the same values in another order
        r = [prf(seed, 'sp', i) for i in range(4)]
        for orig, new in (([0, 1, P - 1, 2], [1, 1, 1, 3]), (r[:3], [0, r[1], 0]), ([0] * 4, [0, r[0], 0, 0]), ([0, 0], r[:2]),
                          (r[:3], [1, 1, P - 1]), (r[:4], [r[1], r[0], r[2], r[3]]), (r[:3], [r[2], r[0], r[1]]), ([r[0]] * 4, [r[0]] * 3 + [r[1]]),
                          ([r[0]], [P - r[0]]), ([r[0], r[1]], [r[0] + 1, r[1] - 1]), (r[:2], [0, 0]), ([1 << 64, 5], [5, 1 << 64])):
            plan.append((len(orig), [i for i in range(len(orig)) if orig[i] != new[i]], orig, new))
        for k, diff, orig, new in plan:
            cs = []
            if orig is None:
                orig = [prf(seed, 'o', k, i) for i in range(k)]
                new = [prf(seed, 'n', i) if i in diff else orig[i] for i in range(k)]
            far = [len(diff) + 2 ** w for w in (8, 16, 32, 58, 63)] if k in (1, 4) else []
            for cnt in [len(diff)] + far + [c for c in (range(k + 2) if k < 6 else (0, len(diff) - 1, len(diff) + 1, k, k + 1)) if c != len(diff)]:
                cs.append(Case('%d of %d values differ, claimed %d' % (len(diff), k, cnt), cnt == len(diff),
                               {'#orig': k, '#new': k, 'cnt': cnt},
                               {'orig': lambda i, o=orig: o[i], 'new': lambda i, o=new: o[i]},
                               {'orig%d' % i: orig[i] for i in range(k)}))
            yield cs


class Mimc(Gadget):
    name = 'MiMC preimage'
    gen = 'mimc::gen_proof_of_knowledge_of_preimage_of_mimc'
    ver = 'mimc::verify_knowledge_of_preimage_of_mimc'
    sub = 'mimc::prove_mimc_preimage', 'mimc::verify_mimc_preimage'

    def genargs(self):
        return [self.ss('inp'), some(self.ss('rho')), sym('out', 'F'), self.ss('rc'), sym('rounds', 'I'), NONE]

    def verargs(self):
        return [sym('out', 'F'), self.ss('rc'), sym('rounds', 'I')] + self.com()

    def groups(self, seed, thorough):
        for n in sorted({1, 2, 3, 5, 20, 64} | set(self.mined(6, 400, 12)) | ({110, 322} if thorough else set())):
            rc = [prf(seed, 'rc', i) for i in range(n)]
            l, r = prf(seed, 'l'), prf(seed, 'r')
            t = mimc(l, r, rc)
            cs = []
            for out, what in ((t, 'the image'), (prf(seed, 'o'), 'another value'), (mimc(r, l, rc), 'the image of the swapped inputs'),
                              (0, 'zero'), (mimc(l, r, rc[:-1]), 'the image under one round less')):
                cs.append(Case('%s, %d rounds' % (what, n), out == t, {'#inp': 2, '#rho': 2, '#rc': n, 'rounds': n},
                               {'inp': lambda i: (l, r)[i], 'rc': lambda i, rc=rc: rc[i], 'out': out}, {'rho0': l, 'rho1': r}))
            c = cs[0]
            cs.append(Case('any output but the image, %d rounds' % n, False, c.ints, c.over, c.roles, free=('out', t)))
            yield cs


class WithParams(Gadget):
    statics = True
    kind = 'Quint'
    width = 3

    def params(self):
        return self.W.mksym('pp', ('adt', self.W.adt('PoseidonParams'), ()))

    def sbox(self):
        a = self.W.adt('SboxType')
        return struct(a, self.W.variant(a, self.kind))

    def prm(self, seed, fb, pr, fe):
        w = self.width
        return {'fb': fb, 'pr': pr, 'fe': fe, 'w': w, 'rk': lambda i: prf(seed, 'rk', i), 'mds': lambda i, j: prf(seed, 'mds', i, j)}

    def pints(self, m):
        n = (m['fb'] + m['pr'] + m['fe']) * m['w']
        return {'pp.width': m['w'], 'pp.full_rounds_beginning': m['fb'], 'pp.full_rounds_end': m['fe'], 'pp.partial_rounds': m['pr'],
                '#pp.round_keys': n, '#pp.MDS_matrix': m['w']}

    def pover(self, m):
        return {'pp.round_keys': m['rk'], 'pp.MDS_matrix': m['mds']}


class Poseidon(WithParams):
    def __init__(self, W, k, kind):
        WithParams.__init__(self, W)
        self.k, self.kind, self.width = k, kind, k + 1
        self.name = 'Poseidon %d:1 preimage, %s S-box' % (k, kind)
        self.gen = 'poseidon_hash::gen_proof_of_knowledge_of_preimage_of_Poseidon_%d' % k
        self.ver = 'poseidon_hash::verify_proof_of_knowledge_of_preimage_of_Poseidon_%d' % k
        self.sub = tuple('poseidon_hash::%s_knowledge_of_preimage_of_Poseidon_%d' % (x, k) for x in ('prove', 'verify'))

    def genargs(self):
        return [self.ss('inp'), some(self.ss('rho')), sym('out', 'F'), self.params(), self.sbox(), NONE]

    def verargs(self):
        return [sym('out', 'F'), self.params(), self.sbox()] + self.com()

    def groups(self, seed, thorough):
        rounds = [(1, 1, 1), (2, 3, 2)]
        rounds += [(4, 4, 4)]
        if self.k == 2:
            rounds += [(z // 2, 1, z - z // 2) for z in self.mined(9, 40, 6)] + [(1, z, 1) for z in self.mined(4, 55, 6)]
            if self.kind == 'Quint':
                rounds += [(4, 56, 4)]
        if thorough:
            rounds += [(1, 0, 1), (0, 2, 1), (4, 5, 4), (3, 0, 0)]
        for fb, pr, fe in rounds:
            m = self.prm(seed, fb, pr, fe)
            x = [prf(seed, 'x', i) for i in range(self.k)]
            t = hash_n(x, m, self.kind)
            cs = []
            y = [x[1], x[0]] + x[2:]
            z = [x[0] + 1] + x[1:]
            full = permutation([0] + x, m, self.kind)
            for out, what in ((t, 'the hash'), (prf(seed, 'o'), 'another value'), (hash_n(y, m, self.kind), 'the hash of permuted inputs'),
                              (hash_n(z, m, self.kind), 'the hash of other inputs'), (full[0], 'another state element')):
                if fb + pr + fe > 20 and what not in ('the hash', 'the hash of other inputs'):
                    continue
                cs.append(Case('%s, rounds %d+%d+%d' % (what, fb, pr, fe), out == t,
                               dict(self.pints(m), **{'#inp': self.k, '#rho': self.k}),
                               dict(self.pover(m), inp=lambda i, x=x: x[i], out=out),
                               {'rho%d' % i: x[i] for i in range(self.k)}))
            if fb + pr + fe <= 20:
                c = cs[0]
                cs.append(Case('any output but the hash, rounds %d+%d+%d' % (fb, pr, fe), False, c.ints, c.over, c.roles, free=('out', t)))
            if (fb, pr, fe) == rounds[0]:
                k = self.k
                zero = (P - m['rk'](1)) % P
                for x, what in (([0] * k, 'all zero'), ([1] * k, 'all one'), ([P - 1] + [0] * (k - 1), 'minus one and zero'), ([x[0]] * k, 'all the same'),
                                ([zero] + x[1:], 'making an S-box input zero')):
                    t = hash_n(x, m, self.kind)
                    ov, ro = dict(c.over, inp=lambda i, x=x: x[i], out=t), {'rho%d' % i: x[i] for i in range(k)}
                    sz = what.startswith('making') and self.kind == 'Inverse'
                    if not sz:
                        cs.append(Case('the hash, inputs ' + what, True, c.ints, ov, ro))
                    cs.append(Case('any output but the hash, inputs ' + what, False, c.ints, ov, ro, free=('out', t)))
                    cs[-1].partial = sz         # an S-box input of zero has no inverse: no output is proved
            yield cs


class Merkle(WithParams):
    rhoidx = 2

    def __init__(self, W, k, kind='Quint'):
        WithParams.__init__(self, W)
        self.k, self.width, self.kind = k, k + 1, kind
        self.name = '%d-ary Merkle tree membership' % k + ('' if kind == 'Quint' else ', %s S-box' % kind)
        m = 'sparse_merkle_tree_%d_ary::' % k
        self.gen = m + 'gen_proof_of_leaf_inclusion_%d_ary_merkle_tree' % k
        self.ver = m + 'verify_proof_of_leaf_inclusion_%d_ary_merkle_tree' % k
        self.sub = tuple(m + '%s_leaf_inclusion_%d_ary_merkle_tree' % (x, k) for x in ('prove', 'verify'))

    def genargs(self):
        return [sym('leaf', 'F'), sym('idx', 'F'), some(self.ss('rho')), self.ss('mp', ('array', FE_, self.k - 1)), sym('root', 'F'),
                sym('depth', 'I'), self.params(), self.sbox(), NONE]

    def verargs(self):
        return [sym('root', 'F'), sym('depth', 'I'), self.params(), self.sbox()] + self.com()

    def role_of(self, sys, S):
        out = Gadget.role_of(self, sys, S)
        for j in range(sys.ncommits):
            for lvl in range(S.ints['#mp']):
                for c in range(self.k - 1):
                    if sys.vals[('C', j)] == S.symbol('mp', 'F', (lvl, c)) and 'mp%d.%d' % (lvl, c) not in out and ('C', j) not in out.values():
                        out['mp%d.%d' % (lvl, c)] = ('C', j)
        return out

    def root(self, leaf, idx, sib, depth, m):
        """sib[level] from the root down; the digit of the top level is the most significant"""
        cur = leaf
        for lvl in range(depth - 1, -1, -1):
            d = idx % self.k
            idx //= self.k
            ch = list(sib[lvl])
            ch.insert(d, cur)
            cur = hash_n(ch, m, self.kind)
        return cur

    def groups(self, seed, thorough):
        m = self.prm(seed, 1, 1, 1)
        k = self.k
        plan = [(1, range(k)), (2, (0, 1, k, k * k - 1, 2 * k + 3))] if k == 4 else [(1, range(k)), (2, (0, 5, k * k - 1, 3 * k + 6))]
        big = [(5, (0, 4 ** 5 - 1, 27, 612)), (12, (4 ** 12 - 1, 7654321))] if k == 4 else [(3, (0, 511, 83, 300)), (4, (77, 4000)), (8, (8 ** 8 - 2, 1234567))]
        if thorough:
            plan += [(3, (0, 5, 27, 63, 38))]
            big += [(20, (k ** 20 - 1, HASH(seed, 'ix') % k ** 20))]
        for z in self.mined(5, 40 if thorough else 33, 12):
            big.append((z, (k ** z - 1, HASH(seed, 'ix', z) % k ** z)))
        for depth, idxs in list(plan) + list(big):
            small = (depth, idxs) in plan
            n = k ** depth
            bad = {1: [n, n + 1, P - 1, P // 2], 2: [n, n * (k - 1) + 3, P - 1, (P + 1) // 2]}.get(depth, [n, HASH(seed, 'oi') % n + n])
            for idx in list(idxs) + bad:
              cs = []
              for special in (None, 'zero leaf', 'zero siblings', 'siblings one', 'siblings like the leaf') if depth == 2 and idx == 1 else (None,):
                leaf = prf(seed, 'leaf', idx)
                sib = [[prf(seed, 'sib', depth, idx, l, c) for c in range(k - 1)] for l in range(depth)]
                if special == 'zero leaf':
                    leaf = 0
                elif special:
                    sib = [[{'zero siblings': 0, 'siblings one': 1}.get(special, leaf)] * (k - 1) for l in range(depth)]
                ints = dict(self.pints(m), **{'#mp': depth, '#rho': 2, 'depth': depth})
                roles = {'rho0': leaf, 'rho1': idx}
                for l in range(depth):
                    for c in range(k - 1):
                        roles['mp%d.%d' % (l, c)] = sib[l][c]
                ov = dict(self.pover(m), mp=lambda i, j, s=sib: s[i][j])
                t = self.root(leaf, idx, sib, depth, m)
                inside = 0 <= idx < n
                if inside:
                    cs.append(Case('leaf at %d, depth %d%s' % (idx, depth, ', ' + special if special else ''), True, ints, dict(ov, leaf=leaf, idx=idx, root=t), roles))
                cs.append(Case('the root of the leaf at %d%s, depth %d' % (idx, '' if inside else ', outside the tree', depth), False, ints,
                               dict(ov, leaf=leaf, idx=idx % n, root=t), roles, free=('root', t if inside else None)))
              yield cs


# ------------------------------------------------------------------------------------ deciding
def open_statics(gad, case, vrun, n, seed):
    """committed wires of the verifier whose commitment it computes itself: their values"""
    key = (n, tuple(sorted((k, x) for k, x in case.ints.items() if isinstance(x, int) and k.startswith(('#', 'pp', 'depth', 'rounds')))))
    memo = gad.__dict__.setdefault('_statics', {})
    if key not in memo:
        memo[key] = open_statics_(gad, case, vrun, n, seed)
    return memo[key]


def open_statics_(gad, case, vrun, n, seed):
    outs = []
    for a in (1, 2):
        S = gad.sample(case, seed, {'#com': n}, {'com': lambda i, a=a: prf('com', a, i), 'g': 1, 'h': prf('hh', a)})
        log, res, pan = vrun.at(S)
        if log is None:
            return None
        outs.append(System(log))
    return {('C', j): x for j, (x, y) in enumerate(zip(outs[0].coms, outs[1].coms)) if x == y}


def instance(gad, case, ctx):
    """prover's system at a true statement"""
    p, v = gad.runs()
    S = gad.sample(case, ctx.seed)
    log, res, pan = p.at(S)
    return S, log, res, pan


def where(gad, which='gen'):
    return (gad.gen if which == 'gen' else gad.ver)


def freed(gad, case, vrun, ncom, seed):
    """the verifier's system with the public output as one more wire"""
    name = case.free[0]
    logs = []
    for x in (0, 1, prf('free', seed)):
        log, res, pan = vrun.at(gad.sample(case, seed, {'#com': ncom}, {name: x}))
        if log is None:
            return None, pan
        logs.append(System(log))
    a, b, c = logs
    z = prf('free', seed)
    sy = a
    if not (len(a.cons) == len(b.cons) == len(c.cons) and a.ngates == b.ngates == c.ngates and a.ncommits == b.ncommits == c.ncommits):
        raise Undecided('the constraints depend on the output in another way than linearly')
    w = ('C', a.ncommits)
    one = ('1',)
    for k, (r0, r1, r2) in enumerate(zip(a.cons, b.cons, c.cons)):
        if r0 == r1 == r2:
            continue
        for key in set(r0) | set(r1) | set(r2):
            d = (r1.get(key, 0) - r0.get(key, 0)) % P
            if (r0.get(key, 0) + d * z - r2.get(key, 0)) % P or (d and key[0] != '1'):
                raise Undecided('the constraints depend on the output in another way than linearly')
        k1 = next((x for x in list(r0) + list(r1) + list(r2) if x[0] == '1'), one)
        r0[w] = (r1.get(k1, 0) - r0.get(k1, 0)) % P
    sy.ncommits += 1
    return (sy, w), None


def decide(ctx, gad, complete=True, sound=True, part=None):
    p, v = gad.runs()
    for gi, cases in enumerate(gad.groups(ctx.seed, ctx.thorough)):
        if part is not None and gi % part[1] != part[0]:
            continue
        true = [c for c in cases if c.true]
        # the wires of the statement, from a prover of a true statement (or of any, where none is true)
        roles = None
        for c in true + [c for c in cases if not c.true]:
            nm = gad.name + '/completeness'
            got = False
            with ctx.guard(nm, gad.gen):
                S, log, res, pan = instance(gad, c, ctx)
                good = pan is None and isinstance(res, SV) and res.adt == RES and res.vi == 0 and log is not None
                if not good:
                    if c.true and complete:
                        ctx.violation(nm, where(gad), 'the prover of a true statement (%s) %s' % (
                            c.what, 'panics: %s' % pan if pan else 'returns an error'))
                    got = True
                else:
                    sy = System(log)
                    if roles is None:
                        roles = gad.role_of(sy, S)
                        ncom = len(list(res.fs[0].fs[1]))
                        missing = [r for r in c.roles if r not in roles]
                        if missing:
                            ctx.violation(gad.name + '/statement', where(gad), 'the prover does not commit to %s with the randomness it was given (%s)' % (
                                ', '.join(sorted(missing)), c.what))
                            return
                    if c.true and complete:
                        bad = sy.badwire()
                        k = None
                        if bad is None and not sy.unassigned():
                            k = sy.violated()
                        ctx.expect(nm, where(gad), bad is None and not sy.unassigned() and k is None,
                                   'true statement (%s): %s' % (c.what, 'constraint on a wire that is not allocated: %s' % (bad,) if bad else
                                                                'unassigned wires' if sy.unassigned() else
                                                                'the prover\'s assignment violates constraint %s: %s' % (k, showc(sy, k))))
                    got = True
            if not got and c.true:
                break
            if roles is not None and not (c.true and complete):
                break
        if not sound or roles is None:
            continue
        for c in cases:
            if c.free:
                nm = gad.name + '/soundness'
                with ctx.guard(nm, gad.ver):
                    st = open_statics(gad, c, v, ncom, ctx.seed)
                    f, pan = freed(gad, c, v, ncom, ctx.seed)
                    if f is None:
                        ctx.violation(nm, where(gad, 'ver'), 'the verifier %s for %s' % ('panics (%s)' % pan if pan else 'does not reach the verification', c.what))
                        continue
                    sy, w = f
                    known = {k: x for k, x in st.items() if k != w}
                    for r, x in c.roles.items():
                        known[roles[r]] = x % P
                    rnd = random.Random(ctx.seed)
                    so = Solver(sy, lambda: rnd.getrandbits(255), 6000)
                    verdict, sol = so.run(known, lambda a: a[w] != c.free[1])
                    if verdict == '?':
                        ctx.undecided(nm, sol)
                    else:
                        ctx.expect(nm, where(gad, 'ver'), verdict == 'no',
                                   lambda: 'the verifier\'s constraints are satisfied although the statement is false (%s): the public output can be %d, not %s' % (
                                       c.what, sol[w], c.free[1]))
                    if c.free[1] is not None and verdict == 'no' and not getattr(c, 'partial', False):
                        ctx.expect(gad.name + '/acceptance', where(gad, 'ver'), so.found > 0, 'the verifier\'s constraints exclude a true statement: ' + c.what)
                continue
            nm = gad.name + ('/soundness' if not c.probe else '/soundness (large sizes, bounded search)')
            if c.true:
                nm = gad.name + '/acceptance'
                if c.probe or (len(cases) == 2 and cases[1].free):
                    continue
            with ctx.guard(nm, gad.ver):
                st = open_statics(gad, c, v, ncom, ctx.seed)
                S = gad.sample(c, ctx.seed, {'#com': ncom})
                log, res, pan = v.at(S)
                if log is None:
                    ctx.violation(nm, where(gad, 'ver'), 'the verifier %s for %s' % ('panics (%s)' % pan if pan else 'does not reach the verification', c.what))
                    continue
                sy = System(log)
                known = dict(st)
                for r, x in c.roles.items():
                    known[roles[r]] = x % P
                rnd = random.Random(ctx.seed)
                verdict, w = Solver(sy, lambda: rnd.getrandbits(255), 150 if c.probe else 6000).run(known)
                if c.true:
                    if verdict == '?':
                        ctx.undecided(nm, w)
                    else:
                        ctx.expect(nm, where(gad, 'ver'), verdict == 'yes', 'the verifier\'s constraints exclude a true statement: ' + c.what)
                elif verdict == '?':
                    if c.probe:
                        ctx.ok(nm)
                    else:
                        ctx.undecided(nm, w)
                else:
                    ctx.expect(nm, where(gad, 'ver'), verdict == 'no',
                               lambda: 'the verifier\'s constraints are satisfied although the statement is false (%s); a satisfying assignment: %s' % (
                                   c.what, showa(w, sy)))
                ctx.sample('%s: %s' % (gad.name, c.what))


def showc(sy, k):
    if not isinstance(k, int):
        return str(k)
    return ' + '.join('%d*%s%s' % (a if a < P // 2 else a - P, w[0], w[1] if len(w) > 1 else '') for w, a in list(sy.cons[k].items())[:8])


def showa(w, sy):
    return ', '.join('%s%d=%d' % (a[0], a[1], v if v < P // 2 else v - P) for a, v in list(w.items())[:12])


def allgadgets(W, hashes=True):
    gs = [Bound(W), SetMembership(W), SetNonMembership(W), SetAlt(W), NonZero(W), Hamming(W), Mimc(W)]
    if hashes:
        gs += [Poseidon(W, k, s) for k in (2, 4, 8) for s in ('Cube', 'Inverse', 'Quint')]
        gs += [Merkle(W, 4), Merkle(W, 8)]
    return gs


def gadgets_parallel(ctx, gads, f):
    ctx.parallel([lambda c, g=g: f(c, g) for g in gads])


@check('C14', None)
def c14(ctx, W):
    decide(ctx, Bound(W))
    ctx.floor('bound check/completeness', 20)
    ctx.floor('bound check/soundness', 30)


@check('C15', None)
def c15(ctx, W):
    gs = (SetMembership(W), SetNonMembership(W), SetAlt(W), NonZero(W))
    gadgets_parallel(ctx, gs, decide)
    for g in gs:
        ctx.floor(g.name + '/completeness', 3)
        ctx.floor(g.name + '/soundness', 1)


@check('C16', None)
def c16(ctx, W):
    gs = [Poseidon(W, k, s) for k in (8, 4, 2) for s in ('Cube', 'Inverse', 'Quint')]
    gadgets_parallel(ctx, gs + [Mimc(W)], decide)
    for g in gs:
        ctx.floor(g.name, 6)
    ctx.floor('MiMC preimage/soundness', 8)


@check('C17', None)
def c17(ctx, W):
    jobs = []
    for k in (8, 4):
        for part in range(4):
            jobs.append(lambda c, g=Merkle(W, k), part=part: decide(c, g, part=(part, 4)))
        ctx.floor(Merkle(W, k).name + '/completeness', 8)
        ctx.floor(Merkle(W, k).name + '/soundness', 12)
    ctx.parallel(jobs)


@check('C18', None)
def c18(ctx, W):
    decide(ctx, Hamming(W))
    ctx.floor('Hamming distance/completeness', 5)
    ctx.floor('Hamming distance/soundness', 5)

"""The sparse Merkle trees and the randomizer built on them."""
import random
from .gadgets import *
from .proto import isok, iserr
from .. import mine


class Ref(object):
    """reference sparse Merkle tree"""

    def __init__(self, gad, m, depth):
        self.gad, self.m, self.depth = gad, m, depth
        self.leaves = {}
        self.empty = [0]
        for _ in range(depth):
            self.empty.append(hash_n([self.empty[-1]] * gad.k, m, 'Quint'))

    def copy(self):
        r = Ref.__new__(Ref)
        r.__dict__.update(self.__dict__)
        r.leaves = dict(self.leaves)
        return r

    def node(self, lvl, pos):
        """lvl 0: leaves"""
        k = self.gad.k
        lo, hi = pos * k ** lvl, (pos + 1) * k ** lvl
        if not any(lo <= i < hi for i in self.leaves):
            return self.empty[lvl]
        if lvl == 0:
            return self.leaves.get(pos, 0)
        return hash_n([self.node(lvl - 1, pos * k + c) for c in range(k)], self.m, 'Quint')

    def root(self):
        return self.node(self.depth, 0)

    def proof(self, idx):
        out = []
        k = self.gad.k
        for lvl in range(self.depth):
            p = idx // k ** lvl
            base = p - p % k
            out.append([self.node(lvl, base + c) for c in range(k) if base + c != p])
        return out[::-1]


class Trees(object):
    """interprets the tree API on symbolic histories"""

    def __init__(self, W, k, rec=False):
        self.W, self.k = W, k
        self.R = Recorder(W) if rec else None
        self.I = self.R.I if rec else W.I
        self.gad = Merkle(W, k)
        self.T = W.adt('VanillaSparseMerkleTree_%d' % k)
        self.DB = W.adt('InMemoryHashDb')
        self.pp = self.gad.params()
        self.st = self.I.new_state()
        if rec:
            self.R.done = self.I.new_cell(self.st, NONE, 'done')

    def newdb(self, name='db'):
        return self.I.new_cell(self.st, self.I.call_key(self.st, self.W.method(self.DB, 'new'), [], {}), name)

    def new(self, db):
        t = self.I.call_key(self.st, self.W.method(self.T, 'new'), [self.pp, sym('depth', 'I'), db.ref()], {})
        return self.I.new_cell(self.st, t, 'tree')

    def copy(self, cell, name):
        return self.I.new_cell(self.st, self.I.rread(self.st, cell.ref()), name)

    def update(self, tree, i, v, db):
        return self.I.call_key(self.st, self.W.method(self.T, 'update'), [tree.ref(), i, v, db.ref()], {})

    def get(self, tree, q, db, proof=True):
        pc = self.I.new_cell(self.st, some(lit()) if proof else NONE, 'proof')
        r = self.I.call_key(self.st, self.W.method(self.T, 'get'), [tree.ref(), q, pc.ref(), db.ref()], {})
        return r, self.I.read(self.st, pc.root, ())

    def root(self, tree):
        return self.W.f(self.I.rread(self.st, tree.ref()), self.T, 'root')

    def verify(self, tree, idx, val, proof, root):
        return self.I.call_key(self.st, self.W.method(self.T, 'verify_proof'), [tree.ref(), idx, val, proof, root], {})

    def sample(self, seed, m, ints, over):
        return self.gad.sample(Case('', True, dict(self.gad.pints(m), **ints), dict(self.gad.pover(m), **over)), seed)


def tree_check(ctx, W, k):
    T = Trees(W, k)
    I, st = T.I, T.st
    name = '%d-ary tree' % k
    at = lambda f: 'VanillaSparseMerkleTree_%d::%s' % (k, f)
    N = 4 if ctx.thorough else 3
    db = T.newdb()
    tree = T.new(db)
    roots = [T.root(tree)]
    rets, gets, olds, pans = [], [], [], [st.cells[PANIC]]
    for j in range(N):
        rets.append(T.update(tree, sym('i%d' % j, 'F'), sym('v%d' % j, 'F'), db))
        roots.append(T.root(tree))
        pans.append(st.cells[PANIC])
        if j == 0:
            old = T.copy(tree, 'old')
    g, pf = T.get(tree, sym('q', 'F'), db)
    g0, _ = T.get(tree, sym('q', 'F'), db, False)
    gold, pfold = T.get(old, sym('q', 'F'), db)
    pang = st.cells[PANIC]
    # a database that does not hold the tree
    gx, _ = T.get(tree, sym('q', 'F'), T.newdb('other'))
    panx = st.cells[PANIC]
    m = T.gad.prm(ctx.seed, 1, 1, 1)
    rnd = random.Random(ctx.seed * 7 + k)
    zs = mine.around(mine.literals(W, list(I.calls_seen)), 5, 40)
    plan = [None] * (60 if ctx.thorough else 24) + [8, 12, 20] + [z for z in zs if z not in (8, 12, 20)]
    for t, depth in enumerate(plan):
        depth = depth or rnd.choice([1, 1, 2, 2, 2, 3] + ([4, 6] if k == 4 else [4]))
        n = k ** depth
        base = rnd.randrange(n)

        def near():
            c = rnd.random()
            if c < .25:
                return base
            if c < .5:
                return base - base % k + rnd.randrange(k)
            if c < .6:
                return n - 1
            return rnd.randrange(n)
        idx = [near() for _ in range(N)]
        vals = [rnd.choice([prf('val', ctx.seed, t, j), 0, 5]) if rnd.random() < .3 else prf('val', ctx.seed, t, j) for j in range(N)]
        q = rnd.choice(idx + [near(), near()])
        if t % 6 == 1:      # a leaf is emptied again
            idx[-1] = q = idx[0]
            vals[-1] = 0
            vals[0] = vals[0] or 7
        elif t % 6 == 3:    # ... and directly after it was written
            idx[1] = q = idx[0]
            vals[0], vals[1] = vals[0] or 7, 0
        elif t % 6 == 5:    # a leaf gets its first value back
            idx[0] = idx[1] = idx[2] = q
            vals[2] = vals[0]
        ov = {'q': q}
        for j in range(N):
            ov['i%d' % j], ov['v%d' % j] = idx[j], vals[j]
        what = 'depth %d, updates %s, then read %d' % (depth, idx, q)
        with ctx.guard(name, at('update')):
            S = T.sample(ctx.seed, m, {'depth': depth}, ov)
            ref = Ref(T.gad, m, depth)
            p = S.ev(pans[0])
            ctx.expect(name + '/empty root', at('new'), p is None and S.ev(roots[0]) == ref.root(), 'the root of an empty tree of depth %d is not that of a tree of zero leaves%s' % (depth, ' (panics: %s)' % p if p else ''))
            if p is not None:
                continue
            bad = False
            snap = None
            for j in range(N):
                ref.leaves[idx[j]] = vals[j]
                if j == 0:
                    snap = ref.copy()
                p = S.ev(pans[j + 1])
                r = S.ev(rets[j]) if p is None else None
                good = p is None and isok(r) and S.ev(roots[j + 1]) == ref.root()
                ctx.expect(name + '/root after update', at('update'), good,
                           'the root after update %d is not that of the tree holding the updates (%s)%s' % (j, what, ': panics: %s' % p if p else ': returns an error' if r is not None and not isok(r) else ''))
                if not good:
                    bad = True
                    break
                ctx.expect(name + '/root returned', at('update'), r.fs[0] == ref.root(), 'update does not return the new root (%s)' % what)
            if bad:
                continue
            p = S.ev(pang)
            if p is not None:
                ctx.violation(name + '/read', at('get'), 'get panics: %s (%s)' % (p, what))
                continue
            for x, rf, why in ((g, ref, ''), (g0, ref, ', without a proof'), (gold, snap, ', from the version after the first update')):
                r = S.ev(x)
                ctx.expect(name + '/read', at('get'), isok(r) and r.fs[0] == rf.leaves.get(q, 0), 'get returns %r, not the last value written%s (%s)' % (r, why, what))
            for x, rf in ((pf, ref), (pfold, snap)):
                pv = S.ev(x)
                got = [list(z) for z in pv.fs[0]] if isinstance(pv, SV) and pv.fs else None
                ctx.expect(name + '/membership proof', at('get'), got == rf.proof(q), 'the proof is not the siblings from the root to the leaf (%s)' % what)
            p = S.ev(panx)
            r = S.ev(gx) if p is None else None
            ctx.expect(name + '/unknown root', at('get'), p is None and iserr(r), 'reading a tree the database does not hold %s' % ('panics: %s' % p if p else 'returns no error'))
            ctx.sample('%s: %s' % (name, what))
    # verification of membership proofs, for arbitrary proofs
    T = Trees(W, k)
    I, st = T.I, T.st
    mp = W.symseq('mp', ('array', FE_, k - 1))
    params = W.fields(T.T)
    tv = struct(T.T, 0, *[sym('depth', 'I') if f == 'depth' else sym('root', 'F') if f == 'root' else T.pp for f in params])
    tc = I.new_cell(st, tv, 'tree')
    rg = T.verify(tc, sym('q', 'F'), sym('leaf', 'F'), mp, some(sym('rt', 'F')))
    p1 = st.cells[PANIC]
    rn = T.verify(tc, sym('q', 'F'), sym('leaf', 'F'), mp, NONE)
    p2 = st.cells[PANIC]
    zs = mine.around(mine.literals(W, list(I.calls_seen)), 5, 40)
    for t, depth in enumerate([None] * (40 if ctx.thorough else 16) + [12, 20] + zs):
        depth = rnd.choice([0, 1, 2, 2, 3]) if depth is None else depth
        n = k ** depth
        q = rnd.randrange(n)
        sib = [[prf('s', t, a, b) for b in range(k - 1)] for a in range(depth)]
        leaf = prf('lf', t)
        if t % 4 == 1:                                    # the value an unset leaf holds, and a tree with nothing else in it
            leaf = 0
        elif t % 4 == 3:
            leaf, v = t // 4 % 2, 0
            for a in range(depth - 1, -1, -1):
                sib[a] = [v] * (k - 1)
                v = hash_n([v] * k, m, T.gad.kind)
        root = T.gad.root(leaf, q, sib, depth, m)
        muts = [('a proof for the given root only', {'root': root + 1}, (True, False)), ('a proof for the own root only', {'rt': root + 1}, (False, True)),
                ('the right proof', {}, True), ('another leaf', {'leaf': leaf + 1}, False), ('another root', {'rt': root + 1, 'root': root + 1}, False)]
        if depth:
            q2 = (q + 1 + rnd.randrange(n - 1)) % n
            muts.append(('another index', {'q': q2}, T.gad.root(leaf, q2, sib, depth, m) == root))
            a, b = rnd.randrange(depth), rnd.randrange(k - 1)
            s2 = [list(x) for x in sib]
            s2[a][b] += 1
            muts.append(('another sibling', {'mp': lambda i, j, s=s2: s[i][j] % P}, False))
            muts.append(('a shorter proof', {'#mp': depth - 1}, False))
        muts.append(('a longer proof', {'#mp': depth + 1}, False))
        for what, ch, both in muts:
            with ctx.guard(name + '/proof verification', at('verify_proof')):
                ov = {'q': q, 'leaf': leaf, 'rt': root, 'root': root, 'mp': lambda i, j, s=sib: s[i][j]}
                ov.update({a: b for a, b in ch.items() if a[0] != '#'})
                S = T.sample(ctx.seed, m, {'depth': depth, '#mp': ch.get('#mp', depth)}, ov)
                for r, pp, how in ((rg, p1, 'given root'), (rn, p2, 'tree\'s own root')):
                    want = both if isinstance(both, bool) else both[how != 'given root']
                    pan = S.ev(pp)
                    if pan is not None:
                        ctx.violation(name + '/proof verification', at('verify_proof'), 'panics (%s) on %s, depth %d' % (pan, what, depth))
                        break
                    ctx.expect(name + '/proof verification', at('verify_proof'), bool(S.ev(r)) == want,
                               '%s is %s against the %s (depth %d, index %d)' % (what, 'rejected' if want else 'accepted', how, depth, q))


@check('C25', None)
def c25(ctx, W):
    ctx.parallel([lambda c, k=k: tree_check(c, W, k) for k in (8, 4)])
    for k in (4, 8):
        ctx.floor('%d-ary tree/read' % k, 20)
        ctx.floor('%d-ary tree/root after update' % k, 20)
        ctx.floor('%d-ary tree/proof verification' % k, 40)


# ------------------------------------------------------------------------------------ randomizer
def randomizer(ctx, W, N):
    T = Trees(W, 4, True)
    I, st, R, gad = T.I, T.st, T.R, T.gad
    GEN, VER = 'randomizer::gen_proof_for_randomizer', 'randomizer::verify_proof_for_randomizer'
    name = 'randomizer, %d leaves' % N
    db = T.newdb()
    tree = T.new(db)
    for j in range(N + 1):
        T.update(tree, sym('i%d' % j, 'F'), sym('v%d' % j, 'F'), db)
    ndb, nt = T.copy(db, 'ndb'), T.copy(tree, 'nt')
    for j in range(N):
        T.update(nt, sym('i%d' % j, 'F'), sym('w%d' % j, 'F'), ndb)
    idx = lit(*[sym('i%d' % j, 'F') for j in range(N)])
    val = lit(*[sym('v%d' % j, 'F') for j in range(N)])
    newroot, oldroot = T.root(nt), T.root(tree)
    tail = [sym('depth', 'I'), T.pp, gad.sbox()]
    rp = I.call_key(st, W.fn(G + GEN), [tree.ref(), db.ref(), nt.ref(), ndb.ref(), idx, val] + tail + gad.tail(), {})
    donep, panp = I.read(st, R.done.root, ()), st.cells[PANIC]
    # the verifier
    I.write(st, R.done, NONE)
    rv = I.call_key(st, W.fn(G + VER), [nt.ref(), ndb.ref(), idx] + tail + gad.com() + gad.tail(), {})
    donev, panv = I.read(st, R.done.root, ()), st.cells[PANIC]
    # the verifier with a database that does not hold the new tree
    nodb = T.newdb('none')
    rx = I.call_key(st, W.fn(G + VER), [nt.ref(), nodb.ref(), idx] + tail + gad.com() + gad.tail(), {})
    panx = st.cells[PANIC]
    m = gad.prm(ctx.seed, 1, 1, 1)
    rnd = random.Random(ctx.seed + N)
    deep = mine.around(mine.literals(W, [k for k in I.calls_seen if 'randomizer::' in k or 'merkle_tree_4' in k]), 3, 16)
    deep = deep[-1:] * 2 if N == 2 else deep[-1:] if N == 1 else []
    plan = [rnd.choice([1, 2, 2, 3]) if t else 2 for t in range(10 if ctx.thorough else 5)] + deep
    for t, depth in enumerate(plan):
        n = 4 ** depth
        a = rnd.randrange(n)
        pool = [x for x in dict.fromkeys([a, a - a % 4 + (a + 1) % 4, (a + n // 4) % n] + [rnd.randrange(n) for _ in range(9)])]
        if depth > 3:       # leaves that share all but the lowest ancestors, and all but the middle ones
            kin = lambda h: a - (a // 4 ** h % 4) * 4 ** h + (a // 4 ** h + 1) % 4 * 4 ** h
            pool = list(dict.fromkeys([a, kin(1 + t % 2), kin(depth // 2)] + pool[1:]))
        if len(pool) < N + 1:
            continue
        ii = pool[:N + 1] if t % 2 or depth > 3 else rnd.sample(pool, N + 1)
        ov, ref = {}, Ref(gad, m, depth)
        for j in range(N + 1):
            ov['i%d' % j], ov['v%d' % j] = ii[j], prf('rv', t, j, ctx.seed)
            ref.leaves[ii[j]] = ov['v%d' % j]
        new = ref.copy()
        for j in range(N):
            ov['w%d' % j] = prf('rw', t, j)
            new.leaves[ii[j]] = ov['w%d' % j]
        what = 'depth %d, leaves %s' % (depth, ii)
        with ctx.guard(name, GEN):
            S = T.sample(ctx.seed, m, {'depth': depth}, ov)
            if S.ev(newroot) != new.root() or S.ev(oldroot) != ref.root():
                ctx.undecided(name, 'the trees are not as expected (decided by C25)')
                continue
            p = S.ev(panp)
            r = S.ev(rp) if p is None else None
            if p is not None or not isok(r):
                ctx.violation(name + '/completeness', GEN, 'the prover of a true statement %s (%s)' % ('panics: %s' % p if p else 'returns an error', what))
                continue
            sy = System(S.ev(donep).fs[0].events())
            kk = sy.violated() if sy.badwire() is None and not sy.unassigned() else 'an unassigned wire'
            ctx.expect(name + '/completeness', GEN, kk is None, 'the prover\'s assignment violates constraint %s (%s)' % (kk, what))
            coms = list(r.fs[0].fs[1])
            # an error of the prover or verifier is reported, not a panic
            for who, good in (('prove succeeds', 0), ('verify accepts', 0), ('verify accepts', 1)):
                S2 = T.sample(ctx.seed, m, {'depth': depth, who: good, '#com': len(coms)}, ov)
                pr = who[0] == 'p'
                p = S2.ev(panp if pr else panv)
                x = S2.ev(rp if pr else rv) if p is None else None
                ctx.expect(name + '/verdict', GEN if pr else VER, p is None and (isok(x) if good else iserr(x)),
                           'where the underlying %s %s, the %s' % ('prover' if pr else 'verifier', 'accepts' if good else 'fails', 'function panics: %s' % p if p else 'result is %r' % x))
            S2 = T.sample(ctx.seed, m, {'depth': depth, '#com': len(coms)}, ov)
            p = S2.ev(panx) if N else None
            if N:
                ctx.expect(name + '/unknown tree', VER, p is None and iserr(S2.ev(rx)), 'a database that does not hold the new tree: %s' % ('panics: %s' % p if p else 'no error'))
            for c in sorted({0, 1, 2, len(coms) // 2, len(coms) - 1} & set(range(len(coms)))):
                S2 = T.sample(ctx.seed, m, {'depth': depth, '#com': c}, ov)
                p = S2.ev(panv)
                ctx.expect(name + '/number of commitments', VER, p is None and iserr(S2.ev(rv)), 'with %d of %d commitments the verifier %s' % (c, len(coms), 'panics: %s' % p if p else 'goes on'))
            # agreement
            S2 = T.sample(ctx.seed, m, {'depth': depth, '#com': len(coms)}, dict(ov, com=lambda i: coms[i]))
            p = S2.ev(panv)
            if p is not None:
                ctx.violation(name + '/agreement', VER, 'the verifier panics: %s (%s)' % (p, what))
                continue
            dv = S2.ev(donev)
            sv = System(dv.fs[0].events())
            ctx.expect(name + '/agreement', VER, sv.cons == sy.cons and sv.ngates == sy.ngates and sv.coms == sy.coms,
                       'prover and verifier build different constraints or commitments (%s)' % what)
            # the wires of the statement: the root and the original values
            root, vs = ref.root(), [ov['v%d' % j] for j in range(N)]
            wires = {}
            for j in range(sy.ncommits):
                x = sy.vals[('C', j)]
                if x == root and 'root' not in wires:
                    wires['root'] = ('C', j)
                for q in range(N):
                    if x == vs[q] and q not in wires:
                        wires[q] = ('C', j)
            if len(wires) != N + 1:
                ctx.violation(name + '/statement', GEN, 'the prover does not commit to the original root and the original values (%s)' % what)
                continue
            st_ = [j for j in range(sv.ncommits) if sv.coms[j] not in coms]
            bl = [sy.blind[j] for j in range(sy.ncommits) if j not in st_]
            S3 = T.sample(ctx.seed, m, {'depth': depth}, ov)
            S3.rseed = 99
            bl2 = System(S3.ev(donep).fs[0].events()).blind
            ctx.expect(name + '/blinding', GEN, len(set(bl)) == len(bl) and all(x != y for j, (x, y) in enumerate(zip(sy.blind, bl2)) if j not in st_),
                       'committed values do not have blindings of their own, freshly drawn (%s)' % what)
            # every committed wire of a tree: the root, then per index the value and the siblings
            def honest(rf):
                out = [rf.root()]
                for j in range(N):
                    out.append(rf.leaves[ii[j]])
                    for lv in rf.proof(ii[j]):
                        out += lv
                return out
            own = [j for j in range(sv.ncommits) if j not in st_]
            hon = honest(ref)
            if [sy.vals[('C', j)] for j in own] != hon:
                ctx.undecided(name + '/soundness', 'the commitments are laid out in another way')
                continue
            oth = ref.copy()        # an original tree that differs in one more leaf
            oth.leaves[ii[N]] = prf('ol', t)
            oth2 = ref.copy()
            far = next(x for x in [(ii[0] + q * (n // 4) + 1) % n for q in range(4)] + list(range(min(n, 99))) if x not in ii) if n > len(ii) else None
            if far is not None:
                oth2.leaves[far] = prf('ol2', t)
            alt = ref.copy()        # other original values: a true statement as well
            for j in range(N):
                alt.leaves[ii[j]] = prf('alt', t, j)
            asgs = [('', True, hon), ('', True, honest(alt)), ('an original tree that differs in another leaf too', False, honest(oth))]
            if far is not None:
                asgs.append(('an original tree that differs in another leaf too', False, honest(oth2)))
            per = 1 + 3 * depth
            asgs.append(('another root', False, [prf('bad', t)] + hon[1:]))
            asgs.append(('the new root', N == 0, [new.root()] + hon[1:]))
            for j in range(N):
                o = 1 + j * per
                asgs.append(('another original value', False, hon[:o] + [prf('ov', t, j)] + hon[o + 1:]))
                asgs.append(('the new value in place of an original one', False, hon[:o] + [ov['w%d' % j]] + hon[o + 1:]))
                for q in sorted(rnd.sample(range(1, per), min(3, per - 1))):
                    asgs.append(('another sibling', False, hon[:o + q] + [prf('os', t, j, q)] + hon[o + q + 1:]))
            if N > 1:
                sw = list(hon)
                sw[1], sw[1 + per] = sw[1 + per], sw[1]
                asgs.append(('original values swapped', False, sw))
            for why, want, asg in asgs:
                with ctx.guard(name + '/soundness', VER):
                    known = {('C', j): x % P for j, x in zip(own, asg)}
                    for j in st_:
                        known[('C', j)] = sy.vals[('C', j)]
                    rr = random.Random(1)
                    verdict, w = Solver(sv, lambda: rr.getrandbits(255), 400).run(known)
                    if verdict == '?':
                        ctx.undecided(name + '/soundness', w)
                    else:
                        ctx.expect(name + '/soundness', VER, verdict == ('yes' if want else 'no'), 'the constraints %s (%s)' % (
                            'are satisfied with ' + why if not want else 'exclude a true statement', what))
            ctx.sample('%s: %s' % (name, what))


@check('C19', None)
def c19(ctx, W):
    ctx.parallel([lambda c, n=n: randomizer(c, W, n) for n in (3, 2, 1, 0)])
    for n in (0, 1, 2, 3):
        ctx.floor('randomizer, %d leaves/completeness' % n, 2)
        ctx.floor('randomizer, %d leaves/soundness' % n, 6 if n else 3)


# ------------------------------------------------------------------------------------ distorted data
RZ = 'r1cs::gadgets::randomizer::'


@check('C30', None)
def c30(ctx, W):
    """which positions a nonce selects, and what becomes of the data there"""
    I = W.I
    st = I.new_state()
    where_ = 'get_indices_to_modify'
    r = I.call_key(st, W.fn(RZ + where_), [sym('nonce', 'F'), sym('n', 'I'), sym('k', 'I')], {})
    pan = st.cells[PANIC]

    def chosen(n, k, nonce):
        S = Sample(ctx.seed, {'n': n, 'k': k}, {'nonce': nonce})
        p = S.ev(pan)
        return p, (None if p is not None else S.ev(r))
    lits = mine.literals(W, list(I.calls_seen))
    big_ = [1 << 20, (1 << 32) + 5, (1 << 40) + 1]
    plan = [(n, k) for n in (1, 2, 3, 7, 10, 64, 1000) for k in (0, 1, 2, 5, n) if k <= 40] + [(n, k) for n in big_ for k in (1, 3, 20, 150)]
    plan += [(1000, k) for k in mine.around(lits, 3, 70)] + [(big_[2], k) for k in mine.around(lits, 3, 5000) if k < 2500] + [(n, 2) for n in mine.around(lits, 3, 5000)]
    for n, k in plan:
        for t in range(3):
            nonce = (prf('nonce', ctx.seed, n, k, t), 0, P - 1)[t] if t else prf('nonce', ctx.seed, n, k)
            with ctx.guard('indices', where_):
                p, m = chosen(n, k, nonce)
                what = '%d of %d positions' % (k, n)
                if not ctx.expect('indices/no panic', where_, p is None, 'selecting %s panics: %s' % (what, p)):
                    continue
                ks = list(m)
                ctx.expect('indices/in range', where_, all(isinstance(x, int) and 0 <= x < n for x in ks), 'an index selected among %s lies outside' % what)
                ctx.expect('indices/number', where_, len(ks) <= k and (len(ks) == k or n < 10 ** 6),
                           '%d indices are selected where %d were asked for (data size %d)' % (len(ks), k, n))
                if k and n >= k:
                    ctx.expect('indices/some', where_, len(ks) >= 1, 'no index is selected where %s were asked for' % what)
    # every position can be selected, and the whole nonce counts
    for n in [7, 1000] + big_:
        with ctx.guard('indices/spread', where_):
            got = set()
            for t in range(100):
                p, m = chosen(n, 5, prf('spread', ctx.seed, t))
                got |= set(m or ())
            if n == 7:
                good = got == set(range(7))
            else:
                good = min(got) < n // 5 and max(got) >= n - n // 5 and len({x % 5 for x in got}) == 5
            ctx.expect('indices/spread', where_, good, 'a hundred nonces select only positions %s among %d' % (sorted(got)[:12], n))
    for n in [1, 2, 64, 257] + mine.around(lits, 3, 5000):
        with ctx.guard('indices/every position', where_):
            got = set()
            for t in range(16):
                got |= set(chosen(n, n, prf('every', ctx.seed, n, t))[1] or ())
                if len(got) >= n:
                    break
            ctx.expect('indices/every position', where_, got >= set(range(n)),
                       'no nonce selects position %s among %d' % (sorted(set(range(n)) - got)[-3:], n))
    for t in range(6):
        base = prf('whole nonce', ctx.seed, t)
        for b in (0, 7, 31, 32, 63, 64, 128, 200, 250):
            with ctx.guard('indices/whole nonce', where_):
                other = base ^ (1 << b)
                if other >= P:
                    continue
                x, y = chosen(big_[2], 4, base)[1], chosen(big_[2], 4, other)[1]
                ctx.expect('indices/whole nonce', where_, x is None or y is None or set(x) != set(y),
                           'nonces that differ in bit %d select the same positions' % b)
    # the data
    where_ = 'get_randomized_data'
    st0 = I.new_state()
    one = I.call_key(st0, W.fn(RZ + 'randomize'), [sym('x', 'F')], {})
    f = lambda x: Sample(ctx.seed, {}, {'x': x}).ev(one)
    ctx.expect('randomize', 'randomize', len({f(x) for x in (0, 1, 2, P - 1, 256, 1 << 64, 1 << 200)} | {0, 1, 2, P - 1}) == 11,
               'different values are randomised to the same one, or to themselves')
    for N in range(0, 7):
        st = I.new_state()
        s = mk('mnew')
        for j in range(N):
            s = mk('mput', s, sym('i%d' % j, 'F'), UNIT)
        c = I.new_cell(st, s, 'indices')
        r = I.call_key(st, W.fn(RZ + where_), [W.symseq('d', ('adt', FE, ())), c.ref()], {})
        far = [1 << 16, (1 << 16) + 300] + mine.around(mine.literals(W, list(I.calls_seen)), 3, 200000) if N == 2 else []
        for t, n in enumerate([1, 2, 5, 9, 17, 40, 130, 300] + far):
            n = max(N, n)
            rnd = random.Random(ctx.seed * 100 + N * 10 + t)
            ii = rnd.sample(range(n), N)
            if N and t % 2:
                ii[0] = n - 1 if n - 1 not in ii else ii[0]
            if N > 1 and t % 3 == 2:
                ii[1] = 0 if 0 not in ii else ii[1]
            data = [prf('data', ctx.seed, N, t, i) for i in range(n)]
            if t % 4 == 3:
                data = [(0, 1, data[0])[i % 3] for i in range(n)]
            with ctx.guard('data', where_):
                S = Sample(ctx.seed, {'#d': n}, dict({'i%d' % j: x for j, x in enumerate(ii)}, d=lambda i: data[i]))
                p = S.ev(st.cells[PANIC])
                if not ctx.expect('data/no panic', where_, p is None, 'changing positions %s of %d values panics: %s' % (ii, n, p)):
                    continue
                v = S.ev(r)
                old, new = v.fs[0], list(v.fs[1])
                ctx.expect('data/positions', where_, new == [f(x) if i in ii else x for i, x in enumerate(data)],
                           'the new data are not the old ones with exactly the positions %s (of %d) randomised' % (ii, n))
                ctx.expect('data/originals', where_, {k: (x[1] if isinstance(x, tuple) else x) for k, x in old.items()} == {i: data[i] for i in ii},
                           'the original values of the positions %s (of %d) are not what is reported' % (ii, n))
        ctx.sample('%d positions' % N)
    ctx.floor('indices/in range', 60)
    ctx.floor('indices/spread', 4)
    ctx.floor('data/positions', 30)

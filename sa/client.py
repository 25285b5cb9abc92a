"""The most general client of the public API, as an analysis entry point: a symbolic number of
commitments, of every kind of gate allocation and of constraints, in both phases, with arbitrary
linear combinations.  The code analysed is the crate's; the client only fixes how it is called."""
from .core import *
from . import vdg

FRAME = None


class _Fr(object):
    def __init__(self):
        self.exits = []
        self.id = -7
        self.genv = {}
        self.up = {}


def lcsym(W, name, *idx):
    n = sym('#' + name, 'I', *idx)
    terms = mkcomp(n, lambda i: tup(sym(name + '.v', 'var', *(idx + (i,))), sym(name + '.c', 'F', *(idx + (i,)))))
    return struct(LC, 0, terms)


def must(W, I, st, key, args, genv=None):
    return I.call_key(st, key, args, genv or {})


def genv_for(W, key):
    """generic environment of an impl of the crate (only lifetimes are erased)"""
    return {}


class Side(object):
    """one of the two roles"""

    def __init__(self, W, prover):
        self.W, self.prover = W, prover
        self.adt = PROVER if prover else VERIFIER
        self.radt = RPROVER if prover else RVERIFIER

    def key(self, name, phase):
        return self.W.method(self.adt if phase == 1 else self.radt, name, CS)

    def loop(self, st, n, body):
        I = self.W.I
        I.run_loop(st, _Fr(), n, body)

    def record(self, st, cell, v):
        I = self.W.I
        cur = I.read(st, cell.root, ())
        I.write(st, cell, cat(cur, lit(v)))

    def phase(self, st, me, ph, out, counts=None):
        """the gates and constraints of one phase; `out`: cells recording what the API returned"""
        W, I = self.W, self.W.I
        pr = self.prover
        sfx = str(ph)

        def cnt(k):
            if counts and k + sfx in counts:
                return vdg.I(counts[k + sfx])
            return sym('k' + k + sfx, 'I')

        def asg(name, *idx):
            return some(sym(name, 'F', *idx)) if pr else NONE

        def alloc_mult(s, j):
            a = some(tup(sym('aL' + sfx, 'F', j), sym('aR' + sfx, 'F', j))) if pr else NONE
            r = must(W, I, s, self.key('allocate_multiplier', ph), [me, a])
            self.record(s, out['A' + sfx], r)

        def multiply(s, j):
            r = must(W, I, s, self.key('multiply', ph), [me, lcsym(W, 'ml' + sfx, j), lcsym(W, 'mr' + sfx, j)])
            self.record(s, out['M' + sfx], r)

        def allocate(s, j):
            r = must(W, I, s, self.key('allocate', ph), [me, asg('as' + sfx, j)])
            self.record(s, out['S' + sfx], r)

        def constrain(s, j):
            must(W, I, s, self.key('constrain', ph), [me, lcsym(W, 'cc' + sfx, j)])
        self.loop(st, cnt('A'), alloc_mult)
        self.loop(st, cnt('M'), multiply)
        self.loop(st, cnt('S'), allocate)
        # a gate after a possibly half-assigned one
        self.loop(st, cnt('B'), lambda s, j: self.record(
            s, out['B' + sfx], must(W, I, s, self.key('multiply', ph),
                                    [me, lcsym(W, 'nl' + sfx, j), lcsym(W, 'nr' + sfx, j)])))
        self.loop(st, cnt('U'), lambda s, j: self.record(
            s, out['U' + sfx], must(W, I, s, self.key('allocate_single', ph), [me, asg('au' + sfx, j)])))
        self.loop(st, cnt('C'), constrain)
        self.loop(st, cnt('E'), lambda s, j: self.record(
            s, out['E' + sfx], must(W, I, s, self.key('evaluate_lc', ph), [me, lcsym(W, 'ee' + sfx, j)])))

    def setup(self, st, ncb=1, counts=None, label=b'test', fails=()):
        """build the statement; returns (self reference, outputs)"""
        W, I = self.W, self.W.I
        self.tcell = I.new_cell(st, W.transcript(label), 'transcript')
        g, h = sym('g', 'F'), sym('h', 'F')
        if self.prover:
            me = must(W, I, st, W.method(PROVER, 'new'), [g, h, self.tcell.ref()])
        else:
            me = must(W, I, st, W.method(VERIFIER, 'new'), [self.tcell.ref()])
        mc = I.new_cell(st, me, 'cs')
        ref = mc.ref()
        out = {}
        for k in ('V', 'A1', 'M1', 'S1', 'B1', 'U1', 'A2', 'M2', 'S2', 'B2', 'U2', 'E1', 'E2', 'Z', 'snap'):
            out[k] = I.new_cell(st, NIL, 'out' + k)

        def commit(s, j):
            if self.prover:
                r = must(W, I, s, W.method(PROVER, 'commit'), [ref, sym('v', 'F', j), sym('vb', 'F', j)])
            else:
                r = must(W, I, s, W.method(VERIFIER, 'commit'), [ref, sym('V', 'F', j)])
            self.record(s, out['V'], r)
        m = vdg.I(counts['V']) if counts and 'V' in counts else sym('kV', 'I')
        self.loop(st, m, commit)
        self.phase(st, ref, 1, out, counts)
        self.cbresults = []
        for c in range(ncb):
            name1 = 'cb%%d/in/%s/%d' % ('p' if self.prover else 'v', id(self))
            name = 'cb%d/%s/%d' % (c, 'p' if self.prover else 'v', id(self))

            def body(I2, s, args, c=c):
                self.record(s, out['snap'], I2.read(s, self.tcell.root, ()))
                zz = must(W, I2, s, W.method(self.radt, 'challenge_scalar', C + 'r1cs::constraint_system::RandomizedConstraintSystem'),
                          [args[0], BY(b'client challenge %d' % c)])
                self.record(s, out['Z'], zz)
                if c == 0:
                    self.phase(s, args[0], 2, out, counts)
                    # a constraint randomised with the challenge
                    one = struct(VAR, W.variant(VAR, 'One'))
                    lcz = struct(LC, 0, lit(tup(sym('rz.v', 'var'), zz), tup(one, fneg(fmul(zz, sym('rz.val', 'F'))))))
                    must(W, I2, s, self.key('constrain', 2), [args[0], lcz])
                else:
                    # later callbacks: an allocation (of a fresh gate or the second half of one), a gate and a constraint on it
                    C_ = vdg.I(c)
                    asg = lambda nm: sym(nm, 'F', C_)
                    must(W, I2, s, self.key('allocate', 2), [args[0], some(asg('asx')) if self.prover else NONE])
                    gt = must(W, I2, s, self.key('allocate_multiplier', 2),
                              [args[0], some(tup(asg('aLx'), asg('aRx'))) if self.prover else NONE])
                    var = fld(fld(gt, 0, 0), None, 0)
                    one = struct(VAR, W.variant(VAR, 'One'))
                    must(W, I2, s, self.key('constrain', 2), [args[0], struct(LC, 0, lit(tup(var, zz), tup(one, fneg(fmul(zz, sym('rzx', 'F', C_))))))])
                return err(struct(C + 'errors::R1CSError', W.variant(C + 'errors::R1CSError', 'FormatError'))) if c in fails else ok(UNIT)

            def cb(I2, s, args, c=c, body=body):
                if c == 1:
                    # a callback that specifies its randomised constraints in turn
                    inner = name1 % c
                    I2.pyfns[inner] = body
                    return must(W, I2, s, self.key('specify_randomized_constraints', 2), [args[0], mk('pyfn', inner)])
                return body(I2, s, args, c)
            I.pyfns[name] = cb
            r = must(W, I, st, self.key('specify_randomized_constraints', 1), [ref, mk('pyfn', name)])
            self.cbresults.append(r)
        self.out = out
        self.cell = mc
        return ref

    def finish(self, st, proof=None):
        """prove / verify; returns the Result term"""
        W, I = self.W, self.W.I
        me = I.read(st, self.cell.root, ())
        G = mkcomp(sym('#G', 'I'), lambda i: sym('G', 'F', i))
        H = mkcomp(sym('#H', 'I'), lambda i: sym('H', 'F', i))
        self.before = me
        self.counted = {}
        if self.prover:
            for nm in ('num_constraints', 'num_multipliers'):
                try:
                    self.counted[nm] = must(W, I, st, W.method(PROVER, nm), [me])
                except MissingAnchor:
                    pass
        if self.prover:
            r = must(W, I, st, W.method(PROVER, 'prove'), [me, G, H])
        else:
            r = must(W, I, st, W.method(VERIFIER, 'verify'), [me, proof, sym('g', 'F'), sym('h', 'F'), G, H])
        self.result = r
        self.transcript = I.read(st, self.tcell.root, ())
        self.panic = st.cells[PANIC]
        self.st = st
        self.outs = {k: I.read(st, c.root, ()) for k, c in self.out.items()}
        return r


def run_side(W, prover, ncb=1, counts=None, proof=None, fails=()):
    s = Side(W, prover)
    st = W.I.new_state()
    s.setup(st, ncb, counts, fails=fails)
    if not prover and proof is None:
        proof = symproof(W)
    s.proof = proof
    s.finish(st, proof)
    return s


def symproof(W):
    return W.mksym('proof', ('adt', PROOF, ()))

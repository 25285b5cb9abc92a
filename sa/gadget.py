"""Constraint systems built by the gadgets.

The gadget code of the crate is interpreted with the constraint-system interface replaced by a
recorder (what the interface itself does is decided by C05 and C06): the value graph of a proving or
verifying entry point then contains the log of commitments, gates and linear constraints it builds.
The log is instantiated at a statement and handed to the propagation analysis in `circuit`."""
from .core import *
from . import vdg
from .evalr import Sample, Undecided, Dead, SV, hz
from .vdg import P

REC = '#rec'


# ------------------------------------------------------------------------------------ evaluated log
class Log(object):
    """persistent log of events"""
    __slots__ = ('arr', 'n', 'wires')

    def __init__(self, arr, n, wires):
        self.arr, self.n, self.wires = arr, n, wires

    def push(self, ev):
        arr, wires = self.arr, self.wires
        if len(arr) != self.n:
            arr = arr[:self.n]
            wires = {}
            for e in arr:
                note(wires, e)
        arr.append(ev)
        note(wires, ev)
        return Log(arr, self.n + 1, wires)

    def events(self):
        return self.arr[:self.n]


def note(w, e):
    if e[0] == 'commit':
        w[('C', w.get('#C', 0))] = e[1]
        w['#C'] = w.get('#C', 0) + 1
    elif e[0] == 'gate':
        i = w.get('#G', 0)
        w['#G'] = i + 1
        w[('L', i)], w[('R', i)] = e[1], e[2]
        if e[1] is not None and e[2] is not None:
            w[('O', i)] = e[1] * e[2] % P
        elif e[1] is not None:
            # half assigned
            w[('R', i)] = w[('O', i)] = 0
    elif e[0] == 'fill':
        i = e[1]
        w[('R', i)] = e[2]
        if e[2] is not None:
            w[('O', i)] = w[('L', i)] * e[2] % P


KIND = {'Committed': 'C', 'MultiplierLeft': 'L', 'MultiplierRight': 'R', 'MultiplierOutput': 'O', 'One': '1'}


class GSample(Sample):
    """evaluates the recorder's operations too"""
    W = None

    def e_log0(self):
        return Log([], 0, {})

    def e_rpush(self, log, kind, *xs):
        # iteratively, the logs are long
        chain = []
        t = mk('rpush', log, kind, *xs)
        memo = self.scopes[0][0]
        while t.op == 'rpush':
            if t.id in memo and chain:
                break
            chain.append(t)
            t = t.a[0]
        v = self.ev(t)
        for c in reversed(chain):
            v = v.push(self.event(c.a[1], c.a[2:]))
            if not c.fv:
                memo[c.id] = v
        return v

    def opt(self, v):
        """Option<F> -> F or None"""
        if isinstance(v, SV):
            if v.vi == 0:
                return None
            return v.fs[0]
        return v

    def event(self, kind, xs):
        vs = [self.ev(x) for x in xs]
        if kind == 'gate':
            a = self.opt(vs[0])
            if a is None:
                return ('gate', None, None)
            return ('gate', a.fs[0], a.fs[1])
        if kind == 'half':
            return ('gate', self.opt(vs[0]), None)
        if kind == 'fill':
            return ('fill', vs[0], self.opt(vs[1]))
        if kind == 'constrain':
            return ('constrain', self.terms(vs[0]))
        if kind == 'commit':
            return ('commit',) + tuple(self.opt(x) for x in vs)
        raise Undecided('event ' + kind)

    def wire(self, v):
        k = self.W.prog.adts[VAR]['vs'][v.vi]['n']
        if k not in KIND:
            raise Undecided('variable kind ' + k)
        return (KIND[k],) + tuple(v.fs)

    def terms(self, lc):
        """LinearCombination -> {wire: coefficient}"""
        out = {}
        for t in lc.fs[0]:
            w = self.wire(t.fs[0])
            out[w] = (out.get(w, 0) + t.fs[1]) % P
        return {k: c for k, c in out.items() if c}

    def e_lcval(self, log, lc):
        L = self.ev(log)
        s = 0
        arr = L
        if len(L.arr) != L.n:
            w = {}
            for e in L.arr[:L.n]:
                note(w, e)
        else:
            w = L.wires
        for k, c in self.terms(self.ev(lc)).items():
            x = 1 if k[0] == '1' else w.get(k)
            if x is None:
                raise Undecided('value of an unassigned variable')
            s += x * c
        return s % P


# ------------------------------------------------------------------------------------ recorder
class Recorder(object):
    def __init__(self, W):
        self.W = W
        I = self.I = W.fresh()
        I.maxdepth = 80
        v = lambda n: W.variant(VAR, n)
        mul = lambda i: (struct(VAR, v('MultiplierLeft'), i), struct(VAR, v('MultiplierRight'), i), struct(VAR, v('MultiplierOutput'), i))

        def new(pr):
            def f(I, st, a, g):
                gg, hh = (I.rread(st, a[0]), I.rread(st, a[1])) if pr else (UNIT, UNIT)
                return struct(REC, 0, mk('log0'), vdg.I(0), vdg.I(0), NONE, B(pr), gg, hh, a[-1])
            return f

        def upd(I, st, me, r, **kw):
            fs = [fld(r, None, i) for i in range(8)]
            for k, x in kw.items():
                fs[{'log': 0, 'nc': 1, 'ng': 2, 'pend': 3}[k]] = x
            I.rwrite(st, me, struct(REC, 0, *fs))

        def lc_of(x):
            return x

        def commit(I, st, a, g):
            r = I.rread(st, a[0])
            nc = fld(r, None, 1)
            var = struct(VAR, v('Committed'), nc)
            if len(a) == 3:      # prover: value, blinding
                val, bl = I.rread(st, a[1]), I.rread(st, a[2])
                com = fadd(fmul(val, fld(r, None, 5)), fmul(bl, fld(r, None, 6)))
                upd(I, st, a[0], r, log=mk('rpush', fld(r, None, 0), 'commit', some(val), com, some(bl)), nc=iadd(nc, vdg.I(1)))
                return tup(com, var)
            com = I.rread(st, a[1])
            upd(I, st, a[0], r, log=mk('rpush', fld(r, None, 0), 'commit', NONE, com, NONE), nc=iadd(nc, vdg.I(1)))
            return var

        def neg_term(lc, var):
            return struct(LC, 0, cat(fld(lc, None, 0), lit(tup(var, F(P - 1)))))

        def multiply(I, st, a, g):
            r = I.rread(st, a[0])
            L, R = I.rread(st, a[1]), I.rread(st, a[2])
            log, ng = fld(r, None, 0), fld(r, None, 2)
            vs = mul(ng)
            asg = NONE
            if fld(r, None, 4) is TRUE:
                asg = some(tup(mk('lcval', log, L), mk('lcval', log, R)))
            l1 = mk('rpush', log, 'gate', asg)
            l1 = mk('rpush', l1, 'constrain', neg_term(L, vs[0]))
            l1 = mk('rpush', l1, 'constrain', neg_term(R, vs[1]))
            upd(I, st, a[0], r, log=l1, ng=iadd(ng, vdg.I(1)))
            return tup(*vs)

        def missing(I, st, opt, f):
            return I.branch(st, isv(opt, 1), f, lambda s: err(struct(ERR, W.variant(ERR, 'MissingAssignment'))))

        def allocate_multiplier(I, st, a, g):
            r = I.rread(st, a[0])
            asg = I.rread(st, a[1])

            def go(s):
                r = I.rread(s, a[0])
                log, ng = fld(r, None, 0), fld(r, None, 2)
                x = some(fld(asg, 1, 0)) if fld(r, None, 4) is TRUE else NONE
                upd(I, s, a[0], r, log=mk('rpush', log, 'gate', x), ng=iadd(ng, vdg.I(1)))
                return ok(tup(*mul(ng)))
            if fld(r, None, 4) is TRUE:
                return missing(I, st, asg, go)
            return go(st)

        def alloc(I, st, me, asg, single):
            r = I.rread(st, me)

            def first(s):
                r = I.rread(s, me)
                log, ng = fld(r, None, 0), fld(r, None, 2)
                x = some(fld(asg, 1, 0)) if fld(r, None, 4) is TRUE else NONE
                upd(I, s, me, r, log=mk('rpush', log, 'half', x), ng=iadd(ng, vdg.I(1)), pend=some(ng))
                l = mul(ng)[0]
                return ok(tup(l, NONE) if single else l)

            def second(s):
                r = I.rread(s, me)
                log = fld(r, None, 0)
                i = fld(fld(r, None, 3), 1, 0)
                x = some(fld(asg, 1, 0)) if fld(r, None, 4) is TRUE else NONE
                upd(I, s, me, r, log=mk('rpush', log, 'fill', i, x), pend=NONE)
                rr, o = mul(i)[1:]
                return ok(tup(rr, some(o)) if single else rr)

            def go(s):
                return I.branch(s, isv(fld(I.rread(s, me), None, 3), 1), second, first)
            if fld(r, None, 4) is TRUE:
                return missing(I, st, asg, go)
            return go(st)

        def constrain(I, st, a, g):
            r = I.rread(st, a[0])
            upd(I, st, a[0], r, log=mk('rpush', fld(r, None, 0), 'constrain', I.rread(st, a[1])))
            return UNIT

        def evaluate_lc(I, st, a, g):
            r = I.rread(st, a[0])
            if fld(r, None, 4) is TRUE:
                return some(mk('lcval', fld(r, None, 0), I.rread(st, a[1])))
            return NONE

        def unsupported(I, st, a, g):
            upd(I, st, a[0], I.rread(st, a[0]), log=top('randomized constraints in a gadget'))
            return ok(UNIT)

        def tr(I, st, r):
            t = fld(r, None, 7)
            return I.rread(st, t) if t is not UNIT else UNIT

        def failure(I, st, which, usual):
            """any error of the underlying prover or verifier"""
            e = struct(ERR, W.variant(ERR, usual))
            for k, x in enumerate(W.prog.adts[ERR]['vs']):
                if x['n'] == usual:
                    continue
                fs = [sym('payload', 'tag') for _ in x['fs']]
                e = ite(ieq(sym(which, 'I'), vdg.I(k)), struct(ERR, k, *fs), e)
            return err(e)

        def prove(I, st, a, g):
            r = I.rread(st, a[0])
            I.write(st, self.done, struct('#done', 0, fld(r, None, 0), tr(I, st, r), UNIT, fld(r, None, 5), fld(r, None, 6), I.rread(st, a[1]), I.rread(st, a[2])))
            return I.branch(st, sym('prove succeeds', 'B'), lambda s: ok(sym('the proof', 'tag')),
                            lambda s: failure(I, s, 'prove error', 'InvalidGeneratorsLength'))

        def verify(I, st, a, g):
            r = I.rread(st, a[0])
            I.write(st, self.done, struct('#done', 0, fld(r, None, 0), tr(I, st, r), *[I.rread(st, x) for x in a[1:]]))
            return I.branch(st, sym('verify accepts', 'B'), lambda s: ok(UNIT),
                            lambda s: failure(I, s, 'verify error', 'VerificationError'))
        for adt in (PROVER, VERIFIER):
            pr = adt == PROVER
            I.overrides[W.method(adt, 'new')] = new(pr)
            I.overrides[W.method(adt, 'commit')] = commit
            for nm, f in (('multiply', multiply), ('allocate_multiplier', allocate_multiplier), ('constrain', constrain),
                          ('evaluate_lc', evaluate_lc),
                          ('allocate', lambda I, st, a, g: alloc(I, st, a[0], I.rread(st, a[1]), False)),
                          ('allocate_single', lambda I, st, a, g: alloc(I, st, a[0], I.rread(st, a[1]), True)),
                          ('specify_randomized_constraints', unsupported)):
                I.overrides[W.method(adt, nm, CS)] = f
            if pr:
                I.overrides[W.method(adt, 'prove')] = prove
                for nm in ('num_constraints', 'num_multipliers'):
                    try:
                        I.overrides[W.method(adt, nm)] = lambda I, st, a, g: vdg.I(0)
                    except MissingAnchor:
                        pass
            else:
                I.overrides[W.method(adt, 'verify')] = verify

    def call(self, path, args, genv=None, setup=None):
        """interpret an entry point; returns Run"""
        I = self.I
        st = I.new_state()
        self.done = I.new_cell(st, NONE, 'done')
        args = [a(I, st) if callable(a) else a for a in args]
        r = I.call_key(st, self.W.fn(path), args, genv or {})
        run = Run()
        run.result = r
        run.done = I.read(st, self.done.root, ())
        run.panic = st.cells[PANIC]
        run.path = path
        run.st = st
        return run

    def call_cs(self, path, prover, args, genv=None, commits=()):
        """interpret a constraint helper on a fresh constraint system; args may use the variables"""
        I = self.I
        st = I.new_state()
        W = self.W
        cell = I.new_cell(st, struct(REC, 0, mk('log0'), vdg.I(0), vdg.I(0), NONE, B(prover), sym('g', 'F'), sym('h', 'F'), UNIT), 'cs')
        vs = []
        key = W.method(PROVER if prover else VERIFIER, 'commit')
        for nm in commits:
            if prover:
                x = I.overrides[key](I, st, [cell.ref(), sym(nm, 'F'), ZERO_F], {})
                vs.append(fld(x, None, 1))
            else:
                vs.append(I.overrides[key](I, st, [cell.ref(), sym('com ' + nm, 'F')], {}))
        args = args(I, st, cell.ref(), vs)
        r = I.call_key(st, W.fn(path), args, genv or {})
        run = Run()
        run.result = r
        run.done = struct('#done', 0, fld(I.read(st, cell.root, ()), None, 0))
        run.panic = st.cells[PANIC]
        run.path = path
        run.st = st
        return run


    def call_sub(self, path, prover, args, genv=None, prefix=None):
        """interpret a sub-protocol on a constraint system that already holds other things:
        prefix is a list of 'commit', 'gate', 'half'"""
        I = self.I
        st = I.new_state()
        W = self.W
        cell = I.new_cell(st, struct(REC, 0, mk('log0'), vdg.I(0), vdg.I(0), NONE, B(prover), sym('g', 'F'), sym('h', 'F'), UNIT), 'cs')
        adt = PROVER if prover else VERIFIER
        ov = lambda nm, *a: I.overrides[W.method(adt, nm, *a)]
        for k, x in enumerate(prefix or ()):
            if x == 'commit':
                ov('commit')(I, st, [cell.ref(), sym('pre%d' % k, 'F')] + ([sym('prho%d' % k, 'F')] if prover else []), {})
            elif x == 'gate':
                a = some(tup(sym('pl%d' % k, 'F'), sym('pr%d' % k, 'F'))) if prover else NONE
                ov('allocate_multiplier', CS)(I, st, [cell.ref(), a], {})
            else:
                ov('allocate', CS)(I, st, [cell.ref(), some(sym('ph%d' % k, 'F')) if prover else NONE], {})
        r = I.call_key(st, W.fn(path), list(args) + [cell.ref()], genv or {})
        run = Run()
        run.result = r
        run.done = struct('#done', 0, fld(I.read(st, cell.root, ()), None, 0))
        run.panic = st.cells[PANIC]
        run.path = path
        run.st = st
        return run


ZERO_F = F(0)


class Run(object):
    def at(self, S):
        """instantiate: (log events or None, result, panic)"""
        pan = S.ev(self.panic)
        if pan is not None:
            return None, None, pan
        res = S.ev(self.result)
        self.last = None
        try:
            d = S.ev(self.done)
        except (Dead, Undecided):
            if isinstance(res, SV) and res.adt == RES and res.vi == 1:
                return None, res, None       # left with an error before the system was complete
            raise
        log = None
        if isinstance(d, SV) and d.adt == '#done':
            log = d.fs[0].events()
        self.last = d
        return log, res, None

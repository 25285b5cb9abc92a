"""Linear combinations and the polynomial helpers."""
from ..registry import check
from ..core import *
from ..oracle import P as _P
from ..evalr import H as HASH
from ..interp import unify
from .. import mine

OPS = {'core::ops::arith::Add': 'add', 'core::ops::arith::Sub': 'sub', 'core::ops::arith::Mul': 'mul',
       'core::ops::arith::Neg': 'neg', 'core::ops::arith::AddAssign': 'add_assign', 'core::ops::arith::SubAssign': 'sub_assign',
       'core::ops::arith::MulAssign': 'mul_assign', 'core::convert::From': 'from', 'core::default::Default': 'default',
       'core::iter::traits::collect::FromIterator': 'from_iter', 'core::iter::traits::accum::Sum': 'sum'}
TERM = ('tuple', (('adt', VAR, ()), ('adt', FE, ())))
VEC = 'alloc::vec::Vec'


def variables(W, seed):
    """the variables a sample's symbolic variables may be"""
    vs = [x['n'] for x in W.prog.adts[VAR]['vs']]
    out = []
    for k, nm in enumerate(vs):
        nf = len(W.prog.adts[VAR]['vs'][k]['fs'])
        if nf == 0:
            out.append(SV(VAR, k, ()))
        else:
            for i in range(3):
                out.append(SV(VAR, k, (i,)))
    return out


class Env(object):
    def __init__(self, W, seed, n):
        self.vars = variables(W, seed)
        self.seed = seed
        one = W.variant(VAR, 'One')
        self.one = one
        self.n = n

    def value(self, sv):
        if sv.vi == self.one:
            return 1
        return HASH('val', self.seed, sv.vi, sv.fs) % P

    special = None

    def pick(self, name):
        if self.special == 'constants':
            return lambda *i: SV(VAR, self.one, ())
        if self.special == 'one variable':
            return lambda *i: self.vars[-1] if self.vars[-1].vi != self.one else self.vars[0]
        return lambda *i: self.vars[HASH('pick', self.seed, name, tuple(i)) % len(self.vars)]

    def coef(self, name):
        return lambda *i: (0, 1, P - 1, 2, 1, HASH('again', self.seed) % P)[HASH('coef', self.seed, self.special, name, tuple(i)) % 6]

    def sample(self, names, types):
        over = {}
        ints = {}
        for nm, t in zip(names, types):
            if strip_ref(t) == ('adt', VAR, ()):
                over[nm] = self.pick(nm)
            over[nm + '.0'] = self.pick(nm)
            over[nm + '.terms.0'] = self.pick(nm)
            if self.special:
                over[nm + '.1'] = over[nm + '.terms.1'] = self.coef(nm)
                if strip_ref(t) == ('adt', FE, ()):
                    over[nm] = self.coef(nm)
            n = self.n[nm] if isinstance(self.n, dict) else self.n
            ints['#' + nm + '.terms'] = n
            ints['#' + nm] = n
        return Sample(self.seed, ints, over)

    def lc(self, v):
        """value of an evaluated LinearCombination / Variable / FieldElement / list of terms"""
        if isinstance(v, int):
            return v % P
        if isinstance(v, SV) and v.adt == VAR:
            return self.value(v)
        if isinstance(v, SV) and v.adt == LC:
            return self.lc(v.fs[0])
        if isinstance(v, (list, LSeq)):
            return sum(self.value(t.fs[0]) * t.fs[1] for t in v) % P
        raise Undecided('not a linear combination: %r' % (v,))


def concrete(t):
    """instances of an operand's generic type"""
    if t[0] == 'param':
        return [('adt', LC, ()), ('adt', VAR, ()), ('adt', FE, ())]
    return [t]


@check('C07', None)
def c07(ctx, W):
    I = W.I
    found = 0
    for b in W.dump['bodies']:
        if b['kind'] != 'AssocFn' or b.get('derived') or b.get('test') or b.get('implof') not in OPS:
            continue
        op = OPS[b['implof']]
        if b['name'] != op and not (op == 'sum' and b['name'] == 'sum'):
            continue
        pts = [W.prog.ty(p['ty']) for p in b['params']]
        ret = W.prog.ty(b['ret']) if b.get('ret') is not None else None
        slf = W.prog.ty(b['implself'])
        involved = [slf] + pts + ([ret] if ret else [])
        if not any(strip_ref(t)[0] == 'adt' and strip_ref(t)[1] in (LC, VAR) for t in involved):
            continue
        found += 1
        gens = []
        if op == 'from_iter':
            # any iterator over terms: a vector of them stands for it
            it = [('adt', VEC, (TERM,))]
            combos = [it]
        elif op == 'default':
            combos = [[]]
        else:
            combos = [[]]
            for t in pts:
                combos = [c + [x] for c in combos for x in concrete(t)]
        for combo in combos:
            genv = {}
            for t, x in zip(pts, combo):
                if t[0] == 'param':
                    genv[t[1]] = x
            where = '%s for %s (%s)' % (op, show_ty(slf), ', '.join(show_ty(x) for x in combo))
            runs = {}
            with ctx.guard('arithmetic/' + op):
                st = I.new_state()
                names = ['x%d' % j for j in range(len(combo))]
                vals = [W.mksym(nm, x) for nm, x in zip(names, combo)]
                args = []
                cell = None
                for v, t in zip(vals, combo):
                    if t[0] == 'ref' and t[1]:
                        cell = I.new_cell(st, v)
                        args.append(cell.ref())
                    else:
                        args.append(v)
                r = I.call_key(st, b['key'], args, genv)
                if cell is not None:
                    r = I.read(st, cell.root, ())
                runs = r
                cs = mine.literals(W, [b['key']]) | mine.consts(r)
            if runs == {}:
                continue
            plans = [(n, None) for n in sorted({0, 1, 2, 5} | set(mine.around(cs, 3, 80)))]
            plans += [(n, sp) for n in (1, 2, 3, 6) for sp in ('values', 'constants', 'one variable')]
            if len(names) > 1:
                plans += [(dict(zip(names, (a, c))), sp) for a, c in ((0, 1), (1, 0), (1, 3), (3, 1), (2, 4)) for sp in (None, 'one variable', 'constants')]
            for n, special in plans:
                with ctx.guard('arithmetic/' + op):
                    env = Env(W, ctx.seed, n)
                    env.special = special
                    S = env.sample(names, combo)
                    ins = [env.lc(S.ev(v)) for v in vals]
                    got = env.lc(S.ev(r))
                    if op in ('add', 'add_assign'):
                        exp = ins[0] + ins[1]
                    elif op in ('sub', 'sub_assign'):
                        exp = ins[0] - ins[1]
                    elif op in ('mul', 'mul_assign'):
                        exp = ins[0] * ins[1]
                    elif op == 'neg':
                        exp = -ins[0]
                    elif op in ('from', 'from_iter'):
                        exp = ins[0]
                    else:
                        exp = 0
                    pan = S.ev(st.cells[PANIC])
                    ctx.expect('arithmetic/' + op, where, got == exp % P and pan is None,
                               'the result does not have the value of the operation on its operands (%s terms%s)%s'
                               % (n if not isinstance(n, dict) else '/'.join(map(str, n.values())), ', special ' + special if special else '', ' and panics at %s' % pan if pan else ''))
                    ctx.sample(where)
    # simplify
    for n, special in [(n, None) for n in (0, 1, 2, 4, 9, 25, 64)] + [(n, sp) for n in (1, 2, 3, 8, 40) for sp in ('values', 'constants', 'one variable')]:
        with ctx.guard('simplify'):
            env = Env(W, ctx.seed + n, n)
            env.special = special
            st = I.new_state()
            x = W.mksym('x0', ('adt', LC, ()))
            r = I.call_key(st, W.method(LC, 'simplify'), [x], {})
            S = env.sample(['x0'], [('adt', LC, ())])
            a, b = S.ev(x), S.ev(r)
            ctx.expect('simplify/value', 'LinearCombination::simplify', env.lc(a) == env.lc(b),
                       'simplify changes the value of a combination of %d terms' % n)
            vs = [hz(t.fs[0]) for t in b.fs[0]]
            ctx.expect('simplify/one term per variable', 'LinearCombination::simplify', len(vs) == len(set(vs)),
                       'a variable occurs in several terms after simplify (%d terms)' % n)
    with ctx.guard('len and terms'):
        env = Env(W, ctx.seed, 4)
        st = I.new_state()
        x = W.mksym('x0', ('adt', LC, ()))
        l = I.call_key(st, W.method(LC, 'len'), [x], {})
        t = I.call_key(st, W.method(LC, 'get_terms'), [x], {})
        S = env.sample(['x0'], [('adt', LC, ())])
        ctx.expect('len and terms', 'LinearCombination::len', S.ev(l) == 4, 'len is not the number of terms')
        ctx.expect('len and terms', 'LinearCombination::get_terms', env.lc(S.ev(t)) == env.lc(S.ev(x)), 'the terms returned have another value')
    ctx.analysed['operations'] = found
    ctx.floor('arithmetic', 60)
    ctx.floor('simplify', 8)


def show_ty(t):
    t = strip_ref(t)
    if t[0] == 'adt':
        return t[1].split('::')[-1]
    return t[0]


# ------------------------------------------------------------------------------------------------
@check('C13', None)
def c13(ctx, W):
    """polynomial helpers: evaluation and inner product commute"""
    I = W.I
    VP3, VP1 = W.adt('VecPoly3'), W.adt('VecPoly1')
    P6, P2 = W.adt('Poly6'), W.adt('Poly2')

    def ev(adt, v, x, st=None):
        st = st or I.new_state()
        return I.call_key(st, W.method(adt, 'eval'), [v, x], {}), st

    n = sym('n', 'I')

    def vp(adt, name):
        k = len(W.fields(adt))
        return struct(adt, 0, *[mkcomp(n, lambda i, j=j: sym('%s%d' % (name, j), 'F', i)) for j in range(k)])
    x = sym('x', 'F')
    # the point and the coefficients: arbitrary ones, and special ones
    keys = [b['key'] for b in W.dump['bodies'] if 'vector_poly' in b['key'] or 'VecPoly' in b['key']]
    lengths = sorted({0, 1, 2, 3, 7} | set(mine.around(mine.literals(W, keys), 0, 300)))
    plan = [(n_, sp, xs) for n_ in lengths for sp, xs in ((0, None), (0, 0), (0, 1), (0, P - 1), (1, None), (2, None), (3, 2))]
    for nn_, special, xs in plan:
        def coef(nm):
            def f(i):
                h = HASH('vp', ctx.seed, special, nm, i)
                if special == 1 and HASH('zv', ctx.seed, nm) % 2 or special == 2 and h % 3 or special == 3:
                    return (0, 1, P - 1, 0)[(h >> 8) % 4]
                return h % P
            return f
        over = {nm + str(j): coef(nm + str(j)) for nm in 'clr' for j in range(4)}
        if xs is not None:
            over['x'] = xs
        S = Sample(ctx.seed, {'n': nn_}, over)
        xv = S.symbol('x', 'F', ())
        for adt, deg in ((VP3, 4), (VP1, 2)):
            with ctx.guard('vector polynomial evaluation'):
                r, st = ev(adt, vp(adt, 'c'), x)
                got = S.ev(r)
                exp = [sum(S.symbol('c%d' % j, 'F', (i,)) * pow(xv, j, P) for j in range(deg)) % P for i in range(nn_)]
                ctx.expect('vector polynomial evaluation', show_ty(('adt', adt, ())) + '::eval',
                           list(got) == exp and S.ev(st.cells[PANIC]) is None, 'eval of a vector polynomial of length %d is not its value at the point' % nn_)
        for adt, meth, deg in ((VP3, 'special_inner_product', 6), (VP1, 'inner_product', 2)):
            with ctx.guard('inner product'):
                st = I.new_state()
                l, r = vp(adt, 'l'), vp(adt, 'r')
                q = I.call_key(st, W.method(adt, meth), [l, r], {})
                res = S.ev(q)
                radt = P6 if deg == 6 else P2
                # evaluate the resulting polynomial by its documented coefficients
                fs = W.fields(radt)
                pv = 0
                for nm, c in zip(fs, res.fs):
                    pv += c * pow(xv, int(''.join(ch for ch in nm if ch.isdigit())), P)
                k = 4 if deg == 6 else 2
                sp = deg == 6
                lx = [sum(S.symbol('l%d' % j, 'F', (i,)) * pow(xv, j, P) for j in range(k) if not (sp and j == 0)) for i in range(nn_)]
                rx = [sum(S.symbol('r%d' % j, 'F', (i,)) * pow(xv, j, P) for j in range(k) if not (sp and j == 2)) for i in range(nn_)]
                ctx.expect('inner product', '%s::%s' % (show_ty(('adt', adt, ())), meth), pv % P == sum(a * b for a, b in zip(lx, rx)) % P,
                           'the inner product of two vector polynomials of length %d does not evaluate to the inner product of their values' % nn_)
        with ctx.guard('zero'):
            for adt in (VP3, VP1):
                st = I.new_state()
                z = S.ev(I.call_key(st, W.method(adt, 'zero'), [n], {}))
                ctx.expect('zero', show_ty(('adt', adt, ())) + '::zero', all(list(f) == [0] * nn_ for f in z.fs), 'zero(%d) is not the zero polynomial' % nn_)
    for adt, xs in [(a, x) for a in (P6, P2) for x in (None, 0, 1, P - 1, 2)]:
        S = Sample(ctx.seed, {}, {} if xs is None else {'x': xs})
        xv = S.symbol('x', 'F', ())
        with ctx.guard('polynomial evaluation'):
            fs = W.fields(adt)
            v = struct(adt, 0, *[sym('t' + f, 'F') for f in fs])
            r, st = ev(adt, v, x)
            exp = sum(S.symbol('t' + f, 'F', ()) * pow(xv, int(''.join(ch for ch in f if ch.isdigit())), P) for f in fs) % P
            ctx.expect('polynomial evaluation', show_ty(('adt', adt, ())) + '::eval', S.ev(r) == exp, 'eval is not the value of the polynomial')
    ctx.floor('vector polynomial evaluation', 10)
    ctx.floor('inner product', 10)
    ctx.floor('polynomial evaluation', 2)

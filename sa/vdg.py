"""Value-dependence graph: hash-consed terms that say how every value of the analysed program is
computed from its inputs (joins are `ite`, loops are recurrence nodes or solved closed forms), with
light algebraic normalisation.  Nothing in here executes the analysed program."""
import sys
sys.setrecursionlimit(200000)

# the order of the BLS12-381 group: the field the crate computes in with its default features
P = 0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001
INF = 1 << 40
EMPTY = frozenset()


class T(object):
    __slots__ = ('op', 'a', 'fv', 'id', 'top')

    def __repr__(self):
        return show(self)


_tab = {}
_n = [0]


def reset():
    _tab.clear()
    global UNIT, TRUE, FALSE, ZERO, ONE, FZ, FONE, NIL, NONE
    _init()


def mk(op, *a):
    key = (op,) + a
    t = _tab.get(key)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.a = a
    _n[0] += 1
    t.id = _n[0]
    if op == 'var':
        t.fv = frozenset((a[0],))
    elif op == 'comp':
        t.fv = a[1].fv | (a[2].fv - {a[0]})
    elif op == 'loop':
        iv, phis = a[0]
        k = len(phis)
        # a = ((iv, phis), N, cond, init*, next*)
        outer = a[1].fv
        for x in a[3:3 + k]:
            outer = outer | x.fv
        inner = a[2].fv
        for x in a[3 + k:]:
            inner = inner | x.fv
        t.fv = outer | (inner - frozenset(phis) - {iv})
    else:
        s = EMPTY
        for x in a:
            if x.__class__ is T and x.fv:
                s = s | x.fv if s else x.fv
        t.fv = s
    t.top = op == 'top' or any(x.__class__ is T and x.top for x in a)
    _tab[key] = t
    return t


_fresh = [0]


def fresh(p='i'):
    _fresh[0] += 1
    return '%s#%d' % (p, _fresh[0])


# ------------------------------------------------------------------ constants
def I(n):
    return mk('i', int(n))


def B(b):
    return TRUE if b else FALSE


def F(n):
    return mk('fc', n % P)


def BY(b):
    return mk('by', bytes(b))


def STR(s):
    return mk('s', s)


def _init():
    global UNIT, TRUE, FALSE, ZERO, ONE, FZ, FONE, NIL, NONE
    TRUE = mk('b', True)
    FALSE = mk('b', False)
    ZERO = I(0)
    ONE = I(1)
    FZ = F(0)
    FONE = F(1)
    NIL = mk('lit')
    UNIT = mk('struct', '()', 0)
    NONE = mk('struct', 'core::option::Option', 0)


_init()


def top(why):
    return mk('top', why)


def var(n):
    return mk('var', n)


def sym(name, sort, *idx):
    return mk('sym', name, sort, *idx)


# ------------------------------------------------------------------ integers (linear normal form)
def _lin(t):
    if t.op == 'i':
        return {}, t.a[0]
    if t.op == 'lin':
        return dict(zip(t.a[2:], t.a[1])), t.a[0]
    return {t: 1}, 0


def _unlin(d, c):
    it = sorted(((k, v) for k, v in d.items() if v), key=lambda kv: kv[0].id)
    if not it:
        return I(c)
    if c == 0 and len(it) == 1 and it[0][1] == 1:
        return it[0][0]
    return mk('lin', c, tuple(v for _, v in it), *[k for k, _ in it])


def iadd(a, b, s=1):
    d, c = _lin(a)
    e, f = _lin(b)
    if not isinstance(d, dict):
        d = dict(d)
    d = dict(d)
    for k, v in e.items():
        d[k] = d.get(k, 0) + s * v
    return _unlin(d, c + s * f)


def isub(a, b):
    return iadd(a, b, -1)


def imul(a, b):
    if a.op == 'i':
        a, b = b, a
    if b.op == 'i':
        k = b.a[0]
        if k == 0:
            return ZERO
        d, c = _lin(a)
        return _unlin({x: v * k for x, v in d.items()}, c * k)
    if a.id > b.id:
        a, b = b, a
    return mk('imul', a, b)


def iop(op, a, b):
    if a.op == 'i' and b.op == 'i':
        r = int_op(op, a.a[0], b.a[0])
        if r is not None:
            return I(r)
    if op == 'imin':
        if a is b:
            return a
        for x, y in ((a, b), (b, a)):
            if x.op == 'i' and x.a[0] >= INF:
                return y
        d = isub(a, b)
        if d.op == 'i':
            return b if d.a[0] >= 0 else a
        if a.id > b.id:
            a, b = b, a
    if op == 'imax' and a is b:
        return a
    if op == 'idiv' and b is ONE:
        return a
    if op == 'ishl' and b.op == 'i':
        return imul(a, I(1 << b.a[0]))
    if op == 'ipow' and b.op == 'i' and b.a[0] == 1:
        return a
    return mk(op, a, b)


def int_op(op, a, b):
    if op == 'imul':
        return a * b
    if op == 'idiv':
        return a // b if b else None
    if op == 'irem':
        return a % b if b else None
    if op == 'ishl':
        return a << b if 0 <= b < 4096 else None
    if op == 'ishr':
        return a >> b if 0 <= b < 4096 else None
    if op == 'iand':
        return a & b
    if op == 'ior':
        return a | b
    if op == 'ixor':
        return a ^ b
    if op == 'imin':
        return min(a, b)
    if op == 'imax':
        return max(a, b)
    if op == 'ipow':
        return a ** b
    return None


# quantities that are never negative: used to discharge a few comparisons
def nonneg(t):
    if t.op == 'i':
        return t.a[0] >= 0
    if t.op == 'lin':
        return t.a[0] >= 0 and all(c >= 0 for c in t.a[1]) and all(nonneg(x) for x in t.a[2:])
    if t.op in ('len', 'sym', 'imin', 'imul', 'idiv', 'ishr', 'irem', 'npow2', 'tz', 'mlen', 'ishl', 'iand', 'bitlen',
                'wrap', 'b2i', 'lz', 'popcnt', 'strlen', 'irand', 'idrand'):
        return True
    if t.op == 'get' and t.a[0].op == 'lebytes':
        return True
    if t.op == 'imax':
        return nonneg(t.a[0]) or nonneg(t.a[1])
    if t.op == 'var':
        return t.a[0].startswith('i#')
    if t.op == 'ite':
        return nonneg(t.a[1]) and nonneg(t.a[2])
    if t.op == 'lout' or t.op == 'get' or t.op == 'fld':
        return False
    return False


def ub(t, depth=6):
    """an upper bound of a non-negative quantity, or None (in memory there are fewer than 2^40 things)"""
    if t.op == 'i':
        return t.a[0]
    if depth == 0:
        return None
    if t.op in ('len', 'mlen', 'strlen') or (t.op == 'var' and t.a[0].startswith('i#')):
        return 1 << 40
    if t.op in ('bitlen', 'tz', 'lz', 'popcnt'):
        return 128
    if t.op == 'b2i':
        return 1
    if t.op in ('wrap', 'irand', 'idrand'):
        return (1 << t.a[1]) - 1
    if t.op == 'irem':
        b = ub(t.a[1], depth - 1)
        return None if b is None else max(b - 1, 0)
    if t.op in ('imin', 'iand'):
        xs = [x for x in (ub(t.a[0], depth - 1), ub(t.a[1], depth - 1)) if x is not None]
        return min(xs) if xs else None
    if t.op in ('imax', 'imul', 'ior', 'ixor'):
        xs = [ub(x, depth - 1) for x in t.a]
        if None in xs:
            return None
        return max(xs) if t.op == 'imax' else xs[0] * xs[1] if t.op == 'imul' else (1 << max(x.bit_length() for x in xs)) - 1
    if t.op == 'idiv':
        return ub(t.a[0], depth - 1)
    if t.op == 'ishr':
        x = ub(t.a[0], depth - 1)
        return x if x is None or t.a[1].op != 'i' else x >> t.a[1].a[0]
    if t.op == 'ite':
        xs = [ub(x, depth - 1) for x in t.a[1:]]
        return None if None in xs else max(xs)
    if t.op == 'npow2':
        x = ub(t.a[0], depth - 1)
        return None if x is None else 2 * x + 1
    if t.op == 'get' and t.a[0].op == 'lebytes':
        return 255
    if t.op == 'lin':
        r = t.a[0]
        for c, x in zip(t.a[1], t.a[2:]):
            if c < 0:
                if not nonneg(x):
                    return None
                continue
            u = ub(x, depth - 1)
            if u is None:
                return None
            r += c * u
        return r
    return None


def fits(v, bits):
    if not nonneg(v):
        return False
    u = ub(v)
    return u is not None and u < (1 << bits)


def iwrap(v, bits):
    """v as an unsigned number of that many bits"""
    if v.op == 'i':
        return I(v.a[0] % (1 << bits))
    if v.op in ('top', 'dead') or fits(v, bits):
        return v
    if v.op in ('wrap', 'swrap') and v.a[1] >= bits:
        v = v.a[0]
    return mk('wrap', v, bits)


def swrap(v, bits):
    """v as a signed number of that many bits"""
    if v.op == 'i':
        m = v.a[0] % (1 << bits)
        return I(m - (1 << bits) if m >> (bits - 1) else m)
    if v.op in ('top', 'dead') or fits(v, bits - 1):
        return v
    return mk('swrap', v, bits)


BOUND = {}  # iteration variable -> exclusive upper bound (T)


def nn(d, depth=3):
    """d >= 0, using also that an iteration variable is below its bound"""
    if nonneg(d):
        return True
    if d.op in ('i', 'top', 'dead') or depth == 0:
        return False
    if d.op == 'lin':
        for c, x in zip(d.a[1], d.a[2:]):
            if c < 0 and x.op == 'var' and x.a[0] in BOUND:
                n = BOUND[x.a[0]]
                # worst case: x = n - 1
                w = iadd(isub(d, imul(x, I(c))), imul(isub(n, ONE), I(c)))
                return nn(w, depth - 1)
            if c < 0 and x.op == 'imin':
                # min(p, q) <= p and <= q
                for y in x.a:
                    if nn(iadd(isub(d, imul(x, I(c))), imul(y, I(c))), depth - 1):
                        return True
            if c < 0 and x.op == 'idiv' and x.a[1].op == 'i' and x.a[1].a[0] > 0:
                if nn(iadd(isub(d, imul(x, I(c))), imul(x.a[0], I(c))), depth - 1):
                    return True
            if c > 0 and x.op == 'npow2':
                if nn(iadd(isub(d, imul(x, I(c))), imul(x.a[0], I(c))), depth - 1):
                    return True
    return False


def lt(a, b):
    d = isub(b, a)  # a < b  <=>  d >= 1
    if d.op == 'i':
        return B(d.a[0] > 0)
    if nn(isub(d, ONE)):
        return TRUE
    if nn(isub(a, b)):
        return FALSE
    return mk('lt', a, b)


def ieq(a, b):
    d = isub(a, b)
    if d.op == 'i':
        return B(d.a[0] == 0)
    if nn(isub(d, ONE)) or nn(isub(isub(ZERO, d), ONE)):
        return FALSE
    if a.id > b.id:
        a, b = b, a
    return mk('ieq', a, b)


# ------------------------------------------------------------------ booleans
def not_(a):
    if a.op == 'b':
        return B(not a.a[0])
    if a.op == 'not':
        return a.a[0]
    return mk('not', a)


def and_(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE or a is b:
        return a
    if not_(a) is b:
        return FALSE
    # and(and(x, y), y) = and(x, y)
    c = a
    while c.op == 'and':
        if c.a[1] is b:
            return a
        c = c.a[0]
    if c is b:
        return a
    return mk('and', a, b)


def or_(a, b):
    return not_(and_(not_(a), not_(b)))


def conjuncts(c):
    if c.op == 'and':
        return conjuncts(c.a[0]) + conjuncts(c.a[1])
    return [c]


# ------------------------------------------------------------------ ite / data
def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.a[0], b, a)
    if a.op == 'ite' and a.a[0] is c:
        a = a.a[1]
    if b.op == 'ite' and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    if a.op == 'b' or b.op == 'b':
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return not_(c)
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is FALSE:
            return and_(c, a)
        return or_(not_(c), a)
    if a.op == 'struct' and b.op == 'struct' and a.a[0] == b.a[0] and a.a[1] == b.a[1] and len(a.a) == len(b.a):
        return mk('struct', a.a[0], a.a[1], *[ite(c, x, y) for x, y in zip(a.a[2:], b.a[2:])])
    return mk('ite', c, a, b)


def struct(adt, vi, *fs):
    return mk('struct', adt, vi, *fs)


def tup(*xs):
    return mk('struct', '()', 0, *xs)


OPT = 'core::option::Option'
RES = 'core::result::Result'


def some(x):
    return mk('struct', OPT, 1, x)


def none():
    return NONE


def ok(x):
    return mk('struct', RES, 0, x)


def err(x):
    return mk('struct', RES, 1, x)


_fldc = {}


def fld(t, vi, i):
    """field i of variant vi (vi None: a struct or tuple)"""
    if t.op == 'struct':
        if vi is not None and vi != t.a[1]:
            return mk('dead')
        if len(t.a) <= 2 + i:
            return mk('dead')
        return t.a[2 + i]
    if t.op == 'ite':
        k = (t, vi, i)
        r = _fldc.get(k)
        if r is None:
            x, y = fld(t.a[1], vi, i), fld(t.a[2], vi, i)
            if x.op == 'dead':
                r = y
            elif y.op == 'dead':
                r = x
            else:
                r = ite(t.a[0], x, y)
            _fldc[k] = r
        return r
    if t.op == 'setf':
        b, v2, j, x = t.a
        if j == i:
            return x
        return fld(b, vi, i)
    if t.op in ('top', 'dead'):
        return t
    return mk('fld', t, vi, i)


def setf(t, vi, i, x):
    if t.op == 'struct':
        a = list(t.a)
        if len(a) <= 2 + i:
            return t
        a[2 + i] = x
        return mk('struct', *a)
    if t.op == 'ite':
        return ite(t.a[0], setf(t.a[1], vi, i, x), setf(t.a[2], vi, i, x))
    if t.op in ('top', 'dead'):
        return t
    if x.op == 'fld' and x.a == (t, vi, i):
        return t
    return mk('setf', t, vi, i, x)


_isvc = {}


def isv(t, vi):
    if t.op == 'struct':
        return B(t.a[1] == vi)
    if t.op == 'ite':
        k = (t, vi)
        r = _isvc.get(k)
        if r is None:
            r = ite(t.a[0], isv(t.a[1], vi), isv(t.a[2], vi))
            _isvc[k] = r
        return r
    if t.op == 'setf':
        return isv(t.a[0], vi)
    if t.op == 'top':
        return t
    if t.op == 'dead':
        return FALSE
    return mk('isv', t, vi)


# ------------------------------------------------------------------ field (points live in the same ring)
def fadd(a, b):
    if a is FZ:
        return b
    if b is FZ:
        return a
    if a.op == 'fc' and b.op == 'fc':
        return F(a.a[0] + b.a[0])
    if a.id > b.id:
        a, b = b, a
    return mk('fadd', a, b)


def fneg(a):
    if a.op == 'fc':
        return F(-a.a[0])
    if a.op == 'fneg':
        return a.a[0]
    return mk('fneg', a)


def fsub(a, b):
    if a is b and not a.top:
        return FZ
    return fadd(a, fneg(b))


def fmul(a, b):
    if a is FZ or b is FZ:
        return FZ
    if a is FONE:
        return b
    if b is FONE:
        return a
    if a.op == 'fc' and b.op == 'fc':
        return F(a.a[0] * b.a[0])
    if a.op == 'fneg':
        return fneg(fmul(a.a[0], b))
    if b.op == 'fneg':
        return fneg(fmul(a, b.a[0]))
    if a.id > b.id:
        a, b = b, a
    return mk('fmul', a, b)


def finv(a):
    if a.op == 'fc':
        return F(pow(a.a[0], P - 2, P))
    if a.op == 'finv':
        return a.a[0]
    return mk('finv', a)


def fpow(a, n):
    if n.op == 'i' and 0 <= n.a[0] <= 1:
        return FONE if n.a[0] == 0 else a
    if a is FONE:
        return a
    return mk('fpow', a, n)


LIMB = 58


def i2fx(n):
    """a conversion that puts the whole number in one limb: exact only if it fits"""
    if fits(n, LIMB):
        return i2f(n)
    if n.op in ('top', 'dead'):
        return n
    return mk('i2fx', n)


def i2f(n):
    if n.op == 'i':
        return F(n.a[0])
    return mk('i2f', n)


def fsum(seq):
    """sum of the elements of a sequence"""
    if seq.op == 'lit':
        r = FZ
        for x in seq.a:
            r = fadd(r, x)
        return r
    if seq.op == 'cat':
        return fadd(fsum(seq.a[0]), fsum(seq.a[1]))
    return mk('fsum', seq)


# ------------------------------------------------------------------ sequences
def lit(*xs):
    return mk('lit', *xs)


def comp(iv, n, body):
    if n is ZERO:
        return NIL
    BOUND[iv] = n
    # eta: [get(s, i) for i < len(s)] = s
    if body.op == 'get' and body.a[1].op == 'var' and body.a[1].a[0] == iv and iv not in body.a[0].fv \
            and slen(body.a[0]) is n:
        return body.a[0]
    return mk('comp', iv, n, body)


def mkcomp(n, f):
    iv = fresh()
    BOUND[iv] = n
    return comp(iv, n, f(var(iv)))


def slen(s):
    o = s.op
    if o == 'lit':
        return I(len(s.a))
    if o == 'by':
        return I(len(s.a[0]))
    if o == 'cat':
        return iadd(slen(s.a[0]), slen(s.a[1]))
    if o == 'comp':
        return s.a[1]
    if o == 'slice':
        return isub(s.a[2], s.a[1])
    if o in ('upd', 'rev', 'set'):
        return slen(s.a[0])
    if o == 'ite':
        return ite(s.a[0], slen(s.a[1]), slen(s.a[2]))
    if o in ('top', 'dead'):
        return s
    if o == 'fbytes':
        return I(48)
    if o == 'pbytes':
        return I(97)
    return mk('len', s)


def get(s, i):
    o = s.op
    if o == 'lit':
        if i.op == 'i':
            if 0 <= i.a[0] < len(s.a):
                return s.a[i.a[0]]
            return mk('dead')
        if len(s.a) == 1:
            return s.a[0]
    elif o == 'comp':
        return subst(s.a[2], {s.a[0]: i})
    elif o == 'cat':
        n = slen(s.a[0])
        c = lt(i, n)
        if c is TRUE:
            return get(s.a[0], i)
        if c is FALSE:
            return get(s.a[1], isub(i, n))
    elif o == 'slice':
        return get(s.a[0], iadd(i, s.a[1]))
    elif o == 'upd':
        c = ieq(i, s.a[1])
        if c is TRUE:
            return s.a[2]
        if c is FALSE:
            return get(s.a[0], i)
    elif o == 'rev':
        return get(s.a[0], isub(isub(slen(s.a[0]), ONE), i))
    elif o == 'ite':
        return ite(s.a[0], get(s.a[1], i), get(s.a[2], i))
    elif o in ('top', 'dead'):
        return s
    elif o == 'by' and i.op == 'i' and 0 <= i.a[0] < len(s.a[0]):
        return I(s.a[0][i.a[0]])
    return mk('get', s, i)


def cat(a, b):
    if a is NIL:
        return b
    if b is NIL:
        return a
    if a.op == 'lit' and b.op == 'lit':
        return mk('lit', *(a.a + b.a))
    if a.op == 'by' and b.op == 'by':
        return BY(a.a[0] + b.a[0])
    if b.op == 'cat':
        return cat(cat(a, b.a[0]), b.a[1])
    if a.op == 'cat' and a.a[1].op == 'lit' and b.op == 'lit':
        return cat(a.a[0], mk('lit', *(a.a[1].a + b.a)))
    if a.op == 'top':
        return a
    return mk('cat', a, b)


def slc(s, lo, hi):
    n = slen(s)
    if lo is ZERO and hi is n:
        return s
    if lo is hi:
        return NIL
    if s.op == 'lit' and lo.op == 'i' and hi.op == 'i':
        return mk('lit', *s.a[max(0, lo.a[0]):max(0, hi.a[0])])
    if s.op == 'by' and lo.op == 'i' and hi.op == 'i':
        return BY(s.a[0][lo.a[0]:hi.a[0]])
    if s.op == 'slice':
        return slc(s.a[0], iadd(lo, s.a[1]), iadd(hi, s.a[1]))
    if s.op == 'comp':
        iv = fresh()
        return comp(iv, isub(hi, lo), subst(s.a[2], {s.a[0]: iadd(var(iv), lo)}))
    if s.op == 'cat':
        m = slen(s.a[0])
        d = isub(m, hi)
        if nn(d):
            return slc(s.a[0], lo, hi)
        d = isub(lo, m)
        if nn(d):
            return slc(s.a[1], isub(lo, m), isub(hi, m))
        if nn(isub(m, lo)) and nn(isub(hi, m)):
            return cat(slc(s.a[0], lo, m), slc(s.a[1], ZERO, isub(hi, m)))
    if s.op in ('top', 'dead'):
        return s
    if s.op == 'ite' and (s.a[1].op == 'lit' or s.a[2].op == 'lit'):
        pass
    return mk('slice', s, lo, hi)


def upd(s, i, v):
    if s.op == 'lit' and i.op == 'i' and 0 <= i.a[0] < len(s.a):
        a = list(s.a)
        a[i.a[0]] = v
        return mk('lit', *a)
    if s.op == 'upd' and s.a[1] is i:
        return upd(s.a[0], i, v)
    if s.op == 'top':
        return s
    if v.op == 'get' and v.a[0] is s and v.a[1] is i:
        return s
    if s.op == 'cat':
        n = slen(s.a[0])
        c = lt(i, n)
        if c is TRUE:
            return cat(upd(s.a[0], i, v), s.a[1])
        if c is FALSE:
            return cat(s.a[0], upd(s.a[1], isub(i, n), v))
    return mk('upd', s, i, v)


def rev(s):
    if s.op == 'lit':
        return mk('lit', *reversed(s.a))
    if s.op == 'rev':
        return s.a[0]
    if s.op == 'comp':
        iv = fresh()
        return comp(iv, s.a[1], subst(s.a[2], {s.a[0]: isub(isub(s.a[1], ONE), var(iv))}))
    if s.op == 'cat':
        return cat(rev(s.a[1]), rev(s.a[0]))
    if s.op == 'top':
        return s
    return mk('rev', s)


def lout(loop, k):
    if loop.op == 'top':
        return loop
    return mk('lout', loop, k)


# ------------------------------------------------------------------ generic equality of data values
def eqv(a, b):
    if a is b and not a.top:
        return TRUE
    if a.top:
        return a
    if b.top:
        return b
    if a.op == 'struct' and b.op == 'struct':
        if a.a[1] != b.a[1] or len(a.a) != len(b.a):
            return FALSE
        r = TRUE
        for x, y in zip(a.a[2:], b.a[2:]):
            r = and_(r, eqv(x, y))
        return r
    if a.op in ('fc', 'by', 's', 'b') and a.op == b.op:
        return B(a.a[0] == b.a[0])
    if a.id > b.id:
        a, b = b, a
    return mk('eq', a, b)


# ------------------------------------------------------------------ rebuild / substitution
REB = {
    'lt': lt, 'ieq': ieq, 'not': not_, 'and': and_, 'ite': ite, 'fld': fld, 'setf': setf, 'isv': isv,
    'fadd': fadd, 'fneg': fneg, 'fmul': fmul, 'finv': finv, 'fpow': fpow, 'i2f': i2f, 'fsum': fsum,
    'len': slen, 'get': get, 'cat': cat, 'slice': slc, 'upd': upd, 'rev': rev, 'eq': eqv, 'imul': imul,
    'lout': lout, 'wrap': iwrap, 'swrap': swrap, 'i2fx': i2fx,
}
for _o in ('idiv', 'irem', 'ishl', 'ishr', 'iand', 'ior', 'ixor', 'imin', 'imax', 'ipow'):
    REB[_o] = (lambda o: lambda a, b: iop(o, a, b))(_o)


def rebuild(op, a):
    f = REB.get(op)
    if f:
        return f(*a)
    if op == 'lin':
        r = I(a[0])
        for c, x in zip(a[1], a[2:]):
            r = iadd(r, imul(x, I(c)))
        return r
    if op == 'comp':
        return comp(*a)
    return mk(op, *a)


def subst(t, m, memo=None):
    """replace free variables; m: name -> T (binders are globally unique, so there is no capture
    unless a binder is instantiated inside its own scope, which renames it)"""
    if memo is None:
        memo = {}
        m = {k: v for k, v in m.items() if k in t.fv}
        if not m:
            return t
    return _subst(t, m, frozenset(m), memo)


def _captures(bs, m):
    return any(b in v.fv for v in m.values() for b in bs)


def _subst(t, m, ks, memo):
    if not (t.fv & ks):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == 'var':
        r = m.get(t.a[0], t)
    elif t.op == 'comp':
        n2 = _subst(t.a[1], m, ks, memo)
        iv2, body = t.a[0], t.a[2]
        if _captures((iv2,), m) or n2 is not t.a[1]:
            iv2 = fresh()
            body = subst(t.a[2], {t.a[0]: var(iv2)})
        BOUND[iv2] = n2
        r = comp(iv2, n2, _subst(body, m, ks, {}))
    elif t.op == 'loop':
        iv, phis = t.a[0]
        k = len(phis)
        if _captures((iv,) + phis, m):
            ren = {p: var(fresh(p.split('#')[0])) for p in (iv,) + phis}
        else:
            ren = {p: var(p) for p in (iv,) + phis}
        inner = [subst(x, ren) for x in (t.a[2],) + t.a[3 + k:]]
        mm = {}
        inner = [_subst(x, m, ks, mm) for x in inner]
        r = mk('loop', (ren[iv].a[0], tuple(ren[p].a[0] for p in phis)), _subst(t.a[1], m, ks, memo),
               inner[0], *([_subst(x, m, ks, memo) for x in t.a[3:3 + k]] + inner[1:]))
    else:
        r = rebuild(t.op, tuple(_subst(x, m, ks, memo) if x.__class__ is T else x for x in t.a))
    memo[t] = r
    return r


# ------------------------------------------------------------------ printing, walking
def show(t, d=7):
    if not isinstance(t, T):
        return repr(t)
    if t.op in ('i', 'b', 'var', 's', 'by'):
        return str(t.a[0])
    if t.op == 'fc':
        v = t.a[0]
        return 'F%d' % (v if v < P // 2 else v - P)
    if d == 0:
        return '..'
    if t.op == 'struct':
        return '%s:%s(%s)' % (t.a[0].split('::')[-1], t.a[1], ', '.join(show(x, d - 1) for x in t.a[2:]))
    if t.op == 'lin':
        return '(' + '+'.join(['%d*%s' % (c, show(x, d - 1)) for c, x in zip(t.a[1], t.a[2:])]) + '+%d)' % t.a[0]
    return '%s(%s)' % (t.op, ', '.join(show(x, d - 1) for x in t.a))


def children(t):
    return [x for x in t.a if x.__class__ is T]


def walk(*ts):
    """all distinct sub-terms"""
    seen = set()
    st = list(ts)
    while st:
        t = st.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        yield t
        for x in t.a:
            if x.__class__ is T:
                st.append(x)

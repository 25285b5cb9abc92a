"""Models of the external functions the crate calls (std, amcl_wrapper, merlin).
Field elements and group elements live in one ring: a point is a ring element, scalar
multiplication is ring multiplication, so a multi-scalar multiplication is the polynomial it denotes."""
from .vdg import *
from . import vdg
from .interp import Frame, PANIC, RNG, pf, pix, strip_ref, UNROLL

FE = 'amcl_wrapper::field_elem::FieldElement'
FEV = 'amcl_wrapper::field_elem::FieldElementVector'
G1 = 'amcl_wrapper::group_elem_g1::G1'
G1V = 'amcl_wrapper::group_elem_g1::G1Vector'
MODBYTES = 48
RING = (FE, G1)


class _Fr(object):
    def __init__(self):
        self.exits = []
        self.id = -1
        self.genv = {}
        self.up = {}


def frame():
    return _Fr()


REG = {}


def M(*names):
    def d(f):
        for n in names:
            REG[n] = f
        return f
    return d


class Models(object):
    def prefer_model(self, b):
        """derived implementations mean what the trait says"""
        return bool(b.get('derived')) and b.get('implof') in (
            'core::clone::Clone', 'core::cmp::PartialEq', 'core::fmt::Debug', 'core::hash::Hash', 'core::cmp::Eq')

    def lookup(self, c):
        f = c.f
        n = f['name']
        if f.get('trait'):
            k = f['trait'].split('::')[-1] + '.' + n
        elif f.get('implself') is not None:
            t = c.I.p.ty(f['implself'])
            k = owner(t) + '.' + n
        elif f.get('implof'):
            k = f['implof'].split('::')[-1] + '.' + n
        else:
            k = '::'.join(f['p'].split('::')[-2:])
        m = REG.get(k)
        if m is None and f.get('implof'):
            m = REG.get(f['implof'].split('::')[-1] + '.' + n)
        if m is None and c.r is not None and c.r.get('implself') is not None:
            m = REG.get(owner(c.I.p.ty(c.r['implself'])) + '.' + n)
        if m is None:
            for pre in ('core::fmt', 'alloc::fmt', 'std::io', 'std::time', 'core::hint::must_use', 'serde',
                        'core::hash', 'core::time'):
                if f['p'].startswith(pre):
                    return lambda c: mk('tag', f['p'])
        return m

    def effectful(self, I, t):
        return effectful(I, t)

    def as_seq(self, I, st, v, ty=None):
        return as_seq(I, st, v, ty)


def owner(t):
    t0 = t
    while t[0] == 'ref':
        t = t[2]
    if t[0] == 'adt':
        return t[1].split('::')[-1]
    if t[0] == 'int':
        return t[1]
    if t[0] == 'array':
        return 'slice'
    return t[0]


def is_map(ty):
    ty = strip_ref(ty) if ty else None
    return bool(ty) and ty[0] == 'adt' and ty[1].split('::')[-1] in ('HashMap', 'BTreeMap')


def is_set(ty):
    ty = strip_ref(ty) if ty else None
    return bool(ty) and ty[0] == 'adt' and ty[1].split('::')[-1] in ('HashSet', 'BTreeSet')


def rng_len(lo, hi):
    d = isub(hi, lo)
    if vdg.nn(d):
        return d
    return iop('imax', ZERO, d)


def as_seq(I, st, v, ty=None):
    if mutiter(ty) and I.has_ref(v):
        return I.top('use of a borrowed iterator')
    v = I.rread(st, v)
    if ty is not None and is_map(ty):
        return mk('mitems', v)
    if ty is not None and is_set(ty):
        return mkcomp(mk('len', v), lambda i: fld(get(mk('mitems', v), i), None, 0))
    if v.op == 'struct':
        n = v.a[0].split('::')[-1]
        if n == 'Range':
            lo, hi = v.a[2], v.a[3]
            return mkcomp(rng_len(lo, hi), lambda i: iadd(lo, i))
        if n == 'RangeInclusive':
            lo, hi = v.a[2], v.a[3]
            return mkcomp(rng_len(lo, iadd(hi, ONE)), lambda i: iadd(lo, i))
        if n == 'RangeFrom':
            lo = v.a[2]
            return mkcomp(I_(INF), lambda i: iadd(lo, i))
        if n == 'Option':
            return lit(v.a[2]) if v.a[1] == 1 else NIL
        r = find_impl(I, 'core::iter::traits::iterator::Iterator', [('adt', v.a[0], ())], 'next') if v.a[0] in I.p.adts else None
        if r:
            # an iterator of the crate's own: everything its next() yields
            cell = I.new_cell(st, v)
            return drain_next(I, st, lambda s: I.call_key(s, r[0], [cell.ref()], r[1]))
    if ty is not None:
        t = strip_ref(ty)
        if t[0] == 'adt' and t[1] == OPT:
            return ite(isv(v, 1), lit(fld(v, 1, 0)), NIL)
    return v


def I_(n):
    return vdg.I(n)


def map_seq(I, st, seq, fn, clo=None):
    if clo is not None:
        before = dict(st.cells)
        r = map_seq(I, st, seq, fn)
        if changed(before, st.cells, (RNG, PANIC)):
            I.effclos.add(clo.a[0] if clo.op == 'clo' else clo)
        return r
    n = slen(seq)
    if n.op == 'i' and n.a[0] <= UNROLL:
        return lit(*[fn(st, get(seq, I_(j))) for j in range(n.a[0])])
    acc = I.new_cell(st, NIL)

    def run(s, j):
        x = fn(s, get(seq, j))
        if not s.dead:
            s.cells[acc.root] = cat(s.cells[acc.root], lit(x))
    I.run_loop(st, frame(), n, run)
    return st.cells.pop(acc.root, mk('dead'))


def fold_seq(I, st, seq, init, fn):
    acc = I.new_cell(st, init)

    def run(s, j):
        s.cells[acc.root] = fn(s, s.cells[acc.root], get(seq, j))
    I.run_loop(st, frame(), slen(seq), run)
    return st.cells.pop(acc.root, mk('dead'))


def changed(before, after, but=()):
    return any(after.get(k) is not v for k, v in before.items() if k not in but)


def mutiter(t):
    """&mut I for an iterator I"""
    return bool(t) and t[0] == 'ref' and bool(t[1]) and t[2][0] in ('adt', 'dyn') and \
        t[2][1].split('::')[-1] not in VEC + ('HashMap', 'HashSet', 'BTreeMap', 'BTreeSet', 'Option', 'Result', 'String')


def effectful(I, t, d=0):
    """is this the type of a lazy iterator whose closures change something?"""
    if not I.effclos or not t or d > 12:
        return False
    if t[0] == 'closure':
        return t[1] in I.effclos
    if t[0] == 'adt':
        return any(effectful(I, x, d + 1) for x in t[2] if isinstance(x, tuple))
    return t[0] in ('ref',) and effectful(I, t[2], d + 1)


def search(c, seq, fn, hit, rest=None):
    """hit(result of fn) of the elements in order until one is hit: (any hit, index of the first)"""
    s2 = c.st.fork()
    before = dict(s2.cells)
    r = map_seq(c.I, s2, seq, fn)
    n = slen(seq)
    if not s2.dead and not changed(before, s2.cells):
        fl = flags(r, hit)
        return anyof(fl), mk('firstidx', fl), r
    cell = c.I.new_cell(c.st, NONE)
    fr = frame()

    def run(s, j):
        v = fn(s, get(seq, j))
        if s.dead:
            return

        def yes(t):
            t.cells[cell.root] = some(tup(j, v))
            fr.exits.append((('brk', 'srch'), t.pc, UNIT, t.cells, t.facts))
            t.cells = dict(t.cells)
            t.dead = True
            return mk('dead')
        c.I.branch(s, hit(v), yes, lambda t: UNIT)
    c.I.run_loop(c.st, fr, n, run, 'srch')
    v = c.st.cells.pop(cell.root, mk('dead'))
    return isv(v, 1), fld(fld(v, 1, 0), None, 0), mkcomp(n, lambda i: fld(fld(v, 1, 0), None, 1))


def advance(c, seq, hit, ix):
    """the iterator goes on after the element found"""
    if c.I.has_ref(c.args[0]):
        n = slen(seq)
        c.set(0, ite(hit, slc(seq, iadd(ix, ONE), n), NIL))


def lazy(c):
    """the elements are made when asked for, and making them changes something"""
    return c.f['a'] and effectful(c.I, c.ta(0))


def shortcut(f):
    def g(c):
        if lazy(c):
            return c.I.top('%s of an iterator whose closures change something' % c.name())
        return f(c)
    return g


# ------------------------------------------------------------------ identity-like
@M('Clone.clone', 'ToOwned.to_owned', 'slice.to_vec', 'Deref.deref', 'Vec.as_slice', 'FieldElementVector.as_slice',
   'GroupElementVector.as_slice', 'G1Vector.as_slice', 'Iterator.cloned', 'Iterator.copied', 'Option.cloned',
   'Option.copied', 'Option.as_ref', 'Result.as_ref', 'AsRef.as_ref', 'Borrow.borrow', 'Box.new', 'boxed::Box',
   'Iterator.by_ref', 'slice.into_vec', 'String.as_str', 'String.as_bytes_', 'Iterator.peekable', 'Iterator.fuse',
   'Vec.into_boxed_slice', 'hint::must_use', 'hint::black_box', 'Rc.new', 'Option.as_deref', 'array.as_slice', 'slice.as_slice', 'convert::identity',
   'Box.into_vec', 'Wrapping.0', 'Arc.new', 'Cow.into_owned')
def m_id(c):
    v = c.v(0)
    if c.name() == 'deref' and v.op == 'static':
        return static_value(c, v)
    if c.name() == 'by_ref':
        return c.args[0]
    if c.name() in ('cloned', 'copied', 'peekable', 'fuse'):
        t = c.ta(0) if c.f['a'] else None
        if c.f.get('trait') == 'core::iter::traits::iterator::Iterator':
            if mutiter(t):
                return c.I.top('%s of a borrowed iterator' % c.name())
            return as_seq(c.I, c.st, v, t)
    return v


def static_value(c, v):
    return mk('sym', 'static:' + v.a[0], 'static')


@M('Vec.as_mut_slice', 'DerefMut.deref_mut', 'AsMut.as_mut', 'BorrowMut.borrow_mut')
def m_mutid(c):
    return c.args[0]


@M('Option.as_mut', 'Option.as_deref_mut')
def m_asmut(c):
    v = c.v(0)
    inner = c.I.rsub(c.args[0], pf(1, 0)) if c.I.has_ref(c.args[0]) else fld(v, 1, 0)
    return ite(isv(v, 1), some(inner), NONE)


@M('boxed::box_assume_init_into_vec_unsafe')
def m_boxvec(c):
    return c.v(0)


@M('intrinsics::write_box_via_move')
def m_wbox(c):
    return c.v(1)


@M('Box.new_uninit')
def m_uninit(c):
    return mk('dead')


@M('Arguments.new')
def m_fmtargs(c):
    """a format string: literal pieces and plain placeholders"""
    vs = [c.I.rread(c.st, a) for a in c.args]
    if len(vs) == 2 and vs[0].op == 'by' and vs[1].op == 'lit':
        b, args, out, i = vs[0].a[0], list(vs[1].a), STR(''), 0
        while i < len(b):
            if b[i] == 0:
                if i == len(b) - 1 and not args:
                    return mk('fmtstr', out)
                break
            if b[i] < 0x80:
                try:
                    out = strcat(out, STR(b[i + 1:i + 1 + b[i]].decode()))
                except UnicodeDecodeError:
                    break
                i += 1 + b[i]
            elif b[i] == 0xc0 and args and args[0].op == 'display':
                out = strcat(out, args.pop(0).a[0])
                i += 1
            else:
                break
    return mk('tag', 'fmt', *[x for x in vs if x.op not in ('clo', 'pyfn', 'ref')])


@M('Argument.new_display')
def m_display(c):
    v = c.v(0)
    if v.op in ('clo', 'pyfn', 'ref'):
        return mk('tag', 'fmt')
    return mk('display', v if v.op == 's' else STR(str(v.a[0])) if v.op == 'i' else mk('tostr', v))


@M('fmt::format')
def m_format(c):
    v = c.v(0)
    return v.a[0] if v.op == 'fmtstr' else mk('tag', 'fmt', v)


@M('Argument.new_debug', 'stdio::_print')
def m_fmt(c):
    return mk('tag', 'fmt', *[x for x in (c.I.rread(c.st, a) for a in c.args) if x.op not in ('clo', 'pyfn', 'ref')])


@M('panicking::panic', 'panicking::panic_fmt', 'panicking::begin_panic', 'panicking::assert_failed',
   'panicking::unreachable_display', 'panicking::panic_display', 'panicking::panic_explicit', 'panicking::panic_str_2015')
def m_panic(c):
    c.st.cells[PANIC] = mk('pan', c.st.cells[PANIC], TRUE, '%s:%s panic' % (c.sp[0], c.sp[1]))
    c.st.dead = 'panic'
    return mk('dead')


@M('process::exit', 'process::abort')
def m_exit(c):
    return m_panic(c)


# ------------------------------------------------------------------ arithmetic traits
def kind(t):
    t = strip_ref(t)
    if t[0] == 'adt' and t[1] in RING:
        return 'F'
    if t[0] == 'int':
        return 'I'
    if t[0] == 'adt' and t[1].endswith('string::String'):
        return 'S'
    return None


def arith(c, op, a, b):
    k = kind(c.ta(0))
    if k == 'F':
        # &FieldElement + FieldElement, G1 * FieldElement, ...
        return {'add': fadd, 'sub': fsub, 'mul': fmul}[op](a, b)
    if k == 'I':
        if op == 'sub':
            c.panic(lt(a, b), 'attempt to subtract with overflow')
        return {'add': iadd, 'sub': isub, 'mul': imul}[op](a, b)
    if k == 'S' and op == 'add':
        return strcat(a, b)
    t = strip_ref(c.ta(0))
    if t[0] == 'adt' and t[1] in (FEV,) and op in ('add', 'sub'):
        pass
    return c.I.top('arithmetic on ' + str(t[:2]))


def strcat(a, b):
    if a.op == 's' and b.op == 's':
        return STR(a.a[0] + b.a[0])
    return mk('strcat', a, b)


@M('Add.add')
def m_add(c): return arith(c, 'add', c.v(0), c.v(1))


@M('Sub.sub')
def m_sub(c): return arith(c, 'sub', c.v(0), c.v(1))


@M('Mul.mul')
def m_mul(c): return arith(c, 'mul', c.v(0), c.v(1))


@M('Neg.neg')
def m_neg(c):
    return fneg(c.v(0)) if kind(c.ta(0)) == 'F' else isub(ZERO, c.v(0))


@M('AddAssign.add_assign')
def m_adda(c): c.set(0, arith(c, 'add', c.v(0), c.v(1)))


@M('SubAssign.sub_assign')
def m_suba(c): c.set(0, arith(c, 'sub', c.v(0), c.v(1)))


@M('MulAssign.mul_assign')
def m_mula(c): c.set(0, arith(c, 'mul', c.v(0), c.v(1)))


@M('Not.not')
def m_not(c): return not_(c.v(0))


@M('PartialEq.eq')
def m_eq(c):
    a, b = c.v(0), c.v(1)
    if kind(c.ta(0)) == 'I':
        return ieq(a, b)
    return eqv(a, b)


@M('PartialEq.ne')
def m_ne(c): return not_(m_eq(c))


def icmp(c):
    k = kind(c.ta(0))
    if k == 'I':
        return c.v(0), c.v(1)
    if k == 'F':
        return mk('f2i', c.v(0)), mk('f2i', c.v(1))
    return None


@M('PartialOrd.lt')
def m_lt(c):
    p = icmp(c)
    return lt(*p) if p else c.I.top('comparison')


@M('PartialOrd.gt')
def m_gt(c):
    p = icmp(c)
    return lt(p[1], p[0]) if p else c.I.top('comparison')


@M('PartialOrd.le')
def m_le(c):
    p = icmp(c)
    return not_(lt(p[1], p[0])) if p else c.I.top('comparison')


@M('PartialOrd.ge')
def m_ge(c):
    p = icmp(c)
    return not_(lt(p[0], p[1])) if p else c.I.top('comparison')


@M('Ord.min', 'cmp::min')
def m_min(c): return iop('imin', c.v(0), c.v(1))


@M('Ord.max', 'cmp::max')
def m_max(c): return iop('imax', c.v(0), c.v(1))


@M('Ord.cmp', 'PartialOrd.partial_cmp')
def m_cmp(c):
    p = icmp(c)
    if not p:
        return c.I.top('cmp')
    a, b = p
    o = 'core::cmp::Ordering'
    r = ite(lt(a, b), struct(o, 0), ite(ieq(a, b), struct(o, 1), struct(o, 2)))
    return some(r) if c.name() == 'partial_cmp' else r


def intm(f):
    return f


for _t in ('usize', 'u8', 'u16', 'u32', 'u64', 'u128', 'i32', 'i64', 'isize', 'i8'):
    _b = {'usize': 64, 'isize': 64}.get(_t) or int(_t[1:])
    REG[_t + '.is_power_of_two'] = lambda c: mk('ispow2', c.v(0)) if c.v(0).op != 'i' else B(c.v(0).a[0] > 0 and c.v(0).a[0] & (c.v(0).a[0] - 1) == 0)
    REG[_t + '.next_power_of_two'] = lambda c: npow2(c.v(0))
    REG[_t + '.trailing_zeros'] = (lambda b: lambda c: mk('tz', c.v(0), b))(_b)
    REG[_t + '.leading_zeros'] = (lambda b: lambda c: mk('lz', c.v(0), b))(_b)
    REG[_t + '.to_le_bytes'] = (lambda b: lambda c: mk('lebytes', c.v(0), b // 8))(_b)
    REG[_t + '.pow'] = lambda c: iop('ipow', c.v(0), c.v(1))
    REG[_t + '.min'] = m_min
    REG[_t + '.max'] = m_max
    REG[_t + '.saturating_sub'] = lambda c: iop('imax', ZERO, isub(c.v(0), c.v(1)))
    REG[_t + '.checked_sub'] = lambda c: ite(lt(c.v(0), c.v(1)), NONE, some(isub(c.v(0), c.v(1))))
    REG[_t + '.checked_add'] = (lambda b: lambda c: ite(lt(iadd(c.v(0), c.v(1)), vdg.I(1 << b)), some(iadd(c.v(0), c.v(1))), NONE))(_b)
    REG[_t + '.checked_mul'] = (lambda b: lambda c: ite(lt(imul(c.v(0), c.v(1)), vdg.I(1 << b)), some(imul(c.v(0), c.v(1))), NONE))(_b)
    REG[_t + '.checked_shl'] = (lambda b: lambda c: ite(lt(c.v(1), vdg.I(b)), some(vdg.iwrap(iop('ishl', c.v(0), c.v(1)), b)), NONE))(_b)
    REG[_t + '.checked_pow'] = (lambda b: lambda c: ite(lt(iop('ipow', c.v(0), c.v(1)), vdg.I(1 << b)), some(iop('ipow', c.v(0), c.v(1))), NONE))(_b)
    REG[_t + '.wrapping_sub'] = (lambda b: lambda c: vdg.iwrap(isub(c.v(0), c.v(1)), b))(_b)
    REG[_t + '.wrapping_add'] = (lambda b: lambda c: vdg.iwrap(iadd(c.v(0), c.v(1)), b))(_b)
    REG[_t + '.saturating_add'] = lambda c: iadd(c.v(0), c.v(1))


def npow2(v):
    if v.op == 'i':
        a = v.a[0]
        return I_(1 if a <= 1 else 1 << (a - 1).bit_length())
    return mk('npow2', v)


# ------------------------------------------------------------------ conversions
def ofbytes(x):
    if x.op == 'fbytes':
        return x.a[0]
    if x.op == 'chalb' and x.a[2].op == 'i' and x.a[2].a[0] == MODBYTES:
        return mk('chal', x.a[0], x.a[1])
    return mk('ofbytes', x)


def convert(c, src, dst, v):
    I = c.I
    d = strip_ref(dst)
    s = strip_ref(src)
    if d[0] == 'adt' and d[1] == FE:
        if s[0] == 'int':
            return i2f(v) if s[1] in ('u8', 'u16', 'u32') else vdg.i2fx(v)
        if s[0] in ('slice', 'array') or (s[0] == 'adt' and s[1] == 'alloc::vec::Vec'):
            return ofbytes(v)
        if s[0] == 'adt' and s[1].endswith('BIG'):
            return bigf(v)
        return v
    if d[0] == 'adt' and d[1].endswith('BIG') and s == ('adt', FE, ()):
        return mk('f2i', v)
    if d[0] == 'adt' and d[1].endswith('String'):
        return v
    if d[0] == 'adt' and d[1] == OPT and not (s[0] == 'adt' and s[1] == OPT):
        return some(v)
    return v


def bigf(v):
    return v.a[0] if v.op == 'f2i' else mk('i2f', v)


@M('From.from')
def m_from(c):
    return convert(c, c.ta(1), c.ta(0), c.v(0))


@M('Into.into')
def m_into(c):
    src, dst = c.ta(0), c.ta(1)
    r = find_impl(c.I, 'core::convert::From', [dst, src], 'from')
    if r:
        return c.I.call_key(c.st, r[0], [c.args[0]], r[1])
    return convert(c, src, dst, c.v(0))


@M('TryFrom.try_from')
def m_tryfrom(c):
    return tryconv(c, c.ta(1), c.ta(0))


@M('TryInto.try_into')
def m_tryinto(c):
    return tryconv(c, c.ta(0), c.ta(1))


def tryconv(c, src, dst):
    r = find_impl(c.I, 'core::convert::TryFrom', [dst, src], 'try_from')
    if r:
        return c.I.call_key(c.st, r[0], [c.args[0]], r[1])
    v = c.v(0)
    s, d = strip_ref(src), strip_ref(dst)
    if d[0] == 'int' and s[0] == 'int':
        bits = c.I.BITS.get(d[1], 64)
        lo = 0 if d[1][0] == 'u' else -(1 << bits)
        g = TRUE
        if c.I.BITS.get(s[1], 64) > bits:
            g = lt(v, vdg.I(1 << bits))
        if s[1][0] != 'u' and (lo == 0 or c.I.BITS.get(s[1], 64) > bits) and not vdg.nonneg(v):
            g = and_(g, not_(lt(v, vdg.I(lo))))
        return ite(g, ok(v), err(mk('tag', 'TryFromIntError')))
    if d[0] == 'array':
        if isinstance(d[2], int):
            return ite(ieq(slen(v), vdg.I(d[2])), ok(v), err(mk('tag', 'TryFromSliceError')))
    return c.I.top('conversion to %r' % (d[:2],))


def find_impl(I, trait, targs, name):
    from .interp import unify
    for im in I.p.bytrait.get(trait, []):
        m = {}
        it = [I.p.ty(x) for x in im['targs']]
        if all(b is None or unify(a, b, m) for a, b in zip(it, targs)):
            k = im['items'].get(name)
            if k and k in I.p.bodies:
                return k, m
    return None


@M('Default.default')
def m_default(c):
    t = c.ta(0)
    return default(c, t)


def default(c, t):
    if t[0] == 'int':
        return ZERO
    if t[0] == 'bool':
        return FALSE
    if t[0] == 'adt':
        n = t[1].split('::')[-1]
        if n in ('Vec', 'FieldElementVector', 'G1Vector'):
            return NIL
        if n == 'Option':
            return NONE
        if n in ('HashMap', 'HashSet'):
            return mk('mnew')
        if t[1] in RING:
            return FZ
        if n == 'String':
            return STR('')
    if t[0] == 'tuple':
        return tup(*[default(c, x) for x in t[1]])
    if t[0] == 'array' and isinstance(t[2], int):
        return lit(*[default(c, t[1]) for _ in range(t[2])])
    return c.I.top('Default of %r' % (t[:2],))


@M('ToString.to_string')
def m_tostring(c):
    v = c.v(0)
    if v.op == 's':
        return v
    if v.op == 'i':
        return STR(str(v.a[0]))
    return mk('tostr', v)


@M('String.as_bytes', 'str.as_bytes', 'String.into_bytes')
def m_strbytes(c):
    v = c.v(0)
    return BY(v.a[0].encode()) if v.op == 's' else mk('strbytes', v)


@M('String.new')
def m_strnew(c): return STR('')


@M('String.push_str')
def m_pushstr(c): c.set(0, strcat(c.v(0), c.v(1)))


@M('str.trim_start_matches')
def m_trimstart(c):
    v, w = c.v(0), c.v(1)
    return mk('strtrim', v, w) if w.op == 's' else mk('tag', 'trim', v, w)


@M('str.to_lowercase', 'str.to_uppercase', 'str.to_ascii_lowercase', 'str.to_ascii_uppercase', 'str.trim', 'str.trim_start', 'str.trim_end')
def m_strcase(c):
    return mk('strfn', c.v(0), c.name())


@M('str.strip_prefix')
def m_stripprefix(c):
    v, w = c.v(0), c.v(1)
    if w.op != 's':
        return mk('tag', 'strip', v, w)
    return ite(mk('strstarts', v, w), some(mk('strslice', v, I_(len(w.a[0])), NONE)), NONE)


@M('str.starts_with')
def m_startswith(c):
    return mk('strstarts', c.v(0), c.v(1))


@M('String.replace_range', 'str.replace')
def m_strop(c):
    if c.name() == 'replace_range':
        v, r, w = c.v(0), c.v(1), c.v(2)
        if v.op == 's' and w.op == 's' and r.op == 'struct' and all(x.op == 'i' for x in r.a[2:]):
            n = r.a[0].split('::')[-1]
            s = v.a[0]
            lo = r.a[2].a[0] if n in ('Range', 'RangeFrom', 'RangeInclusive') else 0
            hi = (r.a[3].a[0] if n == 'Range' else r.a[3].a[0] + 1 if n == 'RangeInclusive'
                  else r.a[2].a[0] if n == 'RangeTo' else r.a[2].a[0] + 1 if n == 'RangeToInclusive' else len(s))
            c.set(0, STR(s[:lo] + w.a[0] + s[hi:]))
            return UNIT
        c.set(0, mk('strrep', v, r, w))
        return UNIT
    return mk('tag', c.name(), c.v(0))


# ------------------------------------------------------------------ Try / Option / Result
CF = 'core::ops::control_flow::ControlFlow'


@M('Try.branch')
def m_branch(c):
    v = c.v(0)
    t = strip_ref(c.ta(0))
    if t[0] == 'adt' and t[1] == OPT:
        return ite(isv(v, 1), struct(CF, 0, fld(v, 1, 0)), struct(CF, 1, NONE))
    return ite(isv(v, 0), struct(CF, 0, fld(v, 0, 0)), struct(CF, 1, err(fld(v, 1, 0))))


@M('FromResidual.from_residual')
def m_residual(c):
    v = c.v(0)
    t = strip_ref(c.ta(0))
    if t[0] == 'adt' and t[1] == OPT:
        return NONE
    e = fld(v, 1, 0)
    # the error may be converted with From
    if t[0] == 'adt' and t[1] == RES:
        s = c.ta(1)
        s = strip_ref(s)
        if s[0] == 'adt' and s[1] == RES and s[2][1] != t[2][1]:
            r = find_impl(c.I, 'core::convert::From', [t[2][1], s[2][1]], 'from')
            if r:
                e = c.I.call_key(c.st, r[0], [e], r[1])
    return err(e)


@M('Option.is_some')
def m_iss(c): return isv(c.v(0), 1)


@M('Option.is_none')
def m_isn(c): return isv(c.v(0), 0)


@M('Result.is_ok')
def m_isok(c): return isv(c.v(0), 0)


@M('Result.is_err')
def m_iserr(c): return isv(c.v(0), 1)


@M('Option.unwrap', 'Option.expect')
def m_unwrap(c):
    v = c.v(0)
    c.panic(not_(isv(v, 1)), 'unwrap of None')
    return fld(v, 1, 0)


@M('Result.unwrap', 'Result.expect')
def m_runwrap(c):
    v = c.v(0)
    c.panic(not_(isv(v, 0)), 'unwrap of Err')
    return fld(v, 0, 0)


@M('Result.unwrap_err', 'Result.expect_err')
def m_unwrap_err(c):
    v = c.v(0)
    c.panic(isv(v, 0), 'unwrap_err of Ok')
    return fld(v, 1, 0)


@M('Option.unwrap_or')
def m_unwrap_or(c): return ite(isv(c.v(0), 1), fld(c.v(0), 1, 0), c.v(1))


@M('Result.unwrap_or')
def m_runwrap_or(c): return ite(isv(c.v(0), 0), fld(c.v(0), 0, 0), c.v(1))


@M('Option.unwrap_or_default')
def m_unwrap_ord(c): return ite(isv(c.v(0), 1), fld(c.v(0), 1, 0), default(c, c.ta(0)))


@M('Option.unwrap_or_else', 'Option.get_or_insert_with')
def m_uoe(c):
    v = c.v(0)
    r = c.I.branch(c.st, isv(v, 1), lambda s: fld(v, 1, 0), lambda s: c.I.call_closure(s, c.args[1], []))
    return r


@M('Result.unwrap_or_else')
def m_ruoe(c):
    v = c.v(0)
    return c.I.branch(c.st, isv(v, 0), lambda s: fld(v, 0, 0), lambda s: c.I.call_closure(s, c.args[1], [fld(v, 1, 0)]))


@M('Option.map')
def m_omap(c):
    v = c.v(0)
    return c.I.branch(c.st, isv(v, 1), lambda s: some(c.I.call_closure(s, c.args[1], [fld(v, 1, 0)])), lambda s: NONE)


@M('Option.map_or')
def m_omapor(c):
    v = c.v(0)
    return c.I.branch(c.st, isv(v, 1), lambda s: c.I.call_closure(s, c.args[2], [fld(v, 1, 0)]), lambda s: c.v(1))


@M('Option.map_or_else')
def m_omapore(c):
    v = c.v(0)
    return c.I.branch(c.st, isv(v, 1), lambda s: c.I.call_closure(s, c.args[2], [fld(v, 1, 0)]),
                      lambda s: c.I.call_closure(s, c.args[1], []))


@M('Option.and_then')
def m_oand(c):
    v = c.v(0)
    return c.I.branch(c.st, isv(v, 1), lambda s: c.I.call_closure(s, c.args[1], [fld(v, 1, 0)]), lambda s: NONE)


@M('Option.or_else')
def m_oor(c):
    v = c.v(0)
    return c.I.branch(c.st, isv(v, 1), lambda s: v, lambda s: c.I.call_closure(s, c.args[1], []))


@M('Option.or')
def m_oor2(c): return ite(isv(c.v(0), 1), c.v(0), c.v(1))


@M('Option.ok_or')
def m_okor(c): return ite(isv(c.v(0), 1), ok(fld(c.v(0), 1, 0)), err(c.v(1)))


@M('Option.ok_or_else')
def m_okore(c):
    v = c.v(0)
    return c.I.branch(c.st, isv(v, 1), lambda s: ok(fld(v, 1, 0)), lambda s: err(c.I.call_closure(s, c.args[1], [])))


@M('Option.take')
def m_otake(c):
    v = c.v(0)
    c.set(0, NONE)
    return v


@M('Option.replace', 'Option.insert')
def m_oreplace(c):
    v = c.v(0)
    c.set(0, some(c.v(1)))
    return v


@M('Option.filter')
def m_ofilter(c):
    v = c.v(0)
    return c.I.branch(c.st, isv(v, 1),
                      lambda s: ite(c.I.call_closure(s, c.args[1], [fld(v, 1, 0)]), v, NONE), lambda s: NONE)


@M('Option.zip')
def m_ozip(c):
    a, b = c.v(0), c.v(1)
    return ite(and_(isv(a, 1), isv(b, 1)), some(tup(fld(a, 1, 0), fld(b, 1, 0))), NONE)


@M('Option.iter', 'Option.into_iter')
def m_oiter(c):
    v = c.v(0)
    return ite(isv(v, 1), lit(fld(v, 1, 0)), NIL)


@M('bool.then')
def m_then(c):
    return c.I.branch(c.st, c.v(0), lambda s: some(c.I.call_closure(s, c.args[1], [])), lambda s: NONE)


@M('bool.then_some')
def m_thensome(c): return ite(c.v(0), some(c.v(1)), NONE)


@M('Result.map_err')
def m_maperr(c):
    v = c.v(0)
    return c.I.branch(c.st, isv(v, 0), lambda s: ok(fld(v, 0, 0)),
                      lambda s: err(c.I.call_closure(s, c.args[1], [fld(v, 1, 0)])))


@M('Result.map')
def m_rmap(c):
    v = c.v(0)
    return c.I.branch(c.st, isv(v, 0), lambda s: ok(c.I.call_closure(s, c.args[1], [fld(v, 0, 0)])),
                      lambda s: err(fld(v, 1, 0)))


@M('Result.and_then')
def m_rand(c):
    v = c.v(0)
    return c.I.branch(c.st, isv(v, 0), lambda s: c.I.call_closure(s, c.args[1], [fld(v, 0, 0)]),
                      lambda s: err(fld(v, 1, 0)))


@M('Result.ok')
def m_rok(c): return ite(isv(c.v(0), 0), some(fld(c.v(0), 0, 0)), NONE)


@M('Result.err')
def m_rerr(c): return ite(isv(c.v(0), 1), some(fld(c.v(0), 1, 0)), NONE)


@M('Fn.call', 'FnMut.call_mut', 'FnOnce.call_once')
def m_fncall(c):
    f = c.args[0]
    a = c.args[1] if c.args[1].op == 'struct' else c.v(1)
    args = list(a.a[2:]) if a.op == 'struct' else [a]
    return c.I.call_closure(c.st, f, args)


@M('mem::replace')
def m_replace(c):
    v = c.v(0)
    c.set(0, c.v(1))
    return v


@M('mem::take')
def m_take(c):
    v = c.v(0)
    c.set(0, default(c, c.ta(0)))
    return v


@M('mem::swap')
def m_swap(c):
    a, b = c.v(0), c.v(1)
    c.set(0, b)
    c.set(1, a)


@M('mem::drop', 'mem::forget')
def m_drop(c): return UNIT


# ------------------------------------------------------------------ sequences
VEC = ('Vec', 'FieldElementVector', 'G1Vector', 'GroupElementVector', 'slice', 'VecDeque')


def MV(*names):
    return M(*['%s.%s' % (o, n) for o in VEC for n in names])


@M('Vec.new', 'Vec.with_capacity', 'FieldElementVector.with_capacity', 'GroupElementVector.with_capacity',
   'VecDeque.new', 'G1Vector.with_capacity')
def m_vnew(c): return NIL


@M('FieldElementVector.new', 'GroupElementVector.new', 'G1Vector.new')
def m_fvnew(c):
    n = c.v(0)
    if n.op == 'i' and n.a[0] <= UNROLL:
        return lit(*([FZ] * n.a[0]))
    return mkcomp(n, lambda i: FZ)


@M('vec::from_elem')
def m_fromelem(c):
    n = c.v(1)
    x = c.v(0)
    if n.op == 'i' and n.a[0] <= UNROLL:
        return lit(*([x] * n.a[0]))
    return mkcomp(n, lambda i: x)


@MV('len')
def m_len(c): return slen(c.v(0))


@M('str.len', 'String.len')
def m_strlen(c):
    v = c.v(0)
    return I_(len(v.a[0].encode())) if v.op == 's' else mk('strlen', v)


@MV('is_empty')
def m_isempty(c): return ieq(slen(c.v(0)), ZERO)


@M('ExactSizeIterator.len')
def m_eslen(c): return slen(as_seq(c.I, c.st, c.v(0), c.ta(0)))


@MV('push', 'push_back')
def m_push(c): c.set(0, cat(c.v(0), lit(c.args[1])))


@MV('push_front')
def m_pushf(c): c.set(0, cat(lit(c.args[1]), c.v(0)))


@MV('pop', 'pop_back')
def m_pop(c):
    s = c.v(0)
    n = slen(s)

    def yes(st):
        v = get(s, isub(n, ONE))
        c.I.rwrite(st, c.args[0], slc(s, ZERO, isub(n, ONE)))
        return some(v)
    return c.I.branch(c.st, lt(ZERO, n), yes, lambda st: NONE)


@MV('pop_front')
def m_popf(c):
    s = c.v(0)
    n = slen(s)

    def yes(st):
        c.I.rwrite(st, c.args[0], slc(s, ONE, n))
        return some(get(s, ZERO))
    return c.I.branch(c.st, lt(ZERO, n), yes, lambda st: NONE)


@MV('remove')
def m_remove(c):
    s, i = c.v(0), c.v(1)
    if c.st.dead:
        return mk('dead')
    n = slen(s)
    c.panic(not_(and_(not_(lt(i, ZERO)), lt(i, n))), 'Vec::remove out of bounds')
    v = get(s, i)
    c.set(0, cat(slc(s, ZERO, i), slc(s, iadd(i, ONE), n)))
    return v


@MV('swap_remove')
def m_swremove(c):
    s, i = c.v(0), c.v(1)
    n = slen(s)
    c.panic(not_(lt(i, n)), 'swap_remove out of bounds')
    v = get(s, i)
    last = get(s, isub(n, ONE))
    c.set(0, slc(upd(s, i, last), ZERO, isub(n, ONE)))
    return v


@MV('insert')
def m_insert(c):
    s, i, x = c.v(0), c.v(1), c.args[2]
    n = slen(s)
    c.panic(lt(n, i), 'Vec::insert out of bounds')
    c.set(0, cat(cat(slc(s, ZERO, i), lit(x)), slc(s, i, n)))


@MV('append')
def m_append(c):
    b = c.v(1)
    c.set(0, cat(c.v(0), b))
    c.set(1, NIL)


@MV('extend_from_slice')
def m_extslice(c): c.set(0, cat(c.v(0), c.v(1)))


@M('Extend.extend')
def m_extend(c):
    t = c.ta(0)
    if is_map(t) or is_set(t):
        s = as_seq(c.I, c.st, c.v(1), None)
        c.set(0, mapfrom(c, s, is_set(t), c.v(0)))
        return
    c.set(0, cat(c.v(0), as_seq(c.I, c.st, c.v(1), argty(c, 1))))


def argty(c, i):
    t = c.argtys[i] if i < len(c.argtys) else None
    return c.I.p.ty(t, c.genv) if t is not None else None


@MV('truncate')
def m_trunc(c):
    s = c.v(0)
    c.set(0, slc(s, ZERO, iop('imin', c.v(1), slen(s))))


@MV('resize')
def m_resize(c):
    s, n, x = c.v(0), c.v(1), c.v(2)
    l = slen(s)
    c.set(0, ite(lt(l, n), cat(s, mkcomp(isub(n, l), lambda i: x)), slc(s, ZERO, n)))


@MV('clear')
def m_clear(c): c.set(0, NIL)


@MV('reserve', 'shrink_to_fit', 'capacity', 'reserve_exact')
def m_res(c): return UNIT


@MV('split_off')
def m_splitoff(c):
    s, i = c.v(0), c.v(1)
    c.panic(lt(slen(s), i), 'split_off out of bounds')
    c.set(0, slc(s, ZERO, i))
    return slc(s, i, slen(s))


@MV('drain')
def m_drain(c):
    s, r = c.v(0), c.v(1)
    lo, hi = bounds(c, r, slen(s))
    c.set(0, cat(slc(s, ZERO, lo), slc(s, hi, slen(s))))
    return slc(s, lo, hi)


def bounds(c, r, n):
    name = r.a[0].split('::')[-1] if r.op == 'struct' else 'RangeFull'
    if name == 'RangeFull':
        return ZERO, n
    if name == 'Range':
        lo, hi = r.a[2], r.a[3]
    elif name == 'RangeFrom':
        lo, hi = r.a[2], n
    elif name == 'RangeTo':
        lo, hi = ZERO, r.a[2]
    elif name == 'RangeInclusive':
        lo, hi = r.a[2], iadd(r.a[3], ONE)
    elif name == 'RangeToInclusive':
        lo, hi = ZERO, iadd(r.a[2], ONE)
    else:
        return ZERO, n
    c.panic(or_(lt(hi, lo), lt(n, hi)), 'slice index out of bounds')
    return lo, hi


@M('RangeInclusive.new')
def m_rincl(c): return struct('core::ops::range::RangeInclusive', 0, c.v(0), c.v(1))


@M('Index.index')
def m_index(c):
    t = strip_ref(c.ta(0))
    if is_map(t):
        v = mk('mget', c.v(0), c.v(1))
        c.panic(not_(isv(v, 1)), 'missing key')
        return fld(v, 1, 0)
    s, i = c.v(0), c.v(1)
    if t[0] == 'str' or t[0] == 'adt' and t[1].endswith('::String'):
        nm = i.a[0].split('::')[-1] if i.op == 'struct' else ''
        if nm in ('Range', 'RangeFrom', 'RangeTo'):
            return mk('strslice', s, ZERO if nm == 'RangeTo' else i.a[2], some(i.a[-1]) if nm != 'RangeFrom' else NONE)
        return mk('tag', 'str index', s, i)
    if i.op == 'struct' and 'Range' in i.a[0]:
        lo, hi = bounds(c, i, slen(s))
        return slc(s, lo, hi)
    c.I.oob(c.st, i, s, '%s:%s index out of bounds' % (c.sp[0], c.sp[1]))
    return get(s, i)


@M('IndexMut.index_mut')
def m_indexmut(c):
    s, i = c.v(0), c.v(1)
    if i.op == 'struct' and 'Range' in i.a[0]:
        lo, hi = bounds(c, i, slen(s))
        return c.I.rsub(c.args[0], mk('ps', lo, hi))
    c.I.oob(c.st, i, s, '%s:%s index out of bounds' % (c.sp[0], c.sp[1]))
    return c.I.rsub(c.args[0], pix(i))


@MV('get')
def m_get(c):
    s, i = c.v(0), c.v(1)
    if i.op == 'struct' and 'Range' in i.a[0]:
        n = slen(s)
        nm = i.a[0].split('::')[-1]
        lo = i.a[2] if nm in ('Range', 'RangeFrom') else ZERO
        hi = i.a[3] if nm == 'Range' else (i.a[2] if nm == 'RangeTo' else n)
        return ite(or_(lt(hi, lo), lt(n, hi)), NONE, some(slc(s, lo, hi)))
    return ite(and_(not_(lt(i, ZERO)), lt(i, slen(s))), some(get(s, i)), NONE)


@MV('get_mut')
def m_getmut(c):
    s, i = c.v(0), c.v(1)
    return ite(and_(not_(lt(i, ZERO)), lt(i, slen(s))), some(c.I.rsub(c.args[0], pix(i))), NONE)


@MV('last')
def m_last(c):
    s = c.v(0)
    n = slen(s)
    return ite(lt(ZERO, n), some(get(s, isub(n, ONE))), NONE)


@MV('first')
def m_first(c):
    s = c.v(0)
    return ite(lt(ZERO, slen(s)), some(get(s, ZERO)), NONE)


@MV('last_mut')
def m_lastmut(c):
    s = c.v(0)
    n = slen(s)
    return ite(lt(ZERO, n), some(c.I.rsub(c.args[0], pix(isub(n, ONE)))), NONE)


@MV('first_mut')
def m_firstmut(c):
    s = c.v(0)
    return ite(lt(ZERO, slen(s)), some(c.I.rsub(c.args[0], pix(ZERO))), NONE)


@MV('reverse')
def m_reverse(c): c.set(0, rev(c.v(0)))


@MV('swap')
def m_vswap(c):
    s, i, j = c.v(0), c.v(1), c.v(2)
    a, b = get(s, i), get(s, j)
    c.set(0, upd(upd(s, i, b), j, a))


@MV('contains')
def m_contains(c):
    s, x = c.v(0), c.v(1)
    return anyof(mkcomp(slen(s), lambda i: eqv(get(s, i), x)))


@MV('rotate_left', 'rotate_right')
def m_rot(c):
    s, k = c.v(0), c.v(1)
    n = slen(s)
    if c.name() == 'rotate_right':
        k = isub(n, k)
    c.set(0, cat(slc(s, k, n), slc(s, ZERO, k)))


@MV('clone_from_slice', 'copy_from_slice')
def m_cfs(c):
    a, b = c.v(0), c.v(1)
    c.panic(not_(ieq(slen(a), slen(b))), 'slice lengths differ')
    c.set(0, b)


@MV('fill')
def m_fill(c):
    s, x = c.v(0), c.v(1)
    c.set(0, mkcomp(slen(s), lambda i: x))


@MV('concat')
def m_concat(c):
    s = c.v(0)
    t = c.ret()
    if t and t[0] == 'adt' and t[1].endswith('::String'):
        return mk('strjoin', s)
    if s.op == 'lit':
        r = NIL
        for x in s.a:
            r = cat(r, c.I.rread(c.st, x))
        return r
    return mk('concatall', s)


@MV('iter', 'into_iter')
def m_iter(c): return c.v(0)


@MV('iter_mut')
def m_itermut(c):
    s = c.v(0)
    r = c.args[0]
    return mkcomp(slen(s), lambda i: c.I.rsub(r, pix(i))) if not (slen(s).op == 'i' and slen(s).a[0] <= UNROLL) \
        else lit(*[c.I.rsub(r, pix(I_(j))) for j in range(slen(s).a[0])])


@M('IntoIterator.into_iter')
def m_intoiter(c):
    t = c.ta(0)
    if t[0] == 'ref' and t[1] and c.I.has_ref(c.args[0]):
        inner = strip_ref(t)
        if inner[0] in ('slice', 'array') or (inner[0] == 'adt' and inner[1].split('::')[-1] in VEC):
            return m_itermut(c)
    if mutiter(t):
        return c.args[0]
    return as_seq(c.I, c.st, c.v(0), t)


@MV('split_at')
def m_splitat(c):
    s, i = c.v(0), c.v(1)
    c.panic(lt(slen(s), i), 'split_at out of bounds')
    return tup(slc(s, ZERO, i), slc(s, i, slen(s)))


@MV('split_at_mut')
def m_splitatm(c):
    s, i = c.v(0), c.v(1)
    c.panic(lt(slen(s), i), 'split_at out of bounds')
    return tup(c.I.rsub(c.args[0], mk('ps', ZERO, i)), c.I.rsub(c.args[0], mk('ps', i, slen(s))))


@MV('split_first')
def m_splitfirst(c):
    s = c.v(0)
    return ite(lt(ZERO, slen(s)), some(tup(get(s, ZERO), slc(s, ONE, slen(s)))), NONE)


@MV('split_last')
def m_splitlast(c):
    s = c.v(0)
    n = slen(s)
    return ite(lt(ZERO, n), some(tup(get(s, isub(n, ONE)), slc(s, ZERO, isub(n, ONE)))), NONE)


@MV('chunks', 'chunks_exact')
def m_chunks(c):
    s, k = c.v(0), c.v(1)
    n = slen(s)
    if c.name() == 'chunks':
        m = iop('idiv', iadd(n, isub(k, ONE)), k)
    else:
        m = iop('idiv', n, k)
    return mkcomp(m, lambda i: slc(s, imul(i, k), iop('imin', n, imul(iadd(i, ONE), k))))


@MV('windows')
def m_windows(c):
    s, k = c.v(0), c.v(1)
    return mkcomp(iop('imax', ZERO, iadd(isub(slen(s), k), ONE)), lambda i: slc(s, i, iadd(i, k)))


# ------------------------------------------------------------------ iterators
FULL = ('collect', 'sum', 'product', 'fold', 'for_each', 'count', 'max', 'min', 'last', 'unzip', 'partition', 'rfold',
        'reduce', 'max_by_key', 'min_by_key')


def it0(c):
    t = c.ta(0) if c.f['a'] else None
    if mutiter(t) and c.I.has_ref(c.args[0]):
        s = as_seq(c.I, c.st, c.v(0), t[2])
        n = slen(s)
        if c.name() in FULL:
            c.set(0, NIL)
        elif c.name() == 'take':
            c.set(0, slc(s, iop('imin', n, c.v(1)), n))
        else:
            return c.I.top('%s of a borrowed iterator' % c.name())
        return s
    return as_seq(c.I, c.st, c.v(0), t)


@M('Iterator.map')
def m_map(c):
    f = c.args[1]
    return map_seq(c.I, c.st, it0(c), lambda s, x: c.I.call_closure(s, f, [x]), f)


@M('Iterator.for_each')
def m_foreach(c):
    f = c.args[1]
    seq = it0(c)

    def run(s, j):
        c.I.call_closure(s, f, [get(seq, j)])
    c.I.run_loop(c.st, frame(), slen(seq), run)


@M('Iterator.try_for_each')
def m_tryforeach(c):
    f = c.args[1]
    seq = it0(c)
    fr = frame()

    def run(s, j):
        v = c.I.call_closure(s, f, [get(seq, j)])

        def bad(t):
            fr.exits.append((('brk', 'tfe'), t.pc, v, t.cells, t.facts))
            t.cells = dict(t.cells)
            t.dead = True
            return mk('dead')
        c.I.branch(s, isv(v, 0), lambda t: UNIT, bad)
    r = c.I.run_loop(c.st, fr, slen(seq), run, 'tfe')
    if r.op == 'struct' and r.a[0] == '()':
        return ok(UNIT)
    return r if r.op != 'lout' else ite(mk('isres', r), r, ok(UNIT))


@M('Iterator.fold')
def m_fold(c):
    f = c.args[2]
    return fold_seq(c.I, c.st, it0(c), c.v(1), lambda s, a, x: c.I.call_closure(s, f, [a, x]))


@M('Iterator.sum')
def m_sum(c):
    t = c.ret()
    k = kind(t)
    s = it0(c)
    if k == 'F':
        return fsum(s)
    return fold_seq(c.I, c.st, s, ZERO, lambda st, a, x: iadd(a, x))


@M('Iterator.product')
def m_prod(c):
    t = c.ret()
    s = it0(c)
    if kind(t) == 'F':
        return mk('fprod', s)
    return fold_seq(c.I, c.st, s, ONE, lambda st, a, x: imul(a, x))


@M('Iterator.zip', 'iter::zip')
def m_zip(c):
    a = it0(c)
    b = as_seq(c.I, c.st, c.args[1], argty(c, 1))
    if slen(a) is not slen(b) and (effectful(c.I, argty(c, 0)) or effectful(c.I, argty(c, 1))):
        return c.I.top('zip of an iterator whose closures change something')
    n = iop('imin', slen(a), slen(b))
    if n.op == 'i' and n.a[0] <= UNROLL:
        return lit(*[tup(get(a, I_(j)), get(b, I_(j))) for j in range(n.a[0])])
    return mkcomp(n, lambda i: tup(get(a, i), get(b, i)))


@M('Iterator.chain')
def m_chain(c):
    return cat(it0(c), as_seq(c.I, c.st, c.args[1], argty(c, 1)))


@M('Iterator.enumerate')
def m_enum(c):
    a = it0(c)
    n = slen(a)
    if n.op == 'i' and n.a[0] <= UNROLL:
        return lit(*[tup(I_(j), get(a, I_(j))) for j in range(n.a[0])])
    return mkcomp(n, lambda i: tup(i, get(a, i)))


@M('DoubleEndedIterator.rev', 'Iterator.rev')
@shortcut
def m_rev(c): return rev(it0(c))


@M('Iterator.take')
@shortcut
def m_itake(c):
    a = it0(c)
    return slc(a, ZERO, iop('imin', slen(a), c.v(1)))


@M('Iterator.skip')
def m_iskip(c):
    a = it0(c)
    return slc(a, iop('imin', slen(a), c.v(1)), slen(a))


@M('Iterator.step_by')
@shortcut
def m_stepby(c):
    a, k = it0(c), c.v(1)
    n = slen(a)
    m = iop('idiv', iadd(n, isub(k, ONE)), k)
    return mkcomp(m, lambda i: get(a, imul(i, k)))


@M('Iterator.next')
@shortcut
def m_next(c):
    s = as_seq(c.I, c.st, c.v(0), c.ta(0))
    n = slen(s)

    def yes(st):
        c.I.rwrite(st, c.args[0], slc(s, ONE, n))
        return some(get(s, ZERO))
    return c.I.branch(c.st, lt(ZERO, n), yes, lambda st: NONE)


@M('DoubleEndedIterator.next_back')
@shortcut
def m_nextback(c):
    s = as_seq(c.I, c.st, c.v(0), c.ta(0))
    n = slen(s)

    def yes(st):
        c.I.rwrite(st, c.args[0], slc(s, ZERO, isub(n, ONE)))
        return some(get(s, isub(n, ONE)))
    return c.I.branch(c.st, lt(ZERO, n), yes, lambda st: NONE)


@M('Iterator.last')
@shortcut
def m_ilast(c):
    s = it0(c)
    return ite(lt(ZERO, slen(s)), some(get(s, isub(slen(s), ONE))), NONE)


@M('Iterator.nth')
@shortcut
def m_nth(c):
    s = it0(c)
    i = c.v(1)
    r = ite(lt(i, slen(s)), some(get(s, i)), NONE)
    if c.I.has_ref(c.args[0]):
        c.set(0, slc(s, iop('imin', slen(s), iadd(i, ONE)), slen(s)))
    return r


@M('Iterator.count')
def m_count(c): return slen(it0(c))


def anyof(s):
    if s.op == 'lit':
        r = FALSE
        for x in s.a:
            r = or_(r, x)
        return r
    return mk('any', s)


@M('Iterator.any', 'Iterator.all')
@shortcut
def m_any(c):
    f = c.args[1]
    s0 = it0(c)
    is_any = c.name() == 'any'
    hit, ix, _r = search(c, s0, lambda s, x: c.I.call_closure(s, f, [x]), (lambda x: x) if is_any else not_)
    advance(c, s0, hit, ix)
    return hit if is_any else not_(hit)


@M('Iterator.filter')
def m_filter(c):
    s0 = it0(c)
    fl = map_seq(c.I, c.st, s0, lambda s, x: c.I.call_closure(s, c.args[1], [x]), c.args[1])
    return mk('filtsel', s0, fl)


@M('Iterator.filter_map', 'Iterator.flatten_opt')
def m_filtermap(c):
    return mk('somes', map_seq(c.I, c.st, it0(c), lambda s, x: c.I.call_closure(s, c.args[1], [x]), c.args[1]))


@M('Iterator.position', 'Iterator.find')
@shortcut
def m_position(c):
    s0 = it0(c)
    hit, ix, _r = search(c, s0, lambda s, x: c.I.call_closure(s, c.args[1], [x]), lambda x: x)
    advance(c, s0, hit, ix)
    return ite(hit, some(ix if c.name() == 'position' else get(s0, ix)), NONE)


@M('Iterator.flat_map')
def m_flatmap(c):
    s = map_seq(c.I, c.st, it0(c), lambda s, x: as_seq(c.I, s, c.I.call_closure(s, c.args[1], [x])), c.args[1])
    return flat(s)


@M('Iterator.flatten')
def m_flatten(c): return flat(it0(c))


def flat(s):
    if s.op == 'lit':
        if any(x.op not in ('lit', 'comp', 'cat', 'slice', 'rev', 'upd') for x in s.a):
            return mk('concatall', s)
        r = NIL
        for x in s.a:
            r = cat(r, x)
        return r
    return mk('concatall', s)


@M('Iterator.unzip')
def m_unzip(c):
    s = it0(c)
    n = slen(s)
    return tup(mkcomp(n, lambda i: fld(get(s, i), None, 0)), mkcomp(n, lambda i: fld(get(s, i), None, 1)))


@M('Iterator.max', 'Iterator.min')
def m_imax(c):
    s = it0(c)
    op = 'imax' if c.name() == 'max' else 'imin'
    n = slen(s)
    return ite(lt(ZERO, n), some(fold_seq(c.I, c.st, s, get(s, ZERO), lambda st, a, x: iop(op, a, x))), NONE)


@M('Iterator.collect', 'FromIterator.from_iter')
def m_collect(c):
    if c.name() == 'collect':
        dst = c.ta(1)
        s = it0(c)
    else:
        dst = c.ta(0)
        s = as_seq(c.I, c.st, c.v(0), argty(c, 0))
    return collect(c, dst, s)


def collect(c, dst, s):
    if dst[0] == 'adt':
        n = dst[1].split('::')[-1]
        if n in ('Vec', 'FieldElementVector', 'G1Vector', 'VecDeque', 'Box'):
            return s
        if n in ('HashMap', 'HashSet', 'BTreeMap', 'BTreeSet'):
            return mapfrom(c, s, n.endswith('Set'), mk('mnew'))
        if n == 'Result':
            bad = mk('firstidx', mkcomp(slen(s), lambda i: isv(get(s, i), 1)))
            anyb = anyof(mkcomp(slen(s), lambda i: isv(get(s, i), 1))) if s.op != 'lit' else \
                anyof(lit(*[isv(x, 1) for x in s.a]))
            if s.op == 'lit':
                good = lit(*[fld(x, 0, 0) for x in s.a])
            else:
                good = mkcomp(slen(s), lambda i: fld(get(s, i), 0, 0))
            return ite(anyb, err(fld(get(s, bad), 1, 0)), ok(collect(c, dst[2][0], good)))
        if n == 'Option':
            if s.op == 'lit':
                anyb = anyof(lit(*[isv(x, 0) for x in s.a]))
                good = lit(*[fld(x, 1, 0) for x in s.a])
            else:
                anyb = anyof(mkcomp(slen(s), lambda i: isv(get(s, i), 0)))
                good = mkcomp(slen(s), lambda i: fld(get(s, i), 1, 0))
            return ite(anyb, NONE, some(collect(c, dst[2][0], good)))
        if n == 'String':
            r = STR('')
            if s.op == 'lit':
                for x in s.a:
                    r = strcat(r, x)
                return r
            return mk('strjoin', s)
        r = find_impl(c.I, 'core::iter::traits::collect::FromIterator', [dst], 'from_iter')
        if r:
            g = dict(r[1])
            g['T'] = ('adt', 'alloc::vec::Vec', ())
            return c.I.call_key(c.st, r[0], [s], g)
    return c.I.top('collect into %r' % (dst[:2],))


def mapfrom(c, s, isset, init):
    def f(st, m, x):
        if isset:
            return mk('mput', m, x, UNIT)
        return mk('mput', m, fld(x, None, 0), fld(x, None, 1))
    return fold_seq(c.I, c.st, s, init, f)


@M('once::once', 'iter::once')
def m_once(c): return lit(c.args[0])


@M('repeat::repeat', 'iter::repeat')
def m_repeat(c):
    x = c.v(0)
    return mkcomp(I_(INF), lambda i: x)


@M('repeat_n::repeat_n')
def m_repeatn(c):
    x = c.v(0)
    return mkcomp(c.v(1), lambda i: x)


@M('empty::empty')
def m_empty(c): return NIL


@M('successors::successors')
def m_succ(c):
    """iter::successors(Some(x0), f) with f always Some: a power-like recurrence; left to the graph"""
    x0 = c.v(0)
    f = c.args[1]
    iv = fresh('p')
    s = c.st.fork()
    nx = c.I.call_closure(s, f, [var(iv)])
    if not (x0.op == 'struct' and x0.a[1] == 1) or not (nx.op == 'struct' and nx.a[1] == 1):
        return c.I.top('successors')
    init, step = x0.a[2], nx.a[2]

    def el(i):
        L = mk('loop', (fresh(), (iv,)), i, TRUE, init, step)
        r = c.I.closed(fresh(), var(fresh()), i, iv, init, step, frozenset([iv]))
        return r[0] if r else lout(L, 0)
    return mkcomp(I_(INF), el)


# ------------------------------------------------------------------ maps and sets
@M('HashMap.new', 'HashSet.new', 'HashMap.with_capacity', 'HashSet.with_capacity', 'BTreeMap.new', 'BTreeSet.new')
def m_mapnew(c): return mk('mnew')


def mget(m, k):
    if m.op == 'mput' and m.a[1] is k:
        return some(m.a[2])
    if m.op == 'mnew':
        return NONE
    return mk('mget', m, k)


@M('HashMap.insert', 'BTreeMap.insert')
def m_mapins(c):
    m, k = c.v(0), c.v(1)
    old = mget(m, k)
    c.set(0, mk('mput', m, k, c.v(2)))
    return old


@M('HashMap.get', 'BTreeMap.get')
def m_mapget(c): return mget(c.v(0), c.v(1))


@M('HashMap.contains_key', 'HashSet.contains', 'BTreeMap.contains_key', 'BTreeSet.contains')
def m_mapcontains(c): return isv(mget(c.v(0), c.v(1)), 1)


@M('HashMap.remove', 'BTreeMap.remove')
def m_maprem(c):
    m, k = c.v(0), c.v(1)
    c.set(0, mk('mdel', m, k))
    return mget(m, k)


@M('HashMap.get_mut')
def m_mapgetmut(c):
    m, k = c.v(0), c.v(1)
    return ite(isv(mget(m, k), 1), some(c.I.rsub(c.args[0], mk('pm', k))), NONE)


@M('HashMap.entry', 'BTreeMap.entry')
def m_entry(c): return struct('$Entry', 0, c.args[0], c.v(1))


def or_insert(c, mkv):
    e = c.v(0)
    r, k = e.a[2], e.a[3]
    m = c.I.rread(c.st, r)
    g = mget(m, k)
    v = mkv()
    c.I.rwrite(c.st, r, mk('mput', m, k, ite(isv(g, 1), fld(g, 1, 0), v)))
    return c.I.rsub(r, mk('pm', k))


@M('Entry.or_insert')
def m_orins(c): return or_insert(c, lambda: c.v(1))


@M('Entry.or_insert_with')
def m_orinsw(c): return or_insert(c, lambda: c.I.call_closure(c.st, c.args[1], []))


@M('Entry.or_default')
def m_ordef(c):
    t = strip_ref(c.ret())
    return or_insert(c, lambda: default(c, t))


@M('HashSet.insert', 'BTreeSet.insert')
def m_setins(c):
    m, k = c.v(0), c.v(1)
    r = isv(mget(m, k), 0)
    c.set(0, mk('mput', m, k, UNIT))
    return r


@M('HashMap.len', 'HashSet.len', 'BTreeMap.len', 'BTreeSet.len')
def m_maplen(c): return mk('len', c.v(0))


@M('HashMap.is_empty', 'HashSet.is_empty')
def m_mapempty(c): return ieq(mk('len', c.v(0)), ZERO)


@M('HashMap.iter', 'HashMap.into_iter', 'HashMap.drain')
def m_mapiter(c): return mk('mitems', c.v(0))


@M('HashMap.keys', 'HashMap.into_keys', 'HashSet.iter')
def m_mapkeys(c):
    s = mk('mitems', c.v(0))
    return mkcomp(slen(s), lambda i: fld(get(s, i), None, 0))


@M('HashMap.values', 'HashMap.into_values')
def m_mapvals(c):
    s = mk('mitems', c.v(0))
    return mkcomp(slen(s), lambda i: fld(get(s, i), None, 1))


# ------------------------------------------------------------------ field and group
@M('FieldElement.zero', 'FieldElement.new', 'GroupElement.identity', 'GroupElement.new')
def m_zero(c): return FZ


@M('FieldElement.one')
def m_one(c): return FONE


@M('FieldElement.minus_one')
def m_mone(c): return F(-1)


@M('FieldElement.negation', 'GroupElement.negation')
def m_fneg(c): return fneg(c.v(0))


@M('FieldElement.inverse')
def m_finv(c): return finv(c.v(0))


@M('FieldElement.square')
def m_sq(c): return fmul(c.v(0), c.v(0))


@M('FieldElement.plus', 'GroupElement.plus')
def m_fplus(c): return fadd(c.v(0), c.v(1))


@M('FieldElement.minus', 'GroupElement.minus')
def m_fminus(c): return fsub(c.v(0), c.v(1))


@M('FieldElement.multiply', 'GroupElement.scalar_mul_variable_time', 'GroupElement.scalar_mul_const_time', 'G1.scalar_mul_const_time', 'G1.scalar_mul_variable_time')
def m_fmul(c): return fmul(c.v(0), c.v(1))


@M('FieldElement.pow')
def m_fpow(c):
    return mk('fpow', c.v(0), mk('f2i', c.v(1)))


@M('FieldElement.add_assign_')
def m_fadda(c): c.set(0, fadd(c.v(0), c.v(1)))


@M('FieldElement.is_zero', 'GroupElement.is_identity')
def m_iszero(c): return eqv(c.v(0), FZ)


@M('FieldElement.is_one')
def m_isone(c): return eqv(c.v(0), FONE)


@M('FieldElement.is_odd')
def m_odd(c): return ieq(iop('irem', mk('f2i', c.v(0)), I_(2)), ONE)


@M('FieldElement.is_even')
def m_even(c): return ieq(iop('irem', mk('f2i', c.v(0)), I_(2)), ZERO)


@M('FieldElement.shift_right')
def m_shr(c): return mk('i2f', iop('ishr', mk('f2i', c.v(0)), c.v(1)))


@M('FieldElement.shift_left')
def m_shl(c): return mk('i2f', iop('ishl', mk('f2i', c.v(0)), c.v(1)))


@M('FieldElement.to_bignum')
def m_tobig(c): return mk('f2i', c.v(0))


@M('FieldElement.to_bytes')
def m_tobytes(c): return mk('fbytes', c.v(0))


@M('GroupElement.to_bytes')
def m_gtobytes(c): return mk('pbytes', c.v(0))


@M('FieldElement.from_bytes')
def m_frombytes(c): return ok(ofbytes(c.v(0)))


@M('FieldElement.from_hex')
def m_fromhex(c):
    v = c.v(0)
    if v.op == 's':
        try:
            return ok(F(int(v.a[0], 16)))
        except ValueError:
            return err(mk('tag', 'hex'))
    return ok(mk('hexf', v))


@M('FieldElement.from_msg_hash')
def m_fhash(c): return mk('ufF', 'fhash', c.v(0))


@M('GroupElement.from_msg_hash', 'G1.from_msg_hash')
def m_ghash(c): return mk('ufF', 'ghash', c.v(0))


@M('GroupElement.generator')
def m_gen(c): return mk('ufF', 'generator')


def rnd(c, *idx):
    k = c.st.cells[RNG]
    c.st.cells[RNG] = iadd(k, ONE)
    return k


@M('FieldElement.random')
def m_random(c):
    return mk('rand', rnd(c))


INTBITS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'u128': 128}
DRNG = '$drng'


def drawn(c, i):
    """(is it from a seeded generator, its state): values drawn from the generator in argument i.
    Generators are of two kinds: entropy (the operating system's, the caller's) and deterministic functions of a seed"""
    v = c.v(i)
    if v.op == 'struct' and v.a[0] == DRNG:
        seed, k = fld(v, None, 0), fld(v, None, 1)
        c.set(i, struct(DRNG, 0, seed, iadd(k, ONE)))
        return mk('drand', seed, k)
    if v.op == 'ite':
        return top('one of several generators')
    return None


@M('FieldElement.random_using_rng', 'GroupElement.random_using_rng')
def m_randomrng(c):
    d = drawn(c, 0)
    return d if d is not None else mk('rand', rnd(c))


def intdraw(c, t, d):
    if t is not None and t[0] == 'int' and t[1] in INTBITS:
        return mk('idrand', d, INTBITS[t[1]]) if d is not None else mk('irand', rnd(c), INTBITS[t[1]])
    return top('random value of another type')


@M('rand::random')
def m_irandom0(c):
    return intdraw(c, c.ret(), None)


@M('Rng.gen', 'RngCore.next_u32', 'RngCore.next_u64')
def m_irandom(c):
    return intdraw(c, c.ret(), drawn(c, 0))


@M('RngCore.fill_bytes', 'Rng.fill', 'Rng.fill_bytes', 'RngCore.try_fill_bytes')
def m_fillb(c):
    d = drawn(c, 0)
    if d is not None:
        c.set(1, mkcomp(slen(c.v(1)), lambda i: mk('idrand', d, 8, i)))
    else:
        k = rnd(c)
        c.set(1, mkcomp(slen(c.v(1)), lambda i: mk('irand', k, 8, i)))
    t = c.ret()
    return ok(UNIT) if t is not None and t[0] == 'adt' else UNIT


@M('thread_rng', 'rand::thread_rng', 'EntropyRng.new', 'FromEntropy.from_entropy', 'SeedableRng.from_entropy')
def m_trng(c): return UNIT


@M('OsRng.new')
def m_osrng(c): return ok(UNIT)


@M('SeedableRng.seed_from_u64')
def m_seed64(c): return struct(DRNG, 0, mk('coarse', c.v(0)), ZERO)


@M('SeedableRng.from_seed')
def m_seed(c): return struct(DRNG, 0, c.v(0), ZERO)


@M('SeedableRng.from_rng')
def m_seedrng(c):
    d = drawn(c, 0)
    return ok(struct(DRNG, 0, d, ZERO) if d is not None else UNIT)


@M('Transcript.build_rng')
def m_buildrng(c): return struct('$rngb', 0, c.v(0))


@M('TranscriptRngBuilder.commit_witness_bytes', 'TranscriptRngBuilder.rekey_with_witness_bytes')
def m_rekey(c):
    return struct('$rngb', 0, mk('tapp', fld(c.v(0), None, 0), c.v(1), c.v(2)))


@M('TranscriptRngBuilder.finalize')
def m_finalize(c):
    d = drawn(c, 1)
    return struct(DRNG, 0, mk('chalb', fld(c.v(0), None, 0), d, vdg.I(32)), ZERO) if d is not None else UNIT


@M('FieldElementVector.random')
def m_vrandom(c):
    k = rnd(c)
    n = c.v(0)
    return mkcomp(n, lambda i: mk('rand', k, i))


@M('GroupElement.random')
def m_grandom(c): return mk('rand', rnd(c))


@M('G1.binary_scalar_mul')
def m_bsm(c):
    g, h, a, b = [c.v(i) for i in range(4)]
    return fadd(fmul(g, a), fmul(h, b))


@M('commitment::commit_to_field_element')
def m_commit(c):
    g, h, a, b = [c.v(i) for i in range(4)]
    return fadd(fmul(g, a), fmul(h, b))


def dot(a, b):
    """inner product, splitting concatenations of matching shape"""
    if a.op == 'lit' and b.op == 'lit' and len(a.a) == len(b.a):
        r = FZ
        for x, y in zip(a.a, b.a):
            r = fadd(r, fmul(x, y))
        return r
    return mk('fdot', a, b)


def lenchk(a, b, v):
    e = mk('tag', 'UnequalSizeVectors')
    return ite(ieq(slen(a), slen(b)), ok(v), err(e))


@M('commitment::commit_to_field_element_vectors')
def m_commitv(c):
    g, h, u, a, b, r = [c.v(i) for i in range(6)]
    p, s = cat(cat(g, h), lit(u)), cat(cat(a, b), lit(r))
    return lenchk(p, s, dot(p, s))


@M('G1Vector.inner_product_const_time', 'G1Vector.inner_product_var_time', 'G1Vector.multi_scalar_mul_var_time',
   'G1Vector.multi_scalar_mul_const_time', 'GroupElementVector.inner_product_const_time', 'GroupElementVector.inner_product_var_time',
   'GroupElementVector.multi_scalar_mul_const_time', 'GroupElementVector.multi_scalar_mul_var_time',
   'FieldElementVector.inner_product', 'G1Vector.inner_product_var_time_with_ref_vecs',
   'G1Vector.multi_scalar_mul_const_time_naive', 'G1Vector.multi_scalar_mul_var_time_from_ref_vecs')
def m_ip(c):
    a, b = c.v(0), c.v(1)
    return lenchk(a, b, dot(a, b))


@M('FieldElementVector.hadamard_product', 'GroupElementVector.hadamard_product_', 'FieldElementVector.plus', 'FieldElementVector.minus', 'GroupElementVector.plus')
def m_hadamard(c):
    a, b = c.v(0), c.v(1)
    f = {'hadamard_product': fmul, 'plus': fadd, 'minus': fsub}[c.name()]
    return lenchk(a, b, mkcomp(slen(a), lambda i: f(get(a, i), get(b, i))))


@M('FieldElementVector.scaled_by', 'GroupElementVector.scaled_by')
def m_scaled(c):
    a, x = c.v(0), c.v(1)
    return mkcomp(slen(a), lambda i: fmul(get(a, i), x))


@M('FieldElementVector.scale')
def m_scale(c):
    a, x = c.v(0), c.v(1)
    c.set(0, mkcomp(slen(a), lambda i: fmul(get(a, i), x)))


@M('FieldElementVector.sum', 'GroupElementVector.sum')
def m_fvsum(c): return fsum(c.v(0))


@M('FieldElementVector.new_vandermonde_vector')
def m_vander(c):
    x, n = c.v(0), c.v(1)
    return mkcomp(n, lambda i: fpow(x, i))


@M('FieldElement.batch_invert')
def m_batch(c):
    s = c.v(0)
    c.panic(ieq(slen(s), ZERO), 'batch_invert of an empty slice')
    return tup(mkcomp(slen(s), lambda i: finv(get(s, i))), finv(mk('fprod', s)))


# big numbers are integers
@M('BIG.fshr', 'BIG.shr')
def m_bshr(c):
    v, k = c.v(0), c.v(1)
    r = iop('irem', v, iop('ishl', ONE, k))
    c.set(0, iop('ishr', v, k))
    return r


@M('BIG.iszilch')
def m_zilch(c): return ieq(c.v(0), ZERO)


@M('BIG.lastbits')
def m_lastbits(c): return iop('irem', c.v(0), iop('ishl', ONE, c.v(1)))


@M('BIG.norm')
def m_norm(c): return ZERO


@M('BIG.rmod')
def m_rmod(c):
    m = c.v(1)
    if m.op != 'top':           # the curve order: every value is reduced already
        c.set(0, iop('irem', c.v(0), m))
    return UNIT


@M('BIG.tobytes')
def m_bigbytes(c):
    c.set(1, mk('fbytes', bigf(c.v(0))))


@M('BIG.isunity')
def m_unity(c): return ieq(c.v(0), ONE)


@M('BIG.parity')
def m_parity(c): return iop('irem', c.v(0), I_(2))


@M('BIG.bit')
def m_bit(c): return iop('irem', iop('ishr', c.v(0), c.v(1)), I_(2))


@M('BIG.nbits')
def m_nbits(c): return mk('bitlen', c.v(0))


# ------------------------------------------------------------------ transcript, hashing
@M('Transcript.new')
def m_tnew(c): return mk('tnew', c.v(0))


@M('Transcript.append_message', 'Transcript.commit_bytes')
def m_tapp(c):
    c.set(0, mk('tapp', c.v(0), c.v(1), c.v(2)))


@M('Transcript.append_u64', 'Transcript.commit_u64')
def m_tappu(c):
    c.set(0, mk('tapp', c.v(0), c.v(1), mk('lebytes', c.v(2), 8)))


@M('Transcript.challenge_bytes')
def m_tchal(c):
    t, l, buf = c.v(0), c.v(1), c.v(2)
    c.set(2, mk('chalb', t, l, slen(buf)))
    c.set(0, mk('tchal', t, l))


@M('SHA3.new')
def m_sha(c): return struct('$SHA3', 0, mk('mnew'), NIL)


@M('SHA3.process')
def m_shap(c):
    v = c.v(0)
    c.set(0, struct('$SHA3', 0, UNIT, cat(fld(v, None, 1), lit(c.v(1)))))


@M('SHA3.shake', 'SHA3.hash')
def m_shake(c):
    v, buf = c.v(0), c.v(1)
    n = c.v(2) if len(c.args) > 2 else slen(buf)
    out = mk('shakeb', fld(v, None, 1), n)
    c.set(1, mkcomp(slen(buf), lambda i: ite(lt(i, n), get(out, i), get(buf, i))))


def mkbytes(name, *xs):
    return mk('tag', name, *xs)


# ------------------------------------------------------------------ more of core::iter, slices, strings
def cutoff(s, stop):
    """index of the first set flag, or the length"""
    return ite(anyof(stop), mk('firstidx', stop), slen(s))


def flags(seq, f):
    n = slen(seq)
    if seq.op == 'lit':
        return lit(*[f(x) for x in seq.a])
    return mkcomp(n, lambda i: f(get(seq, i)))


@M('Iterator.take_while', 'Iterator.skip_while')
@shortcut
def m_takewhile(c):
    s0 = it0(c)
    stop = map_seq(c.I, c.st, s0, lambda s, x: not_(c.I.call_closure(s, c.args[1], [x])))
    k = cutoff(s0, stop)
    return slc(s0, ZERO, k) if c.name() == 'take_while' else slc(s0, k, slen(s0))


@M('Iterator.map_while')
@shortcut
def m_mapwhile(c):
    r = map_seq(c.I, c.st, it0(c), lambda s, x: c.I.call_closure(s, c.args[1], [x]))
    return until_none(r)


def until_none(r):
    k = cutoff(r, flags(r, lambda x: isv(x, 0)))
    good = flags(r, lambda x: fld(x, 1, 0))
    return slc(good, ZERO, k) if not (k is slen(r)) else good


@M('Iterator.scan')
@shortcut
def m_scan(c):
    cell = c.I.new_cell(c.st, c.v(1))
    r = map_seq(c.I, c.st, it0(c), lambda s, x: c.I.call_closure(s, c.args[2], [cell.ref(), x]))
    return until_none(r)


@M('Iterator.partition')
def m_partition(c):
    s0 = it0(c)
    fl = map_seq(c.I, c.st, s0, lambda s, x: c.I.call_closure(s, c.args[1], [x]))
    return tup(mk('filtsel', s0, fl), mk('filtsel', s0, flags(fl, not_)))


@M('Peekable.peek')
def m_peek(c):
    s = as_seq(c.I, c.st, c.v(0))
    return ite(lt(ZERO, slen(s)), some(get(s, ZERO)), NONE)


@M('Iterator.cycle')
def m_cycle(c):
    s = it0(c)
    n = slen(s)
    return mkcomp(ite(lt(ZERO, n), I_(INF), ZERO), lambda i: get(s, iop('irem', i, n)))


def pure_call(c, f):
    """the value of a closure without arguments, where calling it changes nothing"""
    s = c.st.fork()
    before = dict(s.cells)
    v = c.I.call_closure(s, f, [])
    if s.dead or any(s.cells.get(k) is not x for k, x in before.items()):
        return None
    return v


@M('repeat_with::repeat_with')
def m_repeatwith(c):
    v = pure_call(c, c.args[0])
    if v is None:
        return c.I.top('repeat_with of a closure with effects')
    return mkcomp(I_(INF), lambda i: v)


@M('from_fn::from_fn')
def m_fromfn(c):
    v = pure_call(c, c.args[0])
    if v is not None:
        if v.op == 'struct':
            return NIL if v.a[1] == 0 else mkcomp(I_(INF), lambda i: v.a[2])
        return c.I.top('from_fn')
    s = c.st.fork()
    drain_next(c.I, s, lambda t: c.I.call_closure(t, c.args[0], []))
    if s.dead:
        return c.I.top('from_fn without an end')
    return drain_next(c.I, c.st, lambda s: c.I.call_closure(s, c.args[0], []))


def drain_next(I, st, step):
    """everything a next-like step yields until it yields None"""
    acc = I.new_cell(st, NIL)
    fr = frame()

    def run(s, j):
        v = step(s)
        if s.dead:
            return

        def end(t):
            fr.exits.append((('brk', 'dn'), t.pc, UNIT, t.cells, t.facts))
            t.cells = dict(t.cells)
            t.dead = True
            return mk('dead')

        def more(t):
            t.cells[acc.root] = cat(t.cells[acc.root], lit(fld(v, 1, 0)))
            return UNIT
        I.branch(s, isv(v, 1), more, end)
    I.run_loop(st, fr, None, run, 'dn')
    return st.cells.pop(acc.root, mk('dead'))


@M('Iterator.inspect')
def m_inspect(c):
    seq = it0(c)
    c.I.run_loop(c.st, frame(), slen(seq), lambda s, j: c.I.call_closure(s, c.args[1], [get(seq, j)]))
    return seq


@M('Iterator.try_fold')
@shortcut
def m_tryfold(c):
    seq, f = it0(c), c.args[2]
    t = c.ret()
    if not (t and t[0] == 'adt' and t[1] in (OPT, RES)):
        return c.I.top('try_fold')
    opt = t[1] == OPT
    cell = c.I.new_cell(c.st, (some if opt else ok)(c.v(1)))
    fr = frame()
    good = 1 if opt else 0

    def run(s, j):
        v = c.I.call_closure(s, f, [fld(s.cells[cell.root], good, 0), get(seq, j)])
        if s.dead:
            return
        s.cells[cell.root] = v

        def bad(t):
            fr.exits.append((('brk', 'tf'), t.pc, UNIT, t.cells, t.facts))
            t.cells = dict(t.cells)
            t.dead = True
            return mk('dead')
        c.I.branch(s, isv(v, good), lambda t: UNIT, bad)
    c.I.run_loop(c.st, fr, slen(seq), run, 'tf')
    return c.st.cells.pop(cell.root, mk('dead'))


@M('Iterator.reduce')
def m_reduce(c):
    s, f = it0(c), c.args[1]
    n = slen(s)

    def go(st):
        return some(fold_seq(c.I, st, slc(s, ONE, n), get(s, ZERO), lambda t, a, x: c.I.call_closure(t, f, [a, x])))
    return c.I.branch(c.st, lt(ZERO, n), go, lambda st: NONE)


@M('Iterator.rfold')
def m_rfold(c):
    f = c.args[2]
    return fold_seq(c.I, c.st, rev(it0(c)), c.v(1), lambda s, a, x: c.I.call_closure(s, f, [a, x]))


@M('Iterator.min_by_key', 'Iterator.max_by_key')
def m_bykey(c):
    s, f = it0(c), c.args[1]
    n = slen(s)
    mx = c.name() == 'max_by_key'

    def go(st):
        k0 = c.I.call_closure(st, f, [get(s, ZERO)])

        def step(t, a, x):
            k = c.I.call_closure(t, f, [x])
            ka = fld(a, None, 0)
            take = not_(lt(k, ka)) if mx else lt(k, ka)
            return ite(take, tup(k, x), a)
        return some(fld(fold_seq(c.I, st, slc(s, ONE, n), tup(k0, get(s, ZERO)), step), None, 1))
    return c.I.branch(c.st, lt(ZERO, n), go, lambda st: NONE)


@M('Iterator.rposition')
@shortcut
def m_rposition(c):
    s0 = it0(c)
    fl = map_seq(c.I, c.st, s0, lambda s, x: c.I.call_closure(s, c.args[1], [x]))
    return ite(anyof(fl), some(isub(isub(slen(s0), ONE), mk('firstidx', rev(fl)))), NONE)


@M('Iterator.find_map')
@shortcut
def m_findmap(c):
    s0 = it0(c)
    hit, ix, r = search(c, s0, lambda s, x: c.I.call_closure(s, c.args[1], [x]), lambda x: isv(x, 1))
    advance(c, s0, hit, ix)
    return ite(hit, get(r, ix), NONE)


@M('Iterator.eq', 'Iterator.ne')
def m_itereq(c):
    r = eqv(it0(c), as_seq(c.I, c.st, c.v(1), argty(c, 1)))
    return r if c.name() == 'eq' else not_(r)


@MV('dedup')
def m_dedup(c): c.set(0, mk('dedup', c.v(0)))


@MV('sort', 'sort_unstable')
def m_sort(c): c.set(0, mk('sorted', c.v(0)))


@MV('starts_with', 'ends_with')
def m_seqstarts(c):
    s, w = c.v(0), c.v(1)
    n, k = slen(s), slen(w)
    part = slc(s, ZERO, k) if c.name() == 'starts_with' else slc(s, isub(n, k), n)
    return and_(not_(lt(n, k)), eqv(part, w))


@MV('retain')
def m_retain(c):
    s0 = c.v(0)
    fl = map_seq(c.I, c.st, s0, lambda s, x: c.I.call_closure(s, c.args[1], [x]))
    c.set(0, mk('filtsel', s0, fl))


@MV('repeat')
def m_seqrepeat(c):
    s, k = c.v(0), c.v(1)
    n = slen(s)
    return mkcomp(imul(n, k), lambda i: get(s, iop('irem', i, n)))


@M('array.map', 'slice.map')
def m_arraymap(c):
    return map_seq(c.I, c.st, c.v(0), lambda s, x: c.I.call_closure(s, c.args[1], [x]))


@M('array::from_fn')
def m_arrayfromfn(c):
    t = c.ret()
    if not t or t[0] != 'array' or not isinstance(t[2], int):
        return c.I.top('array::from_fn')
    return map_seq(c.I, c.st, mkcomp(I_(t[2]), lambda i: i), lambda s, x: c.I.call_closure(s, c.args[0], [x]))


@M('Option.xor')
def m_oxor(c):
    a, b = c.v(0), c.v(1)
    sa, sb = isv(a, 1), isv(b, 1)
    return ite(and_(sa, not_(sb)), a, ite(and_(sb, not_(sa)), b, NONE))


@M('Option.and')
def m_oand2(c): return ite(isv(c.v(0), 1), c.v(1), NONE)


@M('Option.is_some_and')
def m_oissome(c):
    v = c.v(0)
    return c.I.branch(c.st, isv(v, 1), lambda s: c.I.call_closure(s, c.args[1], [fld(v, 1, 0)]), lambda s: FALSE)


@M('Option.is_none_or')
def m_oisnone(c):
    v = c.v(0)
    return c.I.branch(c.st, isv(v, 1), lambda s: c.I.call_closure(s, c.args[1], [fld(v, 1, 0)]), lambda s: TRUE)


@M('Option.flatten')
def m_oflatten(c): return ite(isv(c.v(0), 1), fld(c.v(0), 1, 0), NONE)


@M('Option.transpose')
def m_otranspose(c):
    v = c.v(0)
    r = fld(v, 1, 0)
    return ite(isv(v, 1), ite(isv(r, 0), ok(some(fld(r, 0, 0))), err(fld(r, 1, 0))), ok(NONE))


@M('Result.unwrap_or_default')
def m_ruord(c): return ite(isv(c.v(0), 0), fld(c.v(0), 0, 0), default(c, c.ta(0)))


@M('Result.or_else')
def m_rorelse(c):
    v = c.v(0)
    return c.I.branch(c.st, isv(v, 0), lambda s: ok(fld(v, 0, 0)),
                      lambda s: c.I.call_closure(s, c.args[1], [fld(v, 1, 0)]))


@M('Result.or')
def m_ror(c): return ite(isv(c.v(0), 0), ok(fld(c.v(0), 0, 0)), c.v(1))


@M('Result.and')
def m_rand2(c): return ite(isv(c.v(0), 0), c.v(1), err(fld(c.v(0), 1, 0)))


@M('Result.map_or')
def m_rmapor(c):
    v = c.v(0)
    return c.I.branch(c.st, isv(v, 0), lambda s: c.I.call_closure(s, c.args[2], [fld(v, 0, 0)]), lambda s: c.v(1))


@M('Result.map_or_else')
def m_rmapore(c):
    v = c.v(0)
    return c.I.branch(c.st, isv(v, 0), lambda s: c.I.call_closure(s, c.args[2], [fld(v, 0, 0)]),
                      lambda s: c.I.call_closure(s, c.args[1], [fld(v, 1, 0)]))


@M('Result.is_ok_and')
def m_risok(c):
    v = c.v(0)
    return c.I.branch(c.st, isv(v, 0), lambda s: c.I.call_closure(s, c.args[1], [fld(v, 0, 0)]), lambda s: FALSE)


@M('Range.contains', 'RangeInclusive.contains', 'RangeFrom.contains', 'RangeTo.contains', 'RangeBounds.contains')
def m_rcontains(c):
    r, x = c.v(0), c.v(1)
    n = r.a[0].split('::')[-1] if r.op == 'struct' else ''
    if n == 'Range':
        return and_(not_(lt(x, r.a[2])), lt(x, r.a[3]))
    if n == 'RangeInclusive':
        return and_(not_(lt(x, r.a[2])), not_(lt(r.a[3], x)))
    if n == 'RangeFrom':
        return not_(lt(x, r.a[2]))
    if n == 'RangeTo':
        return lt(x, r.a[2])
    return c.I.top('contains')


@M('Range.is_empty')
def m_rempty(c):
    r = c.v(0)
    return not_(lt(r.a[2], r.a[3])) if r.op == 'struct' else c.I.top('range')


@M('RangeInclusive.start', 'RangeInclusive.end')
def m_rends(c): return fld(c.v(0), None, 0 if c.name() == 'start' else 1)


@M('str.bytes')
def m_strbytesiter(c):
    return m_strbytes(c)


@M('str.chars')
def m_chars(c):
    v = c.v(0)
    return lit(*[STR(x) for x in v.a[0]]) if v.op == 's' else mk('strchars', v)


@M('String.push')
def m_spush(c): c.set(0, strcat(c.v(0), c.v(1)))


@M('str.is_empty', 'String.is_empty')
def m_strempty(c):
    v = c.v(0)
    return B(v.a[0] == '') if v.op == 's' else ieq(mk('strlen', v), ZERO)


def intbin(op):
    def f(c):
        a, b = c.v(0), c.v(1)
        if kind(c.ta(0)) != 'I':
            t = strip_ref(c.ta(0))
            if t[0] == 'bool' and op in ('iand', 'ior', 'ixor'):
                return and_(a, b) if op == 'iand' else or_(a, b) if op == 'ior' else not_(eqv(a, b))
            return c.I.top('operator %s on %r' % (op, t[:2]))
        if op in ('idiv', 'irem'):
            c.panic(ieq(b, ZERO), 'division by zero')
        return iop(op, a, b)
    return f


for _tr, _mn, _op in (('Rem', 'rem', 'irem'), ('Div', 'div', 'idiv'), ('BitAnd', 'bitand', 'iand'), ('BitOr', 'bitor', 'ior'),
                      ('BitXor', 'bitxor', 'ixor'), ('Shl', 'shl', 'ishl'), ('Shr', 'shr', 'ishr')):
    REG['%s.%s' % (_tr, _mn)] = intbin(_op)

    def _asg(f):
        def g(c):
            c.set(0, f(c))
        return g
    REG['%sAssign.%s_assign' % (_tr, _mn)] = _asg(intbin(_op))

for _t in ('usize', 'u8', 'u16', 'u32', 'u64', 'u128', 'i32', 'i64', 'isize', 'i8'):
    _b = {'usize': 64, 'isize': 64}.get(_t) or int(_t[1:])
    REG[_t + '.max_value'] = (lambda b, g: lambda c: vdg.I((1 << (b - g)) - 1))(_b, _t[0] == 'i')
    REG[_t + '.min_value'] = (lambda b, g: lambda c: vdg.I(-(1 << (b - 1)) if g else 0))(_b, _t[0] == 'i')
    REG[_t + '.count_ones'] = lambda c: mk('popcnt', c.v(0))
    REG[_t + '.abs'] = lambda c: ite(lt(c.v(0), ZERO), isub(ZERO, c.v(0)), c.v(0))
    REG[_t + '.abs_diff'] = lambda c: ite(lt(c.v(0), c.v(1)), isub(c.v(1), c.v(0)), isub(c.v(0), c.v(1)))
    REG[_t + '.to_be_bytes'] = (lambda b: lambda c: rev(mk('lebytes', c.v(0), b // 8)))(_b)
    REG[_t + '.to_ne_bytes'] = (lambda b: lambda c: mk('lebytes', c.v(0), b // 8))(_b)
    REG[_t + '.wrapping_mul'] = (lambda b: lambda c: vdg.iwrap(imul(c.v(0), c.v(1)), b))(_b)
    REG[_t + '.saturating_mul'] = (lambda b: lambda c: iop('imin', imul(c.v(0), c.v(1)), vdg.I((1 << b) - 1)))(_b)
    REG[_t + '.div_ceil'] = lambda c: iop('idiv', iadd(c.v(0), isub(c.v(1), ONE)), c.v(1))
    REG[_t + '.rem_euclid'] = lambda c: iop('irem', c.v(0), c.v(1))
    REG[_t + '.checked_div'] = lambda c: ite(ieq(c.v(1), ZERO), NONE, some(iop('idiv', c.v(0), c.v(1))))
    REG[_t + '.checked_rem'] = lambda c: ite(ieq(c.v(1), ZERO), NONE, some(iop('irem', c.v(0), c.v(1))))
    REG[_t + '.ilog2'] = lambda c: isub(mk('bitlen', c.v(0)), ONE)
    REG[_t + '.is_multiple_of'] = lambda c: ieq(iop('irem', c.v(0), c.v(1)), ZERO)


@M('Entry.and_modify')
def m_andmodify(c):
    e = c.v(0)
    r, k = e.a[2], e.a[3]
    g = mget(c.I.rread(c.st, r), k)
    c.I.branch(c.st, isv(g, 1), lambda s: c.I.call_closure(s, c.args[1], [c.I.rsub(r, mk('pm', k))]), lambda s: UNIT)
    return e


@M('BTreeMap.get_mut')
def m_bgetmut(c): return m_mapgetmut(c)


@M('HashSet.remove', 'BTreeSet.remove')
def m_setrem(c):
    m, k = c.v(0), c.v(1)
    c.set(0, mk('mdel', m, k))
    return isv(mget(m, k), 1)


@M('HashMap.clear', 'HashSet.clear', 'BTreeMap.clear', 'BTreeSet.clear')
def m_mapclear(c): c.set(0, mk('mnew'))


def _settled(f):
    def g(c):
        if c.I.errver:
            c.I.settle(c.st, c.v(0))
        return f(c)
    return g


# what these return no longer tells whether the call failed, or the failure is not passed on
for _n in ('is_ok', 'is_err', 'ok', 'err', 'unwrap_or', 'unwrap_or_else', 'unwrap_or_default', 'or_else', 'or', 'map_or',
           'map_or_else', 'is_ok_and', 'and'):
    if 'Result.' + _n in REG:
        REG['Result.' + _n] = _settled(REG['Result.' + _n])

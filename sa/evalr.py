"""Random interpretation of value graphs (Gulwani & Necula): the graph -- not the program -- is
interpreted over the field the crate works in, input symbols being random functions of their
indices and the size parameters being taken from a sample.  Used to decide equality of two values
(Schwartz-Zippel): one different evaluation proves two graphs different."""
import hashlib
from .vdg import *
from . import vdg


class Undecided(Exception):
    pass


class Dead(Exception):
    """a value that exists only on a panicking / infeasible path"""


def H(*xs):
    return int.from_bytes(hashlib.sha256(repr(xs).encode()).digest(), 'big')


class LSeq(object):
    """lazily evaluated (possibly unbounded) sequence"""

    def __init__(self, n, f):
        self.n = n
        self.f = f

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        if isinstance(i, slice):
            lo, hi, _ = i.indices(self.n)
            if hi - lo > 4096:
                f = self.f
                return LSeq(hi - lo, lambda j: f(j + lo))
            return [self.f(j) for j in range(lo, hi)]
        return self.f(i)


class SV(object):
    """evaluated struct"""
    __slots__ = ('adt', 'vi', 'fs')

    def __init__(self, adt, vi, fs):
        self.adt, self.vi, self.fs = adt, vi, tuple(fs)

    def __eq__(self, o):
        return isinstance(o, SV) and self.vi == o.vi and self.fs == o.fs

    def __hash__(self):
        return hash((self.vi, self.fs))

    def __repr__(self):
        return '%s:%d%r' % (self.adt.split('::')[-1], self.vi, self.fs)


def hz(v):
    """hashable form"""
    if isinstance(v, (list, LSeq)):
        return ('[]',) + tuple(hz(x) for x in v)
    if isinstance(v, SV):
        return ('S', v.vi) + tuple(hz(x) for x in v.fs)
    if isinstance(v, dict):
        return ('{}',) + tuple(sorted(((repr(k), hz(x)) for k, x in v.items())))
    if isinstance(v, tuple):
        return tuple(hz(x) for x in v)
    return v


def message(v):
    """canonical form of a byte string, however it was put together"""
    if isinstance(v, Tag) and v and v[0] == 'bytes' and v[1].__class__ is int:
        return v[1].to_bytes(48, 'big')
    if isinstance(v, (list, LSeq)):
        xs = list(v)
        if all(x.__class__ is int and 0 <= x < 256 for x in xs):
            return bytes(xs)
        x = xs[0]
        if isinstance(x, Tag) and x and x[0] == 'byteof' and isinstance(x[1], tuple):
            n = {'bytes': 48, 'pbytes': 97}.get(x[1][0])
            if len(xs) == n and all(y == ('byteof', x[1], i) for i, y in enumerate(xs)):
                return x[1]
    return hz(v)


class Tag(tuple):
    """an uninterpreted, injective image of other values (bytes of a point, ...)"""


class Sample(object):
    def __init__(self, seed=0, ints=None, over=None, maxiter=200000, rseed=0):
        self.seed = seed
        self.rseed = rseed
        self.ints = dict(ints or {})
        self.over = dict(over or {})   # symbol name -> value or function(*idx)
        self.maxiter = maxiter
        self.scopes = [({}, None)]
        self.level = {}
        self.vals = {}
        self.iters = 0
        self.chalb = {}     # sizes of the challenges drawn as plain bytes

    # -------------------------------------------------------------- symbols
    def symbol(self, name, sort, idx):
        if name in self.over:
            o = self.over[name]
            return o(*idx) if callable(o) else o
        if sort == 'F':
            return H('F', self.seed, name, tuple(hz(i) for i in idx)) % P
        if sort == 'I':
            if name in self.ints:
                v = self.ints[name]
                return v(*idx) if callable(v) else v
            return H('I', self.seed, name, tuple(idx)) % 4
        if sort == 'B':
            if name in self.ints:
                return bool(self.ints[name])
            return bool(H('B', self.seed, name, tuple(idx)) & 1)
        return Tag((sort, name) + tuple(hz(i) for i in idx))

    # -------------------------------------------------------------- evaluation
    def bind(self, names, values):
        self.scopes.append(({}, names))
        lv = len(self.scopes) - 1
        old = []
        for n, v in zip(names, values):
            old.append((n, self.level.get(n), self.vals.get(n)))
            self.level[n] = lv
            self.vals[n] = v
        return old

    def unbind(self, old):
        self.scopes.pop()
        for n, l, v in old:
            if l is None:
                self.level.pop(n, None)
                self.vals.pop(n, None)
            else:
                self.level[n] = l
                self.vals[n] = v

    def ev(self, t):
        lv = 0
        for x in t.fv:
            l = self.level.get(x)
            if l is None:
                raise Undecided('unbound ' + x)
            if l > lv:
                lv = l
        memo = self.scopes[lv][0]
        r = memo.get(t.id, memo)
        if r is memo:
            if lv < len(self.scopes) - 1 and False:
                pass
            r = self._ev(t)
            memo[t.id] = r
        if r.__class__ is Dead:
            raise r
        return r

    def _ev(self, t):
        f = getattr(self, 'e_' + t.op, None)
        if f is None:
            raise Undecided('no interpretation of ' + t.op)
        return f(*t.a)

    # constants
    def e_i(self, n): return n
    def e_fc(self, n): return n
    def e_b(self, n): return n
    def e_by(self, n): return n
    def e_s(self, n): return n
    def e_var(self, n): return self.vals[n]
    def e_top(self, why): raise Undecided(why)
    def e_dead(self): raise Dead()

    def e_sym(self, name, sort, *idx):
        return self.symbol(name, sort, tuple(self.ev(i) for i in idx))

    def e_rand(self, k, *idx):
        if 'RAND' in self.over:
            return self.over['RAND'](hz(self.ev(k)), tuple(hz(self.ev(i)) for i in idx)) % P
        return H('rand', self.seed, self.rseed, hz(self.ev(k)), tuple(hz(self.ev(i)) for i in idx)) % P

    def e_irand(self, k, bits, *idx):
        return self.e_rand(k, *idx) % (1 << bits)

    def e_drand(self, seed, k):
        """the k-th value of a generator that is a function of its seed"""
        return H('drand', hz(self.ev(seed)), self.int(k)) % P

    def e_idrand(self, d, bits, *idx):
        return H('idrand', self.ev(d), tuple(hz(self.ev(i)) for i in idx)) % (1 << bits)

    def e_coarse(self, x):
        """a seed of 64 bits: random or not, it can be searched for"""
        S = Sample(self.seed, self.ints, {k: v for k, v in self.over.items() if k != 'RAND'})
        S.scopes, S.level, S.vals = [({}, x[1]) for x in self.scopes], dict(self.level), dict(self.vals)
        return Tag(('coarse', hz(S.ev(x))))

    # ints
    def e_lin(self, c, cs, *xs):
        return c + sum(k * self.int(x) for k, x in zip(cs, xs))

    def int(self, t):
        v = self.ev(t)
        if v.__class__ is bool:
            return int(v)
        if v.__class__ is not int:
            raise Undecided('not an integer: %r' % (t.op,))
        return v

    def e_npow2(self, a):
        a = self.int(a)
        return 1 if a <= 1 else 1 << (a - 1).bit_length()

    def e_ispow2(self, a):
        a = self.int(a)
        return a > 0 and a & (a - 1) == 0

    def e_tz(self, a, bits=64):
        a = self.int(a)
        return bits if a == 0 else (a & -a).bit_length() - 1

    def e_lz(self, a, bits):
        return bits - self.int(a).bit_length()

    def e_b2i(self, a):
        return int(self.ev(a))

    def e_wrap(self, a, bits):
        return self.int(a) % (1 << bits)

    def e_swrap(self, a, bits):
        m = self.int(a) % (1 << bits)
        return m - (1 << bits) if m >> (bits - 1) else m

    # bools
    def e_lt(self, a, b): return self.int(a) < self.int(b)
    def e_ieq(self, a, b): return self.int(a) == self.int(b)
    def e_not(self, a): return not self.ev(a)

    def e_and(self, a, b):
        return bool(self.ev(a)) and bool(self.ev(b))

    eqs = None

    def e_eq(self, a, b):
        x, y = hz(self.ev(a)), hz(self.ev(b))
        if self.eqs is not None and x.__class__ is int and y.__class__ is int:
            for k in range(24):                    # record what is compared, the first times it is
                if (a.id, b.id, k) not in self.eqs:
                    self.eqs[a.id, b.id, k] = (x - y) % P
                    break
        return x == y

    def e_ite(self, c, a, b):
        return self.ev(a) if self.ev(c) else self.ev(b)

    # data
    def e_struct(self, adt, vi, *fs):
        return SV(adt, vi, [self.ev(x) for x in fs])

    def e_fld(self, t, vi, i):
        v = self.ev(t)
        if not isinstance(v, SV):
            raise Undecided('field of %r' % (v,))
        if (vi is not None and v.vi != vi) or i >= len(v.fs):
            raise Dead()
        return v.fs[i]

    def e_setf(self, t, vi, i, x):
        v = self.ev(t)
        fs = list(v.fs)
        fs[i] = self.ev(x)
        return SV(v.adt, v.vi, fs)

    def e_isv(self, t, vi):
        v = self.ev(t)
        if not isinstance(v, SV):
            raise Undecided('variant of %r' % (v,))
        return v.vi == vi

    # field
    def fe(self, t):
        v = self.ev(t)
        if v.__class__ is not int:
            raise Undecided('not a field element: %r' % (v,))
        return v

    def e_fadd(self, a, b): return (self.fe(a) + self.fe(b)) % P
    def e_fneg(self, a): return -self.fe(a) % P
    def e_fmul(self, a, b): return self.fe(a) * self.fe(b) % P

    def e_finv(self, a):
        return pow(self.fe(a), P - 2, P)

    def e_fpow(self, a, n):
        return pow(self.fe(a), self.int(n), P)

    def e_i2f(self, n): return self.int(n) % P
    def e_i2fx(self, n):
        v = self.int(n)
        if 0 <= v < (1 << vdg.LIMB):
            return v
        return int.from_bytes(hashlib.sha512(b'limb%d' % v).digest(), 'big') % P      # not that number

    def e_f2i(self, n): return self.fe(n)

    def e_fsum(self, s):
        return sum(self.ev(s)) % P

    def e_fdot(self, a, b):
        x, y = self.ev(a), self.ev(b)
        return sum(p * q for p, q in zip(x, y)) % P

    def e_fprod(self, s):
        r = 1
        for x in self.ev(s):
            r = r * x % P
        return r

    # bytes
    def e_fbytes(self, x):
        return Tag(('bytes', hz(self.ev(x))))

    def e_pbytes(self, x):
        """uncompressed encoding of a point: opaque bytes"""
        return Tag(('pbytes', hz(self.ev(x))))

    def e_ofbytes(self, x):
        v = self.ev(x)
        if isinstance(v, Tag) and v[0] == 'bytes':
            return v[1]
        if isinstance(v, list) and len(v) == 48 and all(b.__class__ is int for b in v):
            return int.from_bytes(bytes(v), 'big') % P
        return H('frombytes', hz(v)) % P

    def e_shakeb(self, m, n):
        """an extendable-output hash: longer outputs continue shorter ones"""
        m, n = hz(self.ev(m)), self.int(n)
        return list(b''.join((H('shake', m, j) % (1 << 256)).to_bytes(32, 'big') for j in range(n // 32 + 1))[:n])

    def e_tag(self, name, *xs):
        return Tag((name,) + tuple(hz(self.ev(x)) for x in xs))

    def e_ufF(self, name, *xs):
        return H('uf', name, tuple(hz(self.ev(x)) for x in xs)) % P

    def e_tostr(self, x):
        v = self.ev(x)
        if isinstance(v, str):
            return v
        return str(v) if v.__class__ is int else Tag(('str', hz(v)))

    def text(self, t):
        v = self.ev(t)
        if not isinstance(v, str):
            raise Undecided('text that is not known')
        return v

    def e_strlen(self, a):
        v = self.ev(a)
        return len(v.encode()) if isinstance(v, str) else H('strlen', hz(v)) % 2 ** 16

    def e_strslice(self, a, lo, hi):
        h = self.ev(hi)
        v = self.text(a)
        return v[self.int(lo):h.fs[0] if h.vi == 1 else len(v)]

    def e_strfn(self, a, f):
        a = self.ev(a)
        if a.__class__ is not str:
            raise Undecided('text')
        return {'to_lowercase': a.lower, 'to_ascii_lowercase': a.lower, 'to_uppercase': a.upper, 'to_ascii_uppercase': a.upper,
                'trim': a.strip, 'trim_start': a.lstrip, 'trim_end': a.rstrip}[f]()

    def e_strtrim(self, a, w):
        v, w = self.text(a), self.text(w)
        while w and v.startswith(w):
            v = v[len(w):]
        return v

    def e_strstarts(self, a, w):
        return self.text(a).startswith(self.text(w))

    def e_fmtstr(self, a):
        return self.ev(a)

    def e_display(self, a):
        return self.ev(a)

    def e_strrep(self, v, r, w):
        s, r, w = self.text(v), self.ev(r), self.text(w)
        n = r.adt.split('::')[-1]
        lo = r.fs[0] if n in ('Range', 'RangeFrom', 'RangeInclusive') else 0
        hi = {'Range': lambda: r.fs[1], 'RangeInclusive': lambda: r.fs[1] + 1, 'RangeTo': lambda: r.fs[0],
              'RangeToInclusive': lambda: r.fs[0] + 1}.get(n, lambda: len(s))()
        return s[:lo] + w + s[hi:]

    def e_strcat(self, a, b):
        x, y = self.ev(a), self.ev(b)
        if isinstance(x, str) and isinstance(y, str):
            return x + y
        return Tag(('strcat', hz(x), hz(y)))

    def e_strbytes(self, a):
        v = self.ev(a)
        return v.encode() if isinstance(v, str) else Tag(('strbytes', hz(v)))

    def e_lebytes(self, a, n):
        return self.int(a).to_bytes(n, 'little')

    def e_hexf(self, a):
        v = self.ev(a)
        if isinstance(v, str):
            return int(v, 16) % P
        raise Undecided('hex of a non-literal')

    # sequences
    def seq(self, t):
        v = self.ev(t)
        if isinstance(v, bytes):
            return list(v)
        if isinstance(v, Tag) and v and v[0] == 'bytes':
            if v[1].__class__ is int:
                return list(v[1].to_bytes(48, 'big'))
            return LSeq(48, lambda i: Tag(('byteof', v, i)))
        if isinstance(v, Tag) and v and v[0] == 'pbytes':
            return LSeq(97, lambda i: Tag(('byteof', v, i)))
        if not isinstance(v, (list, LSeq)):
            raise Undecided('not a sequence: %r' % (v,))
        return v

    def e_lit(self, *xs):
        return [self.ev(x) for x in xs]

    def e_comp(self, iv, n, body):
        k = self.int(n)
        if k < 0:
            k = 0
        if k > 1 << 20:
            # unbounded (iter::repeat): the body may not use outer scopes lazily, so fix them now
            if iv in body.fv:
                snap = [(m, self.vals[m]) for m in body.fv if m != iv]

                def f(j):
                    old = self.bind([m for m, _ in snap] + [iv], [x for _, x in snap] + [j])
                    try:
                        return self.ev(body)
                    finally:
                        self.unbind(old)
                return LSeq(k, f)
            v = self.ev(body)
            return LSeq(k, lambda j: v)
        out = []
        for j in range(k):
            self.tick()
            old = self.bind((iv,), (j,))
            try:
                out.append(self.ev(body))
            finally:
                self.unbind(old)
        return out

    def tick(self):
        self.iters += 1
        if self.iters > 20000000:
            raise Undecided('evaluation budget exhausted')

    def e_len(self, s):
        v = self.ev(s)
        if isinstance(v, dict):
            return len(v)
        return len(self.seq(s))

    def e_get(self, s, i):
        v = self.seq(s)
        k = self.int(i)
        if k < 0 or k >= len(v):
            raise Dead()
        return v[k]

    def e_cat(self, a, b):
        x, y = self.seq(a), self.seq(b)
        if isinstance(y, LSeq) or isinstance(x, LSeq):
            n = len(x)
            return LSeq(n + len(y), lambda j: x[j] if j < n else y[j - n])
        return x + y

    def e_slice(self, s, lo, hi):
        v = self.seq(s)
        l, h = self.int(lo), self.int(hi)
        if l < 0 or h < l or h > len(v):
            raise Dead()
        return v[l:h]

    def e_upd(self, s, i, x):
        v = self.seq(s)
        k = self.int(i)
        if k < 0 or k >= len(v):
            raise Dead()
        v = list(v)
        v[k] = self.ev(x)
        return v

    def e_rev(self, s):
        return list(self.seq(s))[::-1]

    def e_concatall(self, s):
        out = []
        for x in self.seq(s):
            if isinstance(x, SV) and x.adt == OPT:
                out.extend(x.fs)
            elif isinstance(x, (list, LSeq, bytes)):
                out.extend(x)
            else:
                raise Undecided('flattening of something other than sequences')
        return out

    def e_filtsel(self, s, m):
        """elements of s whose flag in m is set"""
        return [x for x, f in zip(self.seq(s), self.seq(m)) if f]

    def e_somes(self, s):
        return [x.fs[0] for x in self.seq(s) if x.vi == 1]

    # maps
    def e_mnew(self): return {}

    def e_mput(self, m, k, v):
        d = dict(self.ev(m))
        kk = hz(self.ev(k))
        d[kk] = (self.ev(k), self.ev(v))
        return d

    def e_mdel(self, m, k):
        d = dict(self.ev(m))
        d.pop(hz(self.ev(k)), None)
        return d

    def e_mget(self, m, k):
        d = self.ev(m)
        kk = hz(self.ev(k))
        if kk not in d:
            return SV(OPT, 0, ())
        return SV(OPT, 1, (d[kk][1],))

    def e_mitems(self, m):
        return [SV('()', 0, (k, v)) for k, v in self.ev(m).values()]

    # transcript
    def e_tnew(self, label):
        return Tag((('new', hz(self.ev(label))),))

    def e_tapp(self, t, label, msg):
        v = self.ev(t)
        return Tag(v + (('app', hz(self.ev(label)), message(self.ev(msg))),))

    def e_tchal(self, t, label):
        v = self.ev(t)
        return Tag(v + (('chal', hz(self.ev(label))),))

    def e_chal(self, t, label):
        """label-bound challenge: a random function of the whole transcript"""
        v = self.ev(t)
        if 'CHAL' in self.over:
            return self.over['CHAL'](v, self.ev(label))
        return H('chal', v, hz(self.ev(label))) % P

    def e_chalb(self, t, label, n):
        """n bytes of challenge: a full scalar when they suffice for one"""
        n = self.int(n)
        x = self.e_chal(t, label)
        if n == 48:
            return Tag(('bytes', x))
        self.chalb[(H(x), n)] = n
        return list((H('chalb', x) % (1 << (8 * n))).to_bytes(n, 'big')) if n <= 32 else \
            list(b''.join((H('chalb', x, i) % (1 << 256)).to_bytes(32, 'big') for i in range(n // 32 + 1))[:n])

    def e_pan(self, prev, cond, site):
        p = self.ev(prev)
        if p is not None:
            return p
        try:
            return site if self.ev(cond) else None
        except Dead:
            return None

    def e_nopanic(self):
        return None

    # loops
    def e_loop(self, spec, n, cond, *rest):
        iv, phis = spec
        k = len(phis)
        cur = []
        for x in rest[:k]:
            cur.append(self.lazy(x))
        nexts = rest[k:]
        limit = None if n.op == 'struct' else self.int(n)
        names = (iv,) + phis
        j = 0
        while limit is None or j < limit:
            self.tick()
            if j > self.maxiter:
                raise Undecided('loop bound')
            old = self.bind(names, [j] + cur)
            self.lift(phis)
            try:
                if not self.ev(cond):
                    break
                nxt = []
                for x in nexts:
                    nxt.append(self.lazy(x))
            finally:
                self.unbind(old)
            cur = nxt
            j += 1
        return cur

    def lazy(self, x):
        try:
            return self.ev(x)
        except Dead as d:
            return d

    def lift(self, phis):
        pass

    def e_lout(self, loop, k):
        v = self.ev(loop)[k]
        if v.__class__ is Dead:
            raise v
        return v


for _o in ('imul', 'idiv', 'irem', 'ishl', 'ishr', 'iand', 'ior', 'ixor', 'imin', 'imax', 'ipow'):
    def _mkop(o):
        def f(self, a, b):
            r = int_op(o, self.int(a), self.int(b))
            if r is None:
                raise Dead()
            return r
        return f
    setattr(Sample, 'e_' + _o, _mkop(_o))


def _e_any(self, s):
    return any(self.seq(s))


def _e_firstidx(self, s):
    for i, x in enumerate(self.seq(s)):
        if x:
            return i
    raise Dead()


def _e_isres(self, t):
    v = self.ev(t)
    return isinstance(v, SV) and v.adt == RES


def _e_bitlen(self, t):
    return self.int(t).bit_length()


def _e_static(self, p):
    return Tag(('static', p))


Sample.e_any = _e_any
Sample.e_firstidx = _e_firstidx
Sample.e_isres = _e_isres
Sample.e_bitlen = _e_bitlen
Sample.e_static = _e_static


def _e_dedup(self, s):
    out = []
    for x in self.seq(s):
        if not out or hz(out[-1]) != hz(x):
            out.append(x)
    return out


def _e_sorted(self, s):
    xs = list(self.seq(s))
    if not all(x.__class__ is int for x in xs):
        raise Undecided('sort of something other than integers')
    return sorted(xs)


def _e_popcnt(self, a):
    return bin(self.int(a)).count('1')


def _e_strchars(self, a):
    return list(self.text(a))


def _e_strjoin(self, s):
    xs = list(self.seq(s))
    if not all(isinstance(x, str) for x in xs):
        return Tag(('strjoin',) + tuple(hz(x) for x in xs))
    return ''.join(xs)


Sample.e_dedup = _e_dedup
Sample.e_sorted = _e_sorted
Sample.e_popcnt = _e_popcnt
Sample.e_strchars = _e_strchars
Sample.e_strjoin = _e_strjoin

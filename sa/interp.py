"""Abstract interpretation of THIR into value graphs (vdg.T).

One pass over every function body reached: branches are joined (`ite`), never enumerated; loops are
abstracted to recurrences over the cells they change and solved where a closed form is known; early
exits are joined by their path condition.  Calls are resolved through the type-checked program and
analysed in their calling context.  External library functions are modelled in models.py; anything
unknown yields an explicit `top`, which makes dependent questions undecided."""
import re
from .vdg import *
from . import vdg

PANIC = '$panic'
RNG = '$rng'
UNROLL = 16


class Program(object):
    def __init__(self, d):
        self.d = d
        self.tys = d['types']
        self.bodies = {b['key']: b for b in d['bodies']}
        self.impls = d['impls']
        self.adts = d['adts']
        self.bytrait = {}
        for im in self.impls:
            if im.get('trait'):
                self.bytrait.setdefault(im['trait'], []).append(im)
        self._ty = {}

    def cn(self, x, g):
        """a constant generic argument"""
        if isinstance(x, int):
            return x
        m = re.match(r'^(\d+)(_?[ui](\d+|size))?$', x)
        if m:
            return int(m.group(1))
        if g and x in g and g[x][0] == 'const':
            return g[x][1]
        return x

    def ty(self, i, g=None):
        if i.__class__ is str:
            return ('const', self.cn(i, g))
        if not g:
            r = self._ty.get(i)
            if r is None:
                r = self._ty[i] = self._mk(i, None)
            return r
        return self._mk(i, g)

    def _mk(self, i, g):
        t = self.tys[i]
        k = t['k']
        if k == 'adt':
            return ('adt', t['p'], tuple(self.ty(x, g) for x in t['a']))
        if k == 'ref':
            return ('ref', t['m'], self.ty(t['t'], g))
        if k == 'ptr':
            return ('ptr', t['m'], self.ty(t['t'], g))
        if k == 'slice':
            return ('slice', self.ty(t['t'], g))
        if k == 'array':
            return ('array', self.ty(t['t'], g), self.cn(t['n'], g))
        if k == 'tuple':
            return ('tuple', tuple(self.ty(x, g) for x in t['ts']))
        if k == 'param':
            if g and t['n'] in g:
                return g[t['n']]
            return ('param', t['n'])
        if k == 'closure':
            return ('closure', t['p'])
        if k == 'dyn':
            return ('dyn', t['p'])
        if k == 'int':
            return ('int', t['n'])
        if k == 'fndef':
            return ('fndef', i, t['f']['key'])
        if k == 'other':
            return ('other', t['s'])
        return (k,)


def unify(pat, t, m):
    """pat may contain params; lifetimes are already erased"""
    if pat[0] == 'param':
        if pat[1] in m:
            return m[pat[1]] == t or True
        m[pat[1]] = t
        return True
    if t[0] in ('param', 'other'):
        return pat[0] == t[0] and pat == t
    if pat[0] != t[0]:
        return False
    if pat[0] == 'adt':
        return pat[1] == t[1] and len(pat[2]) == len(t[2]) and all(unify(a, b, m) for a, b in zip(pat[2], t[2]))
    if pat[0] == 'ref':
        return pat[1] == t[1] and unify(pat[2], t[2], m)
    if pat[0] in ('slice', 'ptr'):
        return unify(pat[-1], t[-1], m)
    if pat[0] == 'array':
        return unify(pat[1], t[1], m)
    if pat[0] == 'tuple':
        return len(pat[1]) == len(t[1]) and all(unify(a, b, m) for a, b in zip(pat[1], t[1]))
    return pat == t


def ety(e):
    while e['k'] == 'Scope':
        e = e['v']
    return e.get('ty')


def strip_ref(t):
    while t[0] == 'ref' or (t[0] == 'adt' and t[1] == 'alloc::boxed::Box'):
        t = t[2] if t[0] == 'ref' else t[2][0]
    return t


class State(object):
    __slots__ = ('cells', 'pc', 'facts', 'dead')

    def __init__(self, cells, pc, facts, dead=False):
        self.cells, self.pc, self.facts, self.dead = cells, pc, facts, dead

    def fork(self):
        return State(dict(self.cells), self.pc, dict(self.facts), self.dead)

    def take(self, o):
        self.cells, self.pc, self.facts, self.dead = o.cells, o.pc, o.facts, o.dead

    def assume(self, c):
        for x in conjuncts(c):
            if x.op == 'b':
                continue
            if x.op == 'not':
                self.facts[x.a[0]] = False
            else:
                self.facts[x] = True

    def simp(self, c):
        if c.op == 'b':
            return c
        v = self.facts.get(c)
        if v is not None:
            return B(v)
        if c.op == 'not':
            return not_(self.simp(c.a[0]))
        if c.op == 'and':
            return and_(self.simp(c.a[0]), self.simp(c.a[1]))
        if c.op == 'lt':
            # a < b known false/true from the opposite comparison
            v = self.facts.get(mk('lt', c.a[1], c.a[0]))
            if v is True:
                return FALSE
            v = self.facts.get(mk('ieq', *sorted(c.a, key=lambda t: t.id)))
            if v is True:
                return FALSE
        return c


class Frame(object):
    _n = 0

    def __init__(self, body, genv, depth):
        Frame._n += 1
        self.id = Frame._n
        self.body = body
        self.genv = genv
        self.exits = []
        self.up = {}
        self.depth = depth


class Place(object):
    __slots__ = ('root', 'path')

    def __init__(self, root, path=()):
        self.root, self.path = root, tuple(path)

    def sub(self, el):
        return Place(self.root, self.path + (el,))

    def ref(self):
        return mk('ref', self.root, *self.path)


def pf(vi, i):
    return mk('pf', vi, i)


def pix(i):
    return mk('pi', i)


class Loc(object):
    """what a pattern is matched against: a place, or a value"""
    __slots__ = ('pl', 'v')

    def __init__(self, pl=None, v=None):
        self.pl, self.v = pl, v


FNTRAITS = ('core::ops::function::Fn', 'core::ops::function::FnMut', 'core::ops::function::FnOnce')


class Interp(object):
    def __init__(self, prog, models):
        self.p = prog
        self.models = models
        self.pyfns = {}
        self.clos = {}
        self.maxdepth = 60
        self.stack = []
        self.unknown = {}          # construct -> count (reported in the evidence)
        self.calls_seen = {}       # function key -> number of contexts
        self.loops = {'solved': 0, 'recurrence': 0, 'unrolled': 0}
        self.overrides = {}        # fn key -> python model
        self.sites = set()
        self.errver = {}           # id of `the call failed` -> cell -> (after success, after failure)
        self.errmerged = {}
        self.effclos = set()       # closures passed to lazy adapters that change something

    # ------------------------------------------------------------------ state helpers
    def new_state(self):
        return State({PANIC: mk('nopanic'), RNG: ZERO}, TRUE, {})

    _cell = 0

    def new_cell(self, st, v, hint='tmp'):
        Interp._cell += 1
        k = '%s%d' % (hint, Interp._cell)
        st.cells[k] = v
        return Place(k)

    def note(self, what):
        self.unknown[what] = self.unknown.get(what, 0) + 1

    def top(self, why):
        self.note(why)
        return top(why)

    def site(self, e, what):
        f, l = (e.get('sp') or ['?', 0])
        return '%s:%s %s' % (f, l, what)

    def fnname(self):
        return self.stack[-1] if self.stack else '?'

    def panic_if(self, st, cond, site):
        cond = st.simp(cond)
        if cond is FALSE or st.dead:
            return
        st.cells[PANIC] = mk('pan', st.cells[PANIC], cond, site)
        st.assume(not_(cond))

    def read(self, st, root, path):
        if root not in st.cells:
            return self.top('read of an unknown cell')
        v = st.cells[root]
        return self.proj(v, path)

    def proj(self, v, path):
        for el in path:
            if el.op == 'pf':
                v = fld(v, el.a[0], el.a[1])
            elif el.op == 'pi':
                v = get(v, el.a[0])
            elif el.op == 'ps':
                v = slc(v, el.a[0], el.a[1])
            elif el.op == 'pm':
                m = mk('mget', v, el.a[0])
                v = fld(m, 1, 0)
        return v

    def setpath(self, v, path, x):
        if not path:
            return x
        el, rest = path[0], path[1:]
        if el.op == 'pf':
            return setf(v, el.a[0], el.a[1], self.setpath(fld(v, el.a[0], el.a[1]), rest, x))
        if el.op == 'pi':
            return upd(v, el.a[0], self.setpath(get(v, el.a[0]), rest, x))
        if el.op == 'ps':
            lo, hi = el.a
            inner = self.setpath(slc(v, lo, hi), rest, x)
            return cat(cat(slc(v, ZERO, lo), inner), slc(v, hi, slen(v)))
        if el.op == 'pm':
            return mk('mput', v, el.a[0], self.setpath(fld(mk('mget', v, el.a[0]), 1, 0), rest, x))
        return self.top('setpath')

    def write(self, st, pl, x):
        if st.dead:
            return
        if pl.root not in st.cells:
            st.cells[pl.root] = self.top('write to an unknown cell')
            return
        st.cells[pl.root] = self.setpath(st.cells[pl.root], pl.path, x)

    def rread(self, st, r):
        """read through a (possibly joined) reference value"""
        if r.op == 'ref':
            return self.read(st, r.a[0], r.a[1:])
        if r.op == 'ite' and self.has_ref(r):
            return ite(r.a[0], self.rread(st, r.a[1]), self.rread(st, r.a[2]))
        return r

    def has_ref(self, r):
        if r.op == 'ref':
            return True
        return r.op == 'ite' and (self.has_ref(r.a[1]) or self.has_ref(r.a[2]))

    def rwrite(self, st, r, x):
        if r.op == 'ref':
            self.write(st, Place(r.a[0], r.a[1:]), x)
        elif r.op == 'ite' and self.has_ref(r):
            for side, c in ((r.a[1], r.a[0]), (r.a[2], not_(r.a[0]))):
                if side.op == 'dead':
                    continue
                before = dict(st.cells)
                self.rwrite(st, side, x)
                for k, v in st.cells.items():
                    o = before.get(k)
                    if o is not None and o is not v:
                        st.cells[k] = ite(c, v, o)
        elif r.op == 'dead':
            pass
        else:
            self.note('write through an unresolved reference')
            st.cells['$lost'] = top('write through an unresolved reference')

    def rsub(self, r, el):
        if r.op == 'ref':
            return mk('ref', *(r.a + (el,)))
        if r.op == 'ite' and self.has_ref(r):
            return ite(r.a[0], self.rsub(r.a[1], el), self.rsub(r.a[2], el))
        return self.proj(r, (el,))

    # ------------------------------------------------------------------ joins
    def branch(self, st, c, fa, fb):
        c = st.simp(c)
        if c is TRUE:
            return fa(st)
        if c is FALSE:
            return fb(st)
        a, b = st.fork(), st.fork()
        a.pc = and_(st.pc, c)
        a.assume(c)
        b.pc = and_(st.pc, not_(c))
        b.assume(not_(c))
        if self.errver:
            for x in conjuncts(c):
                self.errswitch(a, x.a[0] if x.op == 'not' else x, x.op != 'not')
            n = not_(c)
            self.errswitch(a, c, True)
            self.errswitch(a, n, False)
            for x in conjuncts(n):
                self.errswitch(b, x.a[0] if x.op == 'not' else x, x.op != 'not')
            self.errswitch(b, c, False)
            self.errswitch(b, n, True)
        pa, pb = a.pc, b.pc
        va = fa(a)
        vb = fb(b)
        return self.join(st, c, a, va, pa, b, vb, pb)

    def join(self, st, c, a, va, pa, b, vb, pb):
        if a.dead or b.dead:
            if a.dead and b.dead:
                pan = ite(c, a.cells[PANIC], b.cells[PANIC])
                d = 'panic' if 'panic' in (a.dead, b.dead) else True
                st.take(a if a.dead == 'panic' else b)
                st.cells[PANIC] = pan
                st.dead = d
                return mk('dead')
            live, dead, v = (b, a, vb) if a.dead else (a, b, va)
            pan = live.cells[PANIC]
            if dead.dead == 'panic':
                pan = ite(c, a.cells[PANIC], b.cells[PANIC])
            pc, facts = live.pc, live.facts
            st.take(live)
            st.cells[PANIC] = pan
            return v
        cells = {}
        ca, cb = a.cells, b.cells
        for k, x in ca.items():
            y = cb.get(k)
            if y is None:
                continue
            cells[k] = x if x is y else ite(c, x, y)
        st.cells = cells
        if a.pc is pa and b.pc is pb:
            pass
        else:
            st.pc = or_(a.pc, b.pc)
        fb = b.facts
        st.facts = {k: v for k, v in a.facts.items() if fb.get(k) is v}
        return va if va is vb else ite(c, va, vb)

    def merge_alts(self, st, alts):
        """alts: [(pc, value, cells)] mutually exclusive; the last is the default"""
        pc, v, cells = alts[-1]
        cells = dict(cells)
        for (pc, x, cs) in reversed(alts[:-1]):
            v = x if x is v else ite(pc, x, v)
            for k in list(cells):
                y = cs.get(k)
                if y is None:
                    del cells[k]
                elif y is not cells[k]:
                    cells[k] = ite(pc, y, cells[k])
        st.cells = cells
        return v

    def errstate(self, st, base, errs, val):
        d = {}
        for k in base:
            if k == PANIC or k not in st.cells:
                continue
            ev = errs[0][2].get(k)
            for pc, _x, c in errs[1:]:
                y = c.get(k)
                if ev is None or y is None:
                    ev = None
                elif y is not ev:
                    ev = ite(pc, y, ev)
            if ev is not None and ev is not st.cells[k]:
                d[k] = (st.cells[k], ev)
        if d:
            self.errver[isv(val, 1).id] = d

    def errswitch(self, s, c, err):
        """the state where a call is known to have failed (or to have succeeded)"""
        d = self.errver.get(c.id)
        if d is None:
            return
        merged = self.errmerged.get(c.id, {})
        for k, (okv, ev) in d.items():
            v = s.cells.get(k)
            if v is okv or (v is not None and v is merged.get(k)):
                s.cells[k] = ev if err else okv

    def settle(self, st, v):
        """nobody is going to ask whether the call failed: both states are possible"""
        if v.op != 'ite' or st.dead:
            return
        c = isv(v, 1)
        d = self.errver.get(c.id)
        if d is None:
            return
        self.branch(st, c, lambda s: UNIT, lambda s: UNIT)
        if not st.dead:
            m = self.errmerged.setdefault(c.id, {})
            for k in d:
                if k in st.cells:
                    m[k] = st.cells[k]

    # ------------------------------------------------------------------ functions
    def body_of(self, key):
        return self.p.bodies.get(key)

    def call_key(self, st, key, args, genv=None, up=None):
        b = self.p.bodies.get(key)
        if b is None:
            return self.top('no body: ' + key)
        return self.call_body(st, b, args, genv or {}, up)

    def call_body(self, st, b, args, genv, up=None):
        if st.dead:
            return mk('dead')
        key = b['key']
        deep = self.stack.count(key)
        if len(self.stack) > self.maxdepth or deep > 24 or (deep > 3 and not any(self.concrete(a) for a in args)):
            for a in args:
                if self.has_ref(a):
                    self.rwrite(st, a, top('recursion'))
            return self.top('call depth: ' + key)
        self.calls_seen[key] = self.calls_seen.get(key, 0) + 1
        fr = Frame(b, genv, len(self.stack))
        if up:
            fr.up = up
        pc0, facts0 = st.pc, st.facts
        base = st.cells
        st.cells = dict(base)
        st.pc = TRUE
        st.facts = dict(facts0)
        self.stack.append(key)
        try:
            ps = b['params']
            if b['kind'] == 'Closure' and len(ps) == len(args) + 1:
                ps = ps[1:]
            if len(ps) != len(args):
                return self.top('arity of ' + key)
            for p, a in zip(ps, args):
                if p['p'] is not None:
                    self.bind(st, fr, p['p'], Loc(v=a))
            v = self.ev(b['body'], st, fr)
        finally:
            self.stack.pop()
        alts = []
        errs = []
        for tgt, pc, x, cells, _f in fr.exits:
            if tgt != 'ret':
                self.note('exit to an unknown target')
                continue
            (errs if (x.op == 'struct' and x.a[0] == RES and x.a[1] == 1) else alts).append((pc, x, cells))
        fellthrough = not st.dead
        if fellthrough:
            alts.append((st.pc, v, st.cells))
        pan = None
        if st.dead == 'panic':
            pan = st.cells[PANIC]
        if not alts and not errs:
            st.pc, st.facts = pc0, facts0
            st.dead = 'panic'
            return mk('dead')
        # the stores of error exits are kept aside (see errswitch), so that the state after the usual
        # `?` is that of a success; the panic flag is merged
        panics = [(pc, c[PANIC]) for pc, _, c in errs + alts]
        if alts:
            val = self.merge_alts(st, alts)
            for pc, x, c in errs:
                val = ite(pc, x, val)
            if errs:
                self.errstate(st, base, errs, val)
        else:
            val = self.merge_alts(st, errs)
        p = panics[-1][1]
        for pc, x in reversed(panics[:-1]):
            p = ite(pc, x, p)
        if pan is not None:
            live = FALSE
            for pc, _, _c in errs + alts:
                live = or_(live, pc)
            p = ite(live, p, pan)
        st.cells[PANIC] = p
        fid = fr.id
        for k in [k for k in st.cells if k.__class__ is tuple and k[0] == fid]:
            pass
        st.dead = False
        facts = facts0
        if len(alts) == 1 and not errs:
            facts = alts and (st.facts if fellthrough else fr.exits[-1][4])
        elif len(alts) == 1 and fellthrough:
            facts = facts0
        st.pc, st.facts = pc0, dict(facts)
        return val

    def concrete(self, a):
        """an argument a recursion can be counted down on"""
        return a.op == 'i' or a.op == 'lit' or (a.op == 'slice' and slen(a).op == 'i')

    def call_closure(self, st, f, args):
        """call a closure / function value"""
        f = self.rread(st, f)
        if f.op == 'pyfn':
            return self.pyfns[f.a[0]](self, st, args)
        if f.op == 'clo':
            key, cid = f.a[0], f.a[1]
            genv, caps = self.clos[cid]
            b = self.p.bodies.get(key)
            if b is None:
                return self.top('closure body missing')
            up = {}
            for name, val in zip(caps, f.a[2:]):
                up[name] = val
            return self.call_body(st, b, args, genv, up)
        if f.op == 'fnitem':
            ti, genv = self.clos[f.a[0]]
            fr = self.p.tys[ti]['f']
            return self.call_fnref(st, None, fr, None, args, genv, [None] * len(args), None)
        if f.op == 'ite':
            return self.branch(st, f.a[0], lambda s: self.call_closure(s, f.a[1], args),
                               lambda s: self.call_closure(s, f.a[2], args))
        for a in args:
            if self.has_ref(a):
                self.rwrite(st, a, top('unknown callback'))
        return self.top('call of an unknown function value (%s)' % f.op)

    # ------------------------------------------------------------------ patterns
    def lval(self, st, loc):
        if loc.pl is not None:
            return self.read(st, loc.pl.root, loc.pl.path)
        return loc.v

    def lsub(self, loc, el):
        if loc.pl is not None:
            return Loc(pl=loc.pl.sub(el))
        return Loc(v=self.proj(loc.v, (el,)))

    def lderef(self, st, loc, ty):
        """ty: type of the reference"""
        v = self.lval(st, loc)
        if v.op == 'ref':
            return Loc(pl=Place(v.a[0], v.a[1:]))
        if self.has_ref(v):
            return Loc(v=v)   # joined reference; handled on use
        return loc if loc.pl is None else Loc(v=v) if ty[0] == 'ref' and ty[1] else loc

    def pcond(self, st, fr, p, loc):
        k = p['k']
        if k == 'Wild':
            return TRUE
        if k == 'Bind':
            return self.pcond(st, fr, p['sub'], loc) if p.get('sub') else TRUE
        if k == 'Deref':
            return self.pcond(st, fr, p['sub'], self.lderef(st, loc, self.p.ty(p['ty'], fr.genv)))
        if k == 'Variant':
            v = self.lval(st, loc)
            if self.has_ref(v):
                v = self.rread(st, v)
            c = isv(v, p['vi'])
            for i, sp in p['fs']:
                c = and_(c, self.pcond(st, fr, sp, self.lsub(loc, pf(p['vi'], i))))
            return c
        if k == 'Leaf':
            c = TRUE
            for i, sp in p['fs']:
                c = and_(c, self.pcond(st, fr, sp, self.lsub(loc, pf(None, i))))
            return c
        if k == 'Const':
            v = self.lval(st, loc)
            if 'int' in p and p['int'] is not None:
                return ieq(v, I(int(p['int'])))
            if p.get('bool') is not None:
                return v if p['bool'] else not_(v)
            return self.top('constant pattern')
        if k == 'Or':
            c = FALSE
            for q in p['ps']:
                c = or_(c, self.pcond(st, fr, q, loc))
            return c
        if k == 'Slice':
            v = self.lval(st, loc)
            n = len(p['pre']) + len(p['suf'])
            c = not_(lt(slen(v), I(n))) if p.get('mid') else ieq(slen(v), I(n))
            for j, q in enumerate(p['pre']):
                c = and_(c, self.pcond(st, fr, q, self.lsub(loc, pix(I(j)))))
            for j, q in enumerate(p['suf']):
                c = and_(c, self.pcond(st, fr, q, self.lsub(loc, pix(isub(slen(v), I(len(p['suf']) - j))))))
            return c
        if k == 'Range':
            m = re.match(r"^(-?\d+)?(?:_?[ui](?:\d+|size))?\.\.(=?)(-?\d+)?(?:_?[ui](?:\d+|size))?$", p.get('txt', ''))
            if not m or not (m.group(1) or m.group(3)):
                return self.top('range pattern')
            v = self.lval(st, loc)
            if self.has_ref(v):
                v = self.rread(st, v)
            c = TRUE
            if m.group(1):
                c = and_(c, not_(lt(v, I(int(m.group(1))))))
            if m.group(3):
                hi = I(int(m.group(3)))
                c = and_(c, not_(lt(hi, v)) if m.group(2) else lt(v, hi))
            return c
        return self.top('pattern ' + k)

    def bind(self, st, fr, p, loc):
        k = p['k']
        if k == 'Bind':
            v = self.lval(st, loc)
            if p['by'] == 'mut':
                if loc.pl is not None:
                    v = loc.pl.ref()
                elif self.has_ref(loc.v):
                    v = loc.v
                else:
                    v = self.new_cell(st, v).ref()
            st.cells[(fr.id, p['v'])] = v
            if p.get('sub'):
                self.bind(st, fr, p['sub'], loc)
        elif k == 'Deref':
            self.bind(st, fr, p['sub'], self.lderef(st, loc, self.p.ty(p['ty'], fr.genv)))
        elif k == 'Variant':
            for i, sp in p['fs']:
                self.bind(st, fr, sp, self.jsub(st, loc, pf(p['vi'], i)))
        elif k == 'Leaf':
            for i, sp in p['fs']:
                self.bind(st, fr, sp, self.jsub(st, loc, pf(None, i)))
        elif k == 'Or':
            # bind from the first alternative whose condition holds
            names = {}
            alts = [(self.pcond(st, fr, q, loc), q) for q in p['ps']]
            for c, q in reversed(alts):
                s2 = st.fork()
                self.bind(s2, fr, q, loc)
                for kk, v in s2.cells.items():
                    if kk not in st.cells or s2.cells[kk] is not st.cells[kk]:
                        names[kk] = ite(c, v, names[kk]) if kk in names else v
            st.cells.update(names)
        elif k == 'Slice':
            v = self.lval(st, loc)
            for j, q in enumerate(p['pre']):
                self.bind(st, fr, q, self.lsub(loc, pix(I(j))))
            if p.get('mid'):
                self.bind(st, fr, p['mid'], self.lsub(loc, mk('ps', I(len(p['pre'])), isub(slen(v), I(len(p['suf']))))))
            for j, q in enumerate(p['suf']):
                self.bind(st, fr, q, self.lsub(loc, pix(isub(slen(v), I(len(p['suf']) - j)))))

    def jsub(self, st, loc, el):
        if loc.pl is None and self.has_ref(loc.v):
            return Loc(v=self.rsub(loc.v, el))
        return self.lsub(loc, el)

    # ------------------------------------------------------------------ places
    def place(self, e, st, fr):
        """a Place, or None and a reference value for joined references"""
        k = e['k']
        if k == 'Scope':
            return self.place(e['v'], st, fr)
        if k == 'Var':
            key = (fr.id, e['v'])
            if key not in st.cells and e['v'] in fr.up:
                return self.upplace(e, st, fr)
            return Place(key)
        if k == 'Upvar':
            return self.upplace(e, st, fr)
        if k == 'Field':
            b = self.place(e['v'], st, fr)
            t = strip_ref(self.p.ty(ety(e['v']), fr.genv))
            vi = e['vi'] if self.is_enum(t) else None
            if t[0] == 'adt' and t[1].split('::')[-1] == 'BIG' and t[1].split('::')[0] != 'bulletproofs_amcl' and e['i'] == 0:
                # the limbs of a big number (read only): 7 of 58 bits on the default curve
                v = self.rread(st, b) if isinstance(b, T) else self.read(st, b.root, b.path)
                return self.new_cell(st, mkcomp(I(7), lambda i: iop('irem', iop('ishr', v, imul(I(58), i)), I(1 << 58))))
            if isinstance(b, T):
                return self.rsub(b, pf(vi, e['i']))
            return b.sub(pf(vi, e['i']))
        if k == 'Deref':
            v = self.ev(e['v'], st, fr)
            if v.op == 'ref':
                return Place(v.a[0], v.a[1:])
            if self.has_ref(v):
                return v
            # a shared reference or a box: its value is the pointee
            t = self.p.ty(ety(e['v']), fr.genv)
            if t[0] == 'adt' and t[1] == 'alloc::boxed::Box':
                return self.place(e['v'], st, fr)
            return self.new_cell(st, v)
        if k == 'Index':
            b = self.place(e['v'], st, fr)
            i = self.ev(e['i'], st, fr)
            bv = self.rread(st, b) if isinstance(b, T) else self.read(st, b.root, b.path)
            self.oob(st, i, bv, self.site(e, 'index out of bounds'))
            if isinstance(b, T):
                return self.rsub(b, pix(i))
            return b.sub(pix(i))
        v = self.ev(e, st, fr)
        return self.new_cell(st, v)

    def upplace(self, e, st, fr):
        v = fr.up.get(e['v'])
        if v is None:
            return self.new_cell(st, self.top('unknown upvar'))
        if v.op == 'upref':
            r = v.a[0]
            if r.op == 'ref':
                return Place(r.a[0], r.a[1:])
            return r
        key = (fr.id, e['v'])
        if key not in st.cells:
            st.cells[key] = v
        return Place(key)

    def oob(self, st, i, seq, site):
        self.panic_if(st, not_(and_(not_(lt(i, ZERO)), lt(i, slen(seq)))), site)

    def is_enum(self, t):
        if t[0] != 'adt':
            return False
        a = self.p.adts.get(t[1])
        if a:
            return a['enum']
        return t[1] in (OPT, RES, 'core::ops::control_flow::ControlFlow')

    # ------------------------------------------------------------------ expressions
    def ev(self, e, st, fr):
        if st.dead:
            return mk('dead')
        f = getattr(self, 'x_' + e['k'], None)
        if f is None:
            return self.top('expression kind ' + e['k'])
        return f(e, st, fr)

    def x_Scope(self, e, st, fr):
        v = e['v']
        if v['k'] == 'Loop':
            return self.do_loop(e['id'], v, st, fr)
        if v['k'] == 'Block' and v['b'].get('brk'):
            return self.brk_block(e['id'], v, st, fr)
        return self.ev(v, st, fr)

    def brk_block(self, sid, e, st, fr):
        mark = len(fr.exits)
        v = self.x_Block(e, st, fr)
        mine, rest = [], []
        for x in fr.exits[mark:]:
            (mine if x[0] == ('brk', sid) else rest).append(x)
        fr.exits[mark:] = rest
        if not mine:
            return v
        alts = [(pc, x, c) for _, pc, x, c, _f in mine]
        pcs = FALSE
        for a in alts:
            pcs = or_(pcs, a[0])
        if not st.dead:
            alts.append((st.pc, v, st.cells))
            pcs = or_(pcs, st.pc)
        st.dead = False
        st.pc = pcs
        return self.merge_alts(st, alts)

    def x_Block(self, e, st, fr):
        b = e['b']
        for s in b['s']:
            if st.dead:
                return mk('dead')
            if s['k'] == 'E':
                v = self.ev(s['e'], st, fr)
                if v is not None and self.errver:
                    self.settle(st, v)
            else:
                self.let(s, st, fr)
        if st.dead:
            return mk('dead')
        if b.get('e') is not None:
            return self.ev(b['e'], st, fr)
        return UNIT

    def let(self, s, st, fr):
        if 'i' not in s or s['i'] is None:
            self.decl(s['p'], st, fr)
            return
        loc = self.scrut(s['i'], st, fr)
        if st.dead:
            return
        if s.get('else'):
            c = self.pcond(st, fr, s['p'], loc)
            self.branch(st, c, lambda a: self.bind(a, fr, s['p'], loc) or UNIT,
                        lambda b: self.x_Block({'b': s['else']}, b, fr))
            # bindings made in the surviving branch are kept by join (the other side is dead)
            return
        self.bind(st, fr, s['p'], loc)
        if s['p']['k'] == 'Wild' and loc.v is not None and self.errver:
            self.settle(st, loc.v)

    def decl(self, p, st, fr):
        if p['k'] == 'Bind':
            st.cells[(fr.id, p['v'])] = mk('dead')

    PLACEK = ('Var', 'Upvar', 'Field', 'Deref', 'Index')

    def scrut(self, e, st, fr):
        x = e
        while x['k'] == 'Scope':
            x = x['v']
        if x['k'] in self.PLACEK:
            pl = self.place(x, st, fr)
            if isinstance(pl, T):
                return Loc(v=pl)
            return Loc(pl=pl)
        return Loc(v=self.ev(e, st, fr))

    def x_Var(self, e, st, fr):
        v = st.cells.get((fr.id, e['v']))
        if v is None:
            if e['v'] in fr.up:
                return self.x_Upvar(e, st, fr)
            return self.top('unbound variable')
        return v

    def x_Upvar(self, e, st, fr):
        pl = self.upplace(e, st, fr)
        if isinstance(pl, T):
            return self.rread(st, pl)
        return self.read(st, pl.root, pl.path)

    def rvalue_place(self, e, st, fr):
        pl = self.place(e, st, fr)
        if isinstance(pl, T):
            return self.rread(st, pl)
        return self.read(st, pl.root, pl.path)

    def x_Field(self, e, st, fr):
        return self.rvalue_place(e, st, fr)

    def x_Index(self, e, st, fr):
        return self.rvalue_place(e, st, fr)

    def x_Deref(self, e, st, fr):
        v = self.ev(e['v'], st, fr)
        t = self.p.ty(ety(e['v']), fr.genv)
        if t[0] == 'ref' and not t[1]:
            # shared references are transparent, but one to a &mut still yields that &mut
            inner = t[2]
            if inner[0] == 'ref' and inner[1]:
                return v
            return self.rread(st, v) if self.has_ref(v) else v
        return self.rread(st, v)

    def x_Borrow(self, e, st, fr):
        if e['m']:
            pl = self.place(e['v'], st, fr)
            if st.dead:
                return mk('dead')
            if isinstance(pl, T):
                return pl
            return pl.ref()
        return self.ev(e['v'], st, fr)

    x_RawBorrow = lambda self, e, st, fr: self.top('raw pointer')

    def x_If(self, e, st, fr):
        c = e['c']
        return self.cond(c, st, fr, lambda s: self.ev(e['t'], s, fr),
                         lambda s: self.ev(e['e'], s, fr) if e.get('e') is not None else UNIT)

    def cond(self, c, st, fr, ft, ff):
        while c['k'] == 'Scope':
            c = c['v']
        if c['k'] == 'Let':
            loc = self.scrut(c['v'], st, fr)
            if st.dead:
                return mk('dead')
            cc = self.pcond(st, fr, c['p'], loc)

            def t(s):
                self.bind(s, fr, c['p'], loc)
                return ft(s)
            return self.branch(st, cc, t, ff)
        if c['k'] == 'Logical' and c['op'] == 'And' and self.haslet(c):
            # if-let chains
            done = []
            return self.cond(c['l'], st, fr, lambda s: self.cond(c['r'], s, fr, ft, ff), ff)
        v = self.ev(c, st, fr)
        if st.dead:
            return mk('dead')
        return self.branch(st, v, ft, ff)

    def haslet(self, c):
        while c['k'] == 'Scope':
            c = c['v']
        if c['k'] == 'Let':
            return True
        return c['k'] == 'Logical' and (self.haslet(c['l']) or self.haslet(c['r']))

    def x_Let(self, e, st, fr):
        loc = self.scrut(e['v'], st, fr)
        c = self.pcond(st, fr, e['p'], loc)
        self.bind(st, fr, e['p'], loc)
        return c

    def x_Match(self, e, st, fr):
        f = self.forloop(e, st, fr)
        if f is not None:
            return f
        loc = self.scrut(e['v'], st, fr)
        if st.dead:
            return mk('dead')
        return self.arms(e['arms'], 0, loc, st, fr)

    def arms(self, arms, i, loc, st, fr):
        if i >= len(arms):
            st.dead = True
            return mk('dead')
        a = arms[i]
        c = self.pcond(st, fr, a['p'], loc)
        last = i == len(arms) - 1
        if last and not a.get('g'):
            c = TRUE

        def yes(s):
            self.bind(s, fr, a['p'], loc)
            if a.get('g'):
                return self.cond(a['g'], s, fr, lambda t: self.ev(a['b'], t, fr),
                                 lambda t: self.arms(arms, i + 1, loc, t, fr))
            return self.ev(a['b'], s, fr)
        return self.branch(st, c, yes, lambda s: self.arms(arms, i + 1, loc, s, fr))

    def x_Logical(self, e, st, fr):
        l = self.ev(e['l'], st, fr)
        if e['op'] == 'And':
            return self.branch(st, l, lambda s: self.ev(e['r'], s, fr), lambda s: FALSE)
        return self.branch(st, l, lambda s: TRUE, lambda s: self.ev(e['r'], s, fr))

    def x_Unary(self, e, st, fr):
        v = self.ev(e['v'], st, fr)
        if e['op'] == 'Not':
            t = self.p.ty(e['ty'], fr.genv)
            if t[0] == 'bool':
                return not_(v)
            if t[0] == 'int':
                return isub(I((1 << self.BITS[t[1]]) - 1) if t[1][0] == 'u' else I(-1), v)
            return self.top('bitwise not')
        return isub(ZERO, v)

    BITS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'u128': 128,
            'u4096': 4096, 'i8': 7, 'i16': 15, 'i32': 31, 'i64': 63, 'isize': 63, 'i128': 127}

    def binop(self, op, l, r, t, e, st):
        if op == 'Add':
            return iadd(l, r)
        if op == 'Sub':
            if t[0] == 'int' and t[1].startswith('u'):
                self.panic_if(st, lt(l, r), self.site(e, 'attempt to subtract with overflow'))
            return isub(l, r)
        if op == 'Mul':
            return imul(l, r)
        if op in ('Div', 'Rem'):
            self.panic_if(st, ieq(r, ZERO), self.site(e, 'division by zero'))
            k = 'idiv' if op == 'Div' else 'irem'
            if t[0] == 'int' and t[1][0] == 'i' and not (vdg.nonneg(l) and vdg.nonneg(r)):
                if l.op == 'i' and r.op == 'i' and r.a[0]:
                    q = abs(l.a[0]) // abs(r.a[0]) * (-1 if (l.a[0] < 0) != (r.a[0] < 0) else 1)
                    return I(q if op == 'Div' else l.a[0] - q * r.a[0])
                if vdg.nonneg(r):
                    n = iop(k, isub(ZERO, l), r)
                    return ite(lt(l, ZERO), isub(ZERO, n), iop(k, l, r))
                return self.top('signed division')
            return iop(k, l, r)
        if t[0] == 'bool' and op in ('BitAnd', 'BitOr', 'BitXor'):
            return and_(l, r) if op == 'BitAnd' else or_(l, r) if op == 'BitOr' else not_(eqv(l, r))
        if op in ('Shl', 'Shr') and t[0] == 'int':
            self.panic_if(st, not_(lt(r, I({7: 8, 15: 16, 31: 32, 63: 64, 127: 128}.get(self.BITS.get(t[1], 64), self.BITS.get(t[1], 64))))),
                          self.site(e, 'shift overflow'))
        m = {'BitAnd': 'iand', 'BitOr': 'ior', 'BitXor': 'ixor', 'Shl': 'ishl', 'Shr': 'ishr'}
        if op in m:
            v = iop(m[op], l, r)
            if op == 'Shl' and t[0] == 'int' and l is not ONE:
                v = self.int_cast(v, 'u4096', t[1])
            return v
        num = t[0] in ('int', 'char')
        if op in ('Eq', 'Ne'):
            c = ieq(l, r) if t[0] == 'int' else eqv(l, r)
            return c if op == 'Eq' else not_(c)
        if op == 'Lt':
            return lt(l, r)
        if op == 'Gt':
            return lt(r, l)
        if op == 'Le':
            return not_(lt(r, l))
        if op == 'Ge':
            return not_(lt(l, r))
        return self.top('operator ' + op)

    def x_Binary(self, e, st, fr):
        l = self.ev(e['l'], st, fr)
        r = self.ev(e['r'], st, fr)
        if st.dead:
            return mk('dead')
        return self.binop(e['op'], l, r, self.p.ty(ety(e['l']), fr.genv), e, st)

    def x_AssignOp(self, e, st, fr):
        r = self.ev(e['r'], st, fr)
        pl = self.place(e['l'], st, fr)
        if st.dead:
            return mk('dead')
        ref = pl if isinstance(pl, T) else pl.ref()
        l = self.rread(st, ref)
        op = e['op']
        op = op[:-6] if op.endswith('Assign') else op
        v = self.binop(op, l, r, self.p.ty(ety(e['l']), fr.genv), e, st)
        self.rwrite(st, ref, v)
        return UNIT

    def x_Assign(self, e, st, fr):
        r = self.ev(e['r'], st, fr)
        pl = self.place(e['l'], st, fr)
        if st.dead:
            return mk('dead')
        if isinstance(pl, T):
            self.rwrite(st, pl, r)
        else:
            if pl.root not in st.cells and not pl.path:
                st.cells[pl.root] = r
            else:
                self.write(st, pl, r)
        return UNIT

    def int_cast(self, v, s, d):
        sb, db = self.BITS.get(s, 64), self.BITS.get(d, 64)
        if d[0] == 'u':
            # from unsigned, or from signed (which has one bit less here and may be negative)
            return vdg.iwrap(v, db) if s[0] != 'u' or sb > db else v
        return vdg.swrap(v, db + 1) if sb > db else v

    def x_Cast(self, e, st, fr):
        v = self.ev(e['v'], st, fr)
        s, d = self.p.ty(ety(e['v']), fr.genv), self.p.ty(e['ty'], fr.genv)
        if s[0] == 'bool':
            if v.op == 'b':
                return I(int(v.a[0]))
            return mk('b2i', v)
        if s[0] == 'int' and d[0] == 'int':
            return self.int_cast(v, s[1], d[1])
        return v

    def x_Never(self, e, st, fr):
        self.ev(e['v'], st, fr)
        if not st.dead:
            st.dead = True
        return mk('dead')

    def x_Coerce(self, e, st, fr):
        return self.ev(e['v'], st, fr)

    def x_Break(self, e, st, fr):
        v = self.ev(e['v'], st, fr) if e.get('v') is not None else UNIT
        if st.dead:
            return mk('dead')
        fr.exits.append((('brk', e['id']), st.pc, v, st.cells, st.facts))
        st.cells = dict(st.cells)
        st.dead = True
        return mk('dead')

    def x_Continue(self, e, st, fr):
        fr.exits.append((('cont', e['id']), st.pc, UNIT, st.cells, st.facts))
        st.cells = dict(st.cells)
        st.dead = True
        return mk('dead')

    def x_Return(self, e, st, fr):
        v = self.ev(e['v'], st, fr) if e.get('v') is not None else UNIT
        if st.dead:
            return mk('dead')
        fr.exits.append(('ret', st.pc, v, st.cells, st.facts))
        st.cells = dict(st.cells)
        st.dead = True
        return mk('dead')

    def x_Repeat(self, e, st, fr):
        v = self.ev(e['v'], st, fr)
        n = self.p.cn(e['n'], fr.genv)
        if isinstance(n, int):
            if n <= 64:
                return lit(*([v] * n))
            return comp(fresh(), I(n), v)
        return self.top('array length')

    def x_Array(self, e, st, fr):
        return lit(*[self.ev(x, st, fr) for x in e['xs']])

    def x_Tuple(self, e, st, fr):
        return tup(*[self.ev(x, st, fr) for x in e['xs']])

    def x_Adt(self, e, st, fr):
        fs = {}
        for i, x in e['fs']:
            fs[i] = self.ev(x, st, fr)
        a = self.p.adts.get(e['p'])
        n = len(a['vs'][e['vi']]['fs']) if a else (max(fs) + 1 if fs else 0)
        if e.get('base') is not None:
            b = self.ev(e['base'], st, fr)
            for i in range(n):
                if i not in fs:
                    fs[i] = fld(b, None, i)
        return struct(e['p'], e['vi'], *[fs.get(i, mk('dead')) for i in range(n)])

    def x_Closure(self, e, st, fr):
        caps = []
        for name, u in zip(e['caps'], e['ups']):
            x = u
            while x['k'] == 'Scope':
                x = x['v']
            if x['k'] == 'Borrow' and x['m']:
                caps.append(mk('upref', self.ev(x, st, fr)))
            else:
                v = self.ev(u, st, fr)
                caps.append(v)
        cid = ('%s/%d' % (e['p'], fr.id))
        self.clos[cid] = (fr.genv, list(e['caps']))
        return mk('clo', e['p'], cid, *caps)

    def x_Lit(self, e, st, fr):
        t = e['t']
        if t == 'int':
            v = int(e['v'])
            return I(-v if e.get('neg') else v)
        if t == 'bool':
            return B(e['v'])
        if t == 'str':
            return STR(e['v'])
        if t == 'bytes':
            return BY(bytes.fromhex(e['v']))
        if t == 'char':
            return STR(e['v'])
        return self.top('literal')

    def x_Zst(self, e, st, fr):
        t = self.p.ty(e['ty'], fr.genv)
        if t[0] == 'fndef':
            cid = ('fn', t[1], fr.id)
            self.clos[cid] = (t[1], fr.genv)
            return mk('fnitem', cid)
        return UNIT

    def x_Const(self, e, st, fr):
        if e.get('val') is not None:
            t = self.p.ty(e['ty'], fr.genv)
            if t[0] == 'bool':
                return B(int(e['val']) != 0)
            return I(int(e['val']))
        if e.get('f'):
            key, g2 = self.resolve(e['f'], None, fr.genv)
            if key is not None:
                return self.call_body(st, self.p.bodies[key], [], g2)
        b = self.p.bodies.get(e['key'])
        if b is not None:
            return self.call_body(st, b, [], fr.genv)
        return mk('tag', 'const:' + e['p'])

    def x_Static(self, e, st, fr):
        t = strip_ref(self.p.ty(e['ty'], fr.genv))
        b = self.p.bodies.get(e.get('key'))
        if b is not None and t[0] in ('int', 'bool', 'str', 'array', 'slice', 'tuple') and not e.get('mut'):
            return self.call_body(st, b, [], {})
        return mk('static', e['p'])

    def x_ConstParam(self, e, st, fr):
        t = fr.genv.get(e['n'])
        if t and t[0] == 'const' and isinstance(t[1], int):
            return I(t[1])
        return self.top('const parameter')

    def x_Other(self, e, st, fr):
        return self.top('unsupported expression')

    # ------------------------------------------------------------------ calls
    def x_Call(self, e, st, fr):
        if 'fe' in e and e.get('f') is None:
            f = self.ev(e['fe'], st, fr)
            args = [self.ev(a, st, fr) for a in e['args']]
            if st.dead:
                return mk('dead')
            return self.call_closure(st, f, args)
        args = []
        for a in e['args']:
            args.append(self.ev(a, st, fr))
            if st.dead:
                return mk('dead')
        return self.call_fnref(st, e, e['f'], e.get('r'), args, fr.genv, [ety(a) for a in e['args']], fr)

    def call_fnref(self, st, e, f, r, args, genv, argtys, fr):
        p = self.p
        key, g2 = self.resolve(f, r, genv)
        if key is None and f.get('trait') and args and f['a'] and f['trait'].startswith('bulletproofs_amcl::') \
                and p.ty(f['a'][0], genv)[0] == 'dyn':
            v = self.rread(st, args[0])
            if v.op == 'ite' and not self.has_ref(args[0]):
                return self.branch(st, v.a[0],
                                   lambda s: self.call_fnref(s, e, f, r, [v.a[1]] + args[1:], genv, argtys, fr),
                                   lambda s: self.call_fnref(s, e, f, r, [v.a[2]] + args[1:], genv, argtys, fr))
            if v.op == 'struct':
                for im in p.bytrait.get(f['trait'], []):
                    t0 = p.ty(im['targs'][0])
                    k = im['items'].get(f['name']) or f['key']
                    if t0[0] == 'adt' and t0[1] == v.a[0] and k in p.bodies:
                        key, g2 = k, {'Self': t0}
        if f.get('trait') in FNTRAITS:
            key = None      # a call of a closure or function value, whatever it resolves to
        sp = (e.get('sp') if e else None) or ['?', 0]
        if key is not None:
            ov = self.overrides.get(key)
            if ov is not None:
                return ov(self, st, args, g2)
            b = p.bodies.get(key)
            if b is not None and not self.models.prefer_model(b):
                v = self.call_body(st, b, args, g2)
                return v
        c = Call(self, st, e, f, r, args, genv, argtys, sp)
        m = self.models.lookup(c)
        if m is None:
            for a in args:
                if self.has_ref(a):
                    self.rwrite(st, a, top('unknown external call ' + f['p']))
            return self.top('unknown external call ' + (r or f)['p'])
        v = m(c)
        return v if v is not None else UNIT

    def resolve(self, f, r, genv):
        """(body key, generic environment)"""
        p = self.p
        if r is not None and r.get('local') and r['key'] in p.bodies and not f.get('trait_default'):
            return r['key'], self.genv_of(r, genv)
        if f.get('trait'):
            targs = [p.ty(a, genv) for a in f['a']]
            for im in p.bytrait.get(f['trait'], []):
                m = {}
                it = [p.ty(x) for x in im['targs']]
                if len(it) <= len(targs) and all(unify(a, b, m) for a, b in zip(it, targs)):
                    k = im['items'].get(f['name'])
                    if k and k in p.bodies:
                        b = p.bodies[k]
                        g = dict(m)
                        extra = targs[len(it):]
                        own = [n for n in b['gn'] if n not in m]
                        own = b['gn'][len(b['gn']) - len(extra):] if extra else []
                        for n, t in zip(own, extra):
                            g[n] = t
                        return k, g
            if targs and targs[0][0] == 'dyn':
                # a trait object: the implementation, where the crate has exactly one
                ims = [im for im in p.bytrait.get(f['trait'], []) if im['items'].get(f['name']) in p.bodies]
                if len(ims) == 1:
                    m = {}
                    for a, b in zip([p.ty(x) for x in ims[0]['targs']][1:], targs[1:]):
                        unify(a, b, m)
                    return ims[0]['items'][f['name']], m
            if f['key'] in p.bodies:
                return f['key'], self.genv_of(f, genv)
            return None, None
        if f.get('local') and f['key'] in p.bodies:
            return f['key'], self.genv_of(f, genv)
        return None, None

    def genv_of(self, f, genv):
        return {n: self.p.ty(t, genv) for n, t in zip(f['gn'], f['a'])}

    # ------------------------------------------------------------------ loops
    def forloop(self, e, st, fr):
        if e.get('src') != 'ForLoopDesugar' or len(e['arms']) != 1:
            return None
        arm = e['arms'][0]
        sc = arm['b']
        if sc['k'] != 'Scope' or sc['v']['k'] != 'Loop':
            return None
        blk = sc['v']['b']
        while blk['k'] == 'Scope':
            blk = blk['v']
        try:
            inner = blk['b']['s'][0]['e'] if blk['b']['s'] else blk['b']['e']
            while inner['k'] == 'Scope':
                inner = inner['v']
            somearm = [a for a in inner['arms'] if a['p']['k'] == 'Variant' and a['p']['vi'] == 1][0]
            pat = somearm['p']['fs'][0][1]
            body = somearm['b']
        except (KeyError, IndexError, TypeError):
            return None
        it = self.ev(e['v'], st, fr)
        if st.dead:
            return mk('dead')
        ty = self.p.ty(ety(e['v']), fr.genv)
        ref = it if ty[0] == 'ref' and ty[1] and self.has_ref(it) else None
        it = self.rread(st, it)
        seq = self.models.as_seq(self, st, it)
        eff = self.models.effectful(self, ty)
        mark = len(fr.exits)

        def run(s, j):
            if ref is not None:         # for x in &mut iterator
                self.rwrite(s, ref, slc(seq, iadd(j, ONE), slen(seq)))
            self.bind(s, fr, pat, Loc(v=get(seq, j)))
            self.ev(body, s, fr)
            if eff and any(x[0] != ('cont', sc['id']) for x in fr.exits[mark:]):
                self.note('early exit from a loop over an iterator whose closures change something')
                for k in s.cells:
                    s.cells[k] = top('early exit from a loop over a lazy iterator')
        return self.loop_over(st, fr, seq, run, sc['id'])

    def loop_over(self, st, fr, seq, run, sid=None):
        return self.run_loop(st, fr, slen(seq), run, sid)

    def do_loop(self, sid, e, st, fr):
        def run(s, j):
            self.ev(e['b'], s, fr)
        return self.run_loop(st, fr, None, run, sid)

    def run_loop(self, st, fr, n, run, sid=None):
        if n is not None and n.op == 'i' and n.a[0] <= UNROLL:
            return self.unrolled(st, fr, n.a[0], run, sid)
        if n is not None and n.top:
            pass
        iv = fresh()
        if n is not None:
            BOUND[iv] = n
        base = st.cells
        phis = {}       # (cell, path...) -> name
        for _round in range(40):
            s = State(dict(base), TRUE, dict(st.facts))
            for path, name in phis.items():
                s.cells[path[0]] = self.setpath(s.cells[path[0]], path[1:], var(name))
            start = dict(s.cells)
            mark = len(fr.exits)
            run(s, var(iv))
            exits = fr.exits[mark:]
            del fr.exits[mark:]
            alts = []       # (pc, code target or None, value, cells)
            for tgt, pc, v, cells, _f in exits:
                if tgt == ('cont', sid):
                    alts.append((pc, None, UNIT, cells))
                else:
                    alts.append((pc, tgt, v, cells))
            if not s.dead:
                alts.append((s.pc, None, UNIT, s.cells))
            elif s.dead == 'panic':
                alts.append((s.pc, ('brk', sid), UNIT, dict(start, **{PANIC: s.cells[PANIC]})))
            if not alts:
                alts.append((TRUE, ('brk', sid), UNIT, start))
            # merged next state of every changed cell
            nxt = self.next_cells(start, alts)
            grew = False
            for k, v in nxt.items():
                for path in self.diff((k,), start[k], v):
                    if not any(path[:len(q)] == q for q in phis):
                        for q in [q for q in phis if q[:len(path)] == path]:
                            del phis[q]
                        phis[path] = fresh('p')
                        grew = True
            if not grew:
                break
        else:
            self.note('loop did not stabilise')
            for path in phis:
                st.cells[path[0]] = top('loop did not stabilise')
            return UNIT
        return self.build_loop(st, fr, iv, n, phis, start, nxt, alts, sid)

    def next_cells(self, start, alts):
        # error returns leave the function; their stores are not merged (see call_body)
        use = [a for a in alts if not (a[1] == 'ret' and a[2].op == 'struct' and a[2].a[0] == RES and a[2].a[1] == 1)]
        if not use:
            use = alts
        out = {}
        for k, v0 in start.items():
            vs = [a[3].get(k) for a in use]
            if all(v is v0 for v in vs):
                continue
            if k == PANIC:
                use2 = alts
                vs = [a[3].get(k) for a in alts]
            else:
                use2 = use
            if any(v is None for v in vs):
                v = top('cell lost in loop')
            else:
                v = vs[-1]
                for a, x in list(zip(use2, vs))[-2::-1]:
                    v = x if x is v else ite(a[0], x, v)
            if v is not v0:
                out[k] = v
        if PANIC not in out:
            vs = [a[3].get(PANIC) for a in alts]
            if any(v is not start[PANIC] for v in vs):
                v = vs[-1]
                for a, x in list(zip(alts, vs))[-2::-1]:
                    v = x if x is v else ite(a[0], x, v)
                out[PANIC] = v
        return out

    def diff(self, path, a, b):
        if a is b:
            return []
        if a.op == 'struct' and b.op == 'struct' and a.a[0] == b.a[0] and a.a[1] == b.a[1] and len(a.a) == len(b.a):
            r = []
            en = self.is_enum(('adt', a.a[0], ()))
            for i, (x, y) in enumerate(zip(a.a[2:], b.a[2:])):
                r += self.diff(path + (pf(a.a[1] if en else None, i),), x, y)
            return r
        return [path]

    def build_loop(self, st, fr, iv, n, phis, start, nxt, alts, sid):
        paths = list(phis)
        names = [phis[q] for q in paths]
        inits = [self.proj(st.cells[q[0]], q[1:]) for q in paths]
        nexts = [self.proj(nxt.get(q[0], start[q[0]]), q[1:]) for q in paths]
        targets = []
        for a in alts:
            if a[1] is not None and a[1] not in targets:
                targets.append(a[1])
        early = bool(targets)
        cond = TRUE
        if early:
            code = fresh('p')
            val = fresh('p')
            cn = ZERO
            vn = UNIT
            # value of the exit code after this iteration
            for idx, a in reversed(list(enumerate(alts))):
                c = I(0 if a[1] is None else 1 + targets.index(a[1]))
                v = a[2]
                if idx == len(alts) - 1:
                    cn, vn = c, v
                else:
                    cn, vn = ite(a[0], c, cn), ite(a[0], v, vn)
            names = names + [code, val]
            inits = inits + [ZERO, UNIT]
            nexts = nexts + [cn, vn]
            cond = ieq(var(code), ZERO)
        outs = None
        if not early and n is not None:
            outs, left = self.solve(iv, n, names, inits, nexts)
        else:
            outs, left = {}, list(range(len(names)))
        if left:
            self.loops['recurrence'] += 1
            sub = {}
            for k in range(len(names)):
                if k not in left:
                    sub[names[k]] = outs[k][1]
            ln = [names[k] for k in left]
            li = [inits[k] for k in left]
            lx = [subst(nexts[k], sub) for k in left]
            # solved values may refer to unsolved ones only through nothing (checked in solve)
            L = mk('loop', (iv, tuple(ln)), n if n is not None else UNIT, subst(cond, sub), *(li + lx))
            for pos, k in enumerate(left):
                outs[k] = (lout(L, pos), None)
        else:
            self.loops['solved'] += 1
        for k, q in enumerate(paths):
            st.cells[q[0]] = self.setpath(st.cells[q[0]], q[1:], outs[k][0])
        if early:
            kc, kv = len(paths), len(paths) + 1
            codeT, valT = outs[kc][0], outs[kv][0]
            res = UNIT
            pcs = st.pc
            for j, tgt in enumerate(targets):
                if tgt == ('brk', sid):
                    res = valT
                    continue
                c = ieq(codeT, I(1 + j))
                # try to keep the shape of an error value visible
                vs = [a[2] for a in alts if a[1] == tgt]
                v = valT
                if all(x.op == 'struct' and x.a[0] == RES and x.a[1] == 1 for x in vs):
                    v = err(fld(valT, 1, 0))
                fr.exits.append((tgt, and_(st.pc, c), v, dict(st.cells), dict(st.facts)))
                pcs = and_(pcs, not_(c))
                st.assume(not_(c))
            st.pc = pcs
            if n is None and ('brk', sid) not in targets:
                st.dead = True
                return mk('dead')
            return res
        if n is None:
            st.dead = True
        return UNIT

    def unrolled(self, st, fr, n, run, sid):
        self.loops['unrolled'] += 1
        brk = []
        res = UNIT
        for j in range(n):
            if st.dead:
                break
            mark = len(fr.exits)
            run(st, I(j))
            conts, rest = [], []
            for x in fr.exits[mark:]:
                if x[0] == ('cont', sid):
                    conts.append(x)
                elif x[0] == ('brk', sid):
                    brk.append(x)
                else:
                    rest.append(x)
            fr.exits[mark:] = rest
            self.rejoin(st, conts)
        if brk:
            res = self.rejoin(st, brk)
        return res

    def rejoin(self, st, exits):
        if not exits:
            return UNIT
        alts = [(x[1], x[2], x[3]) for x in exits]
        pcs = FALSE
        for a in alts:
            pcs = or_(pcs, a[0])
        pan = st.cells[PANIC] if st.dead == 'panic' else None
        if not st.dead:
            alts.append((st.pc, UNIT, st.cells))
            pcs = or_(pcs, st.pc)
            facts = {k: v for k, v in st.facts.items() if all(x[4].get(k) is v for x in exits)}
        else:
            facts = {k: v for k, v in exits[0][4].items() if all(x[4].get(k) is v for x in exits)}
        v = self.merge_alts(st, alts)
        if pan is not None:
            st.cells[PANIC] = ite(pcs, st.cells[PANIC], pan)
        st.dead = False
        st.pc = pcs
        st.facts = facts
        return v

    # ------------------------------------------------------------------ recurrences with closed forms
    def solve(self, iv, n, names, inits, nexts):
        """-> ({k: (value after the loop, value at iteration iv)}, unsolved ks)"""
        outs = {}
        left = list(range(len(names)))
        V = var(iv)
        changed = True
        sub = {}
        while changed:
            changed = False
            lset = frozenset(names[k] for k in left)
            for k in list(left):
                x = subst(nexts[k], sub) if sub else nexts[k]
                r = self.closed(iv, V, n, names[k], inits[k], x, lset)
                if r is None:
                    continue
                outs[k] = r
                left.remove(k)
                sub[names[k]] = r[1]
                changed = True
                break
        # closed forms may have been expressed before others were solved: they do not contain
        # unsolved names by construction of `closed`
        return outs, left

    def closed(self, iv, V, n, nm, init, x, lset):
        ph = var(nm)
        others = lset

        def at(f):
            return f(n), f(V)
        if x is ph:
            return init, init
        # phi + c
        if x.op == 'lin':
            d = isub(x, ph)
            if nm not in d.fv and not (d.fv & others):
                if iv not in d.fv:
                    return at(lambda m: iadd(init, imul(m, d)))
        # does not depend on loop-carried values: the last iteration decides
        if not (x.fv & others):
            if iv not in x.fv and nm not in x.fv:
                return ite(lt(ZERO, n), x, init), ite(lt(ZERO, V), x, init)
            if nm not in x.fv:
                f = lambda m: ite(lt(ZERO, m), subst(x, {iv: isub(m, ONE)}), init)
                return at(f)
        # pushes
        if x.op == 'cat' and x.a[0] is ph and not (x.a[1].fv & others):
            b = x.a[1]
            if b.op == 'lit' and len(b.a) == 1:
                def f(m):
                    j = fresh()
                    BOUND[j] = m
                    return cat(init, comp(j, m, subst(b.a[0], {iv: var(j)})))
                return at(f)

            def f(m):
                j = fresh()
                BOUND[j] = m
                return cat(init, mk('concatall', comp(j, m, subst(b, {iv: var(j)}))))
            return at(f)
        # sums and products
        if x.op in ('fadd', 'fmul'):
            for y, z in ((x.a[0], x.a[1]), (x.a[1], x.a[0])):
                if y is ph and not (z.fv & others):
                    if x.op == 'fmul':
                        if iv not in z.fv:
                            return at(lambda m: fmul(init, fpow(z, m)))
                        def f(m):
                            j = fresh()
                            BOUND[j] = m
                            return fmul(init, mk('fprod', comp(j, m, subst(z, {iv: var(j)}))))
                        return at(f)

                    def f(m):
                        j = fresh()
                        BOUND[j] = m
                        return fadd(init, fsum(comp(j, m, subst(z, {iv: var(j)}))))
                    return at(f)
        # consumption from either end
        if x.op == 'slice' and x.a[0] is ph:
            L = mk('len', ph)
            lo, hi = x.a[1], x.a[2]
            if lo.op == 'i' and hi is L:
                return at(lambda m: slc(init, imul(m, lo), slen(init)))
            d = isub(L, hi)
            if lo is ZERO and d.op == 'i' and d.a[0] >= 0:
                return at(lambda m: slc(init, ZERO, isub(slen(init), imul(m, d))))
        # pointwise update at iv + c
        if x.op == 'upd' and x.a[0] is ph:
            idx, v = x.a[1], x.a[2]
            off = isub(idx, V)
            if iv not in off.fv and not (off.fv & others):
                old = get(ph, idx)
                hole = fresh('h')
                v2 = self.replace(v, old, var(hole))
                if not (v2.fv & others):
                    def f(m):
                        def el(j):
                            i0 = isub(j, off)
                            new = subst(v2, {iv: i0, hole: get(init, j)})
                            inside = and_(not_(lt(i0, ZERO)), lt(i0, m))
                            return ite(inside, new, get(init, j))
                        return mkcomp(slen(init), el)
                    return at(f)
        return None

    def replace(self, t, old, new, memo=None):
        if memo is None:
            memo = {}
        if t is old:
            return new
        if not (t.fv & old.fv):
            return t
        r = memo.get(t)
        if r is None:
            if t.op in ('comp', 'loop'):
                r = t
            else:
                r = rebuild(t.op, tuple(self.replace(x, old, new, memo) if x.__class__ is T else x for x in t.a))
            memo[t] = r
        return r


class Call(object):
    """an external call, as seen by a model"""

    def __init__(self, I, st, e, f, r, args, genv, argtys, sp):
        self.I, self.st, self.e, self.f, self.r, self.args = I, st, e, f, r, args
        self.genv, self.argtys, self.sp = genv, argtys, sp

    def v(self, i):
        """value of an argument, looking through references"""
        return self.I.rread(self.st, self.args[i])

    def set(self, i, x):
        self.I.rwrite(self.st, self.args[i], x)

    def ta(self, i):
        return self.I.p.ty(self.f['a'][i], self.genv)

    def ret(self):
        return self.I.p.ty(self.e['ty'], self.genv) if self.e is not None else None

    def panic(self, cond, what):
        self.I.panic_if(self.st, cond, '%s:%s %s' % (self.sp[0], self.sp[1], what))

    def name(self):
        return self.f['name']

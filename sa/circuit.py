"""Propagation analysis of a rank-1 constraint system.

`System` holds the wires, gates and linear constraints of one instantiated log.  `solve` propagates
known wire values through the linear constraints (elimination) and the gates; where a gate forces a
wire to one of finitely many values it splits.  It answers
  ('no', None)   the constraints exclude every completion of the given wires (every split refuted),
  ('yes', wires) a completion that satisfies every gate and every constraint (re-checked), or
  ('?', why)     propagation is stuck or out of budget."""
from .vdg import P


class System(object):
    def __init__(self, events):
        self.ngates = 0
        self.ncommits = 0
        self.cons = []
        self.vals = {}
        self.coms = []
        self.blind = []
        self.assigned = True
        for e in events:
            if e[0] == 'commit':
                self.vals[('C', self.ncommits)] = e[1]
                self.coms.append(e[2])
                self.blind.append(e[3])
                self.ncommits += 1
            elif e[0] == 'gate':
                i = self.ngates
                self.vals[('L', i)], self.vals[('R', i)] = e[1], e[2]
                self.ngates += 1
            elif e[0] == 'fill':
                self.vals[('R', e[1])] = e[2]
            elif e[0] == 'constrain':
                self.cons.append(e[1])
        for i in range(self.ngates):
            l, r = self.vals.get(('L', i)), self.vals.get(('R', i))
            if l is not None and r is None:
                r = self.vals[('R', i)] = 0
            self.vals[('O', i)] = None if l is None else l * r % P

    def unassigned(self):
        return [w for w, v in self.vals.items() if v is None]

    def violated(self, vals=None):
        """index of the first constraint the assignment does not satisfy, or None"""
        vals = vals or self.vals
        for i in range(self.ngates):
            if vals[('L', i)] * vals[('R', i)] % P != vals[('O', i)] % P:
                return 'gate %d' % i
        for k, c in enumerate(self.cons):
            s = 0
            for w, a in c.items():
                s += a if w[0] == '1' else a * vals[w]
            if s % P:
                return k
        return None

    def wires(self):
        return [('C', j) for j in range(self.ncommits)] + [(k, i) for i in range(self.ngates) for k in 'LRO']

    def badwire(self):
        """a constraint on a wire that does not exist"""
        ws = set(self.wires())
        for k, c in enumerate(self.cons):
            for w in c:
                if w[0] != '1' and w not in ws:
                    return k, w
        return None


class Budget(Exception):
    pass


def sqrt_mod(a):
    """square root modulo P (Tonelli-Shanks), or None"""
    a %= P
    if a == 0:
        return 0
    if pow(a, (P - 1) // 2, P) != 1:
        return None
    q, s = P - 1, 0
    while q % 2 == 0:
        q //= 2
        s += 1
    z = 2
    while pow(z, (P - 1) // 2, P) != P - 1:
        z += 1
    m, c, t, r = s, pow(z, q, P), pow(a, q, P), pow(a, (q + 1) // 2, P)
    while t != 1:
        i, t2 = 0, t
        while t2 != 1:
            t2 = t2 * t2 % P
            i += 1
        b = pow(c, 1 << (m - i - 1), P)
        m, c, t, r = i, b * b % P, t * b * b % P, r * b % P
    return r


def inv(a):
    return pow(a, -1, P)


class State(object):
    """known: wire -> value; rows: remaining linear rows {wire: coef, '1': const}"""

    def __init__(self, known, rows, gates):
        self.known, self.rows, self.gates = known, rows, gates

    def copy(self):
        return State(dict(self.known), [dict(r) for r in self.rows], set(self.gates))


class Solver(object):
    def __init__(self, system, rnd, budget=4000, guesses=True):
        self.sys = system
        self.rnd = rnd
        self.left = budget
        self.guessed = False
        self.guesses = guesses

    def run(self, known, accept=None):
        """accept: looks for a completion it holds of; ('no', None) then means there is none"""
        self.accept = accept
        self.found = 0
        rows = []
        for c in self.sys.cons:
            r = {}
            for w, a in c.items():
                k = '1' if w[0] == '1' else w
                r[k] = (r.get(k, 0) + a) % P
            rows.append(r)
        st = State(dict(known), rows, set(range(self.sys.ngates)))
        try:
            v = self.search(st)
        except Budget:
            return '?', 'budget'
        if v is None:
            return ('?', 'no completion found after fixing undetermined wires') if self.guessed else ('no', None)
        full = self.full(v)
        if self.sys.violated(full) is not None:
            return '?', 'internal: completion fails'
        return 'yes', full

    def full(self, v):
        return {w: v.get(w, 0) for w in self.sys.wires()}

    def complete(self, st):
        """every wire that matters is known"""
        self.found += 1
        if self.accept is not None and not self.accept(self.full(st.known)):
            return None
        return st.known

    # ---------------------------------------------------------------- propagation
    def propagate(self, st):
        """False on contradiction"""
        occ = {}
        for k, r in enumerate(st.rows):
            for w in r:
                if w != '1':
                    occ.setdefault(w, []).append(k)
        queue = [w for w in st.known]
        rowq = list(range(len(st.rows)))
        gateq = list(st.gates)
        self.ok = True

        def learn(w, v):
            v %= P
            if w in st.known:
                return st.known[w] == v
            st.known[w] = v
            queue.append(w)
            return True

        def dorow(k):
            r = st.rows[k]
            if r is None:
                return True
            for w in [w for w in r if w != '1' and w in st.known]:
                r['1'] = (r.get('1', 0) + r.pop(w) * st.known[w]) % P
            ws = [w for w in r if w != '1' and r[w]]
            if not ws:
                st.rows[k] = None
                return r.get('1', 0) % P == 0
            if len(ws) == 1:
                st.rows[k] = None
                return learn(ws[0], -r.get('1', 0) * inv(r[ws[0]]))
            return True

        def dogate(i):
            if i not in st.gates:
                return True
            K = st.known
            l, r, o = K.get(('L', i)), K.get(('R', i)), K.get(('O', i))
            if l is not None and r is not None:
                st.gates.discard(i)
                return learn(('O', i), l * r)
            if l == 0 or r == 0:
                st.gates.discard(i)
                return learn(('O', i), 0)
            if o is not None:
                if l is not None:
                    st.gates.discard(i)
                    return learn(('R', i), o * inv(l))
                if r is not None:
                    st.gates.discard(i)
                    return learn(('L', i), o * inv(r))
            return True
        for k in rowq:
            if not dorow(k):
                return False
        for i in gateq:
            if not dogate(i):
                return False
        while queue:
            w = queue.pop()
            for k in occ.get(w, ()):
                if not dorow(k):
                    return False
            if w[0] in 'LRO' and not dogate(w[1]):
                return False
        st.rows = [r for r in st.rows if r is not None]
        return True

    def eliminate(self, st):
        """row echelon of the remaining rows -> {wire: affine form over free wires} or None"""
        forms = {}
        for r in st.rows:
            r = dict(r)
            for w in [w for w in r if w in forms]:
                a = r.pop(w)
                for x, c in forms[w].items():
                    r[x] = (r.get(x, 0) + a * c) % P
            ws = [w for w in r if w != '1' and r[w]]
            if not ws:
                if r.get('1', 0) % P:
                    return None
                continue
            # prefer to eliminate outputs, then right, then left wires
            w = max(ws, key=lambda x: ('CLRO'.index(x[0]), x[1]))
            a = inv(r[w])
            f = {x: -c * a % P for x, c in r.items() if x != w and c}
            for y, g in forms.items():
                if w in g:
                    b = g.pop(w)
                    for x, c in f.items():
                        g[x] = (g.get(x, 0) + b * c) % P
                        if not g[x]:
                            del g[x]
            forms[w] = f
        return forms

    def form(self, st, forms, w):
        if w in st.known:
            return {'1': st.known[w]}
        if w in forms:
            return {x: c for x, c in forms[w].items() if c}
        return {w: 1}

    # ---------------------------------------------------------------- wires of two possible values
    def domains(self, st):
        """Gates that leave a wire one or two values, and the rows over such wires: None on
        contradiction, else the wires whose value is forced.  `self.split` is left at the wire of
        the largest weight in a row over two-valued wires that is not decided."""
        self.split = None
        short = [r for r in st.rows if sum(1 for w in r if w != '1' and r[w]) <= 2]
        forms = self.eliminate(State(st.known, short, ()))
        if forms is None:
            return None
        dom, done = {}, {}
        for i in st.gates:
            l, r, o = (self.form(st, forms, (k, i)) for k in 'LRO')
            fv = {x for f in (l, r, o) for x in f if x != '1'}
            if len(fv) != 1:
                continue
            x = fv.pop()
            q = roots(x, l, r, o)
            if q is None:
                continue
            dom[x] = q if x not in dom else dom[x] & q
            if not dom[x]:
                return None
        forced = {x: next(iter(q)) for x, q in dom.items() if len(q) == 1}
        if forced:
            return forced
        if not dom:
            return {}
        for r in st.rows:
            f = {}
            for w, a in r.items():
                if w == '1':
                    f['1'] = (f.get('1', 0) + a) % P
                    continue
                for x, c in self.form(st, forms, w).items():
                    f[x] = (f.get(x, 0) + a * c) % P
            xs = [x for x in f if x != '1' and f[x]]
            if len(xs) < 2 or any(x not in dom for x in xs):
                continue
            k = f.get('1', 0)
            ts = []
            for x in xs:
                p, q = sorted(dom[x])
                k = (k + f[x] * p) % P
                ts.append((f[x] * (q - p) % P, x))
            g = forcing(k, ts)
            if g is None:
                return None
            if g[0]:
                return {x: sorted(dom[x])[v] for x, v in g[0].items()}
            if g[1] is not None and self.split is None:
                self.split = (g[1], sorted(dom[g[1]]))
        return {}

    def search(self, st):
        while True:
            self.left -= 1
            if self.left < 0:
                raise Budget()
            if not self.propagate(st):
                return None
            if not st.gates and not st.rows:
                return self.complete(st)
            d = self.domains(st)
            if d is None:
                return None
            if d:
                st.known.update(d)
                continue
            forms = self.eliminate(st)
            if forms is None:
                return None
            # constants found by elimination
            new = {w: f.get('1', 0) for w, f in forms.items() if all(x == '1' for x in f)}
            if new:
                st.known.update(new)
                continue
            if self.split:
                x, vs = self.split
                for v in vs:
                    n = st.copy()
                    n.known[x] = v
                    y = self.search(n)
                    if y is not None:
                        return y
                return None
            quad = None
            zero = None
            lin = []
            for i in sorted(st.gates):
                l, r, o = (self.form(st, forms, (k, i)) for k in 'LRO')
                cl, cr = all(x == '1' for x in l), all(x == '1' for x in r)
                if cl or cr:
                    a, b = (l.get('1', 0), r) if cl else (r.get('1', 0), l)
                    row = dict(o)
                    for x, c in b.items():
                        row[x] = (row.get(x, 0) - a * c) % P
                    lin.append((i, row))
                    continue
                fv = set(l) | set(r) | set(o)
                fv.discard('1')
                if len(fv) == 1:
                    quad = quad or (i, fv.pop(), l, r, o)
                elif not [c for c in o.values() if c]:
                    zero = zero or (i, l, r)
                else:
                    # l*r - o = c * (affine) * (affine) when o is a multiple of l or r
                    for a, b in ((l, r), (r, l)):
                        k = ratio(o, a)
                        if k is not None and zero is None:
                            b2 = dict(b)
                            b2['1'] = (b2.get('1', 0) - k) % P
                            zero = (i, a, b2)
            if lin:
                for i, row in lin:
                    st.gates.discard(i)
                    st.rows.append(row)
                continue
            if quad:
                i, x, l, r, o = quad
                vs = roots(x, l, r, o)
                if vs is None:
                    st.gates.discard(i)
                    continue
                if not vs:
                    return None
                st.gates.discard(i)
                for v in sorted(vs):
                    n = st.copy()
                    n.known[x] = v
                    y = self.search(n)
                    if y is not None:
                        return y
                return None
            if zero:
                i, l, r = zero
                st.gates.discard(i)
                for f in (l, r):
                    n = st.copy()
                    n.rows.append(dict(f))
                    y = self.search(n)
                    if y is not None:
                        return y
                return None
            # nothing more is determined: fix a free wire
            if not self.guesses:
                self.guessed = True
                return None
            self.guessed = True
            free = {}
            for i in st.gates:
                for k in 'LRO':
                    for x in self.form(st, forms, (k, i)):
                        if x != '1':
                            free[x] = free.get(x, 0) + 1
            if not free:
                for r in st.rows:
                    for x in r:
                        if x != '1' and x not in forms:
                            free[x] = 1
            if not free:
                return None
            x = max(sorted(free), key=lambda w: free[w])
            st.known[x] = self.rnd() % P


def roots(x, l, r, o):
    """values of x with l*r = o, all affine in x alone; None when every value is one"""
    A = l.get(x, 0) * r.get(x, 0) % P
    Bq = (l.get(x, 0) * r.get('1', 0) + l.get('1', 0) * r.get(x, 0) - o.get(x, 0)) % P
    Cq = (l.get('1', 0) * r.get('1', 0) - o.get('1', 0)) % P
    if A == 0:
        if Bq == 0:
            return set() if Cq else None
        return {-Cq * inv(Bq) % P}
    s = sqrt_mod(Bq * Bq - 4 * A * Cq)
    if s is None:
        return set()
    h = inv(2 * A)
    return {(-Bq + s) * h % P, (-Bq - s) * h % P}


def centre(x):
    x %= P
    return x if x <= P // 2 else x - P


def forcing(k, ts):
    """k + sum d*t = 0 mod P with t in {0,1}: None if impossible, else (forced t's, a wire to split
    on or None).  Exact when, after scaling by some coefficient, the sum cannot wrap around P."""
    best = None
    for d0 in {d for d, _ in ts} | {1}:
        s = inv(d0)
        ds = [centre(d * s) for d, _ in ts]
        w = sum(abs(d) for d in ds)
        if best is None or w < best[0]:
            best = (w, s, ds)
    w, s, ds = best
    if 2 * w >= P:
        return {}, None
    k = centre(k * s)
    items = sorted(zip(ds, (x for _, x in ts)), key=lambda p: -abs(p[0]))
    # value must be 0 or, since |k| <= P/2 and w < P/2, nothing else
    lo = k + sum(d for d, _ in items if d < 0)
    hi = k + sum(d for d, _ in items if d > 0)
    out = {}
    for d, x in items:
        if lo > 0 or hi < 0:
            return None
        a, b = (lo, hi - d) if d > 0 else (lo - d, hi)          # t = 0
        c, e = (lo + d, hi) if d > 0 else (lo, hi + d)          # t = 1
        z, o = a <= 0 <= b, c <= 0 <= e
        if not z and not o:
            return None
        if z and o:
            break
        out[x] = 1 if o else 0
        lo, hi = (c, e) if o else (a, b)
    else:
        if lo != 0 or hi != 0:
            return None
        return out, None
    return out, (None if out else items[0][1])


def ratio(a, b):
    """k with a = k*b, or None"""
    ks = None
    for x in set(a) | set(b):
        p, q = a.get(x, 0), b.get(x, 0)
        if q == 0:
            if p:
                return None
            continue
        k = p * inv(q) % P
        if ks is None:
            ks = k
        elif ks != k:
            return None
    return ks

"""What a check reports: obligations, violations, evidence."""
import json, os, sys, time, hashlib, select, traceback
from .evalr import Undecided, Dead

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))


class Ctx(object):
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.obl = {}            # obligation -> [held, undecided, violated]
        self.viol = {}           # key -> detail
        self.und = {}
        self.samples = []
        self.notes = []
        self.floors = []
        self.analysed = {}
        self.W = None
        self.broken = []         # parts of the analysis that did not finish
        self.deadline = self.t0 + (600 if tier != 'thorough' else 3000)

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def ok(self, name, n=1):
        o = self.obl.setdefault(name, [0, 0, 0])
        o[0] += n

    def undecided(self, name, why):
        o = self.obl.setdefault(name, [0, 0, 0])
        o[1] += 1
        self.und.setdefault(name, str(why)[:300])

    def violation(self, name, where, detail):
        """name: obligation; where: the construct (function / call site), no line numbers needed"""
        o = self.obl.setdefault(name, [0, 0, 0])
        o[2] += 1
        k = '%s @ %s' % (name, where)
        if k not in self.viol:
            self.viol[k] = detail

    def expect(self, name, where, cond, detail):
        if cond:
            self.ok(name)
        else:
            self.violation(name, where, detail() if callable(detail) else detail)
        return cond

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def floor(self, name, n):
        """at least n instances of an obligation must have been looked at"""
        self.floors.append((name, n))

    def parallel(self, jobs):
        """run jobs (functions of a context) in child processes and merge what they found"""
        import pickle
        todo, running = list(enumerate(jobs)), {}
        results = {}
        width = max(1, min(8, os.cpu_count() or 1))
        while todo or running:
            while todo and len(running) < width:
                k, job = todo.pop(0)
                r, w = os.pipe()
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    rc = 1
                    try:
                        os.close(r)
                        c = Ctx(self.pid, self.tier, self.seed)
                        c.W = self.W
                        job(c)
                        I = self.W.I
                        data = pickle.dumps((c.obl, c.viol, c.und, [str(x) for x in c.samples], c.notes, c.floors,
                                             dict(I.calls_seen), I.loops, I.unknown if isinstance(I.unknown, (list, dict, int)) else []))
                        with os.fdopen(w, 'wb') as f:
                            f.write(data)
                        rc = 0
                    except BaseException as e:
                        try:
                            with os.fdopen(w, 'wb') as f:
                                f.write(pickle.dumps(e if type(e).__name__ == 'MissingAnchor' else RuntimeError(traceback.format_exc())))
                        except BaseException:
                            pass
                    finally:
                        os._exit(rc)
                os.close(w)
                running[r] = (k, pid, [])
            rs = select.select(list(running), [], [], 5)[0]
            if time.time() > self.deadline:
                for r, (k, pid, bs) in running.items():
                    os.kill(pid, 9)
                    os.waitpid(pid, 0)
                    os.close(r)
                    results[k] = RuntimeError('not finished within the time limit')
                for k, job in todo:
                    results[k] = RuntimeError('not started within the time limit')
                break
            for r in rs:
                b = os.read(r, 1 << 20)
                if b:
                    running[r][2].append(b)
                    continue
                os.close(r)
                k, pid, bs = running.pop(r)
                os.waitpid(pid, 0)
                results[k] = pickle.loads(b''.join(bs)) if bs else RuntimeError('a worker ended')
        for k in sorted(results):
            x = results[k]
            if isinstance(x, BaseException):
                if type(x).__name__ == 'MissingAnchor':
                    raise x
                self.broke(x)
                continue
            obl, viol, und, samples, notes, floors, calls, loops, unk = x
            for n, v in obl.items():
                o = self.obl.setdefault(n, [0, 0, 0])
                for i in range(3):
                    o[i] += v[i]
            for n, v in viol.items():
                self.viol.setdefault(n, v)
            for n, v in und.items():
                self.und.setdefault(n, v)
            for x in samples:
                self.sample(x)
            self.notes += [x for x in notes if x not in self.notes]
            self.floors += floors
            I = self.W.I
            for n, v in calls.items():
                I.calls_seen[n] = max(v, I.calls_seen.get(n, 0))
            try:
                I.loops = max(I.loops, loops)
                if unk and not I.unknown:
                    I.unknown = unk
            except TypeError:
                pass

    def broke(self, e):
        """a part of the analysis ended without an answer: reported as undecided, decides nothing"""
        self.broken.append(str(e)[-2000:])
        self.undecided('analysis', str(e)[-300:])
        print('analysis incomplete: ' + str(e)[-600:])

    def guard(self, name, where=''):
        return Guard(self, name, where)

    def finish(self, level, trusted):
        seen = {k: sum(v) for k, v in self.obl.items()}
        for name, n in self.floors if not self.broken and not any(v[1] for v in self.obl.values()) else ():
            got = sum(c for k, c in seen.items() if k == name or k.startswith(name + '/'))
            if got < n:
                self.violation('anchor', name, 'only %d of at least %d instances of "%s" could be found in the '
                               'source: the mechanism this property rests on is gone' % (got, n, name))
        known = load_known(self.pid)
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'other',
            'coverage': {
                'explanation': trusted,
                'obligations': sum(sum(v) for v in self.obl.values()),
                'discharged': sum(v[0] for v in self.obl.values()),
                'undecided': sum(v[1] for v in self.obl.values()),
                'by_obligation': {k: {'held': v[0], 'undecided': v[1], 'violated': v[2]} for k, v in sorted(self.obl.items())},
                'undecided_reasons': self.und,
                'incomplete': self.broken,
                'analysed': self.analysed,
                'samples': self.samples,
            },
            'assumptions': self.notes,
            'wall_s': round(time.time() - self.t0, 2),
            'violations': [{'key': k, 'detail': d} for k, d in self.viol.items()],
        }
        d = EVIDENCE
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, self.pid + '.json')
        with open(path, 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        rc = 0
        for k, det in self.viol.items():
            if k in known:
                print('KNOWN-FINDING: property=%s %s' % (self.pid, k))
                continue
            rp = os.path.join(EVIDENCE, '%s.violation.json' % self.pid)
            with open(rp, 'w') as f:
                json.dump({'property': self.pid, 'key': k, 'detail': det}, f, indent=1, default=str)
            if rc == 0:
                print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            print('  %s\n    %s' % (k, str(det)[:1500]))
            rc = 1
        if rc == 0:
            print('%s: held (%d obligations, %d undecided, %.1fs)' % (
                self.pid, ev['coverage']['discharged'], ev['coverage']['undecided'], ev['wall_s']))
        if os.environ.get('VERIF_DEBUG'):
            for k, v in sorted(self.obl.items()):
                print('   ', k, v, self.und.get(k, ''))
        return rc


class Guard(object):
    """an obligation whose evaluation may be undecided"""

    def __init__(self, ctx, name, where):
        self.c, self.n, self.w = ctx, name, where

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is not None and issubclass(et, (Undecided, Dead, RecursionError)):
            self.c.undecided(self.n, repr(ev))
            return True
        return False


def load_known(pid):
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.jsonl')
    out = set()
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or l.startswith('#'):
                continue
            d = json.loads(l)
            if d.get('status') == 'known' and d.get('property') == pid:
                out.add(d['key'])
    return out

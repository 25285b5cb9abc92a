"""Loading the analysed program and building symbolic inputs for its public entry points."""
import sys
import threading
from .dump import get_dump, AnalysisError
from .vdg import *
from . import vdg
from .interp import *
from .models import Models, FE, FEV, G1, G1V, OPT, RES
from .evalr import Sample, Undecided, Dead, SV, Tag, LSeq, hz

C = 'bulletproofs_amcl::'
CS = C + 'r1cs::constraint_system::ConstraintSystem'
RCS = C + 'r1cs::constraint_system::RandomizableConstraintSystem'
VAR = C + 'r1cs::linear_combination::Variable'
LC = C + 'r1cs::linear_combination::LinearCombination'
AQ = C + 'r1cs::linear_combination::AllocatedQuantity'
PROVER = C + 'r1cs::prover::Prover'
VERIFIER = C + 'r1cs::verifier::Verifier'
RPROVER = C + 'r1cs::prover::RandomizingProver'
RVERIFIER = C + 'r1cs::verifier::RandomizingVerifier'
PROOF = C + 'r1cs::proof::R1CSProof'
IPPPROOF = C + 'ipp::InnerProductArgumentProof'
ERR = C + 'errors::R1CSError'


class MissingAnchor(Exception):
    """the construct a property is anchored in is gone"""


class World(object):
    def __init__(self, dump=None, info=None):
        if dump is None:
            dump, info = get_dump()
        self.dump, self.info = dump, info
        self.prog = Program(dump)
        self.models = Models()
        self.I = Interp(self.prog, self.models)
        self.byname = {}
        for b in dump['bodies']:
            if b['kind'] in ('Fn', 'AssocFn'):
                self.byname.setdefault(b['name'], []).append(b)

    def fresh(self):
        self.I = Interp(self.prog, self.models)
        return self.I

    # -------------------------------------------------------------- lookup
    def fn(self, path):
        b = self.prog.bodies.get(C + path)
        if b is not None:
            return b['key']
        # moved to another module: unique function of that name
        name = path.split('::')[-1]
        c = [x for x in self.byname.get(name, []) if x['kind'] == 'Fn' and not x.get('test')]
        if len(c) == 1:
            return c[0]['key']
        raise MissingAnchor('function ' + path)

    def method(self, adt, name, trait=None):
        """key of an inherent or trait method of a type of the crate"""
        for b in self.byname.get(name, []):
            if b.get('implself') is None:
                continue
            t = self.prog.ty(b['implself'])
            if t[0] == 'adt' and t[1] == adt and (trait is None or b.get('implof') == trait):
                if trait is None and b.get('implof') is not None:
                    continue
                return b['key']
        if trait is None:
            for b in self.byname.get(name, []):
                if b.get('implself') is not None:
                    t = self.prog.ty(b['implself'])
                    if t[0] == 'adt' and t[1] == adt:
                        return b['key']
        raise MissingAnchor('%s::%s' % (adt.split('::')[-1], name))

    def adt(self, name):
        """path of a type by its last segment"""
        c = [p for p in self.prog.adts if p.split('::')[-1] == name]
        if len(c) != 1:
            raise MissingAnchor('type ' + name)
        return c[0]

    def fields(self, adt, vi=0):
        return [f['n'] for f in self.prog.adts[adt]['vs'][vi]['fs']]

    def fidx(self, adt, name, vi=0):
        fs = self.fields(adt, vi)
        if name not in fs:
            raise MissingAnchor('field %s.%s' % (adt.split('::')[-1], name))
        return fs.index(name)

    def f(self, v, adt, name):
        return fld(v, None, self.fidx(adt, name))

    def variant(self, adt, name):
        vs = [v['n'] for v in self.prog.adts[adt]['vs']]
        if name not in vs:
            raise MissingAnchor('variant %s::%s' % (adt.split('::')[-1], name))
        return vs.index(name)

    # -------------------------------------------------------------- symbolic inputs
    def mksym(self, name, ty, idx=(), n=None):
        """an arbitrary value of the type; sequences get a symbolic length"""
        t = strip_ref(ty)
        if t[0] == 'adt':
            p = t[1]
            if p in (FE, G1):
                return sym(name, 'F', *idx)
            if p in (FEV, G1V):
                return self.symseq(name, ('adt', FE, ()), idx, n)
            if p == 'alloc::vec::Vec':
                return self.symseq(name, t[2][0], idx, n)
            if p == OPT:
                return ite(sym(name + '?', 'B', *idx), some(self.mksym(name, t[2][0], idx)), NONE)
            if p == VAR:
                return sym(name, 'var', *idx)
            a = self.prog.adts.get(p)
            if a and not a['enum']:
                fs = []
                for f in a['vs'][0]['fs']:
                    fs.append(self.mksym(name + '.' + f['n'], self.prog.ty(f['ty']), idx))
                return struct(p, 0, *fs)
            return sym(name, 'tag', *idx)
        if t[0] in ('slice', 'array'):
            if t[0] == 'array':
                k = t[2]
                if isinstance(k, int):
                    return lit(*[self.mksym(name, t[1], idx + (vdg.I(j),)) for j in range(k)])
            return self.symseq(name, t[1], idx, n)
        if t[0] == 'tuple':
            return tup(*[self.mksym('%s.%d' % (name, j), x, idx) for j, x in enumerate(t[1])])
        if t[0] == 'int':
            return sym(name, 'I', *idx)
        if t[0] == 'bool':
            return sym(name, 'B', *idx)
        return sym(name, 'tag', *idx)

    def symseq(self, name, elt, idx=(), n=None):
        if n is None:
            n = sym('#' + name, 'I', *idx)
        return mkcomp(n, lambda i: self.mksym(name, elt, idx + (i,)))

    def transcript(self, label=b'test'):
        return mk('tnew', BY(label))


def big(f):
    """run with a deep stack"""
    r = {}

    def g():
        try:
            r['v'] = f()
        except BaseException as e:
            r['e'] = e
    threading.stack_size(1 << 30)
    t = threading.Thread(target=g)
    t.start()
    t.join()
    if 'e' in r:
        raise r['e']
    return r.get('v')

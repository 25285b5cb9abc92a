import importlib
from .core import World, MissingAnchor
from .dump import AnalysisError

# property -> (module, function)
CHECKS = {}


def check(pid, trusted=''):
    def d(f):
        CHECKS[pid] = (f, trusted)
        return f
    return d


MODULES = ['r1cs', 'ippchk', 'lc', 'gadgets', 'proto', 'merkle', 'misc']


def load():
    import os
    d = os.path.join(os.path.dirname(__file__), 'checks')
    for m in MODULES:
        if os.path.exists(os.path.join(d, m + '.py')):
            importlib.import_module('sa.checks.' + m)


def run(ctx):
    load()
    f, trusted = CHECKS[ctx.pid]
    from .checks.r1cs import TRUST
    trusted = trusted or TRUST
    try:
        W = ctx.W = World()
    except AnalysisError as e:
        # the tree does not type-check: nothing can be said about it
        print('analysis error:', e)
        return 2
    try:
        f(ctx, W)
    except MissingAnchor as e:
        ctx.violation('anchor', str(e), 'the construct the property is anchored in is missing from the source: %s' % e)
    except Exception:
        import traceback
        ctx.broke(traceback.format_exc())
    I = W.I
    ctx.analysed.update({
        'tree': W.info['tree_hash'],
        'functions_in_crate': len([b for b in W.dump['bodies'] if b['kind'] in ('Fn', 'AssocFn')]),
        'functions_analysed': sorted(k.replace('bulletproofs_amcl::', '') for k in I.calls_seen),
        'call_contexts': sum(I.calls_seen.values()),
        'loops': I.loops, 'unmodelled_constructs': I.unknown})
    return ctx.finish('other', trusted)

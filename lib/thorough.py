"""Deeper exploration used by the --thorough command of every check.

1. every contract is decided again for each class of the program that inherits the
   method (self analysed as that class, so helpers it overrides are the ones analysed);
2. the decision procedure is exercised on the current source: each function under
   contract is rewritten in memory by behaviour-preserving transformations (the verdict
   must not change) and by single-point mutations (how many the contract tells apart
   is recorded).  Nothing is executed and no file is touched.
Step 2 never raises a violation: it measures the checker, and goes into the evidence.
"""
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'tools'))

from prog import program
from equiv import check_contract
from flow import Undecided
import runner


def subclasses(cls):
    p = program()
    out = []
    for m in p.modules.values():
        for k in m.classes.values():
            if k is not cls and any(x is cls for x in p.mro(k)[1:]):
                out.append(k)
    return out


def run(ctx, budget=420):
    t0 = time.time()
    p = program()
    contracts = runner.load_contracts(ctx.prop)
    subs = 0
    for c in contracts:
        if ':' in c.target or '@' in c.target or time.time() - t0 > budget / 2:
            continue
        try:
            func, _ = runner.find_target(c.target)
        except Exception:
            continue
        if func.cls is None:
            continue
        seen = 0
        for k in subclasses(func.cls):
            own = None
            for x in p.mro(k):
                if func.name in x.methods:
                    own = x.methods[func.name]
                    break
            if own is not func or seen >= 12:
                continue
            seen += 1
            key = 'contract:%s@%s' % (c.target, k.name)
            try:
                mm, info = check_contract(func, c.node, c.opts, k)
            except Undecided as e:
                ctx.undecided.append('%s: %s' % (key, e))
                continue
            subs += 1
            ctx.pairs += info['pairs']
            ctx.paths += info['impl_paths']
            if not mm:
                ctx.ok(key, '%s as inherited by %s' % (c.target, k.name))
                continue
            if any(o['key'] == 'contract:' + c.target and not o['ok'] for o in ctx.obl):
                continue     # already reported (or recorded) for the defining class
            m = min(mm, key=lambda x: (len(x.facts.log), len(x.text())))
            ctx.fail(key, '%s as inherited by %s: %s' % (c.target, k.name, m.text()), func.loc())
    import robust
    refs = same = muts = told = und = 0
    for c in contracts:
        if time.time() - t0 > budget:
            break
        try:
            func, selfcls = runner.find_target(c.target)
        except Exception:
            continue
        for r in robust.REFACTORS:
            if time.time() - t0 > budget:
                break
            n = robust.clone(func.node)
            try:
                m = r(n)
                if m is None:
                    continue
                f = robust.variant(func, robust.finish(m))
                mm, _ = robust.check_any(f, c, selfcls)
                refs += 1
                same += not mm
            except Undecided:
                und += 1
            except Exception:
                continue
        for d, m in robust.mutants(func.node):
            if time.time() - t0 > budget:
                break
            try:
                f = robust.variant(func, robust.finish(m))
                mm, _ = robust.check_any(f, c, selfcls)
            except Undecided:
                und += 1
                continue
            except Exception:
                continue
            muts += 1
            told += bool(mm)
    ctx.notes.append('inherited decisions: %d; rewrites keeping the verdict: %d of %d; single-point mutations told apart: %d of %d '
                     '(the rest touch messages or unobserved values); undecided: %d' % (subs, same, refs, told, muts, und))
    print('thorough:', ctx.notes[-1])

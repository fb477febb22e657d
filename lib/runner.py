"""Driver shared by all checks: loads the contracts and custom rules of one
property, decides every obligation on /repo's current source, writes evidence."""
import ast
import importlib
import json
import os
import re
import sys
import time
import traceback
import warnings

warnings.simplefilter('ignore')
sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, 'checks'))

from prog import program, AnalysisBroken, Func  # noqa: E402
import prog  # noqa: E402
from flow import Analyzer, Undecided, show_path, show_ev, show, show_atom  # noqa: E402
from equiv import check_contract, Mismatch  # noqa: E402

KNOWN = os.path.join(VERIF, 'known_findings.txt')


def known_findings(prop):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)$', line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


class Contract:
    def __init__(self, target, opts, node, file):
        self.target, self.opts, self.node, self.file = target, opts, node, file
        self.asis = []      # (key, opts, node): exact descriptions of recorded defective behaviour


def load_contracts(prop):
    path = os.path.join(VERIF, 'specs', prop + '.py')
    if not os.path.exists(path):
        return []
    tree = ast.parse(open(path).read(), filename=path)
    glob = {}
    out = []
    for st in tree.body:
        if isinstance(st, ast.Assign):
            try:
                glob[st.targets[0].id] = ev_lit(st.value, glob)
            except Exception:
                pass
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            decs = [d for d in st.decorator_list if isinstance(d, ast.Call) and getattr(d.func, 'id', '') == 'contract']
            st.decorator_list = []
            for d in decs:
                opts = {k.arg: ev_lit(k.value, glob) for k in d.keywords}
                for t in d.args:
                    out.append(Contract(ev_lit(t, glob), opts, st, path))
    full = {c.target: c for c in out if 'asis' not in c.opts}
    for c in out:
        if 'asis' in c.opts:
            full[c.target].asis.append((c.opts['asis'], c.opts, c.node))
    return list(full.values())


def all_contracts():
    out = []
    for f in sorted(os.listdir(os.path.join(VERIF, 'specs'))):
        if f.endswith('.py'):
            out += load_contracts(f[:-3])
    return out


def ev_lit(n, glob):
    if isinstance(n, ast.Name):
        return glob[n.id]
    if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.BitOr)):
        a, b = ev_lit(n.left, glob), ev_lit(n.right, glob)
        return a + b if isinstance(n.op, ast.Add) else {**a, **b}
    if isinstance(n, (ast.List, ast.Tuple)):
        return [ev_lit(e, glob) for e in n.elts]
    if isinstance(n, ast.Dict):
        return {ev_lit(k, glob): ev_lit(v, glob) for k, v in zip(n.keys, n.values)}
    return ast.literal_eval(n)


def find_target(t):
    """'Class.method', 'Class.method@Sub' (self analysed as Sub) or 'pkg.mod:func'"""
    p = program()
    if ':' in t:
        m, f = t.split(':')
        if '.' in f:
            c, f = f.split('.')
            return p.module(m).classes[c].methods[f], None
        return p.func(m, f), None
    selfcls = None
    if '@' in t:
        t, s = t.split('@')
        selfcls = p.cls(s)
    c, m = t.split('.')
    return p.method(c, m), selfcls


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.p = program()
        self.fails = []
        self.obl = []
        self.notes = []
        self.funcs = set()
        self.pairs = 0
        self.paths = 0
        self.undecided = []
        self.missing = []
        self.known = known_findings(prop)
        self.hit_known = {}
        self.files = set()

    def touch(self, f):
        self.funcs.add(f.mod.name + ':' + f.qual)
        self.files.add(f.mod.rel)

    def ok(self, key, what):
        self.obl.append({'key': key, 'what': what, 'ok': True})

    def fail(self, key, what, loc):
        if key in self.known:
            self.hit_known[key] = what
            self.obl.append({'key': key, 'what': what, 'ok': False, 'known': True})
            return
        self.fails.append({'key': key, 'what': what, 'loc': loc})
        self.obl.append({'key': key, 'what': what, 'ok': False})

    def check(self, key, cond, what, loc, bad=None):
        if cond:
            self.ok(key, what)
        else:
            self.fail(key, bad or what, loc)
        return cond

    def floor(self, what, n, least):
        if n < least:
            raise AnalysisBroken('%s: %d instances analysed, at least %d expected' % (what, n, least))

    def contract(self, c):
        key = 'contract:' + c.target
        try:
            func, selfcls = find_target(c.target)
        except AnalysisBroken as e:
            # the function is gone: its behaviour is judged inside the functions that used it
            self.undecided.append('%s: %s' % (c.target, e))
            self.missing.append(c.target)
            self.obl.append({'key': key, 'what': 'undecided: %s' % e, 'ok': None})
            return
        self.touch(func)
        try:
            mm, info = check_contract(func, c.node, c.opts, selfcls)
        except Undecided as e:
            self.undecided.append('%s: %s' % (c.target, e))
            self.obl.append({'key': key, 'what': 'undecided: %s' % e, 'ok': None})
            return
        self.pairs += info['pairs']
        self.paths += info['impl_paths']
        for k in info['inlined']:
            self.funcs.add(k)
        if info['undecided']:
            self.undecided.append('%s: %s' % (c.target, info['undecided'][:4]))
        what = '%s: %d implementation paths against %d contract paths, %d feasible pairs; observed %s' % (
            c.target, info['impl_paths'], info['spec_paths'], info['pairs'], ', '.join(info['observed']) or 'result')
        if not mm:
            self.ok(key, what)
            return
        for k, opts, node in c.asis:
            # a recorded finding: the function behaves exactly as the finding describes
            if k in self.known:
                try:
                    if not check_contract(func, node, opts, selfcls)[0]:
                        self.hit_known[k] = mm[0].text()
                        self.obl.append({'key': key, 'what': what + ': known finding ' + k, 'ok': False, 'known': True})
                        return
                except Undecided:
                    pass
        m = min(mm, key=lambda x: (len(x.facts.log), len(x.text())))
        txt = '%s (%s): contract broken — %s' % (c.target, c.opts.get('title', c.node.name), m.text())
        if c.opts.get('show'):
            for m in mm[:5]:
                txt += '\n    ' + m.text()
        self.fail(key, txt, func.loc())


def run(prop, tier):
    t0 = time.time()
    ctx = Ctx(prop, tier)
    cs = load_contracts(prop)
    for c in cs:
        ctx.contract(c)
    try:
        mod = importlib.import_module(prop)
    except ModuleNotFoundError as e:
        if e.name != prop:
            raise
        mod = None
    if mod is not None:
        mod.run(ctx)
    if len(ctx.missing) > 2 and len(ctx.missing) * 3 > len(cs):
        raise AnalysisBroken('%d of %d functions under contract are gone: %s' % (len(ctx.missing), len(cs), ctx.missing[:5]))
    if not ctx.obl:
        raise AnalysisBroken('no obligations for ' + prop)
    return ctx, time.time() - t0, len(cs)


def evidence(ctx, wall, ncontracts, seed):
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    done = [o for o in ctx.obl if o['ok']]
    e = {
        'property': ctx.prop, 'tier': ctx.tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': 'Static analysis of the current source of /repo: %d obligations (%d reference contracts compared '
                           'path by path with the guarded effects of the functions named, the rest structural rules over the '
                           'resolved program); %d decided to hold. Code is parsed, never executed.' % (
                               len(ctx.obl), ncontracts, len(done)),
            'obligations': len(ctx.obl), 'discharged': len(done),
            'functions_analysed': sorted(ctx.funcs), 'files': sorted(ctx.files),
            'implementation_paths': ctx.paths, 'feasible_path_pairs': ctx.pairs,
            'rules': [{'key': o['key'], 'what': o['what'], 'ok': o['ok']} for o in ctx.obl],
            'notes': ctx.notes, 'undecided': ctx.undecided, 'known_findings': ctx.hit_known,
            'modules_parsed': len(ctx.p.modules), 'source_digest': ctx.p.digest(),
        },
        'assumptions': [
            'effects a contract does not name are outside the property it states',
            'virtual methods are taken as the definition in the analysed class; user overrides may do anything they document',
            'attributes and container items behave as plain Python storage (no descriptors beyond the properties defined in src/uvm)',
        ],
        'wall_s': round(wall, 3), 'violations': len(ctx.fails),
    }
    with open(os.path.join(d, ctx.prop + '.json'), 'w') as f:
        json.dump(e, f, indent=1)


def main(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    try:
        ctx, wall, nc = run(prop, tier)
    except AnalysisBroken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (prop, e))
        return 2
    if tier == 'thorough':
        import thorough
        thorough.run(ctx)
    evidence(ctx, wall, nc, seed)
    print('%s: %d obligations, %d hold, %d functions, %d paths, %d feasible pairs, %.1fs' % (
        prop, len(ctx.obl), sum(1 for o in ctx.obl if o['ok']), len(ctx.funcs), ctx.paths, ctx.pairs, wall))
    for u in ctx.undecided:
        print('note: undecided', u)
    for k, v in ctx.hit_known.items():
        print('KNOWN-FINDING: property=%s %s (%s)' % (prop, ctx.known[k], k))
    if ctx.fails:
        rp = os.path.join(VERIF, 'evidence', prop + '.violation.txt')
        with open(rp, 'w') as f:
            for x in ctx.fails:
                f.write('%s\n  at %s\n  %s\n' % (x['key'], x['loc'], x['what']))
        for x in ctx.fails:
            print('%s: [%s] %s' % (x['loc'], x['key'], x['what']))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    return 0

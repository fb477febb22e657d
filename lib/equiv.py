"""Comparison of guarded effects: an implementation function against the
reference contract written for it (both analysed by flow.py).

For every pair of paths whose facts can hold together the projected effect
sequences and outcomes must agree, up to reordering of independent effects.
"""
import ast
from prog import program
from terms import *
from flow import (Analyzer, FNS, Loop, Sub, Path, show, show_ev, show_path, show_atom, cont_name, evkey, Undecided)


class Mismatch:
    def __init__(self, pi, ps, why, facts):
        self.pi, self.ps, self.why, self.facts = pi, ps, why, facts

    def text(self):
        cond = ' and '.join(show_atom(a, v) for a, v in self.facts.log) or 'always'
        return 'when %s: %s' % (cond, self.why)


def norm_term(t, facts):
    """replace sub-terms whose value the facts determine"""
    def f(x):
        if not isinstance(x, tuple) or not x or x[0] == 'c' or not isinstance(x[0], str):
            return None
        d = facts.dom.get(x)
        if d is not None:
            if d.eq is not None:
                return d.eq
            if d.none is True:
                return NONE
        return None
    return subst(t, f)


def eq_reps(facts):
    """representatives for terms known equal"""
    rep = {}
    for (a, v) in facts.rel.items():
        if v and a[0] == 'eq':
            x, y = a[1], a[2]
            x = rep.get(x, x)
            y = rep.get(y, y)
            if x != y:
                if key(y) < key(x):
                    x, y = y, x
                for k in list(rep):
                    if rep[k] == y:
                        rep[k] = x
                rep[y] = x
    return rep


class Cmp:
    def __init__(self, rule):
        self.rule = rule
        self.pairs = 0
        self.undecided = []
        self.commute = rule.get('commute', ())

    def teq(self, a, b, facts):
        if a == b:
            return True
        if not isinstance(a, tuple) or not isinstance(b, tuple):
            return a == b
        if a == ANY or b == ANY:
            return True
        a2, b2 = norm_term(a, facts), norm_term(b, facts)
        rep = eq_reps(facts)
        if rep:
            a2 = subst(a2, lambda x: rep.get(x) if isinstance(x, tuple) else None)
            b2 = subst(b2, lambda x: rep.get(x) if isinstance(x, tuple) else None)
        return self.weq(a2, b2, facts)

    def weq(self, a, b, facts=None):
        """structural equality with wildcards"""
        if a == b:
            return True
        if not isinstance(a, tuple) or not isinstance(b, tuple):
            return a == b
        if a == ANY or b == ANY:
            return True
        if a and b and (a[0] == 'unk' or b[0] == 'unk'):
            self.undecided.append('%s ~ %s' % (show(a), show(b)))
            return True
        if a and b and a[0] in ('list', 'tup') and b[0] in ('list', 'tup') and len(a) == 2 and len(b) == 2:
            a, b = a[1], b[1]
        # boolean-valued constants against a term of known truth
        if facts is not None and a and b:
            for x, y in ((a, b), (b, a)):
                if x[0] == 'c' and isinstance(x[1], bool) and y[0] not in ('c',):
                    at = mk_t(y) if isinstance(y[0], str) else None
                    if at is not None:
                        v = at if isinstance(at, bool) else (None if facts.ask(at[0]) is None else facts.ask(at[0]) == at[1])
                        if v is not None and v == x[1] and y[0] in ('p', 'a', 'i', 'f', 'r', 'el'):
                            return True
        if len(a) != len(b):
            return False
        return all(self.weq(x, y, facts) for x, y in zip(a, b))

    # events ------------------------------------------------------------------
    def evq(self, a, b, facts):
        if a[0] == 'loop' and b[0] == 'loop':
            la, lb = a[1], b[1]
            if la.kind != lb.kind or not self.teq(la.it, lb.it, facts):
                return False
            if la.snap != lb.snap and (mutates(la) or mutates(lb)):
                return False
            r = self.paths(la.paths, lb.paths, entry_facts(facts, la, lb), loop=True)
            return not r
        if a[0] == 'spawnsub' and b[0] == 'spawnsub':
            return not self.paths(a[1].paths, b[1].paths, facts)
        if a[0] != b[0] or a[0] in ('loop', 'spawnsub'):
            return False
        return self.teq(a, b, facts)

    def dep(self, a, b):
        """must a stay before b?"""
        ka, kb = a[0], b[0]
        if ka in ('report', 'new') or kb in ('report', 'new'):
            return (ka == kb == 'report') and a[1] == b[1] == 'fatal'
        la, lb = locs(a), locs(b)
        if la is None or lb is None:
            return True
        if la & lb:
            return True
        return False

    def seqdiff(self, A, B, facts):
        """None when the sequences agree up to independent reordering"""
        A, B = list(A), list(B)
        A, B = self.drop_noop(A, facts), self.drop_noop(B, facts)
        while A or B:
            if not A:
                return 'missing effect: ' + show_ev(B[0])
            if not B:
                return 'extra effect: ' + show_ev(A[0])
            a = A[0]
            hit = None
            for j, b in enumerate(B):
                if self.evq(a, b, facts):
                    if all(not self.dep(B[i], b) for i in range(j)):
                        hit = j
                    break
            if hit is None:
                # maybe b comes first in A
                b = B[0]
                for j, x in enumerate(A):
                    if self.evq(x, b, facts):
                        if all(not self.dep(A[i], x) for i in range(j)):
                            hit = (j,)
                        break
                if hit is None:
                    return 'effect is `%s`, expected `%s`' % (show_ev(a), show_ev(b))
                del A[hit[0]]
                del B[0]
                continue
            del A[0]
            del B[hit]
        return None

    def drop_noop(self, evs, facts):
        out = []
        for i, e in enumerate(evs):
            if e[0] == 'set':
                loc = ('a', e[1], e[2])
                if not any(touches(x, e) for x in evs[:i]):
                    d = facts.dom.get(loc)
                    v = e[3]
                    if d is not None and v[0] == 'c':
                        if d.eq is not None and d.eq[1] == v[1] or d.none is True and v[1] is None:
                            continue
                        if d.t is not None and isinstance(v[1], bool) and d.t == v[1]:
                            continue
                    if v == loc:
                        continue
            out.append(e)
        return out

    def paths(self, I, S, facts, loop=False):
        """list of mismatches between two path sets under facts"""
        out = []
        for pi in I:
            fi = joint(facts, pi.facts)
            if fi is None:
                continue
            matched = False
            for ps in S:
                f = joint(fi, ps.facts)
                if f is None:
                    continue
                matched = True
                self.pairs += 1
                if ps.out == ('raise', '%assume') or pi.out == ('raise', '%assume'):
                    continue
                why = self.outdiff(pi.out, ps.out, f)
                if why is None:
                    why = self.seqdiff(pi.ev, ps.ev, f)
                if why is None and loop:
                    if not self.upd_eq(pi.upd, ps.upd, f):
                        why = 'loop-carried values are %s, expected %s' % (show(('tup', pi.upd)), show(('tup', ps.upd)))
                if why is not None:
                    out.append(Mismatch(pi, ps, why, f))
                    if len(out) > 20:
                        return out
            if not matched:
                out.append(Mismatch(pi, None, 'no path of the contract covers this case', fi))
        return out

    def upd_eq(self, a, b, f):
        da, db = dict((x[0], x[1]) for x in a), dict((x[0], x[1]) for x in b)
        for k in set(da) | set(db):
            if k not in da or k not in db:
                return False
            if not self.teq(da[k], db[k], f):
                return False
        return True

    def outdiff(self, a, b, f):
        if a[0] != b[0]:
            return 'outcome is %s, expected %s' % (showout(a), showout(b))
        if a[0] == 'ret' and not self.teq(a[1], b[1], f):
            return 'result is %s, expected %s' % (show(norm_term(a[1], f)), show(norm_term(b[1], f)))
        return None


def entry_facts(facts, la, lb):
    """what the compared paths know that was already known when the loops began
    (what holds after the loop must not restrict its passes)"""
    f = Facts()
    for l in (la, lb):
        if l.pre is None:
            return facts
        for a, v in l.pre.log:
            if facts.ask(a) == v:
                f.assume(a, v)
        for c in l.pre.clauses:
            if c in facts.clauses and c not in f.clauses:
                f.add_clause(c)
    f.propagate()
    return f


def showout(o):
    if o[0] == 'ret':
        return 'return ' + show(o[1])
    return ' '.join(str(x) for x in o)


def mutates(l):
    n = cont_name(l.it)
    for p in l.paths:
        for e in p.ev:
            if e[0] in ('deli', 'mut', 'seti') and cont_name(e[2] if e[0] == 'mut' else e[1]) == n:
                return True
            if e[0] == 'loop' and mutates(e[1]):
                return True
    return False


def locs(e):
    """storage an effect touches; None = may touch anything"""
    k = e[0]
    if k == 'set':
        return {('a', e[2], key(e[1]))}
    if k == 'seti':
        return {('ct', key(e[1]))}
    if k == 'deli':
        return {('ct', key(e[1]))}
    if k == 'mut':
        return {('ct', key(e[2]))}
    if k == 'dela':
        return {('a', e[2], key(e[1]))}
    if k == 'loop':
        s = set()
        for p in e[1].paths:
            for x in p.ev:
                l = locs(x)
                if l is None:
                    return None
                s |= l
        return s
    if k in ('report', 'new'):
        return set()
    return None


def touches(a, b):
    la, lb = locs(a), locs(b)
    return la is None or lb is None or bool(la & lb)


# ---------------------------------------------------------------------------

def fn_names(t, acc):
    """names of the effects inside function values"""
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == 'fnv' and isinstance(t[1], int):
            for p in FNS[t[1]][1]:
                names_of(p.ev, acc)
                fn_names(p.out, acc)
            return
        for x in t:
            fn_names(x, acc)


def names_of(evs, acc):
    for e in evs:
        k = e[0]
        fn_names(e, acc)
        if k == 'set' or k == 'dela':
            acc.add(e[2])
        elif k in ('seti', 'deli'):
            acc.add(cont_name(e[1]))
        elif k == 'mut':
            acc.add(cont_name(e[2]))
        elif k in ('call', 'await', 'spawn', 'new'):
            acc.add(e[1])
        elif k == 'report':
            acc.add('!' + e[1])
        elif k == 'loop':
            for p in e[1].paths:
                names_of(p.ev, acc)
        elif k == 'spawnsub':
            for p in e[1].paths:
                names_of(p.ev, acc)


def defaults(args):
    ps = args.posonlyargs + args.args
    out = {}
    for i, d in enumerate(args.defaults):
        out[len(ps) - len(args.defaults) + i] = d
    return out


def default_diff(func, specnode):
    """default argument values the contract fixes"""
    sa = Analyzer(func, {}, node=specnode, spec=True)
    di, ds = defaults(func.node.args), defaults(specnode.args)
    out = []
    for i, d in ds.items():
        if i not in di:
            out.append(Mismatch(None, None, 'parameter %d has no default, expected %s' % (i, ast.unparse(d)), Facts()))
            continue
        def val(n):
            r = program().const_of(func.mod, n)
            if r is not None:
                return repr(r[1]) if not isinstance(r[1], bool) else repr(int(r[1]))
            if isinstance(n, ast.Name):
                for m in program().modules.values():
                    if n.id in m.assigns:
                        q = program().resolve_name(m, n.id)
                        if q and q[0] == 'const':
                            return repr(q[1])
            return ast.unparse(n)
        if val(di[i]) != val(d):
            out.append(Mismatch(None, None, 'parameter %d defaults to %s, expected %s' % (
                i, ast.unparse(di[i]), ast.unparse(d)), Facts()))
    return out


def check_contract(func, specnode, rule, selfcls=None):
    """-> (mismatches, info); a contract given in parts is decided once per part of the input space"""
    parts = rule.get('parts') or {'': ()}
    rules, obs = [], set(rule.get('extra', ()))
    for name in parts:
        r = dict(rule)
        r['given'] = (specnode, tuple(parts[name])) if parts[name] else None
        rules.append(r)
        r0 = dict(r)
        r0['observed'] = None
        for p in Analyzer(func, r0, node=specnode, spec=True, selfcls=selfcls).run():
            names_of(p.ev, obs)
            fn_names(p.out, obs)
    obs -= set(rule.get('ignore', ()))
    if not rule.get('news'):
        obs -= set(rule.get('ignore_new', ()))
    mm = default_diff(func, specnode)
    info = {'impl_paths': 0, 'spec_paths': 0, 'pairs': 0, 'observed': sorted(obs), 'undecided': [], 'spec_undecided': [],
            'inlined': set()}
    for r in rules:
        r['observed'] = obs
        sa = Analyzer(func, r, node=specnode, spec=True, selfcls=selfcls)
        sp = sa.run()
        ia = Analyzer(func, r, selfcls=selfcls)
        ip = ia.run()
        ip = [p for p in ip if p.out != ('raise', '%assume')]
        c = Cmp(r)
        mm += c.paths(ip, sp, Facts())
        info['impl_paths'] += len(ip)
        info['spec_paths'] += len(sp)
        info['pairs'] += c.pairs
        info['undecided'] += ia.undecided + c.undecided
        info['spec_undecided'] += sa.undecided
        info['inlined'] |= ia.inlined
    info['inlined'] = sorted(info['inlined'])
    return mm, info

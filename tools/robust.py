#!/usr/bin/env python3
"""Development aid: apply behaviour-preserving rewrites (must stay quiet) and
small semantic mutations (should be reported) to every function under contract."""
import ast
import copy
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import runner  # noqa
from runner import load_contracts, find_target
from prog import program, Func, Class
from equiv import check_contract
from flow import Undecided, body_of, loads, stores
import flow


def clean(n):
    for x in ast.walk(n):
        for a in ('_loads', '_imports', '_asfor'):
            if hasattr(x, a):
                delattr(x, a)
    return n


def clone(n):
    return clean(copy.deepcopy(n))


def finish(n):
    src = ast.unparse(n)
    return ast.parse(src).body[0]


def params(n):
    return {a.arg for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs} | {
        a.arg for a in (n.args.vararg, n.args.kwarg) if a}


class Rename(ast.NodeTransformer):
    def __init__(self, names):
        self.names = names

    def visit_Name(self, n):
        if n.id in self.names:
            n.id = n.id + '_rn'
        return n


def r_rename(n):
    names = stores(n.body) - params(n)
    for x in ast.walk(n):
        if isinstance(x, (ast.Import, ast.ImportFrom)):
            for a in x.names:
                names.discard(a.asname or a.name)
        if isinstance(x, ast.Global):
            names -= set(x.names)
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and x is not n:
            return None
    return Rename(names).visit(n)


class Invert(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        return ast.If(test=ast.UnaryOp(op=ast.Not(), operand=n.test), body=n.orelse or [ast.Pass()], orelse=n.body)


def r_invert(n):
    return Invert().visit(n)


def ends(b):
    return b and isinstance(b[-1], (ast.Return, ast.Raise, ast.Break, ast.Continue))


class ElseAfterReturn(ast.NodeTransformer):
    def block(self, b):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and ends(s.body) and i + 1 < len(b):
                s.orelse = self.block(b[i + 1:])
                return b[:i + 1]
        return b

    def generic_visit(self, n):
        super().generic_visit(n)
        for f in ('body', 'orelse'):
            b = getattr(n, f, None)
            if isinstance(b, list):
                setattr(n, f, self.block(b))
        return n


def r_elseret(n):
    return ElseAfterReturn().visit(n)


class SplitAnd(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and not n.orelse:
            b = n.body
            for v in reversed(n.test.values):
                b = [ast.If(test=v, body=b, orelse=[])]
            return b[0]
        return n


def r_splitand(n):
    return SplitAnd().visit(n)


class TmpCond(ast.NodeTransformer):
    def __init__(self):
        self.n = 0

    def visit_If(self, n):
        self.generic_visit(n)
        self.n += 1
        nm = 'cond_%d' % self.n
        t = n.test
        n.test = ast.Name(id=nm, ctx=ast.Load())
        return [ast.Assign(targets=[ast.Name(id=nm, ctx=ast.Store())], value=t, lineno=0), n]


def r_tmpcond(n):
    return TmpCond().visit(n)


class Flip(ast.NodeTransformer):
    M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.M:
            return ast.Compare(left=n.comparators[0], ops=[self.M[type(n.ops[0])]()], comparators=[n.left])
        return n


def r_flip(n):
    return Flip().visit(n)


class Aug(ast.NodeTransformer):
    def visit_AugAssign(self, n):
        l = ast.parse(ast.unparse(n.target), mode='eval').body
        return ast.Assign(targets=[n.target], value=ast.BinOp(left=l, op=n.op, right=n.value), lineno=0)


def r_aug(n):
    if any(isinstance(x, ast.AugAssign) and isinstance(x.op, ast.Add) and isinstance(x.value, (ast.List, ast.Call)) for x in ast.walk(n)):
        return None
    return Aug().visit(n)


class IndexLoop(ast.NodeTransformer):
    """for x in C -> for i in range(len(C)): x = C[i]"""
    def __init__(self):
        self.n = 0

    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, (ast.Attribute, ast.Name)) and isinstance(n.target, ast.Name) and self.islist(n.iter):
            self.n += 1
            i = 'ix_%d' % self.n
            call = ast.parse('range(len(%s))' % ast.unparse(n.iter), mode='eval').body
            a = ast.parse('%s = %s[%s]' % (n.target.id, ast.unparse(n.iter), i)).body[0]
            return ast.For(target=ast.Name(id=i, ctx=ast.Store()), iter=call, body=[a] + n.body, orelse=n.orelse, lineno=0)
        return n

    def islist(self, it):
        if isinstance(it, ast.Attribute):
            return program().attr_type(it.attr) == 'list'
        return False


def r_indexloop(n):
    return IndexLoop().visit(n)


class WhileLoop(IndexLoop):
    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.Attribute) and isinstance(n.target, ast.Name) and self.islist(n.iter) \
                and not flow.has_continue(n.body) and not n.orelse:
            self.n += 1
            i = 'wx_%d' % self.n
            c = ast.unparse(n.iter)
            return ast.parse('%s = 0' % i).body + [ast.While(
                test=ast.parse('%s < len(%s)' % (i, c), mode='eval').body,
                body=ast.parse('%s = %s[%s]' % (n.target.id, c, i)).body + n.body + ast.parse('%s += 1' % i).body, orelse=[])]
        return n


def r_whileloop(n):
    return WhileLoop().visit(n)


class EnumLoop(IndexLoop):
    """range(len(C)) -> enumerate"""
    def visit_For(self, n):
        self.generic_visit(n)
        it = n.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'range' and len(it.args) == 1 \
                and isinstance(it.args[0], ast.Call) and getattr(it.args[0].func, 'id', '') == 'len' and isinstance(n.target, ast.Name):
            c = ast.unparse(it.args[0].args[0])
            if program().attr_type(c.split('.')[-1]) != 'list':
                return n
            i = n.target.id
            e = 'en_' + i
            if any(isinstance(x, ast.Subscript) and not isinstance(x.ctx, ast.Load) and ast.unparse(x.value) == c
                   for b in n.body for x in ast.walk(b)):
                return n        # the element would be read before it is stored

            class R(ast.NodeTransformer):
                def visit_Subscript(s, x):
                    s.generic_visit(x)
                    if ast.unparse(x) == '%s[%s]' % (c, i) and isinstance(x.ctx, ast.Load):
                        return ast.Name(id=e, ctx=ast.Load())
                    return x
            body = [R().visit(b) for b in n.body]
            return ast.For(target=ast.parse('%s, %s = 0' % (i, e)).body[0].targets[0],
                           iter=ast.parse('enumerate(%s)' % c, mode='eval').body, body=body, orelse=n.orelse, lineno=0)
        return n


def r_enum(n):
    return EnumLoop().visit(n)


def r_noop(n):
    b = n.body
    n.body = b[:1] + ast.parse('_unused = None').body + b[1:] if len(b) > 1 else ast.parse('pass').body + b
    return n


def _extractable(stmts):
    for s in stmts:
        for x in ast.walk(s):
            if isinstance(x, (ast.Return, ast.Yield, ast.Global, ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                return False
        for x in ast.walk(s):
            if isinstance(x, (ast.Break, ast.Continue)):
                # must be inside a loop of its own
                pass
    return True


def _loose_jump(s):
    """break/continue that leaves s"""
    def v(n, inloop):
        if isinstance(n, (ast.Break, ast.Continue)):
            return not inloop
        il = inloop or isinstance(n, (ast.For, ast.While))
        return any(v(c, il) for c in ast.iter_child_nodes(n))
    return v(s, False)


def r_extract(n, func=None, pick=None):
    """move the largest compound statement of the body into a new helper method"""
    cands = []
    blocks = [n.body]
    for x in ast.walk(n):
        if isinstance(x, (ast.If, ast.For, ast.While)):
            blocks += [x.body, x.orelse]
    for b in blocks:
        for s in b:
            if isinstance(s, (ast.If, ast.For, ast.While, ast.With)) and _extractable([s]) and not _loose_jump(s):
                cands.append((b, s))
    if not cands:
        return None
    if pick is None:
        cands.sort(key=lambda bs: -len(ast.unparse(bs[1])))
        b, s = cands[0]
    else:
        if pick >= len(cands):
            return None
        b, s = cands[pick]
    locs = (stores(n.body) | params(n))
    used = sorted((loads(s) | stores([s])) & locs)
    before = set()
    ins = [u for u in used if u in loads(s) or u in stores([s])]
    outs = sorted(stores([s]) & locs)
    is_async = any(isinstance(x, ast.Await) for x in ast.walk(s))
    ps = sorted(params(n))
    selfn = n.args.args[0].arg if n.args.args and func.kind in ('inst', 'class') else None
    args = [u for u in ins if u != selfn]
    # only pass names that are definitely bound before: approximate by requiring a store before s
    bound = set(params(n))
    for x in n.body:
        if x is s or any(y is s for y in ast.walk(x)):
            # names stored earlier inside the enclosing statement
            for y in ast.walk(x):
                if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store) and y.lineno < s.lineno:
                    bound.add(y.id)
            break
        bound |= stores([x])
    args = [a for a in args if a in bound]
    for o in outs:
        if o not in bound:
            # later use of a conditionally bound name: skip
            if isinstance(s, (ast.If, ast.For, ast.While)):
                later = flow.loads_after(n, s)
                if o in later:
                    return None
    outs = [o for o in outs if o in bound]
    hb = [s]
    if outs:
        hb = hb + ast.parse('return (%s,)' % ', '.join(outs)).body
    hname = '_xh_helper'
    sig = ', '.join(([selfn] if selfn else []) + args)
    h = ast.parse('%sdef %s(%s):\n    pass' % ('async ' if is_async else '', hname, sig)).body[0]
    h.body = [copy.deepcopy(x) for x in n.body if isinstance(x, (ast.Import, ast.ImportFrom))] + hb
    if func.kind == 'class':
        h.decorator_list = [ast.Name(id='classmethod', ctx=ast.Load())]
    call = '%s%s%s(%s)' % ('await ' if is_async else '', (selfn + '.') if selfn else '', hname, ', '.join(args))
    if outs:
        call = '(%s,) = ' % ', '.join(outs) + call
    wrapped = ast.parse('async def f():\n    ' + call).body[0].body[0]
    i = b.index(s)
    b[i] = wrapped
    n._helper = h
    return n


class GetDefault(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        t = n.test
        if isinstance(t, ast.Compare) and isinstance(t.ops[0], ast.In) and len(n.body) == 1 and len(n.orelse) == 1 \
                and isinstance(n.body[0], ast.AugAssign) and isinstance(n.orelse[0], ast.Assign):
            k, d = ast.unparse(t.left), ast.unparse(t.comparators[0])
            if ast.unparse(n.body[0].target) == '%s[%s]' % (d, k) == ast.unparse(n.orelse[0].targets[0]) \
                    and ast.unparse(n.body[0].value) == ast.unparse(n.orelse[0].value):
                return ast.parse('%s[%s] = %s.get(%s, 0) + %s' % (d, k, d, k, ast.unparse(n.body[0].value))).body[0]
        return n


def r_getdefault(n):
    return GetDefault().visit(n)


REFACTORS = [r_rename, r_invert, r_elseret, r_splitand, r_tmpcond, r_flip, r_aug, r_indexloop, r_whileloop, r_enum, r_noop,
             r_getdefault]


# ------------------------------------------------------------------ mutations

def mutants(n):
    """yield (description, mutated clone)"""
    base = clone(n)
    nodes = list(ast.walk(base))
    for idx, x in enumerate(nodes):
        def at(c):
            return list(ast.walk(c))[idx]
        ln = getattr(x, 'lineno', 0)
        if isinstance(x, ast.If) or isinstance(x, ast.While) and not isinstance(x.test, ast.Constant):
            c = clone(base)
            y = at(c)
            y.test = ast.UnaryOp(op=ast.Not(), operand=y.test)
            yield ('%d negate `%s`' % (ln, ast.unparse(x.test)[:50]), c)
        if isinstance(x, ast.Compare) and len(x.ops) == 1:
            m = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt}.get(type(x.ops[0]))
            if m:
                c = clone(base)
                at(c).ops = [m()]
                yield ('%d boundary `%s`' % (ln, ast.unparse(x)[:50]), c)
        if isinstance(x, ast.BoolOp):
            c = clone(base)
            y = at(c)
            y.op = ast.Or() if isinstance(x.op, ast.And) else ast.And()
            yield ('%d and/or `%s`' % (ln, ast.unparse(x)[:50]), c)
        if isinstance(x, (ast.AugAssign, ast.BinOp)) and isinstance(x.op, (ast.Add, ast.Sub)):
            c = clone(base)
            y = at(c)
            y.op = ast.Sub() if isinstance(x.op, ast.Add) else ast.Add()
            yield ('%d +/- `%s`' % (ln, ast.unparse(x)[:50]), c)
        if isinstance(x, ast.Constant) and isinstance(x.value, (int, bool)) and ln:
            c = clone(base)
            y = at(c)
            y.value = (not x.value) if isinstance(x.value, bool) else x.value + 1
            yield ('%d const %r' % (ln, x.value), c)
        for f in ('body', 'orelse'):
            b = getattr(x, f, None)
            if isinstance(b, list):
                for i, s in enumerate(b):
                    if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Delete, ast.Return, ast.Break, ast.Continue)):
                        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                            continue
                        u = ast.unparse(s)
                        if any(w in u for w in ('uvm_debug', 'uvm_info', 'uvm_report_info', 'print(', 'm_report(')):
                            continue
                        c = clone(base)
                        bb = getattr(at(c), f)
                        bb[i] = ast.Pass()
                        yield ('%d delete `%s`' % (s.lineno, u[:60]), c)
        if isinstance(x, ast.Call) and len(x.args) >= 1:
            u = ast.unparse(x)
            if any(w in u for w in ('uvm_debug', 'uvm_info', 'uvm_report', 'print(', 'm_report(', 'uvm_error', 'uvm_warn', 'uvm_fatal')):
                continue
            for i, a in enumerate(x.args):
                if isinstance(a, ast.Name):
                    c = clone(base)
                    at(c).args[i] = ast.Constant(value=None)
                    yield ('%d arg None `%s`' % (ln, u[:60]), c)


def check_any(f, c, selfcls):
    r = check_contract(f, c.node, c.opts, selfcls)
    for k, o, n in c.asis:
        if r[0]:
            r2 = check_contract(f, n, o, selfcls)
            if not r2[0]:
                return r2
    return r


def variant(func, node):
    f = Func(node, func.cls, func.mod)
    f.kind = func.kind
    return f


def pmap(fn, items, jobs=6):
    """map over items in forked workers (the parsed program is shared)"""
    import pickle
    res = {}
    pids = []
    for w in range(min(jobs, len(items))):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            out = [(i, fn(items[i])) for i in range(w, len(items), jobs)]
            with os.fdopen(wr, 'wb') as f:
                pickle.dump(out, f)
            os._exit(0)
        os.close(wr)
        pids.append((pid, r))
    for pid, r in pids:
        with os.fdopen(r, 'rb') as f:
            res.update(dict(pickle.load(f)))
        os.waitpid(pid, 0)
    return [res[i] for i in range(len(items))]


def main():
    props = [a for a in sys.argv[1:] if not a.startswith('-')]
    mut = '-m' in sys.argv
    verbose = '-v' in sys.argv
    only = [a[2:] for a in sys.argv[1:] if a.startswith('-f')]
    bad = 0
    nr = nm = miss = 0
    for prop in props:
        for c in load_contracts(prop):
            if only and not any(o in c.target for o in only):
                continue
            func, selfcls = find_target(c.target)
            if not mut:
                todo = [(r.__name__, r) for r in REFACTORS] + [
                    ('extract%d' % k, lambda n, k=k: r_extract(n, func, k)) for k in range(6)]
                def ref(nr_):
                    name, r = nr_
                    n = clone(func.node)
                    before = ast.unparse(n)
                    try:
                        m = r(n)
                    except Exception as e:
                        return 0, 'refactor failed %s %s %s' % (name, c.target, e)
                    if m is None:
                        return 0, None
                    helper = getattr(m, '_helper', None)
                    if ast.unparse(m) == before and helper is None:
                        return 0, None
                    m2 = finish(m)
                    f = variant(func, m2)
                    p = program()
                    if helper is not None:
                        hf = ast.parse(ast.unparse(helper)).body[0]
                        h = Func(hf, func.cls, func.mod)
                        if func.cls is not None:
                            func.cls.methods[h.name] = h
                            p.meth_by_name[h.name] = [h]
                        else:
                            func.mod.funcs[h.name] = h
                            p.func_by_name[h.name] = [h]
                    src = '\n' + ast.unparse(m2) + ('\n' + ast.unparse(helper) if helper is not None else '') if verbose else ''
                    try:
                        mm, info = check_any(f, c, selfcls)
                        return 1, 'FALSE ALARM %s %s: %s%s' % (c.target, name, mm[0].text()[:600], src) if mm else None
                    except Undecided as e:
                        return 1, 'UNDECIDED %s %s %s' % (c.target, name, e)
                    except Exception as e:
                        return 1, 'CRASH %s %s %r%s' % (c.target, name, e, src)
                    finally:
                        if helper is not None:
                            if func.cls is not None:
                                func.cls.methods.pop('_xh_helper', None)
                                p.meth_by_name.pop('_xh_helper', None)
                            else:
                                func.mod.funcs.pop('_xh_helper', None)
                                p.func_by_name.pop('_xh_helper', None)
                for k, t in pmap(ref, todo):
                    nr += k
                    if t:
                        print(t)
                        bad += t.startswith(('FALSE', 'CRASH'))
            else:
                def one(dm):
                    d, m = dm
                    try:
                        f = variant(func, finish(m))
                    except SyntaxError:
                        return 0, None
                    try:
                        mm, info = check_any(f, c, selfcls)
                    except Undecided as e:
                        return 1, 'UNDECIDED %s %s %s' % (c.target, d, e)
                    except Exception as e:
                        return 1, 'CRASH %s %s %r' % (c.target, d, e)
                    return 1, None if mm else 'missed %s: %s' % (c.target, d)
                for k, t in pmap(one, list(mutants(func.node))):
                    nm += k
                    if t:
                        print(t)
                        miss += t.startswith('missed')
    print('refactors %d false alarms %d; mutants %d missed %d' % (nr, bad, nm, miss))


if __name__ == '__main__':
    main()

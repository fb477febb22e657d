"""Path-sensitive dataflow over the syntax tree.

For one function the analysis computes its guarded effects: a set of
(path facts, ordered observable effects, outcome) triples.  Branch conditions are
normalised into atoms, values into terms; joins merge states that differ only in
one branch atom; loops are summarised structurally (one abstract iteration plus
the ways to leave).  No code is executed and no solver is used: infeasible paths
are only cut by the closed fact domain in terms.py.
"""
import ast
import re
import zlib
from terms import *
from prog import program, known_functions, AnalysisBroken, Func

PURE = re.compile(
    r'^(get_|is_|has_|exists$|size$|num$|num_|convert2string|find|peek$|first$|last$|len$|keys$|values$|items$|'
    r'lower$|upper$|strip$|startswith$|endswith$|split$|join$|format$|index$|count$|uvm_leaf|rfind$|isdigit$|'
    r'replace$|lstrip$|rstrip$|sformatf$|uvm_is_match$|uvm_glob|match$|search$|compile$|group$|as_|'
    r'm_find|m_get|check_|bin$|hex$|int$|str$|float$|abs$|type$|id$|hash$|repr$|sum$|sorted$|ceil$|'
    r'product$|used$|is_empty$|is_full$|do_get_|decode$|encode$|to_bytes$|from_bytes$|bit_length$|'
    r'get$|get_sim_time$|__name__|can_)')
HOOKS = {'check_phase'}      # user hooks with a name of query form
REPORT = {
    'uvm_info': 'info', 'uvm_warning': 'warning', 'uvm_error': 'error', 'uvm_fatal': 'fatal',
    'uvm_report_info': 'info', 'uvm_report_warning': 'warning', 'uvm_report_error': 'error',
    'uvm_report_fatal': 'fatal', 'uvm_info_context': 'info', 'uvm_warning_context': 'warning',
    'uvm_error_context': 'error', 'uvm_fatal_context': 'fatal', 'print': 'info', 'm_uvm_report_dap': 'info',
    'uvm_debug': 'info', '_uvm_debug': 'info', 'uvm_warning_ext': 'warning',
}
STABLE_CALLS = {'get_name', 'get_full_name', 'get_parent', 'get_type_name', 'get_inst_id', 'get_type'}
SPAWN = {'start_soon', 'fork', 'start', 'create_task'}
MAXPATHS = 12000


class Undecided(Exception):
    pass


class Loop:
    """one summarised loop: iteration source + the effects of iterations that go on"""
    __slots__ = ('it', 'paths', 'kind', 'snap', 'lead', 'line', 'pre', 'inits')

    def __init__(self, it, paths, kind, snap=False, pre=None, inits=()):
        self.pre = pre
        self.inits = inits      # (carried value, what it is before the loop)
        self.it = it
        self.paths = paths
        self.kind = kind
        self.snap = snap

    def __repr__(self):
        return 'Loop(%s,%s,%s)' % (show(self.it), self.kind, [
            (p.facts.log, p.ev, p.upd) for p in self.paths])


FNS = []        # function values seen so far: (signature, paths); equal behaviour, equal number


def fn_number(head, paths):
    from equiv import Cmp
    for i, (h, ps) in enumerate(FNS):
        if h == head and not Cmp({}).paths(paths, ps, Facts()) and not Cmp({}).paths(ps, paths, Facts()):
            return i
    FNS.append((head, paths))
    return len(FNS) - 1


class Sub:
    """effects of a concurrently started body"""
    __slots__ = ('paths',)

    def __init__(self, paths):
        self.paths = paths

    def __repr__(self):
        return 'Sub(%s)' % [(p.facts.log, p.ev, p.out) for p in self.paths]


class Path:
    __slots__ = ('facts', 'ev', 'out', 'upd', 'line')

    def __init__(self, facts, ev, out, upd=()):
        self.facts = facts
        self.ev = ev
        self.out = out
        self.upd = upd


class St:
    __slots__ = ('env', 'heap', 'cver', 'facts', 'ev', 'objs', 'epoch', 'occ', 'exc', 'epk', 'esc')

    def __init__(self):
        self.env = {}
        self.heap = {}
        self.cver = {}
        self.facts = Facts()
        self.ev = ()
        self.objs = {}
        self.epoch = 0
        self.occ = {}
        self.exc = None
        self.epk = ''
        self.esc = {}      # local container -> places it has been stored in

    def copy(self):
        s = St.__new__(St)
        s.env = dict(self.env)
        s.heap = dict(self.heap)
        s.cver = dict(self.cver)
        s.facts = self.facts.copy()
        s.ev = self.ev
        s.objs = dict(self.objs)
        s.epoch = self.epoch
        s.occ = dict(self.occ)
        s.exc = self.exc
        s.epk = self.epk
        s.esc = dict(self.esc)
        return s


MUTATORS = {'append', 'add', 'insert', 'pop', 'remove', 'delete', 'clear', 'extend', 'push_back', 'push_front',
            'pop_front', 'pop_back', 'update', 'setdefault', 'sort', 'reverse', 'appendleft', 'popleft', 'popitem', 'discard'}


def mutated_attrs():
    """attribute names written outside constructors anywhere in the program"""
    p = program()
    c = getattr(p, '_mut_attrs', None)
    if c is None:
        c = set()
        for f in p.all_funcs():
            ctor = f.name in ('__init__', 'new')
            for n in ast.walk(f.node):
                ts = []
                if isinstance(n, ast.Assign):
                    ts = n.targets
                elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                    ts = [n.target]
                elif isinstance(n, ast.Delete):
                    ts = n.targets
                for t in ts:
                    for u in ([t] if not isinstance(t, (ast.Tuple, ast.List)) else t.elts):
                        if isinstance(u, ast.Attribute):
                            own = isinstance(u.value, ast.Name) and u.value.id in ('self', 'cls')
                            if not (ctor and own):
                                c.add(u.attr)
                        elif isinstance(u, ast.Subscript) and isinstance(u.value, ast.Attribute):
                            c.add(u.value.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS \
                        and isinstance(n.func.value, ast.Attribute):
                    c.add(n.func.value.attr)
        p._mut_attrs = c
    return c


def class_attrs():
    """class-level attribute names that are never assigned through self"""
    p = program()
    c = getattr(p, '_cls_attrs', None)
    if c is None:
        names, inst = {}, set()
        for m in p.modules.values():
            for k in m.classes.values():
                for a in k.attrs:
                    names.setdefault(a, k)
                for f in k.methods.values():
                    for n in ast.walk(f.node):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) \
                                and isinstance(n.value, ast.Name) and n.value.id == 'self':
                            inst.add(n.attr)
        c = {a: k for a, k in names.items() if a not in inst}
        p._cls_attrs = c
    return c


def getters():
    """method names whose every definition is `return <attribute chain of self>`"""
    p = program()
    g = getattr(p, '_getters', None)
    if g is None:
        g = {}
        for name, fs in p.meth_by_name.items():
            vals = set()
            for f in fs:
                b = body_of(f.node)
                if f.is_async or f.kind != 'inst' or len(f.params()) != 1 or len(b) != 1 \
                        or not isinstance(b[0], ast.Return) or b[0].value is None:
                    vals.add(None)
                    continue
                v = b[0].value
                if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id == f.params()[0]:
                    vals.add(v.attr)
                else:
                    vals.add(None)
            if len(vals) == 1 and None not in vals:
                g[name] = vals.pop()
        p._getters = g
    return g


def simple_methods():
    """methods whose body is a single `return <expression>` over attributes, constants and container sizes; a name
    qualifies when all definitions of it in the program are textually the same expression"""
    p = program()
    g = getattr(p, '_simple', None)
    if g is None:
        g = {}
        for name, fs in p.meth_by_name.items():
            srcs = set()
            for f in fs:
                b = body_of(f.node)
                ok = not f.is_async and f.kind == 'inst' and len(b) == 1 and isinstance(b[0], ast.Return) \
                    and b[0].value is not None and not f.node.args.kwarg and not f.node.args.vararg
                if ok:
                    for n in ast.walk(b[0].value):
                        if isinstance(n, ast.Call):
                            fn = n.func
                            nm = fn.id if isinstance(fn, ast.Name) else getattr(fn, 'attr', '')
                            if nm not in ('len', 'size', 'num', 'isinstance', 'exists'):
                                ok = False
                        elif isinstance(n, (ast.Await, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.JoinedStr, ast.Dict,
                                            ast.List)):
                            ok = False
                if name.startswith('__') or (b and isinstance(b[0], ast.Return) and isinstance(b[0].value, ast.Constant)):
                    ok = False
                srcs.add((ast.dump(b[0].value), tuple(f.params())) if ok else None)
            if len(srcs) == 1 and None not in srcs:
                g[name] = fs[0]
        p._simple = g
    return g


GONE = None


def gone():
    """contracts of functions the program no longer defines: name -> (reference body, class, module)"""
    global GONE
    if GONE is None:
        import runner
        GONE = {}
        p = program()
        for c in runner.all_contracts():
            t = c.target.split('@')[0]
            if ':' in t:
                m, f = t.split(':')
                if f not in p.func_by_name and m in p.modules:
                    GONE[f] = (c.node, None, p.modules[m])
            else:
                k, f = t.split('.')
                if f not in p.meth_by_name and k in p.classes:
                    GONE[f] = (c.node, p.classes[k], p.classes[k].mod)
    return GONE


def body_of(node):
    b = node.body
    if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
        b = b[1:]
    return b


CONTAINERS = {}


class Analyzer:
    def __init__(self, func, rule=None, node=None, spec=False, selfcls=None):
        self.p = program()
        self.func = func
        self.rule = rule or {}
        self.node = node or func.node
        self.spec = spec
        self.known = known_functions()
        self.selfcls = selfcls or func.cls
        self.inline = set(self.rule.get('inline', ()))
        self.opaque = set(self.rule.get('opaque', ()))
        self.pure = set(self.rule.get('pure', ()))
        self.impure = set(self.rule.get('impure', ()))
        self.types = self.rule.get('types', {})
        self.observed = self.rule.get('observed')     # None = all
        self.depth = 0
        self.frames = []
        self.loopdepth = 0
        self.undecided = []
        self.nclo = 0
        self.clos = {}
        self.inlined = set()
        self.npaths = 0
        self.nobj = 0
        self.mod = func.mod
        self.curcls = func.cls
        self.muts = mutated_attrs()
        if self.rule.get('stable'):
            self.muts = self.muts - set(self.rule['stable'])
        self.clsattrs = class_attrs()
        self.getters = getters()
        self.simple = simple_methods()
        self.stack = [func.qual]
        self.liveness = []
        self.lvcache = {}

    # ---------------------------------------------------------------- entry
    def run(self):
        st = St()
        ps = [a.arg for a in self.node.args.posonlyargs + self.node.args.args]
        ps += [a.arg for a in self.node.args.kwonlyargs]
        fps = self.func.params() + [a.arg for a in self.func.node.args.kwonlyargs]
        off = 0
        for i, a in enumerate(ps):
            st.env[a] = ('p', i)
        if self.func.kind in ('inst', 'prop') and ps:
            st.env[ps[0]] = ('p', 0)
        if self.func.kind == 'class' and ps:
            st.env[ps[0]] = ('C', self.func.cls.name)
        for va in (self.node.args.vararg, self.node.args.kwarg):
            if va is not None:
                st.env[va.arg] = ('va', va is self.node.args.kwarg)
        res = []
        for s in self.given(st):
            res.extend(self.block(body_of(self.node), s))
        out = []
        for s, o in res:
            if o is None:
                o = ('ret', NONE)
            if o[0] == 'ret':
                v = o[1]
                if self.rule.get('ret') == 'bool':
                    for s2, b in self.truth(v, s):
                        out.append(Path(s2.facts, s2.ev, ('ret', C(b))))
                    continue
                if self.rule.get('ret') == 'none':
                    # None vs. something
                    a = mk_none(self.resolve(v, s)) if v[0] != 'obj' else False
                    for s2, b in self.fork(a, s):
                        out.append(Path(s2.facts, s2.ev, ('ret', C(None) if b else C('value'))))
                    continue
                if self.rule.get('ret') is False:
                    out.append(Path(s.facts, s.ev, ('ret', NONE)))
                    continue
                o = ('ret', self.resolve(v, s))
            out.append(Path(s.facts, s.ev, o))
        return merge_paths([prune_upd(p) for p in merge_paths(out)])

    def given(self, st):
        """the entry states of the part of the input space the contract is restricted to"""
        if not self.rule.get('given'):
            return [st]
        spec, conds = self.rule['given']
        env = st.env
        st.env = {a.arg: ('p', i) for i, a in enumerate(spec.args.posonlyargs + spec.args.args + spec.args.kwonlyargs)}
        if self.func.kind == 'class' and spec.args.args:
            st.env[spec.args.args[0].arg] = ('C', self.func.cls.name)
        cur = [st]
        for c in conds:
            cur = [q for s in cur for q, b in self.cond(ast.parse(c, mode='eval').body, s) if b and q.exc is None]
        for q in cur:
            q.env = dict(env)
        return cur

    # ------------------------------------------------------------- statements
    def block(self, stmts, st, live=None):
        states = [(st, None)]
        done = []
        stmts = list(stmts)
        for idx, s in enumerate(stmts):
            nxt = []
            lv = set()
            for x in stmts[idx + 1:]:
                lv |= loads(x)
            if isinstance(s, (ast.Try, ast.For, ast.While, ast.AsyncFor)):
                lv |= loads(s)
            self.liveness.append(lv)
            try:
                for (q, o) in states:
                    nxt.extend(self.stmt(s, q))
            finally:
                self.liveness.pop()
            cont = []
            for (q, o) in nxt:
                if q.exc is not None:
                    e = q.exc
                    q.exc = None
                    done.append((q, ('raise', e)))
                elif o is not None:
                    done.append((q, o))
                else:
                    cont.append((q, o))
            if len(cont) > 1:
                used = self.used_after(stmts, idx)
                cont = self.merge(cont, used)
            states = cont
            if len(states) + len(done) > MAXPATHS:
                raise Undecided('path budget exceeded in %s' % self.func.qual)
            if not states:
                break
        return done + states

    def used_after(self, stmts, idx):
        names = set()
        for s in stmts[idx + 1:]:
            names |= loads(s)
        for fr in self.liveness:
            names |= fr
        return names

    def merge(self, states, used):
        """merge states that differ only in one complementary fact"""
        if len(states) < 2:
            return states
        groups = {}
        order = []
        for (s, o) in states:
            env = tuple(sorted(((k, v) for k, v in s.env.items() if used is None or k in used),
                               key=lambda kv: kv[0]))
            k = (env, evkey(s.ev), frozenset(s.heap.items()), frozenset(s.cver.items()), s.epoch, s.epk,
                 objkey(s.objs), okey(o), s.exc, frozenset(s.esc.items()))
            if k not in groups:
                groups[k] = []
                order.append(k)
            groups[k].append((s, o))
        out = []
        for k in order:
            g = groups[k]
            if len(g) > 1:
                g = merge_facts(g)
            out.extend(g)
        return out

    def stmt(self, s, st):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            self.unk(s, 'statement ' + type(s).__name__)
            return [(st, None)]
        return m(s, st)

    def unk(self, node, why):
        self.undecided.append((why, getattr(node, 'lineno', 0)))
        return ('unk', why)

    def s_Pass(self, s, st):
        return [(st, None)]

    s_Import = s_ImportFrom = s_Pass
    s_Assert = s_Pass

    def s_Global(self, s, st):
        return [(st, None)]

    s_Nonlocal = s_Global

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return [(st, None)]
        out = []
        for q, v in self.ev(s.value, st):
            out.append((q, None))
        return out

    def s_Assign(self, s, st):
        out = []
        for q, v in self.ev(s.value, st):
            if q.exc is not None:
                out.append((q, None))
                continue
            qs = [q]
            for t in s.targets:
                n = []
                for x in qs:
                    n.extend(self.assign(t, v, x, s.value))
                qs = n
            out.extend((x, None) for x in qs)
        return out

    def s_AnnAssign(self, s, st):
        if s.value is None:
            return [(st, None)]
        out = []
        for q, v in self.ev(s.value, st):
            for x in self.assign(s.target, v, q, s.value):
                out.append((x, None))
        return out

    def s_AugAssign(self, s, st):
        t = s.target
        # list += [..]
        node = ast.copy_location(ast.BinOp(left=as_load(t), op=s.op, right=s.value), s)
        out = []
        for q, v in self.ev(as_load(t), st):
            for q2, r in self.ev(s.value, q):
                if q2.exc is not None:
                    out.append((q2, None))
                    continue
                if isinstance(s.op, ast.Add) and (v[0] == 'obj' or r[0] in ('obj', 'list') or self.kind(v) == 'list'):
                    for q3, _ in self.mutcall('extend', v, [r], q2, s):
                        out.append((q3, None))
                    continue
                w = self.binop(s.op, v, r, q2, s)
                for x in self.assign(t, w, q2, None):
                    out.append((x, None))
        return out

    def assign(self, t, v, st, valnode):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
            g = self.global_decl(t.id)
            if g:
                self.emit(st, ('set', ('G', self.mod.name), t.id, self.resolve(v, st)))
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            qs = [st]
            for i, e in enumerate(t.elts):
                n = []
                for q in qs:
                    w = self.item(v, C(i), q)
                    n.extend(self.assign(e, w, q, None))
                qs = n
            return qs
        if isinstance(t, ast.Starred):
            return [st]
        if isinstance(t, ast.Attribute):
            out = []
            for q, b in self.ev(t.value, st):
                self.setattr(q, b, t.attr, v)
                out.append(q)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for q, b in self.ev(t.value, st):
                for q2, k in self.ev_index(t.slice, q):
                    self.setitem(q2, b, k, v)
                    out.append(q2)
            return out
        self.unk(t, 'assignment target')
        return [st]

    def global_decl(self, name):
        for n in ast.walk(self.frames[-1] if self.frames else self.node):
            if isinstance(n, ast.Global) and name in n.names:
                return True
        return False

    def base_norm(self, b, attr):
        """class attributes read through an instance or a subclass belong to the class"""
        if b[0] == 'C':
            c = self.p.classes.get(b[1])
            if c is not None:
                for k in self.p.mro(c):
                    if attr in k.attrs:
                        return ('C', k.name)
            return b
        if attr in self.clsattrs and b == ('p', 0) and self.selfcls is not None:
            for k in self.p.mro(self.selfcls):
                if attr in k.attrs:
                    return ('C', k.name)
        return b

    def setattr(self, st, b, attr, v):
        b = self.base_norm(b, attr)
        if b[0] == 'obj':
            self.objop(st, b, ('seta', attr, v))
            self.escape(st, v, ('o', b))
            return
        w = self.resolve(v, st)
        st.heap[('a', b, attr)] = v
        self.escape(st, v, ('a', b, attr))
        self.emit(st, ('set', b, attr, w))

    def setitem(self, st, b, k, v):
        k = self.resolve(k, st)
        if b[0] == 'obj':
            self.objop(st, b, ('seti', k, v))
            self.escape(st, v, ('o', b))
            return
        st.heap[('i', self.cont(b, st), k)] = v
        self.escape(st, v, ('i', b, k))
        if ('ver', b) in st.heap:
            pass
        st.facts.assume(('in', k, self.cont(b, st)), True) if st.facts.ask(('in', k, self.cont(b, st))) is None else None
        self.emit(st, ('seti', b, k, self.resolve(v, st)))

    def s_Delete(self, s, st):
        states = [st]
        for t in s.targets:
            nxt = []
            for q in states:
                if isinstance(t, ast.Name):
                    q.env.pop(t.id, None)
                    nxt.append(q)
                elif isinstance(t, ast.Subscript):
                    for q1, b in self.ev(t.value, q):
                        for q2, k in self.ev_index(t.slice, q1):
                            self.delitem(q2, b, k)
                            nxt.append(q2)
                elif isinstance(t, ast.Attribute):
                    for q1, b in self.ev(t.value, q):
                        self.emit(q1, ('dela', b, t.attr))
                        nxt.append(q1)
                else:
                    nxt.append(q)
            states = nxt
        return [(q, None) for q in states]

    def delitem(self, st, b, k):
        k = self.resolve(k, st)
        if b[0] == 'obj':
            self.objop(st, b, ('deli', k))
            return
        self.emit(st, ('deli', b, k))
        self.bump(st, b)
        st.heap.pop(('i', self.cont(b, st), k), None)

    def s_Return(self, s, st):
        if s.value is None:
            return [(st, ('ret', NONE))]
        out = []
        for q, v in self.ev(s.value, st):
            out.append((q, ('ret', v)))
        return out

    def s_Raise(self, s, st):
        nm = 'Exception'
        e = s.exc
        if isinstance(e, ast.Call):
            e = e.func
        if isinstance(e, ast.Name):
            nm = e.id
        elif isinstance(e, ast.Attribute):
            nm = e.attr
        return [(st, ('raise', nm))]

    def s_If(self, s, st):
        out = []
        for q, b in self.cond(s.test, st):
            if q.exc is not None:
                out.append((q, None))
                continue
            br = s.body if b else s.orelse
            out.extend(self.subblock(br, q))
        return out

    def subblock(self, stmts, q):
        if not stmts:
            return [(q, None)]
        return self.block(stmts, q)

    def s_Break(self, s, st):
        return [(st, ('brk',))]

    def s_Continue(self, s, st):
        return [(st, ('cnt',))]

    def s_FunctionDef(self, s, st):
        self.nclo += 1
        s._outer = self.frames[-1] if self.frames else self.node
        cid = ('clo', s.name, self.nclo)
        self.clos[cid] = (s, dict(st.env), self.curcls, self.mod)
        st.env[s.name] = cid
        return [(st, None)]

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s, st):
        st.env[s.name] = ('C', s.name)
        return [(st, None)]

    def s_With(self, s, st):
        states = [st]
        for it in s.items:
            nxt = []
            for q in states:
                for q2, v in self.ev(it.context_expr, q):
                    if it.optional_vars is not None:
                        nxt.extend(self.assign(it.optional_vars, v, q2, None))
                    else:
                        nxt.append(q2)
            states = nxt
        out = []
        for q in states:
            out.extend(self.subblock(s.body, q))
        return out

    s_AsyncWith = s_With

    def s_Try(self, s, st):
        out = []
        caught = []
        entry = st.copy()
        body = self.subblock(s.body, st)
        normal = []
        for q, o in body:
            if o is not None and o[0] == 'raise' and s.handlers:
                h = self.handler_for(s, o[1])
                if h is not None:
                    caught.append((q, h, o[1]))
                    continue
            normal.append((q, o))
        # an exception raised inside an operation of the body
        if s.handlers:
            tag = '+'.join(sorted(exc_name(h.type) for h in s.handlers))
            n = entry.occ.get(('exc', tag), 0)
            entry.occ[('exc', tag)] = n + 1
            atom = ('exc', tag, n)
            nn = []
            for q, o in normal:
                if q.facts.assume(atom, False):
                    nn.append((q, o))
            normal = nn
            q = entry
            if q.facts.assume(atom, True):
                for h in s.handlers:
                    q2 = q.copy()
                    if len(s.handlers) > 1:
                        if not q2.facts.assume(('exck', exc_name(h.type), n), True):
                            continue
                    caught.append((q2, h, None))
        for q, h, en in caught:
            if h.name:
                q.env[h.name] = ('excv', 0)
            rs = self.subblock(h.body, q)
            for q2, o in rs:
                normal.append((q2, o))
        if s.orelse:
            nn = []
            for q, o in normal:
                if o is None:
                    nn.extend(self.subblock(s.orelse, q))
                else:
                    nn.append((q, o))
            normal = nn
        if s.finalbody:
            for q, o in normal:
                for q2, o2 in self.subblock(s.finalbody, q):
                    out.append((q2, o2 if o2 is not None else o))
            return out
        return normal

    def handler_for(self, s, name):
        for h in s.handlers:
            if h.type is None:
                return h
            n = exc_name(h.type)
            if n in (name, 'Exception', 'BaseException'):
                return h
        return None

    # ------------------------------------------------------------------ loops
    def s_For(self, s, st):
        out = []
        for q, src in self.iter_source(s.iter, st):
            if q.exc is not None:
                out.append((q, None))
                continue
            out.extend(self.loop(q, src, s.target, s.body, s.orelse, s))
        return out

    s_AsyncFor = s_For

    def s_While(self, s, st):
        i = s.test
        i = [x.id for x in (i.left, i.comparators[0]) if isinstance(x, ast.Name)] if isinstance(i, ast.Compare) else []
        for v in i:
            iv = st.env.get(v)
            if iv is not None and iv[0] == 'c' and isinstance(iv[1], int) and not isinstance(iv[1], bool):
                f = as_for(s, v, iv[1])
                if f is not None:
                    return self.s_For(f, st)
        if isinstance(s.test, ast.Constant) and not s.test.value:
            return [(st, None)]
        body = list(s.body)
        test = None
        if not (isinstance(s.test, ast.Constant) and s.test.value):
            test = s.test
        else:
            body, test = rotate_while(body)
            if test is not None:
                test = ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=test), s)
        return self.loop(st, ('while',), None, body, s.orelse, s, test=test)

    def iter_source(self, it, st):
        """-> [(state, (kind, term, snap))]: kind one of seq, keys, items, values, range, rev"""
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name):
            fn = it.func.id
            if fn in ('list', 'tuple', 'iter', 'set') and len(it.args) == 1:
                return [(q, (k[0], k[1], True) + k[3:]) for q, k in self.iter_source(it.args[0], st)]
            if fn == 'sorted' and len(it.args) == 1:
                return [(q, ('seq', ('f', 'sorted', NONE, (k[1],)), True)) for q, k in self.iter_source(it.args[0], st)]
            if fn == 'reversed' and len(it.args) == 1:
                r = []
                for q, k in self.iter_source(it.args[0], st):
                    if k[0] == 'range' and len(k) == 3:
                        r.append((q, ('range', ('rev', k[1]), k[2])))
                    else:
                        r.append((q, (k[0], rev(k[1]), k[2])))
                return r
            if fn == 'enumerate' and len(it.args) == 1:
                return [(q, ('enum', k[1], k[2])) for q, k in self.iter_source(it.args[0], st)]
            if fn == 'range':
                return self.range_source(it.args, st)
            if fn == 'zip' and len(it.args) == 2:
                r = []
                for q, a in self.ev(it.args[0], st):
                    for q2, b in self.ev(it.args[1], q):
                        r.append((q2, ('zip', ('tup', (self.cont(a, q2), self.cont(b, q2))), False)))
                return r
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and not it.args:
            a = it.func.attr
            if a in ('items', 'keys', 'values'):
                r = []
                for q, b in self.ev(it.func.value, st):
                    r.append((q, ({'items': 'items', 'keys': 'seq', 'values': 'values'}[a], self.cont(b, q), False)))
                return r
            if a in ('copy', 'key_list') and not it.args:
                return [(q, (k[0], k[1], True)) for q, k in self.iter_source(it.func.value, st)]
            if a == 'get_queue':
                pass
        if isinstance(it, ast.Subscript) and isinstance(it.slice, ast.Slice) and it.slice.lower is None \
                and it.slice.upper is None:
            if it.slice.step is None:
                return [(q, (k[0], k[1], True)) for q, k in self.iter_source(it.value, st)]
            if isinstance(it.slice.step, ast.UnaryOp):
                return [(q, (k[0], rev(k[1]), True)) for q, k in self.iter_source(it.value, st)]
        r = []
        for q, v in self.ev(it, st):
            r.append((q, ('seq', self.cont(v, q), False)))
        return r

    def range_source(self, args, st):
        outs = [(st, [])]
        for a in args:
            n = []
            for q, vs in outs:
                for q2, v in self.ev(a, q):
                    n.append((q2, vs + [v]))
            outs = n
        r = []
        for q, vs in outs:
            if len(vs) == 1:
                lo, hi, stp = C(0), vs[0], C(1)
            elif len(vs) == 2:
                lo, hi, stp = vs[0], vs[1], C(1)
            else:
                lo, hi, stp = vs[0], vs[1], vs[2]
            if lo == C(0) and stp == C(1) and hi[0] == 'len':
                r.append((q, ('ix', hi[1], False)))
            elif stp == C(-1) and hi == C(-1) and add(lo, C(1))[0] == 'len':
                r.append((q, ('ix', rev(add(lo, C(1))[1]), False)))
            elif stp == C(-1):
                # n-1 .. m+1  ==  reversed(range(m+1, n))
                r.append((q, ('range', ('rev', ('range', add(hi, C(1)), add(lo, C(1)))), False)))
            else:
                r.append((q, ('range', ('range', lo, hi) if stp == C(1) else ('range', lo, hi, stp), False)))
        return r

    def loop(self, st, src, target, body, orelse, node, test=None):
        iswhile = src[0] == 'while'
        if not iswhile:
            kind, coll, snap = src[0], src[1], src[2]
            # known contents: unroll
            if coll[0] in ('list', 'tup') and kind in ('seq', 'enum', 'ix') and len(coll[1]) <= 8 \
                    and not any(e[0] in ('many', 'star') for e in coll[1]):
                return self.unroll(st, kind, coll[1], target, body, orelse)
            if coll[0] == 'c' and isinstance(coll[1], (tuple, str)) and len(coll[1]) <= 8 and kind in ('seq', 'enum', 'ix'):
                return self.unroll(st, kind, [C(v) for v in coll[1]], target, body, orelse)
            if coll[0] == 'range' and len(coll) == 3 and is_c(coll[1]) and is_c(coll[2]) \
                    and isinstance(coll[2][1], int) and isinstance(coll[1][1], int) and 0 <= coll[2][1] - coll[1][1] <= 4:
                return self.unroll(st, 'seq', [C(v) for v in range(coll[1][1], coll[2][1])], target, body, orelse)
            n = st.occ.get(('it', coll), 0)
            el = ('el', coll, n) if n else ('el', coll)
            ix = ('ix', coll, n) if n else ('ix', coll)
            if kind == 'range':
                iter_t = coll
                bind = el
            elif kind == 'ix':
                iter_t = coll
                bind = ix
            elif kind == 'enum':
                iter_t = coll
                bind = ('tup', (ix, el))
            elif kind == 'items':
                iter_t = coll
                bind = ('tup', (el, ('i', coll, el)))
            elif kind == 'values':
                iter_t = coll
                bind = ('i', coll, el)
            elif kind == 'zip':
                iter_t = coll
                bind = ('tup', (('el', coll[1][0]), ('el', coll[1][1])))
            else:
                iter_t = coll
                bind = el
            # rev index access
            if kind == 'ix' and coll[0] == 'rev':
                bind = ('ix', coll) if not n else ('ix', coll, n)
            if iter_t[0] != 'range' and iter_t[0] != 'rev' and kind != 'zip':
                a = mk_t(iter_t) if iter_t[0] not in ('obj',) else True
                if a is False:
                    return self.subblock(orelse, st) if orelse else [(st, None)]
        else:
            iter_t, bind, coll, kind, snap = ('while',), None, None, 'while', False
        d = self.loopdepth
        names = stores(body)
        if target is not None:
            names -= {x.id for x in ast.walk(target) if isinstance(x, ast.Name)}
        after = loads_after(self.frames[-1] if self.frames else self.node, node)
        carried_v, carried_h, carried_c, carried_o, epoch = set(), {}, set(), set(), False
        colours = {}
        induct = {}
        nind = 0
        self.loopdepth += 1
        try:
            for rnd in range(9):
                head = st.copy()
                head.ev = ()
                if epoch:
                    head.epoch = st.epoch + 1
                    head.heap = {}
                for v in carried_v:
                    head.env[v] = ('lv', d, colours.get(v, v))
                for v, t in induct.items():
                    head.env[v] = t
                for h in carried_h:
                    if h[0] == 'len':
                        # a container that grows or shrinks: its size is that of its next version
                        head.heap.pop(h, None)
                        if h[1] not in carried_c:
                            head.cver[h[1]] = head.cver.get(h[1], 0) + 1
                        continue
                    head.heap[h] = ('hv', h, d)
                for c in carried_c:
                    head.cver[c] = head.cver.get(c, 0) + 1
                    for h in [h for h in head.heap if h[0] == 'i' and root_cont(h[1]) == c]:
                        head.heap.pop(h)
                objs0 = dict(head.objs)
                for o in carried_o:
                    head.objs[o] = head.objs.get(o, ()) + (('loopacc', d),)
                base_objs = dict(head.objs)
                f0 = len(head.facts.log)
                body_states = []
                undl = len(self.undecided)
                starts = [(head.copy(), None)]
                if iswhile and test is not None:
                    starts = []
                    for q, b in self.cond(test, head.copy()):
                        if q.exc is not None:
                            e = q.exc
                            q.exc = None
                            body_states.append((q, ('raise', e)))
                        elif b:
                            starts.append((q, None))
                        else:
                            body_states.append((q, ('exit',)))
                if not iswhile and iter_t[0] not in ('range', 'rev') and kind != 'zip':
                    a = mk_t(iter_t)
                    if not isinstance(a, bool):
                        starts = [(q, o) for q, o in starts if q.facts.assume(a[0], a[1])]
                    f0 = len(starts[0][0].facts.log) if starts else f0
                    for q, o in starts:
                        if kind == 'seq':
                            pass
                for q, _ in starts:
                    qs = [q]
                    if target is not None:
                        qs = self.assign(target, bind, q, None)
                    for x in qs:
                        self.liveness.append(loads(node) | ({'%acc'}))
                        try:
                            body_states.extend(self.block(body, x))
                        finally:
                            self.liveness.pop()
                nxt, exits = [], []
                for q, o in body_states:
                    if o is None or o[0] == 'cnt':
                        ok = True
                        if iswhile and test is not None and rnd >= 0:
                            # a pass that ends with the guard false leaves the loop
                            t = q.copy()
                            u0 = len(self.undecided)
                            r = self.cond(test, t)
                            del self.undecided[u0:]
                            if len(r) == 1 and r[0][1] is False and r[0][0].exc is None and r[0][0].ev == q.ev:
                                exits.append((q, ('exit',)))
                                ok = False
                        if ok:
                            nxt.append((q, o))
                    else:
                        exits.append((q, o))
                # what changes on the passes that go on?
                nv, nh, nc, no, ne = set(carried_v), dict(carried_h), set(carried_c), set(carried_o), epoch
                if not iswhile and rnd > 0 and iter_t[0] not in ('range', 'tup'):
                    # counters that advance by one on every pass are the element's index
                    for v in list(nv):
                        cur = head.env.get(v)
                        init = st.env.get(v)
                        if v not in induct and init is not None and init[0] == 'c' and isinstance(init[1], int) and nxt \
                                and all(q.env.get(v) == add(cur, C(1)) for q, _ in nxt):
                            induct[v] = add(ix, init)
                            nv.discard(v)
                for q, _ in nxt:
                    if q.epoch != head.epoch:
                        ne = True
                    for v in names:
                        if v in induct:
                            continue
                        if v in head.env and q.env.get(v) != head.env.get(v):
                            nv.add(v)
                    for h, val in q.heap.items():
                        if head.heap.get(h) != val and not contains(h, lambda t: t == bind or (
                                t[0] in ('el', 'ix') and coll is not None and t[1:2] == (coll,))):
                            if root_new(h):
                                continue
                            nh[h] = True
                    for c, n in q.cver.items():
                        if head.cver.get(c, 0) != n and not contains(c, lambda t: t[0] in (
                                'el', 'ix') and coll is not None and t[1:2] == (coll,)):
                            nc.add(c)
                    for o in base_objs:
                        if q.objs.get(o) != base_objs.get(o):
                            no.add(o)
                ncol = self.colour(nv, st, nxt, head, d, colours)
                newind = len(induct) != nind
                nind = len(induct)
                if newind:
                    carried_v, carried_h, carried_c, carried_o, epoch, colours = nv, nh, nc, no, ne, ncol
                    continue
                if (nv, set(nh), nc, no, ne) == (carried_v, set(carried_h), carried_c, carried_o, epoch) \
                        and (rnd >= 3 or ncol == colours or not nv):
                    break
                carried_v, carried_h, carried_c, carried_o, epoch, colours = nv, nh, nc, no, ne, ncol
        finally:
            self.loopdepth -= 1
        # --- build the summary of passes that go on
        pname = {}
        base_log = set(head.facts.log)
        paths = []
        for q, o in nxt:
            pf = delta_facts(q.facts, base_log, head.facts.clauses)
            upd = tuple(sorted(((colours.get(v, v), self.resolve(q.env.get(v, NONE), q)) for v in carried_v
                                if self.relevant(v, colours, nxt, exits, after, d)), key=repr))
            upd += tuple(sorted((('h', key(h), self.resolve(q.heap.get(h, NONE), q)) for h in carried_h
                                 if self.obs_name(h[2] if h[0] == 'a' else cont_name(h[1]))), key=repr)) if False else ()
            ob = []
            for ob_id in base_objs:
                a, b = base_objs[ob_id], q.objs.get(ob_id)
                if b is not None and b != a and b[:len(a)] == a:
                    ob.append((objorder(ob_id), tuple(
                        tuple(self.resolve(y, q) if isinstance(y, tuple) else y for y in x) if isinstance(x, tuple) else x for x in b[len(a):])))
                elif b is not None and b != a:
                    ob.append((objorder(ob_id), ('?',)))
            paths.append((pf, q.ev, upd, tuple(ob)))
        evpaths = merge_paths([Path(pf, ev, ('next',), upd) for pf, ev, upd, ob in paths])
        interesting = any(p.ev or p.upd for p in evpaths)
        # passes that leave the loop: their effects are on the paths that go on from here
        leave = []
        for q, o in exits:
            pf = delta_facts(q.facts, base_log, head.facts.clauses)
            leave.append(Path(pf, (), ('exit',)))
        evpaths = evpaths + merge_paths(leave)
        lp = Loop(iter_t, evpaths, kind if kind in ('while',) else 'for', snap, st.facts.copy(), tuple(
            (colours.get(v, v), self.resolve(st.env.get(v, NONE), st)) for v in sorted(carried_v)))
        # object accumulation in loops
        out = []

        def finish(q, ended):
            q.ev = st.ev + ((('loop', lp),) if interesting else ()) + q.ev
            if self.observed is not None and False:
                pass

        # normal end
        res = []
        exit_guards = []
        for q, o in exits:
            g = [(a, v) for a, v in q.facts.log if (a, v) not in base_log]
            exit_guards.append(g)
        # accumulate objects
        accs = {}
        for ob_id in carried_o:
            per = []
            for pf, ev, upd, ob in paths:
                for (oid, delta) in ob:
                    if oid == objorder(ob_id):
                        per.append(Path(pf, tuple(('acc',) + (x if isinstance(x, tuple) else (x,)) for x in delta), ('next',)))
                        break
                else:
                    per.append(Path(pf, (), ('next',)))
            per = merge_paths(per)
            accs[ob_id] = ('many', iter_t, tuple(sorted((tuple(sorted(map(flatfact, p.facts.log), key=repr)), p.ev) for p in per if p.ev) if True else ()),)
        if not iswhile:
            q = head.copy()
            q.ev = ()
            for v in induct:
                q.env[v] = add(('len', iter_t), st.env[v])
            # facts about single elements do not outlive the loop
            q.facts = st.facts.copy() if not epoch else head.facts.copy()
            for g in exit_guards:
                if g:
                    q.facts.add_clause(g)
                else:
                    q.facts.add_clause([mk_t(iter_t)] if not isinstance(mk_t(iter_t), bool) and iter_t[0] not in ('range', 'rev') else [(('t', ('nonempty', iter_t)), True)])
            if q.facts.propagate():
                grown = {}
                for o in carried_o:
                    grown.update(self.escaped_state(st, o))
                for o in carried_o:
                    q.objs[o] = st.objs.get(o, ()) + (accs[o],)
                if isinstance(target, ast.Name) and target.id in after:
                    if getattr(node, '_fromwhile', False):
                        q.env[target.id] = self.length(coll, q) if kind == 'ix' else coll[2] if coll[0] == 'range' else (
                            'last', bind, st.env.get(target.id, NONE))
                    else:
                        q.env[target.id] = ('last', bind, st.env.get(target.id, NONE))
                finish(q, True)
                self.escaped_changes(q, grown)
                res.append((q, 'end'))
        for (q, o), g in zip(exits, exit_guards):
            q = q.copy()
            grown = {}
            for ob in carried_o:
                grown.update(self.escaped_state(st, ob))
            for ob_id in carried_o:
                if ob_id in q.objs:
                    q.objs[ob_id] = tuple(accs[ob_id] if x == ('loopacc', d) else x for x in q.objs[ob_id])
            if not iswhile:
                q.occ[('it', coll)] = q.occ.get(('it', coll), 0) + 1
            finish(q, False)
            self.escaped_changes(q, grown)
            res.append((q, o))
        if iswhile and not exits and nxt:
            # the loop never ends on its own
            q = head.copy()
            q.ev = ()
            q.facts = st.facts.copy()
            finish(q, False)
            res.append((q, ('raise', '%forever')))
        for q, o in res:
            if o == 'end' or o == ('exit',):
                if orelse:
                    out.extend(self.subblock(orelse, q))
                else:
                    out.append((q, None))
            elif o == ('brk',):
                out.append((q, None))
            else:
                out.append((q, o))
        # temporaries of the loop are not merged on
        return self.merge(out, None) if len(out) > 1 else out

    def lvs(self, x):
        """the loop-carried values x mentions"""
        hit = self.lvcache.get(id(x))
        if hit is None:
            hit = self.lvcache[id(x)] = (x, lv_terms(x))
        return hit[1]

    def relevant(self, v, colours, nxt, exits, after, d):
        if v in after:
            return True
        t = ('lv', d, colours.get(v, v))

        for q, o in nxt + exits:
            if t in self.lvs(q.ev) or t in self.lvs(q.facts.log) or (o is not None and t in self.lvs(o)):
                return True
            for w, val in q.env.items():
                if w != v and t in self.lvs(val):
                    return True
        return False

    def colour(self, names, st, nxt, head, d, old):
        if not names:
            return {}
        inv = {('lv', d, old.get(v, v)): v for v in names}
        col = {v: 'k%08x' % (zlib.crc32(key(self.resolve(st.env.get(v, NONE), st)).encode())) for v in names}
        ups = {}
        for v in names:
            ups[v] = [self.resolve(q.env.get(v, NONE), q) for q, _ in nxt]
        for _ in range(2):
            nc = {}
            for v in names:
                parts = set()
                for u in ups[v]:
                    w = subst(u, lambda t: ('lv', d, 'SELF' if inv[t] == v else col[inv[t]]) if t in inv else None)
                    parts.add(key(w))
                nc[v] = 'k%08x' % (zlib.crc32((col[v] + '|'.join(sorted(parts))).encode()))
            col = nc
        return col

    def unroll(self, st, kind, elems, target, body, orelse):
        cur = [(st, None)]
        done = []
        for i, e in enumerate(elems):
            nxt = []
            for q, _ in cur:
                v = e if kind == 'seq' else (('tup', (C(i), e)) if kind == 'enum' else C(i))
                for x in (self.assign(target, v, q, None) if target is not None else [q]):
                    self.liveness.append(set().union(*[loads(y) for y in body]) if body else set())
                    try:
                        rs = self.block(body, x)
                    finally:
                        self.liveness.pop()
                    for q2, o in rs:
                        if o is None or o[0] == 'cnt':
                            nxt.append((q2, None))
                        elif o[0] == 'brk':
                            done.append((q2, None))
                        else:
                            done.append((q2, o))
            cur = self.merge(nxt, None)
        for q, _ in cur:
            if orelse:
                done.extend(self.subblock(orelse, q))
            else:
                done.append((q, None))
        return done

    # ------------------------------------------------------------- conditions
    def fork(self, atom, st):
        if isinstance(atom, bool):
            return [(st, atom)]
        a, pol = atom
        r = st.facts.ask(a)
        if r is not None:
            return [(st, r == pol)]
        out = []
        other = st.copy()
        if st.facts.assume(a, pol) and (not st.facts.clauses or st.facts.propagate()):
            out.append((st, True))
        if other.facts.assume(a, not pol) and (not other.facts.clauses or other.facts.propagate()):
            out.append((other, False))
        return out

    def truth(self, v, st):
        if v[0] == 'obj':
            c = self.contents(v, st)
            if c is not None and c[0] == 'dict':
                return [(st, bool(c[1]))]
            if c is not None and c[0] == 'list':
                if any(e[0] != 'many' for e in c[1]):
                    return [(st, True)]
                if not c[1]:
                    return [(st, False)]
                out = []
                for e in c[1][:1]:
                    return self.fork((('t', ('acc', e)), True), st)
            v = self.resolve(v, st)
            if v[0] == 'newobj':
                return [(st, True)]
        if v[0] == 'list' or v[0] == 'dict' or v[0] == 'tup':
            return [(st, bool(v[1]))]
        if v[0] == 'unk' or v == ANY:
            return self.fork((('t', v), True), st)
        if v[0] == 'not':
            return [(q, not b) for q, b in self.truth(v[1], st)]
        return self.fork(mk_t(self.knownc(v, st)), st)

    def knownc(self, v, st):
        if v[0] in ('c', 'obj'):
            return v
        d = st.facts.dom.get(v)
        if d is not None and d.eq is not None:
            return d.eq
        if d is not None and d.none is True:
            return NONE
        return v

    def cond(self, n, st):
        if isinstance(n, ast.BoolOp):
            isand = isinstance(n.op, ast.And)
            cur = [(st, isand)]
            done = []
            for v in n.values:
                nxt = []
                for q, _ in cur:
                    for q2, b in self.cond(v, q):
                        if q2.exc is not None:
                            done.append((q2, False))
                        elif b == isand:
                            nxt.append((q2, b))
                        else:
                            done.append((q2, b))
                cur = nxt
            return cur + done
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return [(q, (not b)) for q, b in self.cond(n.operand, st)]
        if isinstance(n, ast.Compare):
            return self.compare(n, st)
        if isinstance(n, ast.NamedExpr):
            out = []
            for q, v in self.ev(n.value, st):
                q.env[n.target.id] = v
                out.extend(self.truth(v, q))
            return out
        if isinstance(n, ast.IfExp):
            out = []
            for q, b in self.cond(n.test, st):
                out.extend(self.cond(n.body if b else n.orelse, q))
            return out
        out = []
        for q, v in self.ev(n, st):
            if q.exc is not None:
                out.append((q, False))
            else:
                out.extend(self.truth(v, q))
        return out

    def compare(self, n, st):
        cur = []
        done = []
        for q, v in self.ev(n.left, st):
            cur.append((q, v))
        for i, (o, rn) in enumerate(zip(n.ops, n.comparators)):
            nxt = []
            for q, l in cur:
                if q.exc is not None:
                    done.append((q, False))
                    continue
                for q2, r in self.ev(rn, q):
                    if q2.exc is not None:
                        done.append((q2, False))
                        continue
                    for q3, b in self.cmp(o, l, r, q2, n):
                        if not b:
                            done.append((q3, False))
                        else:
                            nxt.append((q3, r))
            cur = nxt
        return [(q, True) for q, _ in cur] + done

    def cmp(self, o, l, r, st, node=None):
        if l[0] == 'unk' or r[0] == 'unk' or l == ANY or r == ANY:
            return self.fork((('t', ('unk', 'cmp', key(l), key(r))), True), st)
        if isinstance(o, (ast.In, ast.NotIn)):
            res = self.member(l, r, st)
            if isinstance(o, ast.NotIn):
                res = [(q, not b) for q, b in res]
            return res
        l = self.knownc(self.resolve(l, st) if l[0] != 'obj' else l, st)
        r = self.knownc(self.resolve(r, st) if r[0] != 'obj' else r, st)
        if isinstance(o, (ast.Is, ast.Eq, ast.IsNot, ast.NotEq)):
            pos = isinstance(o, (ast.Is, ast.Eq))
            if l[0] == 'obj' or r[0] == 'obj':
                other = r if l[0] == 'obj' else l
                me = l if l[0] == 'obj' else r
                if other == NONE:
                    return [(st, not pos)]
                l, r = self.resolve(l, st), self.resolve(r, st)
                for a, b in ((l, r), (r, l)):
                    if a == ('list', ()) and b[0] != 'list':
                        res = self.truth(b, st)
                        return [(q, (not x) == pos) for q, x in res]
            if r[0] in ('list', 'tup') and not r[1]:
                return [(q, (not x) == pos) for q, x in self.truth(l, st)]
            if l[0] == 'tup' and r[0] == 'tup' and len(l[1]) == len(r[1]):
                cur, done = [(st, True)], []
                for a, b in zip(l[1], r[1]):
                    nxt = []
                    for q, _ in cur:
                        for q2, x in self.cmp(ast.Eq(), a, b, q):
                            (nxt if x else done).append((q2, x))
                    cur = nxt
                return [(q, b == pos) for q, b in cur + done]
            at = mk_eq(l, r)
            res = self.fork(at, st)
            return [(q, b == pos) for q, b in res]
        if isinstance(o, ast.Lt):
            at = mk_lt(l, r)
        elif isinstance(o, ast.Gt):
            at = mk_lt(r, l)
        elif isinstance(o, ast.LtE):
            at = neg(mk_lt(r, l))
        elif isinstance(o, ast.GtE):
            at = neg(mk_lt(l, r))
        else:
            at = (('t', self.unk(node, 'comparison')), True)
        return self.fork(at, st)

    def member(self, k, c, st):
        if c[0] == 'obj':
            ct = self.contents(c, st)
            if ct is not None and ct[0] == 'list' and not any(e[0] == 'many' for e in ct[1]):
                c = ct
            elif ct is not None and ct[0] == 'dict' and not any(e[0] == 'many' for e in ct[1]):
                c = ('list', tuple(kk for kk, _ in ct[1]))
            else:
                c = self.resolve(c, st)
        if c[0] == 'c' and isinstance(c[1], (tuple, frozenset)):
            c = ('list', tuple(C(v) for v in sorted(c[1], key=repr)))
        if c[0] in ('list', 'tup', 'set'):
            cur, done = [st], []
            for e in c[1]:
                nxt = []
                for q in cur:
                    for q2, b in self.cmp(ast.Eq(), k, e, q):
                        if b:
                            done.append((q2, True))
                        else:
                            nxt.append(q2)
                cur = nxt
            return done + [(q, False) for q in cur]
        if c[0] == 'c' and k[0] == 'c':
            try:
                return [(st, k[1] in c[1])]
            except TypeError:
                pass
        if c[0] == 'dict':
            return self.member(k, ('list', tuple(kk for kk, _ in c[1])), st)
        k = self.knownc(self.resolve(k, st), st)
        ct = self.cont(c, st)
        if k[0] == 'el' and k[1] == ct:
            return [(st, True)]
        return self.fork((('in', k, ct), True), st)

    # ------------------------------------------------------------- containers
    def kind(self, t):
        """container kind of a term, from the attribute it was read from"""
        if t[0] == 'obj':
            return t[1]
        if t[0] in ('list', 'dict'):
            return t[0]
        if t[0] == 'a':
            k = CONTAINERS.get(t[2]) or self.p.attr_type(t[2])
            return k
        if t[0] == 'new' and t[1] in ('UVMQueue', 'UVMPool'):
            return t[1]
        if t[0] == 'new':
            c = self.p.classes.get(t[1])
            if c is not None:
                for k in self.p.mro(c):
                    if k.name in ('UVMQueue', 'UVMPool'):
                        return k.name
        if t[0] == 'm':
            return self.kind(t[1])
        if t[0] == 'i' and t[1][0] == 'a':
            return self.types.get(t[1][2] + '[]')
        return None

    def cont(self, t, st):
        """container term at its current content version"""
        if t[0] == 'obj':
            return self.resolve(t, st)
        n = st.cver.get(t, 0)
        if st.epoch and t[0] != 'a':
            n += 1000 * st.epoch
        return ("m", t, n) if n else t

    def bump(self, st, b):
        if b[0] == 'obj':
            return
        c = self.cont(b, st)
        for h in [h for h in st.heap if h[0] in ('i', 'len') and h[1] == c]:
            st.heap.pop(h)
        st.cver[b] = st.cver.get(b, 0) + 1

    def objop(self, st, o, opn):
        if o not in st.objs:
            return
        before = self.escaped_state(st, o)
        st.objs[o] = st.objs[o] + (opn,)
        self.escaped_changes(st, before)

    def escaped_state(self, st, o):
        """contents of a local container and of those it has been put in, if anything else can see them"""
        out = {}
        todo = [o]
        while todo:
            x = todo.pop()
            if x in out or x not in st.esc or x not in st.objs:
                continue
            if any(y[0] == 'loopacc' for y in st.objs[x] if isinstance(y, tuple)):
                continue    # judged after the loop
            out[x] = self.resolve(x, st)
            todo += [w[1] for w in st.esc[x] if w[0] == 'o']
        return out

    def escaped_changes(self, st, before):
        for x, was in before.items():
            self.escaped_change(st, x, was)

    def escape(self, st, v, where):
        if v[0] == 'obj' and v in st.objs:
            w = st.esc.get(v, ())
            if where not in w:
                st.esc[v] = w + (where,)

    def escaped_change(self, st, o, before):
        """a local container changed after it was stored somewhere: the change is visible there"""
        now = self.resolve(o, st)
        if now == before:
            return
        for w in st.esc.get(o, ()):
            if w[0] == 'a':
                if st.heap.get(w) == o:
                    self.emit(st, ('set', w[1], w[2], now))
            elif w[0] == 'i':
                if st.heap.get(('i', self.cont(w[1], st), w[2])) == o:
                    self.emit(st, ('seti', w[1], w[2], now))
            elif w[0] == 'e':
                i = len(st.ev) - 1
                while i >= 0 and st.ev[i][0] in ('set', 'seti', 'new', 'mut'):
                    if st.ev[i][0] == 'mut' and before in st.ev[i][3]:
                        e = st.ev[i]
                        e = e[:3] + (tuple(now if x == before else x for x in e[3]),)
                        st.ev = st.ev[:i] + (e,) + st.ev[i + 1:]
                        break
                    i -= 1
                else:
                    self.emit(st, ('mut', 'become', w[1], (before, now)))

    def newobj(self, st, kind, init=()):
        n = st.occ.get('obj', 0)
        st.occ['obj'] = n + 1
        o = ('obj', kind, self.depth, self.loopdepth, n)
        st.objs[o] = tuple(init)
        return o

    def contents(self, o, st):
        """known contents of a local container: ('list', elems) / ('dict', pairs) / None"""
        ops = st.objs.get(o)
        if ops is None:
            return None
        if o[1] == 'list':
            el = []
            for x in ops:
                k = x[0]
                if k == 'append':
                    el.append(x[1])
                elif k == 'insert0':
                    el.insert(0, x[1])
                elif k == 'seti' and is_c(x[1]) and isinstance(x[1][1], int) and -len(el) <= x[1][1] < len(el) \
                        and not any(e[0] == 'many' for e in el):
                    el[x[1][1]] = x[2]
                elif k == 'pop' and is_c(x[1]) and el and not any(e[0] == 'many' for e in el):
                    try:
                        el.pop(x[1][1])
                    except IndexError:
                        return None
                elif k == 'clear':
                    el = []
                elif k == 'deli' and is_c(x[1]) and el and not any(e[0] == 'many' for e in el):
                    try:
                        del el[x[1][1]]
                    except (IndexError, TypeError):
                        return None
                elif k == 'many':
                    el.append(x)
                elif k == 'extend' and x[1][0] == 'list':
                    el.extend(x[1][1])
                elif k == 'extend':
                    el.append(('many', x[1], ()))
                elif k == 'init':
                    el.append(('many', x[1], ()))
                else:
                    return None
            return ('list', tuple(el))
        if o[1] == 'dict':
            d = {}
            for x in ops:
                if x[0] == 'seti':
                    d[x[1]] = x[2]
                elif x[0] == 'deli':
                    d.pop(x[1], None)
                elif x[0] == 'clear':
                    d = {}
                else:
                    return None
            return ('dict', tuple(d.items()))
        return None

    def resolve(self, t, st):
        """structural value of a term (local containers replaced by contents)"""
        if not isinstance(t, tuple):
            return t
        if t[0] == 'obj':
            ops = st.objs.get(t)
            if ops and ops[0][0] == 'out':
                return ops[0] if len(ops) == 1 else ('list', ops)
            c = self.contents(t, st)
            if c is None:
                c = (t[1], tuple(ops or ()))
            return tuple([c[0], tuple(self.resolve(x, st) if isinstance(x, tuple) else x for x in c[1])])
        if t[0] == 'c':
            return t
        if t[0] == 'clo':
            return self.clo_term(t, st)
        if any(isinstance(x, tuple) and x for x in t):
            def f(x):
                if x and x[0] == 'obj':
                    return self.resolve(x, st)
                if x and x[0] == 'clo':
                    return self.clo_term(x, st)
                return None
            return subst(t, f)
        return t

    def clo_term(self, v, st):
        """a function value that escapes: named by what calling it does, whatever it is called"""
        if v not in self.clos:
            return v
        node, env, cls, mod = self.clos[v]
        if any(node is x for x in self.frames):
            return ('fnv', 'self')
        a = node.args
        ps = [('cp', i, self.depth) for i in range(len(a.posonlyargs + a.args))]
        q = st.copy()
        q.ev = ()
        q.epoch += 1
        q.heap = {h: x for h, x in q.heap.items() if root_new(h)}
        q.facts = Facts()
        q.exc = None
        res = self.inline_node(node, env, ps, {}, q, cls, mod, closure=True)
        paths = merge_paths([Path(x.facts, x.ev, ('ret', self.resolve(r, x)) if x.exc is None else ('raise', x.exc))
                             for x, r in res])
        head = (isinstance(node, ast.AsyncFunctionDef), len(ps), a.vararg is not None, a.kwarg is not None,
                tuple(repr(self.p.const_of(mod, d) or ast.unparse(d)) for d in a.defaults))
        return ('fnv', fn_number(head, paths))

    def length(self, v, st):
        if v[0] == 'obj':
            c = self.contents(v, st)
            if c is not None and not any(e[0] == 'many' for e in c[1]):
                return C(len(c[1]))
            return ('len', self.resolve(v, st))
        if v[0] in ('list', 'tup') and not any(e[0] == 'many' for e in v[1]):
            return C(len(v[1]))
        if v[0] == 'dict':
            return C(len(v[1]))
        if v[0] == 'c':
            try:
                return C(len(v[1]))
            except TypeError:
                return ('len', v)
        c = self.cont(v, st)
        if ('len', c) in st.heap:
            return st.heap[('len', c)]
        return ('len', c)

    def item(self, b, k, st):
        if b[0] == 'obj':
            ops = st.objs.get(b)
            if ops and ops[0][0] == 'out' and len(ops) == 1:
                kk = self.resolve(k, st)
                if kk[0] == 'ix' and kk[1] == ops[0]:
                    return ('el', ops[0]) + kk[2:]
                return ('i', ops[0], kk)
            c = self.contents(b, st)
            if c is not None and c[0] == 'list' and is_c(k) and isinstance(k[1], int) \
                    and not any(e[0] == 'many' for e in c[1]):
                try:
                    return c[1][k[1]]
                except IndexError:
                    return ('unk', 'index out of range')
            if c is not None and c[0] == 'dict' and not any(e[0] == 'many' for e in c[1]):
                kk = self.resolve(k, st)
                for a, v in c[1]:
                    if a == kk:
                        return v
            b = self.resolve(b, st)
        if b[0] in ('tup', 'list') and is_c(k) and isinstance(k[1], int) and not any(e[0] == 'many' for e in b[1]):
            try:
                return b[1][k[1]]
            except IndexError:
                return ('unk', 'index')
        if b[0] == 'c' and k[0] == 'c':
            try:
                return C(b[1][k[1]])
            except Exception:
                return ('unk', 'index')
        k = self.knownc(self.resolve(k, st), st)
        c = self.cont(b, st)
        if k[0] == 'lin' and self.kind(c) in ('list', 'UVMQueue'):
            # c[len(c)-n] is c[-n]
            cc, dd = to_lin(k)
            if dd == {('len', c): 1} and cc < 0:
                k = C(cc)
        h = ('i', c, k)
        if h in st.heap:
            return st.heap[h]
        if k[0] == 'ix' and k[1] == c:
            return ('el', c) + k[2:]
        if k[0] == 'ix' and k[1] == ('rev', c):
            return ('el', k[1]) + k[2:]
        if c[0] == 'rev' and k[0] == 'ix' and k[1] == c:
            return ('el', c) + k[2:]
        return h

    def attr(self, b, name, st):
        b = self.base_norm(b, name)
        if b[0] == 'obj':
            for x in reversed(st.objs.get(b, ())):
                if x[0] == 'seta' and x[1] == name:
                    return x[2]
            return ('a', self.resolve(b, st), name)
        h = ('a', b, name)
        if h in st.heap:
            return st.heap[h]
        if b[0] == 'new':
            pass
        if b[0] == 'C':
            c = self.p.classes.get(b[1])
            if c is not None and name in c.attrs and name not in self.muts:
                r = self.p.const_of(c.mod, c.attrs[name])
                if r is not None and not isinstance(r[1], (tuple, frozenset)):
                    return C(r[1])
        if st.epoch and name in self.muts:
            return ('a', b, name, st.epoch)
        return h

    # ------------------------------------------------------------------ events
    def obs_name(self, n):
        return self.observed is None or n in self.observed

    def emit(self, st, e):
        if self.observed is not None:
            k = e[0]
            if k == 'set':
                ok = e[2] in self.observed
            elif k in ('seti', 'deli', 'mut', 'dela'):
                c = e[2] if k == 'mut' else e[1]
                n = cont_name(c)
                ok = n in self.observed
                if k == 'dela':
                    ok = e[2] in self.observed
            elif k in ('call', 'await', 'spawn', 'new'):
                ok = e[1] in self.observed
            elif k == 'report':
                ok = ('!' + e[1]) in self.observed
            else:
                ok = True
            if not ok:
                return
        if e[0] in ('set', 'seti'):
            # an earlier store to the same place with nothing in between is dead
            ev = st.ev
            i = len(ev) - 1
            while i >= 0 and ev[i][0] in ('set', 'seti', 'new'):
                if ev[i][:3] == e[:3]:
                    st.ev = ev[:i] + ev[i + 1:]
                    break
                i -= 1
        st.ev = st.ev + (e,)

    # -------------------------------------------------------------- expressions
    def ev(self, n, st):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            return [(st, self.unk(n, 'expression ' + type(n).__name__))]
        return m(n, st)

    def ev_index(self, n, st):
        if isinstance(n, ast.Slice):
            cur = [(st, ())]
            for part in (n.lower, n.upper, n.step):
                nxt = []
                for q, vs in cur:
                    if part is None:
                        nxt.append((q, vs + (NONE,)))
                    else:
                        for q2, v in self.ev(part, q):
                            nxt.append((q2, vs + (self.knownc(v, q2),)))
                cur = nxt
            return [(q, ('slice', vs)) for q, vs in cur]
        return self.ev(n, st)

    def e_Constant(self, n, st):
        if n.value is Ellipsis:
            return [(st, ANY)]
        return [(st, C(n.value))]

    def e_Name(self, n, st):
        nm = n.id
        if nm in st.env:
            return [(st, st.env[nm])]
        return [(st, self.name(nm, n))]

    def name(self, nm, n=None):
        r = self.p.resolve_name(self.mod, nm)
        loc = self.local_imports().get(nm)
        if loc is not None:
            r = self.p.resolve_import(loc)
        if r is None:
            if nm in self.p.classes and self.spec:
                return ('C', nm)
            if self.spec:
                # constants of the implementation tree visible to contracts
                for m in self.p.modules.values():
                    if nm in m.assigns:
                        r = self.p.resolve_name(m, nm)
                        if r and r[0] == 'const':
                            return C(r[1])
                if nm in self.p.func_by_name:
                    return ('F', nm)
            return ('F', nm)
        if r[0] == 'const':
            return C(r[1])
        if r[0] == 'class' and r[1].name == 'sv' and False:
            return ('C', 'sv')
        if r[0] == 'class':
            return ('C', r[1].name)
        if r[0] == 'func':
            return ('F', r[1].name)
        if r[0] == 'module':
            return ('M', r[1].name)
        if r[0] == 'global':
            return ('a', ('G', r[1][0]), r[1][1])
        if r[0] == 'extern':
            return ('F', r[1].split('.')[-1])
        return ('F', nm)

    def local_imports(self):
        node = self.frames[-1] if self.frames else self.node
        c = getattr(node, '_imports', None)
        if c is None:
            from prog import import_bindings
            c = {}
            for x in ast.walk(node):
                if isinstance(x, (ast.Import, ast.ImportFrom)):
                    for l, t in import_bindings(x, self.mod.name, self.mod.is_pkg):
                        c[l] = t
            o = getattr(node, '_outer', None)
            while o is not None:
                for x in ast.walk(o):
                    if isinstance(x, (ast.Import, ast.ImportFrom)):
                        for l, t in import_bindings(x, self.mod.name, self.mod.is_pkg):
                            c.setdefault(l, t)
                o = getattr(o, '_outer', None)
            node._imports = c
        return c

    def e_Attribute(self, n, st):
        out = []
        for q, b in self.ev(n.value, st):
            if b[0] == 'M':
                m = self.p.modules[b[1]]
                sub = Analyzer.__new__(Analyzer)
                sub.__dict__ = dict(self.__dict__)
                sub.mod = m
                sub.frames = [ast.parse('')]
                out.append((q, sub.name(n.attr)))
                continue
            if b[0] == 'C':
                c = self.p.classes.get(b[1])
                if c is not None:
                    hit = False
                    for k in self.p.mro(c):
                        if n.attr in k.methods and n.attr not in k.attrs:
                            out.append((q, ('bm', b, n.attr)))
                            hit = True
                            break
                    if hit:
                        continue
            # property getters
            if b == ('p', 0) or b[0] == 'new':
                c = self.cls_of(b)
                f = self.p.method(c, n.attr, False) if c is not None else None
                if f is not None:
                    if f.kind == 'prop':
                        out.extend(self.inline_call(f, b, [], {}, q, n))
                    else:
                        out.append((q, ('bm', b, n.attr)))
                    continue
            out.append((q, self.attr(b, n.attr, q)))
        return out

    def cls_of(self, b):
        if b == ('p', 0) and self.func.cls is not None and self.func.kind != 'static':
            return self.selfcls
        if b[0] == 'new':
            return self.p.classes.get(b[1])
        if b[0] == 'C':
            return self.p.classes.get(b[1])
        if b[0] == 'a':
            t = self.types.get(b[2])
            if t:
                return self.p.classes.get(t)
        if b[0] in ('i', 'el') and b[1][0] == 'a':
            t = self.types.get(b[1][2] + '[]')
            if t:
                return self.p.classes.get(t)
        if b[0] == 'p':
            t = self.types.get('p%d' % b[1])
            if t:
                return self.p.classes.get(t)
        return None

    def e_Subscript(self, n, st):
        out = []
        for q, b in self.ev(n.value, st):
            if q.exc is not None:
                out.append((q, NONE))
                continue
            if b[0] in ('C', 'F'):
                out.append((q, b))
                continue
            for q2, k in self.ev_index(n.slice, q):
                if k[0] == 'slice':
                    if k[1] == (NONE, NONE, NONE):
                        out.append((q2, self.snapshot(b, q2)))
                    elif k[1] == (NONE, NONE, C(-1)):
                        out.append((q2, rev(self.cont(b, q2))))
                    else:
                        if b[0] == 'c' and all(is_c(x) for x in k[1]):
                            try:
                                out.append((q2, C(b[1][slice(*[x[1] for x in k[1]])])))
                                continue
                            except Exception:
                                pass
                        lo = k[1][0]
                        if lo == C(0):
                            k = ('slice', (NONE,) + k[1][1:])
                        out.append((q2, ('sl', self.cont(b, q2), k[1])))
                    continue
                if b[0] == 'dict' and not is_c(k):
                    for q3, v in self.dictitem(b, k, q2, None):
                        out.append((q3, v))
                    continue
                if b[0] == 'obj' and b[1] == 'dict':
                    c = self.contents(b, q2)
                    if c is not None and c[1] and not any(e[0] == 'many' for e in c[1]) and all(
                            is_c(a) for a, _ in c[1]) and not is_c(self.knownc(k, q2)):
                        out.extend(self.dictitem(c, k, q2, None))
                        continue
                out.append((q2, self.item(b, k, q2)))
        return out

    def dictitem(self, d, k, st, default):
        """constant-keyed dispatch table: fork on the key"""
        cur, out = [st], []
        for a, v in d[1]:
            nxt = []
            for q in cur:
                for q2, b in self.cmp(ast.Eq(), k, a, q):
                    if b:
                        out.append((q2, v))
                    else:
                        nxt.append(q2)
            cur = nxt
        for q in cur:
            if default is None:
                q.exc = 'KeyError'
                out.append((q, NONE))
            else:
                out.append((q, default))
        return out

    def snapshot(self, b, st):
        if b[0] == 'obj':
            return self.newobj(st, b[1], st.objs.get(b, ()))
        return self.cont(b, st)

    def e_BinOp(self, n, st):
        out = []
        for q, a in self.ev(n.left, st):
            for q2, b in self.ev(n.right, q):
                out.append((q2, self.binop(n.op, a, b, q2, n)))
        return out

    def binop(self, o, a, b, st, n):
        a = self.knownc(a, st)
        b = self.knownc(b, st)
        if a[0] == 'unk' or b[0] == 'unk':
            return ('unk', 'operand')
        if a == ANY or b == ANY:
            return ANY
        if a[0] == 'c' and b[0] == 'c':
            from prog import BINOPS
            try:
                return C(BINOPS[type(o)](a[1], b[1]))
            except Exception:
                return self.unk(n, 'constant expression')
        if isinstance(o, ast.Add):
            if is_str(a) or is_str(b):
                return cat(a, b)
            if a[0] in ('obj', 'list') or b[0] in ('obj', 'list'):
                r = self.newobj(st, 'list')
                for x in (a, b):
                    x = self.resolve(x, st)
                    if x[0] == 'list':
                        for e in x[1]:
                            self.objop(st, r, ('append', e) if e[0] != 'many' else e)
                    else:
                        self.objop(st, r, ('init', x))
                return r
            return add(self.resolve(a, st), self.resolve(b, st))
        if isinstance(o, ast.Sub):
            return add(a, b, -1)
        if isinstance(o, ast.Mult):
            if is_c(a) and isinstance(a[1], (int, float)) and not is_str(b):
                return scale(b, a[1])
            if is_c(b) and isinstance(b[1], (int, float)) and not is_str(a):
                return scale(a, b[1])
            if is_str(a) or is_str(b):
                return ('rep', a, b)
            return op('*', a, b)
        if isinstance(o, ast.Mod) and is_str(a):
            return self.percent(a, b, st)
        nm = {ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.LShift: '<<', ast.RShift: '>>',
              ast.BitOr: '|', ast.BitAnd: '&', ast.BitXor: '^', ast.Pow: '**'}.get(type(o))
        if nm is None:
            return self.unk(n, 'operator')
        if nm == '<<' and is_c(b) and isinstance(b[1], int) and b[1] >= 0:
            return scale(a, 1 << b[1])
        if nm == '**' and a == C(2):
            return op('<<', C(1), b)
        if nm in ('<<', '>>') and b == C(0):
            return a
        if nm == '//' and is_c(b) and isinstance(b[1], int) and b[1] > 0 and (b[1] & (b[1] - 1)) == 0:
            return op('>>', a, C(b[1].bit_length() - 1))
        if nm == '%' and is_c(b) and isinstance(b[1], int) and b[1] > 0 and (b[1] & (b[1] - 1)) == 0:
            return op('&', a, C(b[1] - 1))
        return op(nm, a, b)

    def percent(self, a, b, st):
        if a[0] != 'c':
            return cat(a, ('str', b))
        args = list(b[1]) if b[0] == 'tup' else [b]
        parts = re.split(r'%[-+ #0]*\d*(?:\.\d+)?([sdixXofgceub%])', a[1])
        out = []
        for i, p in enumerate(parts):
            if i % 2 == 0:
                out.append(C(p))
            elif p == '%':
                out.append(C('%'))
            else:
                v = args.pop(0) if args else ('unk', 'fmt')
                out.append(('str', self.resolve(v, st)) if p in 'sdiu' else ('fmt', p, self.resolve(v, st)))
        return cat(*out)

    def e_UnaryOp(self, n, st):
        if isinstance(n.op, ast.Not):
            return [(q, C(b)) for q, b in self.cond(n, st)]
        out = []
        for q, v in self.ev(n.operand, st):
            v = self.knownc(v, q)
            if isinstance(n.op, ast.USub):
                out.append((q, scale(v, -1)))
            elif isinstance(n.op, ast.Invert):
                if is_c(v) and isinstance(v[1], int):
                    out.append((q, C(~v[1])))
                else:
                    out.append((q, v[2][0] if v[0] == 'op' and v[1] == '~' else ('op', '~', (v,))))
            else:
                out.append((q, v))
        return out

    def e_BoolOp(self, n, st):
        isor = isinstance(n.op, ast.Or)
        cur = [st]
        out = []
        for i, v in enumerate(n.values):
            nxt = []
            last = i == len(n.values) - 1
            for q in cur:
                for q2, t in self.ev(v, q):
                    if last or q2.exc is not None:
                        out.append((q2, t))
                        continue
                    for q3, b in self.truth(t, q2):
                        if b == isor:
                            out.append((q3, t))
                        else:
                            nxt.append(q3)
            cur = nxt
        return out

    def e_Compare(self, n, st):
        return [(q, C(b)) for q, b in self.compare(n, st)]

    def e_IfExp(self, n, st):
        out = []
        for q, b in self.cond(n.test, st):
            if q.exc is not None:
                out.append((q, NONE))
            else:
                out.extend(self.ev(n.body if b else n.orelse, q))
        return out

    def e_NamedExpr(self, n, st):
        out = []
        for q, v in self.ev(n.value, st):
            q.env[n.target.id] = v
            out.append((q, v))
        return out

    def e_List(self, n, st):
        return self.seq(n, st, 'list')

    def e_Tuple(self, n, st):
        return self.seq(n, st, 'tup')

    def e_Set(self, n, st):
        return self.seq(n, st, 'set')

    def seq(self, n, st, k):
        cur = [(st, ())]
        for e in n.elts:
            nxt = []
            for q, vs in cur:
                if isinstance(e, ast.Starred):
                    for q2, v in self.ev(e.value, q):
                        nxt.append((q2, vs + (('star', v),)))
                    continue
                for q2, v in self.ev(e, q):
                    nxt.append((q2, vs + (v,)))
            cur = nxt
        if k == 'list':
            out = []
            for q, vs in cur:
                o = self.newobj(q, 'list')
                for v in vs:
                    self.objop(q, o, ('append', v) if v[0] != 'star' else ('extend', self.resolve(v[1], q)))
                out.append((q, o))
            return out
        return [(q, (k, vs)) for q, vs in cur]

    def e_Dict(self, n, st):
        cur = [(st, ())]
        for k, v in zip(n.keys, n.values):
            nxt = []
            for q, ps in cur:
                for q2, kv in (self.ev(k, q) if k is not None else [(q, NONE)]):
                    for q3, vv in self.ev(v, q2):
                        nxt.append((q3, ps + ((kv, vv),)))
            cur = nxt
        out = []
        for q, ps in cur:
            o = self.newobj(q, 'dict')
            for k, v in ps:
                self.objop(q, o, ('seti', self.resolve(k, q), v))
            out.append((q, o))
        return out

    def e_JoinedStr(self, n, st):
        cur = [(st, [])]
        for v in n.values:
            nxt = []
            for q, ps in cur:
                if isinstance(v, ast.Constant):
                    nxt.append((q, ps + [C(v.value)]))
                else:
                    for q2, t in self.ev(v.value, q):
                        sp = None
                        if v.format_spec is not None:
                            sp = ast.unparse(v.format_spec)
                        nxt.append((q2, ps + [('str', self.resolve(t, q2)) if sp is None else ('fmt', sp, self.resolve(t, q2))]))
            cur = nxt
        return [(q, cat(*ps)) for q, ps in cur]

    def e_Lambda(self, n, st):
        self.nclo += 1
        cid = ('clo', '<lambda>', self.nclo)
        f = ast.FunctionDef(name='<lambda>', args=n.args, body=[ast.copy_location(ast.Return(value=n.body), n)],
                            decorator_list=[], lineno=n.lineno, col_offset=0)
        f._outer = self.frames[-1] if self.frames else self.node
        self.clos[cid] = (f, dict(st.env), self.curcls, self.mod)
        return [(st, cid)]

    def e_ListComp(self, n, st):
        return self.comp(n, st, 'list')

    def e_SetComp(self, n, st):
        return self.comp(n, st, 'list')

    def e_GeneratorExp(self, n, st):
        return self.comp(n, st, 'list')

    def e_DictComp(self, n, st):
        o = self.newobj(st, 'dict')
        body = [ast.Assign(targets=[ast.Subscript(value=ast.Name(id='%acc', ctx=ast.Load()), slice=n.key, ctx=ast.Store())],
                           value=n.value)]
        return self.comp_run(n, st, o, body)

    def comp(self, n, st, k):
        o = self.newobj(st, 'list')
        body = [ast.Expr(value=ast.Call(func=ast.Attribute(value=ast.Name(id='%acc', ctx=ast.Load()), attr='append',
                                                           ctx=ast.Load()), args=[n.elt], keywords=[]))]
        return self.comp_run(n, st, o, body)

    def comp_run(self, n, st, o, body):
        for g in reversed(n.generators):
            for c in reversed(g.ifs):
                body = [ast.If(test=c, body=body, orelse=[])]
            body = [ast.For(target=g.target, iter=g.iter, body=body, orelse=[])]
        for b in body:
            ast.copy_location(b, n)
            ast.fix_missing_locations(b)
        saved = dict(st.env)
        st.env['%acc'] = o
        out = []
        for q, oc in self.stmt(body[0], st):
            env = dict(saved)
            q.env = env
            out.append((q, o))
        return out

    def search(self, n, st, kind, default=None):
        """any()/all()/next() over a generator as an early-exit loop"""
        g = n
        ret = ast.Return(value=g.elt if kind == 'next' else ast.Constant(value=(kind == 'any')))
        if kind == 'next':
            body = [ret]
        else:
            test = g.elt if kind == 'any' else ast.UnaryOp(op=ast.Not(), operand=g.elt)
            body = [ast.If(test=test, body=[ret], orelse=[])]
        for gg in reversed(g.generators):
            for c in reversed(gg.ifs):
                body = [ast.If(test=c, body=body, orelse=[])]
            body = [ast.For(target=gg.target, iter=gg.iter, body=body, orelse=[])]
        ast.copy_location(body[0], n)
        ast.fix_missing_locations(body[0])
        saved = dict(st.env)
        out = []
        for q, oc in self.stmt(body[0], st):
            q.env = dict(saved)
            if oc is not None and oc[0] == 'ret':
                out.append((q, oc[1]))
            elif kind == 'next':
                out.append((q, default if default is not None else NONE))
                if default is None:
                    q.exc = 'StopIteration'
            else:
                out.append((q, C(kind == 'all')))
        return out

    def e_Starred(self, n, st):
        return [(q, ('star', v)) for q, v in self.ev(n.value, st)]

    def e_Await(self, n, st):
        if isinstance(n.value, ast.Call):
            return self.call(n.value, st, awaited=True)
        out = []
        for q, v in self.ev(n.value, st):
            out.extend(self.do_await(q, ('expr', self.resolve(v, q)), NONE, ()))
        return out

    def do_await(self, st, name, recv, args):
        if isinstance(name, tuple):
            e = ('await', 'value', name, ())
        else:
            e = ('await', name, recv, args)
        self.emit(st, e)
        st.epoch += 1
        st.heap = {h: v for h, v in st.heap.items() if root_new(h)}
        st.cver = {}
        n = st.occ.get(('aw',) + e[1:], 0)
        st.occ[('aw',) + e[1:]] = n + 1
        return [(st, ('r', e[1], e[2], e[3], n))]

    # -------------------------------------------------------------------- calls
    def e_Call(self, n, st):
        return self.call(n, st, False)

    def args(self, n, st):
        cur = [(st, [], {})]
        for a in n.args:
            nxt = []
            for q, ps, ks in cur:
                for q2, v in self.ev(a, q):
                    nxt.append((q2, ps + [v], ks))
            cur = nxt
        for k in n.keywords:
            nxt = []
            for q, ps, ks in cur:
                for q2, v in self.ev(k.value, q):
                    d = dict(ks)
                    d[k.arg or '**'] = v
                    nxt.append((q2, ps, d))
            cur = nxt
        return cur

    def call(self, n, st, awaited):
        f = n.func
        # reports first: their arguments never matter
        nm = f.id if isinstance(f, ast.Name) else (f.attr if isinstance(f, ast.Attribute) else None)
        if nm in REPORT and not (isinstance(f, ast.Name) and f.id in st.env):
            if not self.rule.get('report_calls') or nm == 'print':
                self.emit(st, ('report', REPORT[nm]))
                if REPORT[nm] == 'fatal' and self.rule.get('fatal_stops'):
                    st.exc = '%fatal'       # the run ends here
                return [(st, NONE)]
        if isinstance(f, ast.Name):
            if f.id in st.env:
                return self.call_value(st.env[f.id], n, st, awaited)
            return self.call_name(f.id, n, st, awaited)
        if isinstance(f, ast.Attribute):
            # super().m()
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super':
                return self.super_call(f.attr, n, st, awaited)
            out = []
            for q, b in self.ev(f.value, st):
                if q.exc is not None:
                    out.append((q, NONE))
                    continue
                out.extend(self.call_method(b, f.attr, n, q, awaited))
            return out
        out = []
        for q, v in self.ev(f, st):
            out.extend(self.call_value(v, n, q, awaited))
        return out

    def call_value(self, v, n, st, awaited):
        out = []
        for q, ps, ks in self.args(n, st):
            if q.exc is not None:
                out.append((q, NONE))
            elif v[0] == 'clo' and v in self.clos:
                node, env, cls, mod = self.clos[v]
                out.extend(self.inline_node(node, env, ps, ks, q, cls, mod, closure=True))
            elif v[0] == 'bm':
                out.extend(self.invoke(v[1], v[2], ps, ks, q, n, awaited))
            elif v[0] == 'F':
                out.extend(self.apply_func(v[1], ps, ks, q, n, awaited))
            elif v[0] == 'C':
                out.extend(self.construct(v[1], ps, ks, q, n))
            else:
                out.extend(self.opaque_call('()', v, ps, ks, q, awaited, n))
        return out

    def super_call(self, name, n, st, awaited):
        out = []
        cls = self.curcls
        target = None
        if cls is not None:
            for k in self.p.mro(cls)[1:]:
                if name in k.methods:
                    target = k.methods[name]
                    break
        for q, ps, ks in self.args(n, st):
            sv = ('p', 0) if not self.frames or True else ('p', 0)
            sv = q.env.get(self.selfname(), ('p', 0))
            if target is not None and self.should_inline(target):
                out.extend(self.inline_call(target, sv, ps, ks, q, n, awaited))
            else:
                out.extend(self.opaque_call('super.' + name, NONE, ps, ks, q, awaited, n, fdef=target))
        return out

    def selfname(self):
        node = self.frames[-1] if self.frames else self.node
        a = node.args.posonlyargs + node.args.args
        return a[0].arg if a else 'self'

    def call_name(self, nm, n, st, awaited):
        # generators consumed by any/all/next/sum
        if nm in ('any', 'all') and len(n.args) == 1 and isinstance(n.args[0], (ast.GeneratorExp, ast.ListComp)):
            out = []
            for q, v in self.search(n.args[0], st, nm):
                out.append((q, v))
            return out
        if nm == 'next' and n.args and isinstance(n.args[0], ast.GeneratorExp):
            if len(n.args) > 1:
                out = []
                for q, d in self.ev(n.args[1], st):
                    out.extend(self.search(n.args[0], q, 'next', d))
                return out
            return self.search(n.args[0], st, 'next')
        if nm == 'ANY' and self.spec:
            return [(st, ANY)]
        if nm == 'assume' and self.spec:
            out = []
            for q, b in self.cond(n.args[0], st):
                if b:
                    out.append((q, NONE))
                else:
                    q.exc = '%assume'
                    out.append((q, NONE))
            return out
        if nm == 'isinstance':
            out = []
            for q, ps, ks in self.args(n, st):
                out.extend(self.isinst(ps[0], ps[1], q))
            return out
        v = self.name(nm, n)
        out = []
        if nm in BUILTINS and v == ('F', nm):
            for q, ps, ks in self.args(n, st):
                if q.exc is not None:
                    out.append((q, NONE))
                else:
                    out.extend(self.builtin(nm, ps, ks, q, n))
            return out
        for q, ps, ks in self.args(n, st):
            if q.exc is not None:
                out.append((q, NONE))
            elif v[0] == 'C':
                out.extend(self.construct(v[1], ps, ks, q, n))
            elif v[0] == 'F':
                out.extend(self.apply_func(v[1], ps, ks, q, n, awaited))
            else:
                out.extend(self.opaque_call('()', v, ps, ks, q, awaited, n))
        return out

    def isinst(self, x, c, st):
        if c[0] == 'tup':
            cur, done = [st], []
            for k in c[1]:
                nxt = []
                for q in cur:
                    for q2, v in self.isinst(x, k, q):
                        (done if v == TRUE else nxt).append((q2, v) if v == TRUE else q2)
                cur = nxt
            return done + [(q, FALSE) for q in cur]
        if x[0] == 'obj':
            return [(st, C(c == ('F', x[1])))]
        x = self.resolve(x, st)
        if x[0] == 'c':
            tn = type(x[1]).__name__
            if c[0] == 'F':
                return [(st, C(c[1] == tn or (c[1] == 'int' and tn == 'bool')))]
            return [(st, FALSE)]
        if x[0] == 'new' and c[0] == 'C':
            k = self.p.classes.get(x[1])
            if k is not None:
                return [(st, C(self.p.is_subclass(k, c[1])))]
        return [(q, C(b)) for q, b in self.fork((('isa', x, c), True), st)]

    def builtin(self, nm, ps, ks, st, n):
        if nm == 'len':
            return [(st, self.length(ps[0], st))]
        if nm == 'str':
            v = ps[0] if ps else C('')
            if v[0] == 'c':
                return [(st, C(str(v[1])))]
            return [(st, ('str', self.resolve(v, st)))]
        if nm == 'bool':
            return [(q, C(b)) for q, b in self.truth(ps[0], st)]
        if nm == 'int' and len(ps) == 1:
            v = ps[0]
            if v[0] == 'c':
                try:
                    return [(st, C(int(v[1])))]
                except Exception:
                    pass
            return [(st, ('f', 'int', NONE, (self.resolve(v, st),)))]
        if nm in ('min', 'max') and len(ps) == 2 and not ks:
            a, b = ps
            out = []
            for q, x in self.cmp(ast.Lt(), a, b, st):
                out.append((q, (a if x else b) if nm == 'min' else (b if x else a)))
            return out
        if nm in ('list', 'tuple', 'set', 'dict') and not ps:
            return [(st, self.newobj(st, 'dict' if nm == 'dict' else 'list'))]
        if nm in ('list', 'tuple') and len(ps) == 1:
            if ps[0][0] == 'obj':
                return [(st, self.snapshot(ps[0], st))]
            return [(st, self.cont(ps[0], st))]
        if nm == 'getattr' and len(ps) >= 2 and is_c(ps[1]) and isinstance(ps[1][1], str):
            return [(st, self.attr(ps[0], ps[1][1], st))]
        if nm == 'setattr' and len(ps) == 3 and is_c(ps[1]):
            self.setattr(st, ps[0], ps[1][1], ps[2])
            return [(st, NONE)]
        if nm in ('setattr', 'delattr') and ps:
            # attribute named at run time: kept as a call on the object
            self.emit(st, ('call', nm, self.resolve(ps[0], st), tuple(self.resolve(p, st) for p in ps[1:])))
            return [(st, NONE)]
        if nm == 'hasattr' and len(ps) == 2:
            return [(q, C(b)) for q, b in self.fork((('hasattr', self.resolve(ps[0], st), ps[1]), True), st)]
        if nm in ('any', 'all') and len(ps) == 1:
            t = ('f', nm, NONE, (self.resolve(ps[0], st),))
            return [(q, C(b)) for q, b in self.fork(mk_t(t), st)]
        if nm == 'callable':
            return [(q, C(b)) for q, b in self.fork((('callable', self.resolve(ps[0], st)), True), st)]
        if nm == 'range':
            return [(st, ('range', C(0), ps[0]) if len(ps) == 1 else ('range',) + tuple(ps))]
        if nm == 'reversed':
            return [(st, rev(self.cont(ps[0], st)))]
        t = ('f', nm, NONE, tuple(self.resolve(p, st) for p in ps) + tuple(
            ('kw', k, self.resolve(v, st)) for k, v in sorted(ks.items())))
        return [(st, t)]

    def construct(self, cname, ps, ks, st, n):
        c = self.p.classes.get(cname)
        if c is not None and self.p.is_subclass(c, 'UVMQueue') and False:
            pass
        args = self.bind_ctor(c, ps, ks, st) if c is not None else self.plain(ps, ks, st)
        k = ('new', cname, args)
        i = st.occ.get(k, 0)
        st.occ[k] = i + 1
        t = ('new', cname, args, i)
        self.emit(st, ('new', cname, args))
        if c is None and cname.endswith(('Error', 'Exception')):
            pass
        return [(st, t)]

    def bind_ctor(self, c, ps, ks, st):
        f = self.p.method(c, '__init__', False)
        if f is None:
            return self.plain(ps, ks, st)
        return self.bind(f, ps, ks, st, skip=1)

    def plain(self, ps, ks, st):
        return tuple(self.resolve(p, st) for p in ps) + tuple(
            ('kw', k, self.resolve(v, st)) for k, v in sorted(ks.items()))

    def bind(self, f, ps, ks, st, skip):
        """positional form of the arguments, defaults dropped from the tail"""
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args][skip:]
        if a.vararg or a.kwarg or any(p[0] == 'star' for p in ps) or len(ps) > len(names):
            return self.plain(ps, ks, st)
        defs = [None] * (len(names) - len(a.defaults)) + list(a.defaults) if len(a.defaults) <= len(names) else \
            list(a.defaults)[-len(names):] if names else []
        vals = []
        for i, nme in enumerate(names):
            if i < len(ps):
                v = self.resolve(ps[i], st)
            elif nme in ks:
                v = self.resolve(ks[nme], st)
            elif defs[i] is not None:
                v = self.default_value(f, defs[i])
            else:
                v = ('missing',)
            vals.append(v)
        while vals:
            i = len(vals) - 1
            if defs[i] is not None and self.default_value(f, defs[i]) == vals[i]:
                vals.pop()
            else:
                break
        extra = [k for k in ks if k not in names]
        return tuple(vals) + tuple(('kw', k, self.resolve(ks[k], st)) for k in sorted(extra))

    def default_value(self, f, node):
        r = self.p.const_of(f.mod, node)
        if r is not None:
            return C(r[1])
        if isinstance(node, (ast.List,)) and not node.elts:
            return ('list', ())
        if isinstance(node, ast.Dict) and not node.keys:
            return ('dict', ())
        return ('dflt', ast.unparse(node))

    # -- function and method calls
    def apply_func(self, nm, ps, ks, st, n, awaited):
        f = None
        r = self.p.resolve_name(self.mod, nm)
        if r is not None and r[0] == 'func':
            f = r[1]
        if f is None:
            fs = self.p.func_by_name.get(nm, [])
            if len(fs) == 1:
                f = fs[0]
        if nm in SPAWN:
            return self.spawn(ps, ks, st, n)
        if f is None and self.spec and nm not in self.p.func_by_name:
            r = self.gone_call(nm, NONE, ps, ks, st, awaited)
            if r is not None:
                return r
        if f is not None and self.should_inline(f):
            return self.inline_call(f, None, ps, ks, st, n, awaited)
        return self.opaque_call(nm, NONE, ps, ks, st, awaited, n, fdef=f)

    def gone_call(self, name, recv, ps, ks, st, awaited):
        """a function the source no longer has, as its own contract states it (used in contracts only)"""
        g = gone().get(name)
        if g is None or self.depth >= 8 or name in self.opaque or any(g[0] is x for x in self.frames):
            return None
        node, cls, mod = g
        args = list(ps)
        if cls is not None and node.args.args and node.args.args[0].arg in ('self', 'cls'):
            args = [('C', cls.name) if node.args.args[0].arg == 'cls' else recv] + args
        if isinstance(node, ast.AsyncFunctionDef) and not awaited:
            sub = Sub(self.sub_paths(lambda s: [(x, ('ret', v)) if x.exc is None else (x, ('raise', x.exc))
                                                for x, v in self.inline_node(node, {}, args, ks, s, cls, mod)], st))
            return [(st, ('coro', ('sub', sub), NONE, ()))]
        return self.inline_node(node, {}, args, ks, st, cls, mod)

    def fkey(self, f):
        return f.mod.name + ':' + f.qual

    def should_inline(self, f):
        if self.depth >= 8:
            return False
        if f.node is self.node or f.node is self.func.node or any(f.node is x for x in self.frames):
            return False
        if f.name in self.opaque or f.qual in self.opaque:
            return False
        if f.name in self.inline or f.qual in self.inline:
            return True
        return self.fkey(f) not in self.known

    def new_helper(self, name):
        """a method name that exists only in functions newer than the baseline"""
        fs = self.p.meth_by_name.get(name, [])
        if len(fs) == 1 and self.fkey(fs[0]) not in self.known and not any(
                f.startswith('') and f.endswith('.' + name) for f in ()):
            return fs[0]
        return None

    def call_method(self, b, name, n, st, awaited):
        out = []
        for q, ps, ks in self.args(n, st):
            if q.exc is not None:
                out.append((q, NONE))
                continue
            out.extend(self.invoke(b, name, ps, ks, q, n, awaited))
        return out

    def invoke(self, b, name, ps, ks, st, n, awaited):
        if b[0] == 'M':
            mod = self.p.modules[b[1]]
            if name in mod.funcs:
                f = mod.funcs[name]
                if self.should_inline(f):
                    return self.inline_call(f, None, ps, ks, st, n, awaited)
                return self.opaque_call(name, NONE, ps, ks, st, awaited, n, fdef=f)
            r = self.p.resolve_name(mod, name)
            if r and r[0] == 'class':
                return self.construct(r[1].name, ps, ks, st, n)
            return self.opaque_call(name, NONE, ps, ks, st, awaited, n)
        if b[0] == 'F' and b[1] in ('cocotb', 'sv', 'asyncio', 'utils') or (b[0] == 'C' and b[1] == 'sv'):
            if name in SPAWN:
                return self.spawn(ps, ks, st, n)
        if name in SPAWN and b[0] == 'F' and name in ('start_soon', 'create_task', 'fork'):
            return self.spawn(ps, ks, st, n)
        if b[0] == 'C' and b[1] == 'sv':
            r = self.sv_call(name, ps, ks, st, n)
            if r is not None:
                return r
        # resolve the callee
        c = self.cls_of(b)
        f = None
        if c is not None:
            f = self.p.method(c, name, False)
        if f is None and c is None:
            f = self.new_helper(name)
        if b[0] == 'C' and f is not None and f.kind == 'inst':
            # Base.m(self, ...)
            if ps:
                sv, rest = ps[0], ps[1:]
                if self.should_inline(f):
                    return self.inline_call(f, sv, rest, ks, st, n, awaited)
                up = sv == ('p', 0) and self.selfcls is not None and self.p.is_subclass(self.selfcls, b[1])
                return self.opaque_call(('super.' if up else '') + name, NONE if up else sv, rest, ks, st, awaited, n, fdef=f)
        if f is not None and self.should_inline(f):
            return self.inline_call(f, b, ps, ks, st, n, awaited)
        if self.spec and name not in self.p.meth_by_name:
            r = self.gone_call(name, b, ps, ks, st, awaited)
            if r is not None:
                return r
        if not awaited:
            r = self.container_call(b, name, ps, ks, st, n)
            if r is not None:
                return r
        if name in self.getters and not ps and not ks and name not in self.opaque and not awaited:
            return [(st, self.attr(b, self.getters[name], st))]
        sf = self.simple.get(name)
        if sf is not None and not awaited and name not in self.opaque and b[0] not in ('C', 'M', 'F') and self.depth < 8:
            return self.inline_call(sf, b, ps, ks, st, n, awaited)
        bb = self.base_of_class(b, name)
        return self.opaque_call(name, bb, ps, ks, st, awaited, n, fdef=f)

    def base_of_class(self, b, name):
        if b[0] == 'C':
            c = self.p.classes.get(b[1])
            if c is not None:
                for k in self.p.mro(c):
                    if name in k.methods:
                        return ('C', k.name)
        return b

    def sv_call(self, name, ps, ks, st, n):
        if name == 'sformatf' and ps:
            a = ps[0]
            if a[0] == 'c':
                return [(st, self.percent(C(re.sub(r'%0?(\d*)([a-z])', r'%\2', str(a[1]))), ('tup', tuple(ps[1:])), st))]
            return [(st, ('f', 'sformatf', NONE, tuple(self.resolve(p, st) for p in ps)))]
        if name == 'cast' and len(ps) == 3:
            out = []
            for q, v in self.isinst(ps[1], ps[2], st):
                if v == TRUE:
                    for q2, _ in self.mutcall('append', ps[0], [ps[1]], q, n):
                        out.append((q2, C(1)))
                else:
                    out.append((q, C(0)))
            return out
        return None

    def isconst_str(self, t):
        return t[0] == 'c' and isinstance(t[1], str)

    def container_call(self, b, name, ps, ks, st, n):
        """list/dict/UVMQueue/UVMPool operations in one vocabulary"""
        k = self.kind(b)
        if is_str(b) and name in ('join',) and len(ps) == 1:
            return [(st, ('join', b, self.resolve(ps[0], st)))]
        if is_str(b) and name == 'format':
            if b[0] == 'c' and not ks:
                parts = re.split(r'\{\}', b[1])
                if len(parts) == len(ps) + 1 and '{' not in ''.join(parts):
                    o = [C(parts[0])]
                    for p, s in zip(ps, parts[1:]):
                        o += [('str', self.resolve(p, st)), C(s)]
                    return [(st, cat(*o))]
            return [(st, ('f', 'format', b, self.plain(ps, ks, st)))]
        if name in ('append', 'push_back') and len(ps) == 1:
            return self.mutcall('append', b, ps, st, n)
        if name == 'push_front' and len(ps) == 1:
            return self.mutcall('insert0', b, ps, st, n)
        if name == 'insert' and len(ps) == 2:
            if ps[0] == C(0):
                return self.mutcall('insert0', b, ps[1:], st, n)
            return self.mutcall('insert', b, ps, st, n)
        if name == 'pop_front' and not ps and b[0] != 'obj':
            return self.mutcall('pop', b, [C(0)], st, n)
        if name == 'pop_front' and not ps:
            return self.mutcall('pop', b, [C(0)], st, n)
        if name == 'pop_back' and not ps:
            return self.mutcall('pop', b, [C(-1)], st, n)
        if name == 'pop' and len(ps) <= 1 and (k in ('list', 'UVMQueue') or b[0] == 'obj' or not ps):
            return self.mutcall('pop', b, ps or [C(-1)], st, n)
        if name == 'pop' and k == 'dict':
            kk = self.resolve(ps[0], st)
            if len(ps) == 2:
                out = []
                for q, inn in self.member(kk, b, st):
                    if inn:
                        v = self.item(b, kk, q)
                        self.delitem(q, b, kk)
                        out.append((q, v))
                    else:
                        out.append((q, ps[1]))
                return out
            v = self.item(b, kk, st)
            self.delitem(st, b, kk)
            return [(st, v)]
        if name in ('clear',) and not ps and (k is not None):
            return self.mutcall('clear', b, [], st, n)
        if name == 'extend' and len(ps) == 1:
            return self.mutcall('extend', b, ps, st, n)
        if name == 'remove' and len(ps) == 1 and k in ('list', 'obj'):
            return self.mutcall('remove', b, ps, st, n)
        if name in ('size', 'num') and not ps and (k in ('UVMQueue', 'UVMPool', 'list')):
            return [(st, self.length(b, st))]
        if name == 'exists' and len(ps) == 1 and (k in ('UVMPool', None) and b[0] != 'p' or k == 'UVMPool'):
            if k == 'UVMPool':
                return [(q, C(x)) for q, x in self.member(ps[0], b, st)]
        if name == 'add' and len(ps) == 2 and k == 'UVMPool':
            self.setitem(st, b, ps[0], ps[1])
            return [(st, NONE)]
        if name == 'delete' and k in ('UVMPool', 'UVMQueue', 'dict') and len(ps) == 1:
            self.delitem(st, b, ps[0])
            return [(st, NONE)]
        if name == 'delete' and k in ('UVMQueue', 'UVMPool') and not ps:
            return self.mutcall('clear', b, [], st, n)
        if name == 'get' and k in ('UVMPool', 'UVMQueue') and len(ps) == 1:
            return [(st, self.item(b, ps[0], st))]
        if name == 'get' and (k == 'dict') and len(ps) in (1, 2):
            d = ps[1] if len(ps) == 2 else NONE
            if b[0] == 'obj':
                c = self.contents(b, st)
                if c is not None and not any(e[0] == 'many' for e in c[1]) and all(is_c(a) for a, _ in c[1]):
                    return self.dictitem(c, ps[0], st, d)
            out = []
            for q, inn in self.member(ps[0], b, st):
                out.append((q, self.item(b, self.resolve(ps[0], q), q) if inn else d))
            return out
        if name == 'setdefault' and k == 'dict' and len(ps) == 2:
            out = []
            for q, inn in self.member(ps[0], b, st):
                if not inn:
                    self.setitem(q, b, ps[0], ps[1])
                out.append((q, self.item(b, self.resolve(ps[0], q), q)))
            return out
        if name == 'copy' and not ps and (k in ('list', 'dict') or b[0] == 'obj'):
            return [(st, self.snapshot(b, st))]
        if name == 'keys' and not ps:
            return [(st, self.cont(b, st) if b[0] != 'obj' else b)]
        if name == 'add' and len(ps) == 1 and k == 'set':
            return self.mutcall('append', b, ps, st, n)
        return None

    def mutcall(self, opn, b, ps, st, n):
        args = [self.resolve(p, st) for p in ps]
        if b[0] == 'obj':
            if opn == 'pop':
                c = self.contents(b, st)
                if c is not None and c[0] == 'list' and c[1] and not any(e[0] == 'many' for e in c[1]) and is_c(args[0]):
                    try:
                        v = c[1][args[0][1]]
                    except IndexError:
                        v = ('unk', 'pop')
                    self.objop(st, b, ('pop', args[0]))
                    return [(st, v)]
                v = ('i', self.resolve(b, st), args[0])
                self.objop(st, b, ('pop', args[0]))
                return [(st, v)]
            if opn in ('append', 'insert0'):
                self.objop(st, b, (opn, ps[0]))
                self.escape(st, ps[0], ('o', b))
            else:
                self.objop(st, b, (opn,) + tuple(args))
            return [(st, NONE)]
        v = NONE
        ln = self.length(b, st)
        if opn == 'pop':
            v = self.item(b, args[0], st)
        self.emit(st, ('mut', opn, b, tuple(args)))
        for p in ps:
            self.escape(st, p, ('e', b))
        self.bump(st, b)
        c = self.cont(b, st)
        if opn in ('append', 'insert0', 'insert'):
            st.heap[('len', c)] = add(ln, C(1))
            st.facts.assume(('t', c), True)
        elif opn in ('pop', 'remove'):
            st.heap[('len', c)] = add(ln, C(-1))
        elif opn == 'clear':
            st.heap[('len', c)] = C(0)
            st.facts.assume(('t', c), False)
        if opn == 'insert0':
            st.heap[('i', c, C(0))] = ps[0]
        if opn == 'append':
            st.heap[('i', c, C(-1))] = ps[0]
        return [(st, v)]

    def spawn(self, ps, ks, st, n):
        if n.args and isinstance(n.args[0], ast.Call):
            c = n.args[0]
            f = c.func
            out = []
            if isinstance(f, ast.Name) and f.id in st.env and st.env[f.id][0] == 'clo':
                node, env, cls, mod = self.clos[st.env[f.id]]
                return self.spawn_body(node, env, c, st, cls, mod)
        v = ps[0] if ps else NONE
        return self.spawn_value(v, st)

    def spawn_value(self, v, st):
        v = self.resolve(v, st)
        if v[0] == 'coro':
            if v[1] is not None and v[1][0] == 'sub':
                self.emit_sub(st, v[1][1])
                return [(st, ('task', '()', NONE, (), 0))]
            e = ('spawn', v[1], v[2], v[3])
        else:
            e = ('spawn', 'value', v, ())
        self.emit(st, e)
        k = ('sp',) + e[1:]
        n = st.occ.get(k, 0)
        st.occ[k] = n + 1
        return [(st, ('task', e[1], e[2], e[3], n))]

    def sub_paths(self, run, st):
        """effects of a body that runs concurrently"""
        q = st.copy()
        q.ev = ()
        q.epoch += 1
        q.heap = {h: v for h, v in q.heap.items() if root_new(h)}
        base = set(q.facts.log)
        res = run(q)
        out = []
        for s, o in res:
            f = Facts()
            for a, v in s.facts.log:
                if (a, v) not in base:
                    f.assume(a, v)
            out.append(Path(f, s.ev, ('ret', NONE) if o is None or o[0] == 'ret' else o))
        return merge_paths(out)

    def spawn_body(self, node, env, c, st, cls, mod):
        out = []
        for q, ps, ks in self.args(c, st):
            def run(s):
                return [(x, ('ret', v)) if x.exc is None else (x, ('raise', x.exc))
                        for x, v in self.inline_node(node, env, ps, ks, s, cls, mod, closure=True)]
            sub = Sub(self.sub_paths(run, q))
            self.emit_sub(q, sub)
            out.append((q, ('task', '()', NONE, (), 0)))
        return out

    def emit_sub(self, st, sub):
        if any(p.ev for p in sub.paths):
            st.ev = st.ev + (('spawnsub', sub),)

    def is_pure(self, name, ps, recv):
        if name in self.impure:
            return False
        if name in self.pure:
            return True
        return bool(PURE.match(name)) and name not in HOOKS

    def opaque_call(self, name, recv, ps, ks, st, awaited, n, fdef=None):
        short = name.split('.')[-1]
        if fdef is None and recv != NONE and not ks == {}:
            fdef = self.unique_sig(short)
        elif fdef is None and recv != NONE:
            fdef = self.unique_sig(short)
        if fdef is not None:
            skip = 1 if fdef.cls is not None and fdef.kind != 'static' else 0
            args = self.bind(fdef, ps, ks, st, skip)
        else:
            args = self.plain(ps, ks, st)
        recv = self.resolve(recv, st)
        if awaited:
            r = self.do_await(st, name, recv, args)
            self.outparams(name, recv, args, ps, ks, st)
            return r
        if fdef is not None and fdef.is_async:
            return [(st, ('coro', name, recv, args))]
        if short in self.coros():
            return [(st, ('coro', name, recv, args))]
        if self.is_pure(short, ps, recv):
            t = ('f', name, recv, args)
            if st.epoch and short not in STABLE_CALLS and not (recv == NONE and short in BUILTINS) and recv[0] != 'c':
                t = t + (st.epoch,)
            self.outparams(name, recv, args, ps, ks, st)
            return [(st, t)]
        e = ('call', name, recv, args)
        self.emit(st, e)
        i = st.occ.get(e, 0)
        st.occ[e] = i + 1
        self.outparams(name, recv, args, ps, ks, st)
        if name in self.rule.get('yields', ()):
            # a user hook: whatever it may change is read again afterwards
            st.epoch += 1
            st.heap = {h: v for h, v in st.heap.items() if root_new(h)}
            st.cver = {}
        hv = self.rule.get('havoc', {}).get(name)
        if hv:
            st.heap = {h: v for h, v in st.heap.items() if not (h[0] == 'a' and h[2] in hv)}
        return [(st, ('r', name, recv, args, i))]

    def coros(self):
        c = getattr(self.p, '_coros', None)
        if c is None:
            c = set()
            for nm, fs in self.p.meth_by_name.items():
                if all(f.is_async for f in fs):
                    c.add(nm)
            self.p._coros = c
        return c

    def unique_sig(self, name):
        fs = self.p.meth_by_name.get(name, [])
        if not fs:
            return None
        sig = {ast.dump(f.node.args) for f in fs if f.kind == 'inst'}
        if len(sig) == 1 and all(f.kind == 'inst' for f in fs):
            return fs[0]
        names = {tuple(f.params()) for f in fs if f.kind == 'inst'}
        return None

    def outparams(self, name, recv, args, ps, ks, st):
        for i, p in enumerate(list(ps) + [ks[k] for k in sorted(ks)]):
            if p[0] == 'obj' and p in st.objs:
                st.objs[p] = (('out', name, recv, args, i, st.epoch),)

    # -- inlining
    def inline_call(self, f, selfv, ps, ks, st, n, awaited=False):
        args = list(ps)
        if f.cls is not None and f.kind in ('inst', 'prop'):
            args = [selfv if selfv is not None else NONE] + args
        elif f.cls is not None and f.kind == 'class':
            args = [('C', f.cls.name if selfv is None or selfv[0] != 'C' else selfv[1])] + args
        self.inlined.add(self.fkey(f))
        if f.is_async and not awaited:
            # created, not run: becomes a concurrent body when started
            def run(s):
                return [(x, ('ret', v)) if x.exc is None else (x, ('raise', x.exc))
                        for x, v in self.inline_node(f.node, {}, args, ks, s, f.cls, f.mod)]
            sub = Sub(self.sub_paths(run, st))
            return [(st, ('coro', ('sub', sub), NONE, ()))]
        return self.inline_node(f.node, {}, args, ks, st, f.cls, f.mod)

    def inline_node(self, node, env, args, ks, st, cls, mod, closure=False):
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        caller_env = st.env
        ne = dict(env) if closure else {}
        if closure:
            # closures see current values of the enclosing frame
            ne = dict(env)
        defs = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for x, dft in zip(a.kwonlyargs, a.kw_defaults):
            names.append(x.arg)
            if dft is not None:
                defs[x.arg] = dft
        for i, nm in enumerate(names):
            if i < len(args):
                ne[nm] = args[i]
            elif nm in ks:
                ne[nm] = ks[nm]
            elif nm in defs:
                r = self.p.const_of(mod, defs[nm])
                if r is not None:
                    ne[nm] = C(r[1])
                elif isinstance(defs[nm], ast.List) and not defs[nm].elts:
                    ne[nm] = ('list', ())
                else:
                    ne[nm] = ('dflt', ast.unparse(defs[nm]))
            else:
                ne[nm] = ('unk', 'missing argument')
        if a.vararg is not None:
            ne[a.vararg.arg] = ('tup', tuple(args[len(names):]))
        if a.kwarg is not None:
            ne[a.kwarg.arg] = ('va', True)
        st.env = ne
        sm, sc = self.mod, self.curcls
        self.mod, self.curcls = mod, cls
        self.frames.append(node)
        self.depth += 1
        lv, self.liveness = self.liveness, []
        if self.depth > 12:
            raise Undecided('inlining too deep')
        try:
            res = self.block(body_of(node), st)
        finally:
            self.depth -= 1
            self.frames.pop()
            self.mod, self.curcls = sm, sc
            self.liveness = lv
        out = []
        for q, o in res:
            v = NONE
            if o is not None and o[0] == 'ret':
                v = o[1]
            elif o is not None and o[0] == 'raise':
                q.exc = o[1]
            q.env = {'%ret': v} if False else {}
            out.append((q, ('ret', v)))
        merged = self.merge(out, None) if len(out) > 1 else out
        fin = []
        for i, (q, o) in enumerate(merged):
            q.env = dict(caller_env)
            fin.append((q, o[1]))
        return fin


BUILTINS = {'len', 'str', 'int', 'bool', 'float', 'min', 'max', 'abs', 'sum', 'any', 'all', 'list', 'dict', 'set', 'tuple',
            'getattr', 'setattr', 'delattr', 'hasattr', 'isinstance', 'callable', 'range', 'reversed', 'sorted', 'enumerate', 'zip',
            'hex', 'bin', 'chr', 'ord', 'type', 'id', 'repr', 'round', 'iter', 'hash', 'format', 'map', 'filter', 'next',
            'bytes', 'bytearray', 'issubclass'}


# ------------------------------------------------------------------------ helpers

def exc_name(t):
    if t is None:
        return 'Exception'
    if isinstance(t, ast.Tuple):
        return '/'.join(sorted(exc_name(e) for e in t.elts))
    if isinstance(t, ast.Attribute):
        return t.attr
    if isinstance(t, ast.Name):
        return t.id
    return 'Exception'


def rev(t):
    if t[0] == 'rev':
        return t[1]
    return ('rev', t)


def root_new(h):
    b = h[1]
    while b[0] in ('a', 'i', 'm', 'len'):
        b = b[1]
    return b[0] in ('obj',)


def root_cont(c):
    while c[0] == 'm':
        c = c[1]
    return c


def cont_name(c):
    while True:
        if c[0] == 'a':
            return c[2]
        if c[0] in ('i', 'el', 'm', 'rev', 'ix', 'len', 'sl'):
            c = c[1]
            continue
        if c[0] == 'p':
            return '*p%d' % c[1]
        if c[0] in ('f', 'r', 'new'):
            return '*' + c[1]
        return '*' + c[0]


def objorder(o):
    return o


def objkey(objs):
    return tuple(sorted(objs.items(), key=lambda kv: key(kv[0])))


def okey(o):
    return o


def flatfact(av):
    return av


def evkey(evs):
    out = []
    for e in evs:
        if e[0] == 'loop':
            out.append(('loop', lkey(e[1])))
        elif e[0] == 'spawnsub':
            out.append(('spawnsub', tuple(pkey(p) for p in e[1].paths)))
        else:
            out.append(e)
    return tuple(out)


def lkey(l):
    return (l.it, l.kind, tuple(pkey(p) for p in l.paths))


def pkey(p):
    return (p.facts.log, evkey(p.ev), p.out, p.upd)


def lv_terms(x):
    todo, seen, out = [x], {}, set()
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        if isinstance(x, tuple):
            if len(x) == 3 and x[0] == 'lv':
                out.add(x)
            seen[id(x)] = x
            todo += [y for y in x if isinstance(y, (tuple, Loop, Sub))]
        elif isinstance(x, Loop):
            seen[id(x)] = x
            for p in x.paths:
                todo += [p.ev, p.facts.log, p.upd]
        elif isinstance(x, Sub):
            seen[id(x)] = x
            for p in x.paths:
                todo += [p.ev, p.facts.log]
    return out


def merge_facts(group):
    """group of (state, out) equal up to facts: merge pairs differing in one complementary fact"""
    items = list(group)
    ch = True
    while ch and len(items) > 1:
        ch = False
        for i in range(len(items)):
            for j in range(i + 1, len(items)):
                m = merge2(items[i][0].facts, items[j][0].facts)
                if m is not None:
                    s, o = items[i]
                    s.facts = m
                    items[i] = (s, o)
                    del items[j]
                    ch = True
                    break
            if ch:
                break
    return items


def merge2(a, b):
    la, lb = a.log, b.log
    if la == lb:
        return a
    sa, sb = set(la), set(lb)
    da, db = sa - sb, sb - sa
    if not da:
        return a if len(a.clauses) == len(b.clauses) else None
    if not db:
        return b if len(a.clauses) == len(b.clauses) else None
    if len(da) == 1 and len(db) == 1:
        (x, vx), = da
        (y, vy), = db
        if x == y and vx != vy and set(map(repr, a.clauses)) == set(map(repr, b.clauses)):
            f = Facts()
            for (at, v) in la:
                if at != x:
                    f.assume(at, v)
            f.clauses = list(a.clauses)
            return f
    # one path split on a finer condition:  {x, rest} and {not x, y, rest} kept apart
    if len(da) == 1 and len(db) > 1:
        (x, vx), = da
        if (x, not vx) in db and set(map(repr, a.clauses)) == set(map(repr, b.clauses)):
            # a: x, common   b: not x, extra, common  -> not mergeable exactly
            return None
    return None


def merge_paths(paths):
    """merge result paths equal in effects and outcome"""
    groups = {}
    order = []
    for p in paths:
        k = (evkey(p.ev), p.out, p.upd)
        if k not in groups:
            groups[k] = []
            order.append(k)
        groups[k].append(p)
    out = []
    for k in order:
        g = groups[k]
        ch = True
        while ch and len(g) > 1:
            ch = False
            for i in range(len(g)):
                for j in range(i + 1, len(g)):
                    m = merge2(g[i].facts, g[j].facts)
                    if m is not None:
                        g[i].facts = m
                        del g[j]
                        ch = True
                        break
                if ch:
                    break
        out.extend(g)
    return out


def delta_facts(facts, base_log, base_clauses):
    """what a loop pass learned beyond the facts at its start"""
    pf = Facts()
    for a, v in facts.log:
        if (a, v) not in base_log:
            pf.assume(a, v)
    for c in facts.clauses:
        if c not in base_clauses:
            pf.add_clause(c)
    return pf


def lv_refs(x, acc, loops):
    """colours of loop-carried values a summary mentions (not counting the loops' own update lists)"""
    if isinstance(x, Loop):
        loops.append(x)
        lv_refs(x.it, acc, loops)
        for p in x.paths:
            lv_refs(p.facts.log, acc, loops)
            lv_refs(p.ev, acc, loops)
            lv_refs(p.out, acc, loops)
    elif isinstance(x, Sub):
        for p in x.paths:
            lv_refs(p.facts.log, acc, loops)
            lv_refs(p.ev, acc, loops)
            lv_refs(p.out, acc, loops)
    elif isinstance(x, tuple):
        if len(x) == 3 and x[0] == 'lv':
            acc.add(x[2])
            return
        for y in x:
            if isinstance(y, (tuple, Loop, Sub)):
                lv_refs(y, acc, loops)


def prune_upd(p):
    """drop loop-carried values nothing observable depends on"""
    need, loops = set(), []
    lv_refs(p.ev, need, loops)
    if not loops:
        return p
    lv_refs(p.facts.log, need, loops)
    lv_refs(tuple(tuple(c) for c in p.facts.clauses), need, loops)
    lv_refs(p.out, need, loops)
    ch = True
    while ch:
        ch = False
        for l in loops:
            for us in [l.inits] + [q.upd for q in l.paths]:
                for u in us:
                    if u[0] in need:
                        r = set()
                        lv_refs(u[1:], r, [])
                        if not r <= need:
                            need |= r
                            ch = True
    if all(u[0] in need for l in loops for q in l.paths for u in q.upd):
        return p

    def ev(es):
        out = []
        for e in es:
            if e[0] == 'loop':
                l = e[1]
                ps = [Path(q.facts.copy(), ev(q.ev), q.out, tuple(u for u in q.upd if u[0] in need)) for q in l.paths]
                ps = merge_paths(ps)
                if not any(q.ev or q.upd for q in ps):
                    continue
                out.append(('loop', Loop(l.it, ps, l.kind, l.snap, l.pre, l.inits)))
            elif e[0] == 'spawnsub':
                out.append(('spawnsub', Sub([Path(q.facts, ev(q.ev), q.out, q.upd) for q in e[1].paths])))
            else:
                out.append(e)
        return tuple(out)
    return Path(p.facts, ev(p.ev), p.out, p.upd)


def loads(node):
    c = getattr(node, '_loads', None)
    if c is None:
        c = {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Load, ast.Del))}
        for n in ast.walk(node):
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                c.add(n.target.id)
        try:
            node._loads = c
        except AttributeError:
            pass
    return c


def stores(stmts):
    out = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
    return out


def loads_after(fn, node):
    """names read in fn outside `node` textually after it, or anywhere in an enclosing loop"""
    out = set()
    start = getattr(node, 'lineno', 0)
    end = getattr(node, 'end_lineno', None) or start
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and getattr(n, 'lineno', 0) > end:
            out.add(n.id)
        elif isinstance(n, (ast.For, ast.While, ast.AsyncFor)) and n is not node and start \
                and getattr(n, 'lineno', 0) < start and (getattr(n, 'end_lineno', 0) or 0) >= end:
            for m in ast.walk(n):
                if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Load) \
                        and not (start <= getattr(m, 'lineno', 0) <= end):
                    out.add(m.id)
    return out


def as_load(t):
    t2 = ast.parse(ast.unparse(t), mode='eval').body
    for n in ast.walk(t2):
        if hasattr(n, 'lineno'):
            n.lineno = getattr(t, 'lineno', 0)
    return t2


def has_continue(body):
    for s in body:
        if isinstance(s, (ast.For, ast.While, ast.FunctionDef, ast.AsyncFunctionDef)):
            continue
        for n in ast.walk(s):
            if isinstance(n, ast.Continue):
                return True
    return False


def rotate_while(body):
    """`while True: if c: break; rest` -> (rest, c)"""
    if body and isinstance(body[0], ast.If) and len(body[0].body) == 1 and isinstance(body[0].body[0], ast.Break):
        i = body[0]
        if i.orelse:
            return list(i.orelse) + body[1:], i.test
        return body[1:], i.test
    return body, None


def as_for(s, v, init):
    """index-driven while loops as range loops"""
    c = s.__dict__.setdefault('_asfor', {})
    if (v, init) not in c:
        c[(v, init)] = as_for1(s, v, init)
    return c[(v, init)]


def as_for1(s, v, init):
    t = s.test
    if s.orelse or not isinstance(t, ast.Compare) or len(t.ops) != 1:
        return None
    l, r, o = t.left, t.comparators[0], t.ops[0]
    if isinstance(o, ast.Gt) and isinstance(r, ast.Name):
        l, r, o = r, l, ast.Lt()
    if not isinstance(l, ast.Name) or not isinstance(o, (ast.Lt, ast.NotEq)) or l.id != v:
        return None
    i = l.id
    inner = strip_incr(s.body, i)
    if inner is None or i in stores(inner) or has_continue(inner):
        return None
    # the bound must not change
    if not _bound_ok(r, s.body):
        return None
    c = ast.Call(func=ast.Name(id='range', ctx=ast.Load()), args=[ast.Constant(init), r], keywords=[])
    f = ast.For(target=ast.Name(id=i, ctx=ast.Store()), iter=c, body=inner or [ast.Pass()], orelse=[])
    ast.copy_location(f, s)
    f.end_lineno = s.end_lineno
    ast.fix_missing_locations(f)
    f._fromwhile = True
    return f


def strip_incr(body, i):
    """body without the `i += 1` that ends every pass; None when some pass ends otherwise"""
    if not body:
        return None
    last = body[-1]
    if isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name) \
            and last.target.id == i and isinstance(last.value, ast.Constant) and last.value.value == 1:
        return body[:-1]
    if isinstance(last, ast.Assign) and len(last.targets) == 1 and isinstance(last.targets[0], ast.Name) \
            and last.targets[0].id == i and ast.unparse(last.value) in ('%s + 1' % i, '1 + %s' % i):
        return body[:-1]
    if isinstance(last, (ast.Break, ast.Return, ast.Raise)):
        return body
    if isinstance(last, ast.If):
        a = strip_incr(last.body, i)
        b = strip_incr(last.orelse, i)
        if a is None or b is None:
            return None
        n = ast.copy_location(ast.If(test=last.test, body=a or [ast.Pass()], orelse=b), last)
        return body[:-1] + [n]
    return None


def _bound_ok(r, body):
    names = {n.id for n in ast.walk(r) if isinstance(n, ast.Name)} - {'len'}
    if names & stores(body):
        return False
    src = ast.unparse(r)
    m = re.match(r'len\((.+)\)$', src)
    tgt = m.group(1) if m else re.sub(r'\.(size|num)\(\)$', '', src)
    def visit(stmts):
        leaves = stmts and isinstance(stmts[-1], (ast.Break, ast.Return, ast.Raise))
        for s in stmts:
            subs = [getattr(s, f) for f in ('body', 'orelse', 'finalbody') if isinstance(getattr(s, f, None), list)]
            if subs:
                if not all(visit(b) for b in subs):
                    return False
                continue
            if leaves:
                continue
            for n in ast.walk(s):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (
                        'append', 'pop', 'insert', 'remove', 'delete', 'clear', 'extend', 'push_back', 'pop_front',
                        'push_front', 'pop_back') and ast.unparse(n.func.value) == tgt:
                    return False
                if isinstance(n, ast.Delete):
                    for x in n.targets:
                        if isinstance(x, ast.Subscript) and ast.unparse(x.value) == tgt:
                            return False
                if isinstance(n, (ast.Assign, ast.AugAssign)):
                    for x in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                        if ast.unparse(x) in (tgt, src):
                            return False
        return True
    return visit(body)


# --------------------------------------------------------------------------- show

def show(t):
    if isinstance(t, Loop):
        return 'for-each %s' % show(t.it)
    if isinstance(t, Sub):
        return 'concurrent body'
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return '()'
    k = t[0]
    if k == 'c':
        return repr(t[1])
    if k == 'p':
        return 'self' if t[1] == 0 else 'arg%d' % t[1]
    if k == 'a':
        return '%s.%s' % (show(t[1]), t[2]) + ("'" * min(t[3], 5) if len(t) > 3 else '')
    if k == 'i':
        return '%s[%s]' % (show(t[1]), show(t[2]))
    if k == 'm':
        return show(t[1]) + '^%d' % t[2]
    if k == 'len':
        return 'len(%s)' % show(t[1])
    if k == 'C':
        return t[1]
    if k in ('f', 'r'):
        return '%s%s(%s)' % (show(t[2]) + '.' if t[2] != NONE else '', t[1], ', '.join(show(x) for x in t[3]))
    if k == 'new':
        return '%s(%s)' % (t[1], ', '.join(show(x) for x in t[2]))
    if k == 'lin':
        return '(' + ' + '.join(['%s' % show(x) if c == 1 else '%s*%s' % (c, show(x)) for x, c in t[2]] + (
            [str(t[1])] if t[1] else [])) + ')'
    if k == 'el':
        return 'each(%s)' % show(t[1])
    if k == 'ix':
        return 'index(%s)' % show(t[1])
    if k == 'cat':
        return '"' + ''.join(x[1] if x[0] == 'c' and isinstance(x[1], str) else '{%s}' % show(x) for x in t[1]) + '"'
    if k == 'op':
        return '(' + (' %s ' % t[1]).join(show(x) for x in t[2]) + ')'
    if k in ('list', 'tup', 'set'):
        return '[' + ', '.join(show(x) for x in t[1]) + ']'
    if not isinstance(k, str):
        return '(' + ', '.join(show(x) for x in t) + ')'
    return k + '(' + ', '.join(show(x) for x in t[1:]) + ')'


def show_atom(a, v):
    k = a[0]
    n = '' if v else 'not '
    if k == 't':
        return n + show(a[1])
    if k == 'none':
        return show(a[1]) + (' is None' if v else ' is not None')
    if k == 'eq':
        return show(a[1]) + (' == ' if v else ' != ') + show(a[2])
    if k == 'lt':
        return show(a[1]) + (' < ' if v else ' >= ') + show(a[2])
    if k == 'in':
        return show(a[1]) + (' in ' if v else ' not in ') + show(a[2])
    if k == 'isa':
        return '%sisinstance(%s, %s)' % (n, show(a[1]), show(a[2]))
    return n + show(a)


def show_ev(e):
    k = e[0]
    if k == 'set':
        return '%s.%s = %s' % (show(e[1]), e[2], show(e[3]))
    if k == 'seti':
        return '%s[%s] = %s' % (show(e[1]), show(e[2]), show(e[3]))
    if k == 'deli':
        return 'del %s[%s]' % (show(e[1]), show(e[2]))
    if k == 'mut':
        return '%s.%s(%s)' % (show(e[2]), e[1], ', '.join(map(show, e[3])))
    if k in ('call', 'await', 'spawn'):
        return '%s%s%s(%s)' % ('' if k == 'call' else k + ' ', show(e[2]) + '.' if e[2] != NONE else '', e[1],
                               ', '.join(show(x) for x in e[3]))
    if k == 'new':
        return 'new %s(%s)' % (e[1], ', '.join(map(show, e[2])))
    if k == 'report':
        return 'report ' + e[1]
    if k == 'loop':
        l = e[1]
        return 'for-each %s { %s }' % (show(l.it), ' | '.join(
            '%s: %s%s' % (' and '.join(show_atom(*x) for x in p.facts.log) or 'always',
                          '; '.join(show_ev(x) for x in p.ev), (' upd ' + show(p.upd)) if p.upd else '') for p in l.paths))
    if k == 'spawnsub':
        return 'concurrently { %s }' % ' | '.join(
            '%s: %s' % (' and '.join(show_atom(*x) for x in p.facts.log) or 'always',
                        '; '.join(show_ev(x) for x in p.ev)) for p in e[1].paths)
    return str(e)


def show_path(p):
    return '[%s] %s -> %s' % (' and '.join(show_atom(*x) for x in p.facts.log),
                              '; '.join(show_ev(x) for x in p.ev), show(p.out[1]) if len(p.out) > 1 and p.out[0] == 'ret' else p.out)

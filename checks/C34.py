"""No coroutine is created and then dropped: a syntactic-flow rule over every call site of the library.

Every call that can create a coroutine (the callee resolves to an `async def`, or to a plain function that
returns such a call) must be consumed: awaited, spawned, returned by a plain function, or handed on.  A call that
is awaited or spawned must be able to create one.  The callee is resolved through the class hierarchy, the types
of attributes, parameters and local variables, and by name where all functions of that name agree; a call whose
receiver cannot be resolved and whose name is defined both ways is left undecided (counted, never reported)."""
import ast
import re

from prog import known_functions

SPAWN = {'start_soon', 'start', 'fork', 'create_task', 'ensure_future', 'run', 'Task', 'with_timeout', 'Combine', 'First',
         'gather', 'fork_join', 'fork_join_any', 'fork_join_none'}
COLLECT = {'append', 'extend', 'insert', 'push_back', 'push_front', 'appendleft', 'add'}
BUILTIN = {'print', 'len', 'bool', 'int', 'str', 'isinstance', 'repr', 'type', 'id', 'hash', 'float', 'abs', 'format', 'any', 'all'}
# cocotb awaitables: creating one without waiting for it is a skipped wait
TRIGGERS = {'Timer', 'RisingEdge', 'FallingEdge', 'Edge', 'ReadOnly', 'ReadWrite', 'NextTimeStep', 'ClockCycles', 'Combine', 'First', 'Join', 'NullTrigger'}
TRIGGER_METHODS = {'acquire'}
# what the callee returns, where the annotation does not say
RETURNS = {'get_backdoor': 'UVMRegBackdoor', 'get_sequencer': 'UVMSequencerBase', 'get_domain': 'UVMDomain', 'get_adapter': 'UVMRegAdapter'}
BLOCKING = {'time': {'sleep'}, 'subprocess': {'run', 'call', 'check_call', 'check_output', 'Popen', 'getoutput'}, 'os': {'system', 'popen', 'wait', 'waitpid', 'read', 'fork'},
            'select': {'select', 'poll'}, 'signal': {'pause', 'sigwait'}, 'socket': {'socket', 'create_connection'},
            'threading': {'Event', 'Condition', 'Semaphore', 'Barrier', 'Thread', 'Lock', 'RLock'}, 'queue': {'Queue', 'LifoQueue', 'PriorityQueue', 'SimpleQueue'},
            'asyncio': {'run', 'sleep', 'get_event_loop', 'wait'}}
NONBLOCK = re.compile(r'^(try_|can_|nb_|is_|has_)')
NONBLOCK_OK = {'try_next_item'}
CB_MACROS = {'uvm_do_callbacks': (False, 1, 2), 'uvm_do_callbacks_async': (True, 1, 2), 'uvm_do_obj_callbacks': (False, 1, 2),
             'uvm_do_obj_callbacks_async': (True, 1, 2), 'uvm_do_callbacks_exit_on': (False, 1, 2), 'uvm_do_obj_callbacks_exit_on': (False, 1, 2)}
FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef)


def name_of(call):
    f = call.func
    return f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None


class Rule:
    def __init__(self, ctx):
        self.ctx, self.p = ctx, ctx.p
        self.defs = {}          # name -> [function node]
        self.mods = [m for m in self.p.modules.values() if m.name.split('.')[0] == 'uvm']
        for m in self.mods:
            m_ = m
            for n in ast.walk(m.tree):
                for c in ast.iter_child_nodes(n):
                    c._up = n
            for n in ast.walk(m.tree):
                if isinstance(n, FUNCS):
                    n._mod = m_
                    self.defs.setdefault(n.name, []).append(n)
        self.klass = {}
        for m in self.mods:
            for c in m.classes.values():
                self.klass[id(c.node)] = c
        self.coro = set()       # plain functions that return a coroutine
        self.undecided = 0
        while self.close():
            pass

    def func_of(self, n):
        n = getattr(n, '_up', None)
        while n is not None and not isinstance(n, FUNCS + (ast.Lambda,)):
            n = getattr(n, '_up', None)
        return n

    def def_of(self, n):
        f = self.func_of(n)
        while isinstance(f, ast.Lambda):
            f = self.func_of(f)
        return f

    def class_of(self, n):
        """the class whose method encloses n, when its first parameter is the object"""
        f = self.def_of(n)
        while f is not None:
            up = f._up
            if isinstance(up, ast.ClassDef):
                return self.klass.get(id(up)), f
            f = self.def_of(f)
        return None, None

    def makes(self, fn):
        """does calling this function create a coroutine? True/False/None"""
        for d in fn.decorator_list:
            s = ast.unparse(d)
            if 'coroutine' in s or 'test' in s:
                return None
        if isinstance(fn, ast.AsyncFunctionDef):
            return not any(isinstance(x, (ast.Yield, ast.YieldFrom)) and self.def_of(x) is fn for x in ast.walk(fn))
        return id(fn) in self.coro

    @staticmethod
    def stub(fn):
        """an abstract method: nothing but reports, pass and raises"""
        for st in fn.body:
            if isinstance(st, (ast.Pass, ast.Raise)):
                continue
            if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                continue
            if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and re.search(r'fatal|error|warning|debug', name_of(st.value) or ''):
                continue
            if isinstance(st, ast.Return) and (st.value is None or isinstance(st.value, ast.Constant)):
                continue
            return False
        return True

    def verdict(self, fns):
        v = {self.makes(f) for f in fns}
        if len(v) == 1:
            return v.pop()
        # abstract bases do not decide
        v = {self.makes(f) for f in fns if not self.stub(f)}
        return v.pop() if len(v) == 1 else None

    def methods(self, c, name, subs=True):
        out = []
        for k in self.p.mro(c):
            if name in k.methods:
                out.append(k.methods[name].node)
                break
        if not out and any(name in k.attrs for k in self.p.mro(c)):
            return []
        if subs:
            for s in self.p.subclasses(c.name):
                if name in s.methods:
                    out.append(s.methods[name].node)
        return out

    def type_of_value(self, v, mod, at, depth=0):
        """class (or builtin container name) an expression evaluates to, or None"""
        if depth > 4 or v is None:
            return None
        if isinstance(v, (ast.Dict, ast.DictComp)):
            return 'dict'
        if isinstance(v, (ast.List, ast.ListComp, ast.Tuple, ast.Constant, ast.JoinedStr, ast.Set, ast.SetComp)):
            return None if isinstance(v, ast.Constant) and v.value is None else 'plain'
        if isinstance(v, ast.Await):
            return None
        if isinstance(v, ast.Call):
            f = v.func
            if isinstance(f, ast.Name):
                if f.id in ('dict', 'OrderedDict', 'defaultdict'):
                    return 'dict'
                if f.id in ('list', 'set', 'str', 'open', 'deque', 'int'):
                    return 'plain'
                c = self.class_named(f.id, mod)
                if c is not None:
                    return c
            if isinstance(f, ast.Attribute):
                if f.attr == 'create' and isinstance(f.value, ast.Attribute) and f.value.attr == 'type_id' and isinstance(f.value.value, ast.Name):
                    return self.class_named(f.value.value.id, mod)
                fns = self.resolve(v, depth + 1)
                t = self.ret_type(fns, depth)
                if t is not None:
                    return t
            if name_of(v) in RETURNS:
                return self.p.classes.get(RETURNS[name_of(v)])
            return None
        if isinstance(v, ast.Name):
            return self.type_of_name(v.id, mod, at, depth + 1)
        if isinstance(v, ast.Attribute):
            return self.type_of_attr(v, mod, at, depth + 1)
        return None

    def ret_type(self, fns, depth):
        if not fns or len(fns) > 3:
            return None
        ts = set()
        for f in fns:
            ts.add(self.type_of_ann(f.returns, f._mod) if f.returns is not None else None)
        return ts.pop() if len(ts) == 1 else None

    def type_of_ann(self, a, mod):
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            try:
                a = ast.parse(a.value, mode='eval').body
            except SyntaxError:
                return None
        if isinstance(a, ast.Subscript):
            n = a.value.id if isinstance(a.value, ast.Name) else getattr(a.value, 'attr', '')
            if n in ('Dict', 'dict', 'OrderedDict'):
                return 'dict'
            if n in ('List', 'list', 'Set', 'Tuple', 'set', 'tuple'):
                return 'plain'
            return self.type_of_ann(a.slice if n == 'Optional' else a.value, mod)
        if isinstance(a, ast.Name):
            if a.id in ('dict', 'Dict'):
                return 'dict'
            if a.id in ('int', 'str', 'bool', 'list', 'float'):
                return 'plain'
            return self.class_named(a.id, mod) or self.p.classes.get(a.id)
        return None

    def class_named(self, nm, mod):
        r = self.p.resolve_name(mod, nm)
        if r is None:
            return None
        return r[1] if r[0] == 'class' else None

    def type_of_name(self, nm, mod, at, depth=0):
        f = self.def_of(at)
        while f is not None:
            a = f.args
            ps = a.posonlyargs + a.args + a.kwonlyargs
            vals, param = [], None
            for x in ps:
                if x.arg == nm:
                    param = x
            for n in ast.walk(f):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name) and t.id == nm:
                            vals.append(n.value)
                        elif any(isinstance(x, ast.Name) and x.id == nm and isinstance(x.ctx, ast.Store) for x in ast.walk(t)):
                            vals.append(None)
                elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == nm:
                    t = self.type_of_ann(n.annotation, mod)
                    if t is not None:
                        return t
                    vals.append(n.value)
                elif isinstance(n, (ast.For, ast.AsyncFor, ast.comprehension)) and any(isinstance(x, ast.Name) and x.id == nm for x in ast.walk(n.target)):
                    vals.append(None)
                elif isinstance(n, (ast.With, ast.AsyncWith)) and any(i.optional_vars is not None and any(isinstance(x, ast.Name) and x.id == nm for x in ast.walk(i.optional_vars)) for i in n.items):
                    vals.append(None)
            if param is not None:
                i = ps.index(param)
                if i == 0 and isinstance(f._up, ast.ClassDef) and nm in ('self', 'cls', 'this') and not vals:
                    return self.klass.get(id(f._up))
                return self.type_of_ann(param.annotation, mod) if param.annotation is not None and not vals else None
            vals = [v for v in vals if not (isinstance(v, ast.Constant) and v.value is None)]
            if vals:
                ts = [self.type_of_value(v, mod, at, depth + 1) if v is not None else None for v in vals]
                return ts[0] if all(t is ts[0] for t in ts) else None
            f = self.def_of(f)
        r = self.p.resolve_name(mod, nm)
        if r is not None and r[0] == 'class':
            return r[1]
        if nm in mod.assigns and len(mod.assigns[nm]) == 1 and isinstance(mod.assigns[nm][0], ast.Call):
            return self.type_of_value(mod.assigns[nm][0], mod, mod.assigns[nm][0], depth + 1)
        if r is not None and r[0] == 'global':
            m2 = self.p.modules.get(r[1][0])
            if m2 is not None and m2 is not mod:
                return self.type_of_name(r[1][1], m2, m2.tree, depth + 1)
        return None

    def type_of_attr(self, v, mod, at, depth=0):
        base = self.type_of_value(v.value, mod, at, depth + 1)
        if isinstance(base, str) or base is None:
            return None
        ts = []
        for k in [*self.p.mro(base), *self.p.subclasses(base.name)]:
            if v.attr in k.attrs:
                ts.append(self.type_of_value(k.attrs[v.attr], k.mod, k.node, depth + 1) if not (isinstance(k.attrs[v.attr], ast.Constant) and k.attrs[v.attr].value is None) else 'skip')
            for f in k.methods.values():
                for n in ast.walk(f.node):
                    if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute) and n.target.attr == v.attr and getattr(n.target.value, 'id', None) in ('self', 'cls', k.name):
                        t = self.type_of_ann(n.annotation, f.mod)
                        if t is not None:
                            return t
                    if isinstance(n, ast.Assign):
                        for t in n.targets:
                            if isinstance(t, ast.Attribute) and t.attr == v.attr and isinstance(t.value, ast.Name) and t.value.id in ('self', 'cls', k.name):
                                if isinstance(n.value, ast.Constant) and n.value.value is None:
                                    continue
                                ts.append(self.type_of_value(n.value, f.mod, n, depth + 1))
        ts = [t for t in ts if t != 'skip']
        return ts[0] if ts and all(t is ts[0] for t in ts) else None

    def resolve(self, call, depth=0):
        """function nodes this call may reach; [] = a known callee outside the library; None = unknown"""
        f = call.func
        mod = self.mod_of(call)
        if isinstance(f, ast.Name):
            g = self.def_of(call)
            while g is not None:
                for st in ast.walk(g):
                    if isinstance(st, FUNCS) and st.name == f.id and self.def_of(st) is g:
                        return [st]
                if any(isinstance(x, ast.Name) and x.id == f.id and isinstance(x.ctx, ast.Store) for x in ast.walk(g)) \
                        or any(a.arg == f.id for a in g.args.posonlyargs + g.args.args + g.args.kwonlyargs):
                    return None
                for st in ast.walk(g):
                    if isinstance(st, ast.ImportFrom):
                        for al in st.names:
                            if (al.asname or al.name) == f.id:
                                fns = [x for x in self.defs.get(al.name, []) if isinstance(x._up, ast.Module)]
                                return fns or []
                g = self.def_of(g)
            r = self.p.resolve_name(mod, f.id)
            if r is None:
                return [] if f.id in BUILTIN else None
            if r[0] == 'func':
                return [r[1].node]
            return []
        if not isinstance(f, ast.Attribute):
            return None
        v = f.value
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super':
            c, _ = self.class_of(call)
            if c is None:
                return None
            for k in self.p.mro(c)[1:]:
                if f.attr in k.methods:
                    return [k.methods[f.attr].node]
            return None
        t = self.type_of_value(v, mod, call, depth + 1)
        if t == 'dict' or t == 'plain':
            return []
        if t is not None:
            fns = self.methods(t, f.attr)
            return fns or None
        if isinstance(v, ast.Name):
            r = self.p.resolve_name(mod, v.id)
            if r is not None and r[0] == 'module':
                if f.attr in r[1].funcs:
                    return [r[1].funcs[f.attr].node]
                return None
            if r is not None and r[0] == 'extern':
                return []
        return None

    def mod_of(self, n):
        while not isinstance(n, ast.Module):
            n = n._up
        for m in self.mods:
            if m.tree is n:
                return m

    def creates(self, call):
        """True: creates a coroutine, False: does not, None: cannot tell"""
        fns = self.resolve(call)
        if fns is not None:
            if not fns:
                return False
            return self.verdict(fns)
        ds = [d for d in self.defs.get(name_of(call)) or [] if self.takes(d, call)]
        if not ds:
            return None
        return self.verdict(ds)

    def takes(self, d, call):
        """can function d be called with these arguments?"""
        if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
            return True
        a = d.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        decs = {ast.unparse(x) for x in d.decorator_list}
        bound = isinstance(call.func, ast.Attribute) and ps[:1] and ps[0] in ('self', 'cls') and 'staticmethod' not in decs
        if bound:
            ps = ps[1:]
        n = len(call.args)
        if n > len(ps) and not a.vararg:
            return False
        kw = {k.arg for k in call.keywords}
        need = ps[n:len(ps) - len(a.defaults)] if len(a.defaults) <= len(ps) else []
        return all(x in kw for x in need)

    def close(self):
        """plain functions that return a coroutine they were given by a call"""
        before = len(self.coro)
        for ds in self.defs.values():
            for f in ds:
                if isinstance(f, ast.AsyncFunctionDef) or id(f) in self.coro:
                    continue
                for n in ast.walk(f):
                    if isinstance(n, ast.Return) and self.func_of(n) is f and isinstance(n.value, ast.Call) \
                            and name_of(n.value) in self.anames() and self.creates(n.value):
                        self.coro.add(id(f))
        return len(self.coro) != before

    def anames(self):
        return {n for n, ds in self.defs.items() if any(isinstance(d, ast.AsyncFunctionDef) or id(d) in self.coro for d in ds)}

    # -- consumption -------------------------------------------------------
    def consumed(self, n):
        """why the value of expression n is not lost, or None"""
        while True:
            u = n._up
            if isinstance(u, ast.Await):
                return 'awaited'
            if isinstance(u, ast.Return):
                f = self.func_of(u)
                return None if isinstance(f, ast.AsyncFunctionDef) else 'returned'
            if isinstance(u, ast.Lambda):
                return 'returned'
            if isinstance(u, (ast.IfExp,)) and n is not u.test or isinstance(u, ast.NamedExpr) or isinstance(u, ast.Starred):
                n = u
                continue
            if isinstance(u, (ast.List, ast.Tuple, ast.Set, ast.Dict, ast.ListComp, ast.GeneratorExp, ast.SetComp)):
                n = u
                continue
            if isinstance(u, ast.keyword):
                n = u
                continue
            if isinstance(u, ast.Call):
                if n is u.func:
                    return None
                return self.taken(u, n)
            if isinstance(u, (ast.Assign, ast.AnnAssign)):
                ts = u.targets if isinstance(u, ast.Assign) else [u.target]
                for t in ts:
                    if not isinstance(t, ast.Name):
                        return 'stored'
                    f = self.def_of(u)
                    if f is None:
                        return 'stored'
                    for x in ast.walk(f):
                        if isinstance(x, ast.Name) and x.id == t.id and isinstance(x.ctx, ast.Load):
                            if self.consumed_use(x):
                                return 'stored and used'
                return None
            if isinstance(u, (ast.Yield, ast.YieldFrom)):
                return 'yielded'
            return None

    def taken(self, u, n):
        """why a coroutine passed to call u is not lost, or None"""
        nm = name_of(u)
        if nm in BUILTIN:
            return None
        if nm in COLLECT and isinstance(u.func, ast.Attribute):
            c = u.func.value
            f = self.def_of(u)
            if not isinstance(c, ast.Name) or f is None:
                return 'collected'
            if any(x.arg == c.id for x in f.args.posonlyargs + f.args.args + f.args.kwonlyargs):
                return None
            for x in ast.walk(f):
                if isinstance(x, ast.Name) and x.id == c.id and isinstance(x.ctx, ast.Load) and x is not c:
                    v = x._up
                    if isinstance(v, ast.Starred) or isinstance(v, (ast.For, ast.AsyncFor, ast.comprehension)) and x is v.iter:
                        return 'collected and waited for'
                    if isinstance(v, ast.Call) and x is not v.func and name_of(v) not in BUILTIN:
                        return 'collected and handed on'
                    if isinstance(v, (ast.Return, ast.Assign, ast.Subscript)):
                        return 'collected and handed on'
            return None
        return 'spawned' if nm in SPAWN else 'handed on'

    def consumed_use(self, x):
        u = x._up
        if isinstance(u, ast.Call) and x is not u.func:
            return bool(self.taken(u, x))
        if isinstance(u, ast.Return):
            return not isinstance(self.func_of(u), ast.AsyncFunctionDef)
        if isinstance(u, (ast.Await, ast.Starred, ast.List, ast.Tuple, ast.Yield, ast.keyword)):
            return True
        return isinstance(u, ast.Assign) and x is u.value


def qual(rule, n):
    f = rule.def_of(n)
    names = []
    while f is not None:
        names.append(f.name)
        if isinstance(f._up, ast.ClassDef):
            names.append(f._up.name)
            break
        f = rule.def_of(f)
    return '.'.join(reversed(names)) or 'module'


def owner(rule, n, known, depth=0):
    """the function a construct belongs to; a helper that was split off belongs to its only caller"""
    q = qual(rule, n)
    f = rule.def_of(n)
    while f is not None and not isinstance(f._up, (ast.ClassDef, ast.Module)):
        f = rule.def_of(f)
    if f is None or depth > 3 or known is None or rule.mod_of(n).name + ':' + q in known:
        return q
    callers = {}
    for m in rule.mods:
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Call) and name_of(x) == f.name and rule.def_of(x) is not None:
                callers[qual(rule, x)] = x
    callers.pop(q, None)
    if len(callers) != 1:
        return q
    return owner(rule, next(iter(callers.values())), known, depth + 1)


def run(ctx):
    r = Rule(ctx)
    known = known_functions()
    for f in ctx.p.all_funcs():
        if f.mod in r.mods:
            ctx.touch(f)
    an = r.anames()
    sites = waits = overrides = cbs = nonblock = loops = 0
    undecided = 0
    for m in r.mods:
        ctx.files.add(m.rel)
        ext = {}
        for st in ast.walk(m.tree):
            if isinstance(st, ast.Import):
                for al in st.names:
                    ext[(al.asname or al.name).split('.')[0]] = al.name
            elif isinstance(st, ast.ImportFrom) and not st.level:
                for al in st.names:
                    if al.name in BLOCKING.get(st.module or '', ()):
                        ext[al.asname or al.name] = (st.module, al.name)
        trig = {al.asname or al.name for st in ast.walk(m.tree) if isinstance(st, ast.ImportFrom) and (st.module or '').startswith('cocotb')
                for al in st.names if al.name in TRIGGERS}
        for n in ast.walk(m.tree):
            loc = '%s:%s' % (m.rel, getattr(n, 'lineno', 1))
            if isinstance(n, ast.Call):
                nm = name_of(n)
                up = n._up
                key = '%s:%s' % (qual(r, n), nm)
                f = r.def_of(n)
                # 1. a coroutine that is created is consumed
                if nm in an:
                    v = r.creates(n)
                    if v:
                        sites += 1
                        how = r.consumed(n)
                        if how is None:
                            key = '%s:%s' % (owner(r, n, known), nm)
                        ctx.check('drop:' + key, how is not None, 'the coroutine of %s is %s' % (nm, how or 'consumed'), loc,
                                  '%s creates the coroutine %s(...) and drops it: it never runs' % (qual(r, n), nm))
                    elif v is None and not isinstance(up, ast.Await):
                        # either way the result of a value-returning access is lost
                        if isinstance(up, ast.Expr) and nm in ('get', 'peek', 'put') and r.resolve(n) is None and not (nm == 'get' and not n.args) \
                                and any(isinstance(d, ast.AsyncFunctionDef) and r.takes(d, n) for d in r.defs[nm]) \
                                and not any(not isinstance(d, ast.AsyncFunctionDef) and r.takes(d, n) for d in r.defs[nm] if nm != 'get' and not (nm == 'put' and d._up.name == 'semaphore' and n.args and not isinstance(n.args[0], ast.Constant))):
                            sites += 1
                            ctx.fail('drop:' + key, '%s calls %s(...) and neither waits for it nor uses its result' % (qual(r, n), nm), loc)
                        else:
                            undecided += 1
                elif isinstance(up, ast.Expr) and (isinstance(n.func, ast.Name) and nm in trig or isinstance(n.func, ast.Attribute) and nm in TRIGGER_METHODS):
                    sites += 1
                    ctx.fail('drop:' + key, '%s creates the trigger %s(...) and does not wait for it' % (qual(r, n), nm), loc)
                # 2. what is awaited or spawned can be waited for
                if isinstance(up, ast.Await):
                    waits += 1
                    v = r.creates(n) if nm in r.defs else None
                    fns = r.resolve(n) if v is False else None
                    bad = v is False and fns != []
                    if fns and any(isinstance(x, ast.Return) and x.value is not None for d in fns for x in ast.walk(d)) and not all(r.makes(d) is False for d in fns):
                        bad = False
                    if bad and any(returns_awaitable(d) for d in (fns or r.defs.get(nm, []))):
                        bad = False
                    ctx.check('await:' + key, not bad, '%s(...) can be awaited' % nm, loc, '%s awaits %s(...), which is no coroutine: the await raises' % (qual(r, n), nm))
                elif nm in ('start_soon', 'start', 'create_task') and isinstance(n.func, ast.Attribute) and getattr(n.func.value, 'id', '') == 'cocotb' and n.args:
                    waits += 1
                    a = n.args[0]
                    bad = None
                    if isinstance(a, ast.Call) and name_of(a) in r.defs and r.creates(a) is False and r.resolve(a) != [] \
                            and not any(returns_awaitable(d) for d in (r.resolve(a) or r.defs[name_of(a)])):
                        bad = '%s(...), which is no coroutine' % name_of(a)
                    elif isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name) and a.value.id in ('self', 'cls'):
                        c, _ = r.class_of(n)
                        if c is not None and r.methods(c, a.attr):
                            bad = 'the function %s itself instead of a call of it' % a.attr
                    ctx.check('spawn:' + key, bad is None, 'what is spawned is a coroutine', loc, '%s spawns %s' % (qual(r, n), bad))
                # 3. callbacks by name: a coroutine hook needs the waiting form of the macro
                if nm in CB_MACROS and len(n.args) > 2:
                    want, ci, mi = CB_MACROS[nm]
                    c = r.class_named(n.args[ci].id, m) if isinstance(n.args[ci], ast.Name) else None
                    if c is None and isinstance(n.args[ci], ast.Name):
                        c = r.p.classes.get(n.args[ci].id)
                    a = n.args[mi]
                    if c is not None and isinstance(a, ast.Constant) and isinstance(a.value, str):
                        fns = r.methods(c, a.value, subs=False)
                        if fns:
                            cbs += 1
                            is_a = isinstance(fns[0], ast.AsyncFunctionDef)
                            ctx.check('callback:%s:%s' % (qual(r, n), a.value), is_a == want, 'the %s hook %s of %s is run by %s' % ('coroutine' if is_a else 'plain', a.value, c.name, nm), loc,
                                      '%s runs the hooks %s of %s with %s, so %s' % (qual(r, n), a.value, c.name, nm,
                                                                                   'they are created and never run' if is_a else 'the await raises'))
                # 5. nothing blocks the simulator
                fn = n.func
                b = None
                if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and isinstance(ext.get(fn.value.id), str) and fn.attr in BLOCKING.get(ext[fn.value.id], ()):
                    b = '%s.%s' % (ext[fn.value.id], fn.attr)
                elif isinstance(fn, ast.Name) and isinstance(ext.get(fn.id), tuple):
                    b = '.'.join(ext[fn.id])
                elif isinstance(fn, ast.Name) and fn.id == 'input' and fn.id not in m.funcs and fn.id not in m.imports:
                    b = 'input'
                if b:
                    ctx.fail('blocks:' + key, '%s calls %s, which blocks the simulator (and with it every other process)' % (qual(r, n), b), loc)
            elif isinstance(n, ast.Expr) and isinstance(n.value, (ast.Name, ast.Attribute)):
                # a process or coroutine that was meant to be waited for
                f = r.def_of(n)
                t = ast.unparse(n.value)
                for x in ast.walk(f) if f is not None else ():
                    if isinstance(x, ast.Assign) and any(ast.unparse(y) == t for y in x.targets) and isinstance(x.value, ast.Call) \
                            and (name_of(x.value) in ('start_soon', 'start', 'create_task') or name_of(x.value) in an and r.creates(x.value)):
                        ctx.fail('drop:%s:%s' % (qual(r, n), t), '%s names the process %s and does not wait for it' % (qual(r, n), t), loc)
                        break
            elif isinstance(n, FUNCS):
                # 4. non-blocking operations cannot wait
                if NONBLOCK.match(n.name) and n.name not in NONBLOCK_OK or n.name == 'write' and isinstance(n._up, ast.ClassDef) \
                        and r.klass.get(id(n._up)) is not None and r.p.is_subclass(r.klass[id(n._up)], 'UVMPortBase'):
                    nonblock += 1
                    ctx.check('nonblocking:' + qual(r, n.body[0]), not isinstance(n, ast.AsyncFunctionDef) and id(n) not in r.coro,
                              '%s does not wait' % n.name, loc, '%s is a non-blocking operation but is a coroutine' % qual(r, n.body[0]))
            elif isinstance(n, ast.While):
                f = r.def_of(n)
                if f is None:
                    continue
                loops += 1
                why = stuck(r, n)
                ctx.check('loop:%s:%d' % (qual(r, n), sum(1 for x in ast.walk(f) if isinstance(x, ast.While) and x.lineno < n.lineno)), why is None,
                          'the loop can end or waits', loc, '%s: %s' % (qual(r, n), why))
    # 6. an override waits exactly when the method it replaces does
    for m in r.mods:
        for c in m.classes.values():
            for nm, f in c.methods.items():
                for b in r.p.mro(c)[1:]:
                    if nm in b.methods:
                        g = b.methods[nm]
                        overrides += 1
                        x, y = isinstance(f.node, ast.AsyncFunctionDef), isinstance(g.node, ast.AsyncFunctionDef)
                        if x != y and (r.makes(f.node) is None or r.makes(g.node) is None or x and id(g.node) in r.coro or y and id(f.node) in r.coro):
                            break
                        if x and not y and r.stub(g.node):
                            break
                        ctx.check('override:%s.%s' % (c.name, nm), x == y, '%s.%s waits as the method it overrides does' % (c.name, nm), f.loc(),
                                  '%s.%s is %s but %s.%s, which it overrides, is %s: callers of one form fail on the other'
                                  % (c.name, nm, 'a coroutine' if x else 'no coroutine', b.name, nm, 'one' if y else 'not'))
                        break
    ctx.floor('call sites of coroutines', sites, 150)
    ctx.floor('awaits', waits, 150)
    ctx.floor('overrides', overrides, 300)
    ctx.floor('callback call sites', cbs, 15)
    ctx.floor('non-blocking operations', nonblock, 40)
    ctx.floor('loops', loops, 60)
    ctx.notes.append('%d coroutine call sites, %d awaits and spawns, %d overrides, %d callback call sites, %d non-blocking operations, %d loops; %d calls of a name defined both ways whose receiver is not resolved'
                     % (sites, waits, overrides, cbs, nonblock, loops, undecided))


def returns_awaitable(d):
    """a plain function that may return something other than a constant, e.g. a trigger or a task"""
    for x in ast.walk(d):
        if isinstance(x, ast.Return) and x.value is not None and not isinstance(x.value, (ast.Constant, ast.BoolOp, ast.Compare, ast.BinOp)):
            return True
    return False


def stuck(r, w):
    """why a while loop never ends without letting any other process run, or None"""
    body = [x for st in w.body for x in ast.walk(st)]
    own = [x for x in body if r.def_of(x) is r.def_of(w)]
    leave = any(isinstance(x, (ast.Return, ast.Raise, ast.Await, ast.Yield, ast.YieldFrom, ast.AsyncFor, ast.AsyncWith)) for x in own) or any(
        isinstance(x, ast.Break) and loop_of(x) is w for x in own)
    if leave or any(isinstance(x, ast.Await) for x in ast.walk(w.test)):
        return None
    if isinstance(w.test, ast.Constant) and w.test.value:
        if any(isinstance(x, ast.Call) for x in own):
            return 'an endless loop without an await: the simulator hangs' if not any(
                isinstance(x, ast.Call) and re.search('fatal|exit', name_of(x) or '') for x in own) else None
        return 'an endless loop without an await: the simulator hangs'
    # a test over plain variables that nothing in the body can change
    if any(isinstance(x, ast.Call) for x in ast.walk(w.test)) or any(isinstance(x, ast.Call) for x in own):
        return None
    names = {x.id for x in ast.walk(w.test) if isinstance(x, ast.Name)}
    for x in own:
        if isinstance(x, (ast.Name, ast.Attribute, ast.Subscript)) and isinstance(x.ctx, (ast.Store, ast.Del)):
            base = x
            while not isinstance(base, ast.Name) and hasattr(base, 'value'):
                base = base.value
            if isinstance(base, ast.Name) and base.id in names:
                return None
    return 'a loop that waits for `%s` without an await: the simulator hangs' % ast.unparse(w.test)


def loop_of(x):
    n = x._up
    while not isinstance(n, (ast.While, ast.For, ast.AsyncFor)):
        n = n._up
    return n

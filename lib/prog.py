"""Program model of /repo/src/uvm: modules, classes, MRO, imports, constants.

Everything here is syntactic: the sources are parsed with `ast`, never imported
or executed.
"""
import ast
import hashlib
import json
import os

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src', 'uvm')


class AnalysisBroken(Exception):
    """An anchor the analysis needs is gone; the run has no verdict."""


class Func:
    __slots__ = ('node', 'cls', 'mod', 'name', 'is_async', 'kind', 'qual')

    def __init__(self, node, cls, mod):
        self.node = node
        self.cls = cls
        self.mod = mod
        self.name = node.name
        self.is_async = isinstance(node, ast.AsyncFunctionDef)
        self.kind = 'inst' if cls else 'func'
        for d in node.decorator_list:
            n = d.id if isinstance(d, ast.Name) else (d.attr if isinstance(d, ast.Attribute) else '')
            if n == 'classmethod':
                self.kind = 'class'
            elif n == 'staticmethod':
                self.kind = 'static'
            elif n == 'property':
                self.kind = 'prop'
        self.qual = (cls.name + '.' if cls else '') + node.name

    @property
    def file(self):
        return self.mod.path

    def loc(self, node=None):
        return '%s:%d' % (self.mod.rel, getattr(node or self.node, 'lineno', self.node.lineno))

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def __repr__(self):
        return '<Func %s %s>' % (self.qual, self.mod.rel)


class Class:
    def __init__(self, node, mod):
        self.node = node
        self.mod = mod
        self.name = node.name
        self.methods = {}
        self.attrs = {}
        self.bases = []
        for b in node.bases:
            if isinstance(b, ast.Name):
                self.bases.append(b.id)
            elif isinstance(b, ast.Attribute):
                self.bases.append(b.attr)
            elif isinstance(b, ast.Subscript):
                v = b.value
                self.bases.append(v.id if isinstance(v, ast.Name) else getattr(v, 'attr', '?'))
        for st in node.body:
            self._collect(st)

    def _collect(self, st):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.methods[st.name] = Func(st, self, self.mod)
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    self.attrs[t.id] = st.value
        elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
            self.attrs[st.target.id] = st.value
        elif isinstance(st, (ast.If, ast.Try)):
            for s in st.body:
                self._collect(s)


class Module:
    def __init__(self, path, rel, name, src):
        self.path = path
        self.rel = rel
        self.name = name
        self.src = src
        self.tree = ast.parse(src, filename=path)
        self.classes = {}
        self.funcs = {}
        self.imports = {}    # local name -> (module dotted or None, orig name or None)
        self.stars = []
        self.assigns = {}
        for st in self.tree.body:
            self._collect(st)

    def _collect(self, st):
        if isinstance(st, ast.ClassDef):
            self.classes[st.name] = Class(st, self)
        elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.funcs[st.name] = Func(st, None, self)
        elif isinstance(st, (ast.Import, ast.ImportFrom)):
            for local, tgt in import_bindings(st, self.name, self.is_pkg):
                if local == '*':
                    self.stars.append(tgt)
                else:
                    self.imports[local] = tgt
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    self.assigns.setdefault(t.id, []).append(st.value)
        elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
            self.assigns.setdefault(st.target.id, []).append(st.value)
        elif isinstance(st, ast.If):
            for s in st.body + st.orelse:
                self._collect(s)
        elif isinstance(st, ast.Try):
            for s in st.body:
                self._collect(s)

    @property
    def is_pkg(self):
        return self.path.endswith('__init__.py')


def import_bindings(st, modname, is_pkg):
    out = []
    if isinstance(st, ast.Import):
        for a in st.names:
            out.append((a.asname or a.name.split('.')[0], (a.name, None)))
        return out
    base = modname.split('.')
    if st.level:
        if not is_pkg:
            base = base[:-1]
        if st.level > 1:
            base = base[:len(base) - (st.level - 1)]
        m = '.'.join(base + ([st.module] if st.module else []))
    else:
        m = st.module
    for a in st.names:
        if a.name == '*':
            out.append(('*', (m, None)))
        else:
            out.append((a.asname or a.name, (m, a.name)))
    return out


class Program:
    def __init__(self, root=None):
        self.root = root or SRC
        self.modules = {}
        self.files = []
        if not os.path.isdir(self.root):
            raise AnalysisBroken('no source directory ' + self.root)
        for d, dirs, fs in os.walk(self.root):
            dirs.sort()
            for f in sorted(fs):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, os.path.dirname(os.path.dirname(self.root)))
                mn = os.path.relpath(p, os.path.dirname(self.root))[:-3].replace(os.sep, '.')
                if mn.endswith('.__init__'):
                    mn = mn[:-9]
                with open(p, encoding='utf-8') as fh:
                    src = fh.read()
                try:
                    self.modules[mn] = Module(p, rel, mn, src)
                except SyntaxError as e:
                    raise AnalysisBroken('cannot parse %s: %s' % (rel, e))
                self.files.append(rel)
        self.classes = {}
        for m in self.modules.values():
            for c in m.classes.values():
                # prefer the first definition, but keep duplicates by module
                self.classes.setdefault(c.name, c)
        self.meth_by_name = {}
        self.func_by_name = {}
        for m in self.modules.values():
            for c in m.classes.values():
                for f in c.methods.values():
                    self.meth_by_name.setdefault(f.name, []).append(f)
            for f in m.funcs.values():
                self.func_by_name.setdefault(f.name, []).append(f)
        self._const_cache = {}
        self._mro = {}
        self._attrtypes = None
        self._subs = None

    # -- lookups ---------------------------------------------------------
    def module(self, dotted):
        return self.modules.get(dotted)

    def cls(self, name, required=True):
        c = self.classes.get(name)
        if c is None and required:
            raise AnalysisBroken('class %s not found in %s' % (name, self.root))
        return c

    def mro(self, cls):
        if cls.name in self._mro and self._mro[cls.name][0] is cls:
            return self._mro[cls.name]
        out = [cls]
        seen = {cls.name}
        work = list(cls.bases)
        # depth-first, left-to-right, keep first occurrence (enough here)
        def visit(names, mod):
            for b in names:
                r = self.resolve_name(mod, b)
                c = r[1] if r and r[0] == 'class' else self.classes.get(b)
                if c is None or c.name in seen:
                    continue
                seen.add(c.name)
                out.append(c)
                visit(c.bases, c.mod)
        visit(work, cls.mod)
        self._mro[cls.name] = out
        return out

    def method(self, cname, mname, required=True):
        c = self.cls(cname, required) if isinstance(cname, str) else cname
        if c is None:
            return None
        for k in self.mro(c):
            if mname in k.methods:
                return k.methods[mname]
        if required:
            raise AnalysisBroken('method %s.%s not found' % (c.name, mname))
        return None

    def own_method(self, cname, mname):
        c = self.cls(cname)
        if mname not in c.methods:
            raise AnalysisBroken('method %s.%s not found' % (cname, mname))
        return c.methods[mname]

    def func(self, modname, fname):
        m = self.modules.get(modname)
        if m is not None and fname not in m.funcs:
            r = self.resolve_name(m, fname)
            if r is not None and r[0] == 'func':
                return r[1]
        if m is None or fname not in m.funcs:
            raise AnalysisBroken('function %s.%s not found' % (modname, fname))
        return m.funcs[fname]

    def subclasses(self, cname):
        if self._subs is None:
            self._subs = {}
            for m in self.modules.values():
                for c in m.classes.values():
                    for k in self.mro(c)[1:]:
                        self._subs.setdefault(k.name, []).append(c)
        return self._subs.get(cname, [])

    def is_subclass(self, c, cname):
        return any(k.name == cname for k in self.mro(c))

    # -- names -----------------------------------------------------------
    def resolve_name(self, mod, name, _seen=None):
        """-> ('class',Class) | ('func',Func) | ('const',value) | ('module',Module)
        | ('extern', dotted) | None"""
        _seen = _seen or set()
        key = (mod.name, name)
        if key in _seen:
            return None
        _seen.add(key)
        if name in mod.classes:
            return ('class', mod.classes[name])
        if name in mod.funcs:
            return ('func', mod.funcs[name])
        if name in mod.assigns:
            vs = mod.assigns[name]
            v = self.const_of(mod, vs[-1]) if len(vs) == 1 else None
            if v is not None:
                return v
            if len(vs) == 1 and isinstance(vs[0], ast.Name):
                return self.resolve_name(mod, vs[0].id, _seen)
            return ('global', (mod.name, name))
        if name in mod.imports:
            return self.resolve_import(mod.imports[name], _seen)
        for (m, _) in mod.stars:
            mm = self.modules.get(m)
            if mm is not None:
                r = self.resolve_name(mm, name, _seen)
                if r is not None:
                    return r
        return None

    def resolve_import(self, tgt, _seen=None):
        m, orig = tgt
        if orig is None:
            mm = self.modules.get(m)
            return ('module', mm) if mm else ('extern', m)
        mm = self.modules.get(m)
        if mm is not None:
            r = self.resolve_name(mm, orig, _seen)
            if r is not None:
                return r
        sub = self.modules.get((m or '') + '.' + orig)
        if sub is not None:
            return ('module', sub)
        if mm is None:
            return ('extern', (m or '') + '.' + orig)
        return None

    def const_of(self, mod, node):
        k = (mod.name, id(node))
        if k in self._const_cache and self._const_cache[k][0] is node:
            return self._const_cache[k][1]
        self._const_cache[k] = (node, None)     # keeps the node alive: its id is the key
        r = self._const(mod, node)
        r = None if r is NotImplemented else ('const', r)
        self._const_cache[k] = (node, r)
        return r

    def _const(self, mod, n):
        if isinstance(n, ast.Constant):
            return n.value
        if isinstance(n, ast.Name):
            r = self.resolve_name(mod, n.id)
            if r and r[0] == 'const':
                return r[1]
            return NotImplemented
        if isinstance(n, ast.UnaryOp):
            v = self._const(mod, n.operand)
            if v is NotImplemented:
                return v
            try:
                if isinstance(n.op, ast.USub):
                    return -v
                if isinstance(n.op, ast.Invert):
                    return ~v
                if isinstance(n.op, ast.Not):
                    return not v
            except TypeError:
                pass
            return NotImplemented
        if isinstance(n, ast.BinOp):
            a = self._const(mod, n.left)
            b = self._const(mod, n.right)
            if a is NotImplemented or b is NotImplemented:
                return NotImplemented
            try:
                return BINOPS[type(n.op)](a, b)
            except Exception:
                return NotImplemented
        if isinstance(n, (ast.Tuple, ast.List, ast.Set)):
            vs = [self._const(mod, e) for e in n.elts]
            if any(v is NotImplemented for v in vs):
                return NotImplemented
            try:
                return tuple(vs) if not isinstance(n, ast.Set) else frozenset(vs)
            except TypeError:
                return NotImplemented
        return NotImplemented

    # -- attribute container types ----------------------------------------
    def attr_type(self, name):
        """container kind of attribute `name`: list/dict/set/UVMQueue/UVMPool/None"""
        if self._attrtypes is None:
            d = {}
            for m in self.modules.values():
                for c in m.classes.values():
                    for an, v in c.attrs.items():
                        self._note(d, m, an, v)
                    for f in c.methods.values():
                        for n in ast.walk(f.node):
                            if isinstance(n, ast.Assign):
                                for t in n.targets:
                                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) \
                                            and t.value.id in ('self', 'cls', c.name):
                                        self._note(d, m, t.attr, n.value)
                            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                                t = n.target
                                if isinstance(t, ast.Attribute):
                                    self._note(d, m, t.attr, n.value)
            self._attrtypes = {}
            for k, s in d.items():
                s = s - {'none', '?'}
                if len(s) == 1:
                    v = next(iter(s))
                    if v != '?':
                        self._attrtypes[k] = v
        return self._attrtypes.get(name)

    def _note(self, d, m, an, v):
        d.setdefault(an, set()).add(self.container_kind(m, v) or '?')

    def container_kind(self, m, v):
        if v is None or (isinstance(v, ast.Constant) and v.value is None):
            return 'none'
        if isinstance(v, (ast.List, ast.ListComp)):
            return 'list'
        if isinstance(v, (ast.Dict, ast.DictComp)):
            return 'dict'
        if isinstance(v, (ast.Set, ast.SetComp)):
            return 'set'
        if isinstance(v, ast.Call):
            f = v.func
            if isinstance(f, ast.Subscript):
                f = f.value
            if isinstance(f, ast.Name):
                if f.id in ('list', 'dict', 'set', 'deque'):
                    return {'deque': 'list'}.get(f.id, f.id)
                if f.id in ('OrderedDict', 'defaultdict'):
                    return 'dict'
                nm = f.id
                r = self.resolve_name(m, nm)
                if r is not None and r[0] == 'class':
                    for k in self.mro(r[1]):
                        if k.name in ('UVMQueue', 'UVMPool'):
                            return k.name
                al = m.assigns.get(nm)
                if al and isinstance(al[-1], ast.Subscript) and isinstance(al[-1].value, ast.Name):
                    if al[-1].value.id in ('UVMQueue', 'UVMPool'):
                        return al[-1].value.id
        return None

    def digest(self, mods=None):
        h = hashlib.sha256()
        for n in sorted(self.modules):
            if mods is None or n in mods:
                h.update(n.encode() + b'\0' + self.modules[n].src.encode())
        return h.hexdigest()[:16]

    def all_funcs(self):
        for m in self.modules.values():
            for f in m.funcs.values():
                yield f
            for c in m.classes.values():
                for f in c.methods.values():
                    yield f


import operator as _o
BINOPS = {ast.Add: _o.add, ast.Sub: _o.sub, ast.Mult: _o.mul, ast.FloorDiv: _o.floordiv,
          ast.Div: _o.truediv, ast.Mod: _o.mod, ast.LShift: _o.lshift, ast.RShift: _o.rshift,
          ast.BitOr: _o.or_, ast.BitAnd: _o.and_, ast.BitXor: _o.xor, ast.Pow: _o.pow}

_prog = None


def program():
    global _prog
    if _prog is None:
        _prog = Program()
    return _prog


BASELINE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'known_functions.json')


def known_functions():
    """Functions that existed when the rules were confirmed by reading.  A
    function that is not in this list is a newly extracted helper and is always
    analysed inside its callers."""
    with open(BASELINE) as f:
        return set(json.load(f))


def write_known():
    p = program()
    names = set()
    for f in p.all_funcs():
        names.add(f.mod.name + ':' + f.qual)
    with open(BASELINE, 'w') as f:
        json.dump(sorted(names), f, indent=0)

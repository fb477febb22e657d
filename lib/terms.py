"""Value terms (value numbering domain) and the fact store used by the
guarded-effect analysis.  Nothing here evaluates repository code: terms are
syntactic normal forms, facts are one abstract value per term."""
import math
from functools import lru_cache

NONE = ('c', None)
TRUE = ('c', True)
FALSE = ('c', False)
ANY = ('any',)


def C(v):
    return ('c', v)


def is_c(t):
    return t[0] == 'c'


@lru_cache(maxsize=400000)
def key(t):
    return repr(t)


def skey(t):
    return key(t)


def is_num(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool) or isinstance(v, bool)


# ---- linear arithmetic ------------------------------------------------------

def to_lin(t):
    """-> (const, {term: coef})"""
    if t[0] == 'c' and isinstance(t[1], (int, float)):
        return t[1], {}
    if t[0] == 'lin':
        return t[1], dict(t[2])
    return 0, {t: 1}


def from_lin(c, d):
    d = {k: v for k, v in d.items() if v != 0}
    if not d:
        return ('c', c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return ('lin', c, tuple(sorted(d.items(), key=lambda kv: key(kv[0]))))


def add(a, b, sign=1):
    ca, da = to_lin(a)
    cb, db = to_lin(b)
    d = dict(da)
    for k, v in db.items():
        d[k] = d.get(k, 0) + sign * v
    return from_lin(ca + sign * cb, d)


def scale(a, n):
    ca, da = to_lin(a)
    return from_lin(ca * n, {k: v * n for k, v in da.items()})


def is_str(t):
    return (t[0] == 'c' and isinstance(t[1], str)) or t[0] in ('cat', 'str')


def cat(*parts):
    out = []
    for p in parts:
        if p[0] == 'cat':
            ps = p[1]
        else:
            ps = (p,)
        for q in ps:
            if q[0] == 'str':
                q = q[1]
                if q[0] == 'c' and not isinstance(q[1], str):
                    q = ('c', str(q[1]))
                if q[0] == 'cat':
                    for r in q[1]:
                        _push(out, r)
                    continue
            _push(out, q)
    if not out:
        return ('c', '')
    if len(out) == 1 and is_c(out[0]):
        return out[0]
    return ('cat', tuple(out))


def _push(out, q):
    if q[0] == 'c' and isinstance(q[1], str):
        if q[1] == '':
            return
        if out and out[-1][0] == 'c' and isinstance(out[-1][1], str):
            out[-1] = ('c', out[-1][1] + q[1])
            return
    out.append(q)


COMM = {'&', '|', '^', '*'}


def op(name, a, b):
    if name in COMM and key(b) < key(a):
        a, b = b, a
    if name in ('&', '|', '^'):
        # flatten, sort, dedupe constants
        xs = []
        for t in (a, b):
            if t[0] == 'op' and t[1] == name:
                xs.extend(t[2])
            else:
                xs.append(t)
        cs = [t[1] for t in xs if is_c(t) and isinstance(t[1], int)]
        rest = [t for t in xs if not (is_c(t) and isinstance(t[1], int))]
        if cs:
            v = cs[0]
            for c in cs[1:]:
                v = v & c if name == '&' else (v | c if name == '|' else v ^ c)
            if name in ('|', '^') and v == 0 and rest:
                pass
            elif name == '&' and v == 0:
                return ('c', 0)
            else:
                rest.append(('c', v))
        if name in ('&', '|'):
            rest = list(dict.fromkeys(rest))
        rest.sort(key=key)
        if len(rest) == 1:
            return rest[0]
        return ('op', name, tuple(rest))
    return ('op', name, (a, b))


def subst(t, f, memo=None):
    """rewrite term bottom-up with f (f returns replacement or None)"""
    if memo is None:
        memo = {}
    if not isinstance(t, tuple) or not t or t[0] == 'c':
        r = f(t)
        return t if r is None else r
    m = memo.get(id(t))
    if m is None:
        m = memo[id(t)] = (t, subst1(t, f, memo))
    return m[1]


def subst1(t, f, memo):
    r = f(t)
    if r is not None:
        return r
    out = []
    ch = False
    for x in t:
        if isinstance(x, tuple):
            y = subst(x, f, memo)
            ch = ch or (y is not x)
            out.append(y)
        else:
            out.append(x)
    return renorm(tuple(out)) if ch else t


def renorm(t):
    if not t:
        return t
    if t[0] == 'lin':
        acc = ('c', t[1])
        for k, v in t[2]:
            acc = add(acc, scale(k, v))
        return acc
    if t[0] == 'cat':
        return cat(*t[1])
    if t[0] == 'op' and t[1] in ('&', '|', '^') and len(t[2]) >= 2:
        acc = t[2][0]
        for x in t[2][1:]:
            acc = op(t[1], acc, x)
        return acc
    return t


def contains(t, pred):
    if t and pred(t):
        return True
    if isinstance(t, tuple) and t and t[0] != 'c':
        return any(isinstance(x, tuple) and contains(x, pred) for x in t)
    return False


# ---- atoms -------------------------------------------------------------------
# ('t', x)  ('none', x)  ('eq', x, c|y)  ('lt', E, k)  ('in', k, c)  ('isa', x, C)

def mk_lt(a, b):
    """a < b over integers -> (atom, polarity) or bool"""
    e = add(a, b, -1)
    c, d = to_lin(e)
    if not d:
        return c < 0
    items = sorted(d.items(), key=lambda kv: key(kv[0]))
    pos = items[0][1] > 0
    if pos:
        E = from_lin(0, d)
        k = -c        # E < -c
        neg = False
    else:
        E = from_lin(0, {t: -v for t, v in d.items()})
        k = c + 1 if isinstance(c, int) else math.nextafter(c, math.inf)     # -E + c < 0 <=> E > c <=> not (E < c+1)
        neg = True
    if E[0] == 'len':
        if k <= 0:
            return neg
        if k == 1:
            return (('t', E[1]), neg)       # len<1  <=> not t
    return (('lt', E, k), not neg)


def mk_eq(a, b):
    """-> (atom, polarity) or bool"""
    if a == b:
        return True
    if a[0] == 'c' and b[0] == 'c':
        try:
            return a[1] == b[1]
        except Exception:
            return False
    if a[0] == 'c':
        a, b = b, a
    if b[0] == 'c':
        v = b[1]
        if v is None:
            return mk_none(a)
        if v is True:
            return mk_t(a)
        if v is False:
            return neg(mk_t(a))
        if isinstance(v, (int, float)):
            c, d = to_lin(a)
            if d and (c != 0 or len(d) > 1 or list(d.values())[0] != 1):
                items = sorted(d.items(), key=lambda kv: key(kv[0]))
                s = 1 if items[0][1] > 0 else -1
                E = from_lin(0, {t: s * w for t, w in d.items()})
                k = s * (v - c)
                return mk_eq1(E, k)
            return mk_eq1(a, v)
        if v == '':
            return neg(mk_t(a)) if True else None
        return (('eq', a, b), True)
    if a[0] == 'lin' or b[0] == 'lin':
        e = add(a, b, -1)
        return mk_eq(e, ('c', 0))
    if a[0] in ('new', 'obj') and b[0] in ('new', 'obj'):
        return False
    if key(b) < key(a):
        a, b = b, a
    return (('eq', a, b), True)


def mk_eq1(E, k):
    if E[0] == 'len' and k == 0:
        return (('t', E[1]), False)
    if E[0] == 'len' and k < 0:
        return False
    if k == 0:
        return neg(mk_t(E))
    return (('eq', E, ('c', k)), True)


def neg(a):
    if isinstance(a, bool):
        return not a
    return (a[0], not a[1])


def mk_none(a):
    if a[0] == 'c':
        return a[1] is None
    if a[0] in ('new', 'obj', 'cat', 'str', 'lin', 'len', 'clo', 'C', 'list', 'dict', 'tup', 'set',
                'op', 'lam', 'pow', 'fn', 'F', 'M'):
        return False
    return (('none', a), True)


def mk_t(a):
    if a[0] == 'c':
        return bool(a[1])
    if a[0] in ('C', 'clo', 'F', 'M', 'lam'):
        return True
    if a[0] == 'new':
        return True
    if a[0] == 'len':
        return (('t', a[1]), True)
    if a[0] in ('list', 'tup', 'set'):
        if len(a[1]) == 0:
            return False
        return True
    if a[0] == 'cat':
        if any(p[0] == 'c' for p in a[1]):
            return True
    if a[0] == 'str':
        return (('t', a), True)
    if a[0] == 'lin' and len(a[2]) == 2 and a[1] == 0:
        # x - y != 0
        (x, cx), (y, cy) = a[2]
        if cx == 1 and cy == -1 or cx == -1 and cy == 1:
            return neg((('eq', x, y) if key(x) <= key(y) else ('eq', y, x), True))
    if a[0] == 'lin' and a[1] != 0:
        return neg(mk_eq(a, ('c', 0)))
    return (('t', a), True)


class Dom:
    """abstract value of one term"""
    __slots__ = ('none', 't', 'eq', 'ne', 'lo', 'hi')

    def __init__(self):
        self.none = None
        self.t = None
        self.eq = None      # ('c', v) wrapper or None
        self.ne = ()
        self.lo = None
        self.hi = None

    def copy(self):
        d = Dom.__new__(Dom)
        d.none, d.t, d.eq, d.ne, d.lo, d.hi = self.none, self.t, self.eq, self.ne, self.lo, self.hi
        return d

    def close(self):
        """propagate; False when empty"""
        if self.eq is not None:
            v = self.eq[1]
            for n in self.ne:
                if n == v:
                    return False
            if self.t is not None and self.t != bool(v):
                return False
            self.t = bool(v)
            if self.none is True:
                return False
            self.none = False
            if isinstance(v, (int, float)):
                if self.lo is not None and v < self.lo:
                    return False
                if self.hi is not None and v > self.hi:
                    return False
                self.lo = self.hi = v
        if self.none is True:
            if self.t is True:
                return False
            self.t = False
        if self.t is True:
            if self.none is True:
                return False
            self.none = False
            if self.lo == 0:
                self.lo = 1
            if self.hi == 0:
                self.hi = -1
        if self.t is False and (self.lo is not None and self.lo > 0 or self.hi is not None and self.hi < 0):
            return False
        ch = True
        while ch:
            ch = False
            for n in self.ne:
                if isinstance(n, (int, float)):
                    if self.lo is not None and self.lo == n:
                        self.lo = n + 1 if isinstance(self.lo, int) else math.nextafter(n, math.inf)
                        ch = True
                    if self.hi is not None and self.hi == n:
                        self.hi = n - 1 if isinstance(self.hi, int) else math.nextafter(n, -math.inf)
                        ch = True
        if self.lo is not None and self.hi is not None:
            if self.lo > self.hi:
                return False
            if self.lo == self.hi and self.eq is None and isinstance(self.lo, int):
                v = self.lo
                if self.t is not None and self.t != bool(v):
                    return False
                self.eq = ('c', v)
                self.t = bool(v)
        if self.lo is not None and self.lo > 0 and self.t is None:
            self.t = True
        if self.hi is not None and self.hi < 0 and self.t is None:
            self.t = True
        return True


class Facts:
    __slots__ = ('dom', 'rel', 'clauses', 'log')

    def __init__(self):
        self.dom = {}
        self.rel = {}
        self.clauses = []       # each: tuple of (atom, val) that must not all hold
        self.log = ()

    def copy(self):
        f = Facts.__new__(Facts)
        f.dom = dict(self.dom)
        f.rel = dict(self.rel)
        f.clauses = list(self.clauses)
        f.log = self.log
        return f

    def ask(self, atom):
        k = atom[0]
        if k == 't':
            x = atom[1]
            d = self.dom.get(x)
            if d is not None and d.t is not None:
                return d.t
            if x[0] == 'op' and x[1] == '&':
                pass
            return None
        if k == 'none':
            d = self.dom.get(atom[1])
            return d.none if d is not None else None
        if k == 'eq':
            x, y = atom[1], atom[2]
            if y[0] == 'c':
                d = self.dom.get(x)
                if d is None:
                    return None
                v = y[1]
                if d.eq is not None:
                    return d.eq[1] == v
                if v in d.ne:
                    return False
                if d.none is True:
                    return False
                if d.t is not None and d.t != bool(v):
                    return False
                if isinstance(v, (int, float)):
                    if d.lo is not None and v < d.lo or d.hi is not None and v > d.hi:
                        return False
                return None
            r = self.rel.get(atom)
            if r is not None:
                return r
            dx, dy = self.dom.get(x), self.dom.get(y)
            if dx is not None and dy is not None:
                if dx.eq is not None and dy.eq is not None:
                    return dx.eq[1] == dy.eq[1]
                if dx.none is not None and dy.none is not None:
                    if dx.none and dy.none:
                        return True
                    if dx.none != dy.none:
                        return False
                if dx.t is not None and dy.t is not None and dx.t != dy.t:
                    return False
            # equality via third term
            for (a, v) in self.rel.items():
                if v and a[0] == 'eq' and (x in a[1:] or y in a[1:]):
                    z = None
                    if x in a[1:]:
                        z = a[2] if a[1] == x else a[1]
                        o = y
                    else:
                        z = a[2] if a[1] == y else a[1]
                        o = x
                    if z == o:
                        return True
                    p = ('eq', z, o) if key(z) <= key(o) else ('eq', o, z)
                    if p in self.rel:
                        return self.rel[p]
            if atom in (('eq', x, y),) and x[0] == 'lt':
                return None
            # x == y with known x<y
            e = mk_lt(x, y)
            if not isinstance(e, bool) and e[0][0] == 'lt':
                d = self.dom.get(e[0][1])
                if d is not None:
                    if d.lo is not None and d.lo > 0 or d.hi is not None and d.hi < 0:
                        return False
            return None
        if k == 'lt':
            d = self.dom.get(atom[1])
            lo = hi = None
            if d is not None:
                lo, hi = d.lo, d.hi
            if lo is None or hi is None:
                l2, h2 = self.bounds(atom[1])
                lo = l2 if lo is None else lo
                hi = h2 if hi is None else hi
            if hi is not None and hi < atom[2]:
                return True
            if lo is not None and lo >= atom[2]:
                return False
            return None
        r = self.rel.get(atom)
        if r is not None:
            return r
        if k == 'in':
            d = self.dom.get(atom[2])
            if d is not None and d.t is False:
                return False
        if k == 'isa':
            d = self.dom.get(atom[1])
            if d is not None and d.none is True:
                return False
        return None

    def bounds(self, E):
        """interval of a linear term from intervals of its parts"""
        if E[0] == 'len':
            d = self.dom.get(E[1])
            lo = 0
            if d is not None and d.t is True:
                lo = 1
            if d is not None and d.t is False:
                return 0, 0
            return lo, None
        if E[0] != 'lin':
            d = self.dom.get(E)
            if d is None:
                return None, None
            return d.lo, d.hi
        d = self.dom.get(E)
        if d is not None and (d.lo is not None or d.hi is not None):
            return d.lo, d.hi
        if len(E[2]) == 2 and self.rel:
            (x, cx), (y, cy) = E[2]
            if cx == -cy:
                at = ('eq', x, y) if key(x) <= key(y) else ('eq', y, x)
                if self.rel.get(at):
                    return E[1], E[1]
        lo = hi = E[1]
        for t, c in E[2]:
            l, h = self.bounds(t)
            if c < 0:
                l, h = h, l
            lo = None if lo is None or l is None else lo + c * l
            hi = None if hi is None or h is None else hi + c * h
        return lo, hi

    def assume(self, atom, val):
        """add; False when contradictory"""
        a = self.ask(atom)
        if a is not None:
            return a == val
        self.log = self.log + ((atom, val),)
        k = atom[0]
        if k in ('t', 'none', 'lt') or (k == 'eq' and atom[2][0] == 'c'):
            x = atom[1]
            d = self.dom.get(x)
            d = d.copy() if d is not None else Dom()
            if x[0] == 'len' and d.lo is None:
                d.lo, d.hi = self.bounds(x)
            if k == 't':
                d.t = val
            elif k == 'none':
                d.none = val
            elif k == 'eq':
                if val:
                    d.eq = atom[2]
                else:
                    d.ne = d.ne + (atom[2][1],)
            else:
                if val:
                    top = atom[2] - 1 if isinstance(atom[2], int) else math.nextafter(atom[2], -math.inf)
                    d.hi = top if d.hi is None else min(d.hi, top)
                else:
                    d.lo = atom[2] if d.lo is None else max(d.lo, atom[2])
            if not d.close():
                return False
            self.dom[x] = d
            if x[0] == 'len' and d.lo is not None and d.lo >= 1:
                if not self.assume(('t', x[1]), True):
                    return False
            if k == 't' and val is False:
                for (r, v) in list(self.rel.items()):
                    if v and r[0] == 'in' and r[2] == x:
                        return False
            if k == 't' and ('len', x) in self.dom:
                d2 = self.dom[('len', x)].copy()
                if val:
                    d2.lo = max(d2.lo or 0, 1)
                else:
                    d2.lo = d2.lo or 0
                    d2.hi = 0 if d2.hi is None else min(0, d2.hi)
                if not d2.close():
                    return False
                self.dom[('len', x)] = d2
            # propagate through known equalities
            for (r, v) in list(self.rel.items()):
                if v and r[0] == 'eq' and x in r[1:]:
                    z = r[2] if r[1] == x else r[1]
                    at = (k, z) + tuple(atom[2:])
                    if k != 'lt' and self.ask(at) is not None and self.ask(at) != val:
                        return False
        else:
            self.rel[atom] = val
            if k == 'in' and val:
                if not self.assume(('t', atom[2]), True):
                    return False
            if k == 'isa' and val:
                if not self.assume(('none', atom[1]), False):
                    return False
            if k == 'eq':
                x, y = atom[1], atom[2]
                dx, dy = self.dom.get(x), self.dom.get(y)
                if val:
                    for p, q in ((dx, y), (dy, x)):
                        if p is None:
                            continue
                        if p.eq is not None and not self.assume(('eq', q, p.eq), True):
                            return False
                        if p.eq is None and p.none is not None and not self.assume(('none', q), p.none):
                            return False
                        if p.eq is None and p.t is not None and not self.assume(('t', q), p.t):
                            return False
        return True

    def add_clause(self, lits):
        self.clauses.append(tuple(lits))

    def propagate(self):
        """unit propagation over the clauses; False when contradictory"""
        ch = True
        while ch:
            ch = False
            for cl in self.clauses:
                un = []
                sat = False
                for (a, v) in cl:
                    r = self.ask(a)
                    if r is None:
                        un.append((a, v))
                    elif r != v:
                        sat = True
                        break
                if sat:
                    continue
                if not un:
                    return False
                if len(un) == 1:
                    if not self.assume(un[0][0], not un[0][1]):
                        return False
                    ch = True
        return True


def joint(a, b):
    """conjunction of two fact stores, or None when contradictory"""
    f = a.copy()
    for (at, v) in b.log:
        if not f.assume(at, v):
            return None
    f.clauses = a.clauses + [c for c in b.clauses if c not in a.clauses]
    if f.clauses and not f.propagate():
        return None
    return f

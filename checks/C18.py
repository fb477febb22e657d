"""Structural rules for the TLM interface classes: the mask a port, export or imp
advertises, the methods it offers and the attribute it forwards to must belong together."""
import ast

ELEM = {  # interface bit -> methods that carry it
    'BLOCKING_PUT': {'put'}, 'BLOCKING_GET': {'get'}, 'BLOCKING_PEEK': {'peek'}, 'BLOCKING_TRANSPORT': {'transport'},
    'NONBLOCKING_PUT': {'try_put', 'can_put'}, 'NONBLOCKING_GET': {'try_get', 'can_get'},
    'NONBLOCKING_PEEK': {'try_peek', 'can_peek'}, 'NONBLOCKING_TRANSPORT': {'nb_transport'}, 'ANALYSIS': {'write'},
    'MASTER_BIT': set(), 'SLAVE_BIT': set(),
}
B, N = 'BLOCKING_', 'NONBLOCKING_'
COMP = {
    'PUT': {B + 'PUT', N + 'PUT'}, 'GET': {B + 'GET', N + 'GET'}, 'PEEK': {B + 'PEEK', N + 'PEEK'},
    'TRANSPORT': {B + 'TRANSPORT', N + 'TRANSPORT'},
    'BLOCKING_GET_PEEK': {B + 'GET', B + 'PEEK'}, 'NONBLOCKING_GET_PEEK': {N + 'GET', N + 'PEEK'},
    'GET_PEEK': {B + 'GET', B + 'PEEK', N + 'GET', N + 'PEEK'},
}
for k, bit in (('MASTER', 'MASTER_BIT'), ('SLAVE', 'SLAVE_BIT')):
    COMP['BLOCKING_' + k] = {B + 'PUT', B + 'GET', B + 'PEEK', bit}
    COMP['NONBLOCKING_' + k] = {N + 'PUT', N + 'GET', N + 'PEEK', bit}
    COMP[k] = COMP['BLOCKING_' + k] | COMP['NONBLOCKING_' + k]
SEQ = ['GET_NEXT_ITEM', 'TRY_NEXT_ITEM', 'ITEM_DONE', 'HAS_DO_AVAILABLE', 'WAIT_FOR_SEQUENCES', 'PUT_RESPONSE', 'PUT', 'GET', 'PEEK']


def const(p, m, name):
    r = p.resolve_name(m, name)
    return r[1] if r and r[0] == 'const' else None


def run(ctx):
    p = ctx.p
    m = p.module('uvm.macros.uvm_tlm_defines')
    ctx.files.add(m.rel)
    loc = lambda n: '%s:%s' % (m.rel, getattr(m.assigns.get(n), 'lineno', 1))
    bits = {}
    for e in ELEM:
        nm = 'UVM_TLM_%s_MASK' % e
        v = const(p, m, nm)
        ok = isinstance(v, int) and v > 0 and v & (v - 1) == 0
        ctx.check('mask:' + nm, ok and v not in bits.values(), '%s is one bit of its own' % nm, loc(nm),
                  '%s = %s is not one bit that no other TLM interface uses' % (nm, v))
        bits[e] = v if isinstance(v, int) else 0
    for c, es in COMP.items():
        nm = 'UVM_TLM_%s_MASK' % c
        v = const(p, m, nm)
        want = 0
        for e in es:
            want |= bits[e]
        ctx.check('mask:' + nm, v == want, '%s is the union of %s' % (nm, sorted(es)), loc(nm),
                  '%s = %s, the union of %s is %s' % (nm, v, sorted(es), want))
    sb = {}
    for e in SEQ:
        nm = 'UVM_SEQ_ITEM_%s_MASK' % e
        v = const(p, m, nm)
        ctx.check('mask:' + nm, isinstance(v, int) and v > 0 and v & (v - 1) == 0 and v not in sb.values(),
                  '%s is one bit of its own' % nm, loc(nm))
        sb[e] = v or 0
    want = 0
    for v in sb.values():
        want |= v
    ctx.check('mask:UVM_SEQ_ITEM_PULL_MASK', const(p, m, 'UVM_SEQ_ITEM_PULL_MASK') == want, 'the pull mask is the union of its operations',
              loc('UVM_SEQ_ITEM_PULL_MASK'))
    classes(ctx, bits)


def expand(p, mod, name, seen=()):
    """methods a *_IMP(imp, T) helper installs, following the helpers it calls"""
    r = p.resolve_name(mod, name)
    if not r or r[0] != 'func' or name in seen:
        return None
    f = r[1]
    out = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
            if n.func.id == 'setattr' and len(n.args) == 3 and isinstance(n.args[1], ast.Constant):
                out.add(n.args[1].value)
            elif n.func.id.endswith('_IMP'):
                s = expand(p, f.mod, n.func.id, seen + (name,))
                if s is None:
                    return None
                out |= s
    return out


def classes(ctx, bits):
    """interface classes are built at module level: class X; X = UVM_<ROLE>_COMMON(X, MASK, name); UVM_<IF>_IMP(attr, X)"""
    p = ctx.p
    inv = {}
    for c, es in list(COMP.items()) + [(e, {e}) for e in ELEM]:
        inv[frozenset(es)] = c
    n = 0
    for role, mn in (('PORT', 'uvm.tlm1.uvm_ports'), ('EXPORT', 'uvm.tlm1.uvm_exports'), ('IMP', 'uvm.tlm1.uvm_imps')):
        m = p.module(mn)
        ctx.files.add(m.rel)
        mask, made, meths, line = {}, {}, {}, {}
        for st in m.tree.body:
            v = st.value if isinstance(st, (ast.Assign, ast.Expr)) else None
            if not isinstance(v, ast.Call) or not isinstance(v.func, ast.Name):
                continue
            fn = v.func.id
            if isinstance(st, ast.Assign) and len(v.args) >= 2 and isinstance(v.args[0], ast.Name) and isinstance(v.args[1], ast.Name):
                x = st.targets[0].id
                made[x] = fn
                mask[x] = const(p, m, v.args[1].id)
                line[x] = st.lineno
            elif isinstance(st, ast.Expr) and len(v.args) == 2 and isinstance(v.args[1], ast.Name):
                s = expand(p, m, fn)
                if s is not None:
                    at = v.args[0].value if isinstance(v.args[0], ast.Constant) else None
                    meths.setdefault(v.args[1].id, []).append((at, s))
        for x, fn in made.items():
            n += 1
            nm = x.lower().replace('_', '')
            loc = '%s:%d' % (m.rel, line[x])
            # the interface the class name states
            iface = nm[3:].replace('export', '').replace('port', '') if role != 'IMP' else nm[3:-3]
            iface = iface.replace('trans', 'transport') if iface.endswith('trans') else iface
            want = None
            for c, es in list(COMP.items()) + [(e, {e}) for e in ELEM]:
                if c.lower().replace('_', '') == iface:
                    want = es
            if want is None:
                continue
            wm = 0
            for e in want:
                wm |= bits[e]
            ctx.check('iface-mask:' + x, mask[x] == wm, '%s advertises exactly the %s interface' % (x, iface), loc,
                      '%s advertises mask %s, its interface %s is %s' % (x, mask[x], iface, wm))
            have = set()
            for at, s in meths.get(x, ()):
                have |= s
            wantm = set()
            for e in want:
                wantm |= ELEM[e]
            ctx.check('iface-methods:' + x, have == wantm, '%s offers exactly the methods of its interface' % x, loc,
                      '%s offers %s, its interface is %s' % (x, sorted(have), sorted(wantm)))
            kind = fn.replace('UVM_', '').replace('_COMMON', '')
            ms = 'MASTER_BIT' in want or 'SLAVE_BIT' in want
            if role == 'IMP':
                ctx.check('iface-role:' + x, kind in ('MS_IMP',) if ms else kind == 'IMP', '%s is built as an imp' % x, loc)
            else:
                ctx.check('iface-role:' + x, kind == role, '%s is built as a %s' % (x, role.lower()), loc)
            for at, s in meths.get(x, ()):
                if role != 'IMP':
                    w = 'm_if'
                elif not ms:
                    w = 'm_imp'
                else:
                    put = bool(s & {'put', 'try_put'})
                    w = 'm_req_imp' if put == ('MASTER_BIT' in want) else 'm_rsp_imp'
                ctx.check('iface-forward:%s:%s' % (x, '+'.join(sorted(s))), at == w,
                          '%s forwards %s to %s' % (x, sorted(s), w), loc, '%s forwards %s to %s, not %s' % (x, sorted(s), at, w))
    ctx.floor('interface classes', n, 50)

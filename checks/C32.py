"""Structural rules for the TLM2 classes: which interface each port, export, imp and socket
advertises, which transport methods it offers and the attribute each of them is forwarded to."""
import ast

MASKS = {'b': 'UVM_TLM_B_MASK', 'fw': 'UVM_TLM_NB_FW_MASK', 'bw': 'UVM_TLM_NB_BW_MASK'}
METH = {'b': 'b_transport', 'fw': 'nb_transport_fw', 'bw': 'nb_transport_bw'}
INST = {'UVM_TLM_B_TRANSPORT_IMP': 'b_transport', 'UVM_TLM_NB_TRANSPORT_FW_IMP': 'nb_transport_fw', 'UVM_TLM_NB_TRANSPORT_BW_IMP': 'nb_transport_bw'}
# class -> (builder, interface advertised, {method: attribute it is forwarded to})
WANT = {}
for i, n in (('b', 'BTransport'), ('fw', 'NbTransportFw'), ('bw', 'NbTransportBw')):
    for k, at in (('Port', 'm_if'), ('Export', 'm_if'), ('Imp', 'm_imp')):
        WANT['UVMTLM%s%s' % (n, k)] = ('UVM_%s_COMMON' % k.upper(), i, {METH[i]: at})
WANT.update({
    'UVMTLMBInitiatorSocketBase': ('UVM_PORT_COMMON', 'b', {'b_transport': 'm_if'}),
    'UVMTLMBPassthroughInitiatorSocketBase': ('UVM_PORT_COMMON', 'b', {'b_transport': 'm_if'}),
    'UVMTLMBPassthroughTargetSocketBase': ('UVM_EXPORT_COMMON', 'b', {'b_transport': 'm_if'}),
    'UVMTLMBTargetSocket': (None, None, {'b_transport': 'm_imp'}),
    'UVMTLMNbInitiatorSocketBase': (None, None, {'nb_transport_fw': 'm_if'}),
    'UVMTLMNbTargetSocketBase': (None, None, {'nb_transport_bw': 'bw_port'}),
    'UVMTLMNbTargetSocket': (None, None, {'nb_transport_fw': 'm_imp'}),
    'UVMTLMNbPassthroughInitiatorSocketBase': (None, None, {'nb_transport_fw': 'm_if', 'nb_transport_bw': 'bw_export'}),
    'UVMTLMNbPassthroughTargetSocketBase': (None, None, {'nb_transport_fw': 'm_if', 'nb_transport_bw': 'bw_port'}),
})
SUBS = {'UVMTLMBInitiatorSocket': 'UVMTLMBInitiatorSocketBase', 'UVMTLMBTargetSocket': 'UVMTLMBTargetSocketBase',
        'UVMTLMNbInitiatorSocket': 'UVMTLMNbInitiatorSocketBase', 'UVMTLMNbTargetSocket': 'UVMTLMNbTargetSocketBase',
        'UVMTLMBPassthroughInitiatorSocket': 'UVMTLMBPassthroughInitiatorSocketBase',
        'UVMTLMBPassthroughTargetSocket': 'UVMTLMBPassthroughTargetSocketBase',
        'UVMTLMNbPassthroughInitiatorSocket': 'UVMTLMNbPassthroughInitiatorSocketBase',
        'UVMTLMNbPassthroughTargetSocket': 'UVMTLMNbPassthroughTargetSocketBase'}


def run(ctx):
    p = ctx.p
    seen = []
    d = p.module('uvm.tlm2.uvm_tlm2_defines')
    for k, nm in MASKS.items():
        r = p.resolve_name(d, nm)
        v = r[1] if r and r[0] == 'const' else None
        ctx.check('mask:' + nm, isinstance(v, int) and v > 0 and v & (v - 1) == 0 and v not in seen, '%s is one bit of its own' % nm,
                  '%s:%s' % (d.rel, getattr(d.assigns.get(nm), 'lineno', 1)), '%s = %s' % (nm, v))
        seen.append(v)
    ctx.files.add(d.rel)
    made, fwd, line = {}, {}, {}
    for mn in ('ports', 'exports', 'imps', 'sockets_base', 'sockets'):
        m = p.module('uvm.tlm2.uvm_tlm2_' + mn)
        ctx.files.add(m.rel)
        for st in m.tree.body:
            if isinstance(st, ast.ClassDef):
                line.setdefault(st.name, '%s:%d' % (m.rel, st.lineno))
            v = st.value if isinstance(st, (ast.Assign, ast.Expr)) else None
            if not isinstance(v, ast.Call) or not isinstance(v.func, ast.Name):
                continue
            if isinstance(st, ast.Assign) and len(v.args) >= 2 and isinstance(st.targets[0], ast.Name) and isinstance(v.args[1], ast.Name):
                made[st.targets[0].id] = (v.func.id, v.args[1].id, v.args[0].id if isinstance(v.args[0], ast.Name) else None)
            elif v.func.id in INST and len(v.args) == 2 and isinstance(v.args[1], ast.Name):
                at = v.args[0].value if isinstance(v.args[0], ast.Constant) else None
                fwd.setdefault(v.args[1].id, {})[INST[v.func.id]] = at
    n = 0
    for c, (b, i, f) in WANT.items():
        loc = line.get(c)
        if loc is None:
            ctx.fail('tlm2-class:' + c, 'src/uvm/tlm2', 'class %s is gone' % c)
            continue
        n += 1
        if b:
            got = made.get(c)
            ctx.check('tlm2-role:' + c, got == (b, MASKS[i], c), '%s is built by %s and advertises %s' % (c, b, MASKS[i]), loc,
                      '%s is built as %s, not as %s' % (c, got, (b, MASKS[i], c)))
        ctx.check('tlm2-forward:' + c, fwd.get(c, {}) == f, '%s forwards %s' % (c, f), loc,
                  '%s forwards %s, expected %s' % (c, fwd.get(c, {}), f))
    for c, b in SUBS.items():
        loc = line.get(c, 'src/uvm/tlm2/uvm_tlm2_sockets.py')
        k = p.cls(c)
        ctx.check('tlm2-base:' + c, k is not None and p.is_subclass(k, b), '%s is a %s' % (c, b), loc)
    ctx.floor('TLM2 interface classes', n, 17)

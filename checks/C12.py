"""Structural rule beside the contracts: which traversal each standard phase class inherits."""

KIND = {
    'UVMBuildPhase': 'UVMTopdownPhase', 'UVMConnectPhase': 'UVMBottomupPhase', 'UVMEndOfElaborationPhase': 'UVMBottomupPhase',
    'UVMStartofSimulationPhase': 'UVMBottomupPhase', 'UVMRunPhase': 'UVMTaskPhase', 'UVMExtractPhase': 'UVMBottomupPhase',
    'UVMCheckPhase': 'UVMBottomupPhase', 'UVMReportPhase': 'UVMBottomupPhase', 'UVMFinalPhase': 'UVMTopdownPhase',
}
for _s in ('Reset', 'Configure', 'Main', 'Shutdown'):
    for _t in ('Pre', '', 'Post'):
        KIND['UVM%s%sPhase' % (_t, _s)] = 'UVMTaskPhase'
BASES = ('UVMTopdownPhase', 'UVMBottomupPhase', 'UVMTaskPhase')


def run(ctx):
    p = ctx.p
    for c, want in sorted(KIND.items()):
        k = p.cls(c)
        ctx.files.add(k.mod.rel)
        loc = '%s:%s' % (k.mod.rel, k.node.lineno)
        got = [b for b in BASES if p.is_subclass(k, b)]
        ctx.check('traversal:' + c, got == [want], '%s traverses the hierarchy as a %s' % (c, want), loc,
                  '%s is a %s, the standard %s is a %s' % (c, '/'.join(got) or 'phase of no known traversal', c, want))

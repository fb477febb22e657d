"""Structural rule beside the contracts: how a glob scope is tied to the ends of the name."""
import ast


def run(ctx):
    f = ctx.p.func('uvm.base.sv', 'uvm_re_match')
    ctx.touch(f)
    # a glob scope must be tied to the start of the name as well as to its end
    tied = False
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('fullmatch', 'match'):
            tied = True
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and (n.value.startswith('\\A') or n.value.startswith('^(')):
            tied = True
    ctx.check('scope-start-anchored', tied, 'uvm_re_match ties a glob scope to the start of the name', f.loc(),
              'uvm_re_match: a glob scope matches names that merely end with it')

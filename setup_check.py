#!/usr/bin/env python3
"""Setup: nothing to build; confirms that the source can be parsed and the contracts load."""
import os
import sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'lib'))
import runner  # noqa: E402
n = 0
for f in sorted(os.listdir(os.path.join(V, 'specs'))):
    if f.endswith('.py'):
        n += len(runner.load_contracts(f[:-3]))
print('modules parsed: %d, contracts: %d' % (len(runner.program().modules), n))

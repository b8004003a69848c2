#!/usr/bin/env python3
"""check.py PROPERTY [--thorough]: decides one property on /repo's current source. Exit 0 holds, 1 violation, 2 no answer."""
import json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'sa'))
import runner
if __name__ == '__main__':
    if sys.argv[1:] == ['--setup']:
        import ir
        ir.exporter()
        sys.exit(0)
    sys.exit(runner.main(sys.argv[1:]))

#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]"""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.dont_write_bytecode = True


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    import run
    import props
    if tier == 'thorough':
        run.LIMIT = 900
    sys.exit(run.run_property(pid, props.PROPS[pid], tier))


if __name__ == '__main__':
    main()

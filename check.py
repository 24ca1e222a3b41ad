#!/usr/bin/env python3-vt
"""check.py <property id>: decide one property on /repo's current tree."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
sys.set_int_max_str_digits(0)


def main():
    pid = sys.argv[1]
    from vc import checks_intl
    checks = dict(checks_intl.CHECKS)
    for mod in ('checks_gen', 'checks_parser'):
        try:
            m = __import__('vc.' + mod, fromlist=['CHECKS'])
        except ImportError as e:
            if mod not in str(e):
                raise
            continue
        checks.update(m.CHECKS)
    return checks[pid](pid)


if __name__ == '__main__':
    try:
        code = main()
    except Exception:                       # /repo does not build, or an error of the machinery: no verdict
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)

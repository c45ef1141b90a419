#!/usr/bin/env python3
"""check.py ID: decide one property of /repo's working tree by static analysis"""
import os
import sys
sys.dont_write_bytecode = True
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
try:
    from engine.harness import check, NoAnswer
    from rules import RULES
except Exception:
    import traceback
    traceback.print_exc()
    sys.exit(2)

if __name__ == '__main__':
    if len(sys.argv) < 2 or sys.argv[1] not in RULES:
        print('usage: check.py ID; one of ' + ' '.join(sorted(RULES)))
        sys.exit(2)
    try:
        sys.exit(check(sys.argv[1], RULES))
    except NoAnswer as x:
        print('NO ANSWER: %s' % x)
        sys.exit(2)
    except Exception:
        # not an answer either way
        import traceback
        traceback.print_exc()
        sys.exit(2)

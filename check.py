#!/usr/bin/env python3
"""check.py <property id>: decides one property on /repo's current source."""
import os
import sys
import importlib
HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.path.insert(0, os.path.join(HERE, 'checks'))
import traceback
import common


def main():
    pid = sys.argv[1]
    ck = common.Check(pid)
    try:
        mod = importlib.import_module('c' + pid[1:])
        mod.run(ck)
    except common.Broken as e:
        ck.broken.append(str(e))
    except Exception as e:
        traceback.print_exc()
        ck.broken.append('internal error: %r' % e)
    sys.exit(ck.finish())


if __name__ == '__main__':
    main()

#!/usr/bin/env python3
"""run.py ID [quick|thorough] : decide one property on /repo's current source."""
import importlib, os, sys, traceback
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [here, here + '/lib']
def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    from common import Report, ToolError
    try:
        mod = importlib.import_module('c_' + pid.lower())
        sys.exit(mod.check(Report(pid, tier)))
    except ToolError as e:
        print('ERROR property=%s analysis not possible: %s' % (pid, e)); sys.exit(3)
    except SystemExit: raise
    except Exception:
        traceback.print_exc(); print('ERROR property=%s internal error' % pid); sys.exit(3)
main()

#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's current tree."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'sa'))
sys.dont_write_bytecode = True
import lib
import report
import props


def main():
    pid = sys.argv[1]
    R = report.Report(pid)
    ctx = None
    try:
        ctx = lib.Ctx()
        props.CHECKS[pid](ctx, R)
        rc = R.finish()
    except lib.CompileError as e:
        print('ANALYSIS-BROKEN: does not compile: %s: %s' % (e, '; '.join(e.first())))
        rc = 2
    except lib.Broken as e:
        print('ANALYSIS-BROKEN: %s' % e)
        rc = 2
    finally:
        if ctx is not None:
            ctx.close()
    sys.exit(rc)


main()

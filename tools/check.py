#!/usr/bin/env python3
"""check.py ID: runs the check of one property (see DESIGN.md)."""
import importlib, os, sys, threading, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vt import env

LIMIT = 830


def watchdog(run):
    """When the time given to a check is nearly used up, a violation already seen is the verdict."""
    def wait():
        # what it is waiting for may be what the violation is about
        while time.time() - run.t0 < LIMIT:
            time.sleep(5)
        while not run.violations:
            time.sleep(5)
        print('note: check incomplete: stopped after %d s' % (time.time() - run.t0), file=sys.stderr)
        code = run.finish()
        sys.stdout.flush()
        sys.stderr.flush()
        if code:
            os._exit(code)
    threading.Thread(target=wait, daemon=True).start()


def main():
    if len(sys.argv) != 2:
        print('usage: check.py ID', file=sys.stderr)
        return 2
    prop = sys.argv[1]
    mod = importlib.import_module('vt.checks.' + prop.lower())
    run = env.Run(prop, getattr(mod, 'LEVEL', 'model_checking'))
    watchdog(run)
    try:
        mod.check(run)
    except env.CheckError as e:
        if run.violations:
            print('note: check incomplete: %s' % e, file=sys.stderr)
            return run.finish()
        print('ERROR: %s' % e, file=sys.stderr)
        run.abandon()
        return 2
    except Exception:
        traceback.print_exc()
        run.abandon()
        return 2
    return run.finish()


if __name__ == '__main__':
    sys.exit(main())

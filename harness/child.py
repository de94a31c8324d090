"""Runs one check in its own process (see ``harness/check``)."""
import importlib
import logging
import os
import sys
import threading
import traceback
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.path.insert(0, REPO)
warnings.simplefilter('ignore')

from harness import common  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    ctx = common.Ctx(prop, tier, seed)
    root = logging.getLogger()
    root.addHandler(ctx.logs)
    root.setLevel(logging.WARNING)

    hard = float(os.environ.get('VERIF_WATCHDOG', '840' if tier == 'quick' else '1500'))

    def watchdog():
        sys.stdout.write('watchdog: check %s still running after %ds\n' % (prop, hard))
        common.dump_threads()
        try:
            rc = ctx.finish(error='watchdog')
        except Exception:
            rc = 3
        sys.stdout.flush()
        os._exit(rc if rc else 3)

    timer = threading.Timer(hard, watchdog)
    timer.daemon = True
    timer.start()

    import katcp
    where = os.path.realpath(os.path.dirname(katcp.__file__))
    if where != os.path.realpath(os.path.join(REPO, 'katcp')):
        print('INCONCLUSIVE: imported katcp from %s, not %s' % (where, REPO))
        sys.stdout.flush()
        os._exit(4)
    error = None
    try:
        mod = importlib.import_module('harness.checks.' + prop.lower())
        mod.run(ctx)
    except common.Violated as e:
        if not ctx.violations:
            traceback.print_exc()
            ctx.violation('abandoned', str(e))
    except BaseException as e:
        traceback.print_exc()
        frames = traceback.extract_tb(e.__traceback__)
        mine = os.path.join(os.path.realpath(REPO), 'katcp') + os.sep
        if any(os.path.realpath(f.filename).startswith(mine) for f in frames):
            # Scenarios guard every call that may legitimately raise.
            ctx.violation('exception', 'unexpected %s: %s at %s' % (
                type(e).__name__, e, ['%s:%d %s' % (f.filename, f.lineno, f.name) for f in frames][-5:]))
        else:
            error = '%s: %s' % (type(e).__name__, e)
    rc = ctx.finish(error)
    sys.stdout.flush()
    sys.stderr.flush()
    # Do not wait for threads that the code under test may have left behind.
    os._exit(rc)


if __name__ == '__main__':
    main()

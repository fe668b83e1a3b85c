"""Entry point: run.py <property>  (tier from VERIF_TIER or second argument)."""
import importlib
import os
import signal
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.setrecursionlimit(4000)
LIMIT_QUICK, LIMIT_THOROUGH = 800, 7200  # the quick tiers take less than a minute


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    from mc.core import Check, Violation

    check = Check(prop, tier, seed)
    limit = LIMIT_QUICK if check.quick else LIMIT_THOROUGH

    def late(*_):
        raise Violation("the exploration did not end within %d s: some call does not terminate" % limit)

    signal.signal(signal.SIGALRM, late)
    signal.alarm(limit)
    try:
        if prop == "C20":
            from mc.sched import cooperative_locks

            with cooperative_locks():
                mod = importlib.import_module("mc.checks." + prop.lower())
        else:
            mod = importlib.import_module("mc.checks." + prop.lower())
        check.assumptions = list(getattr(mod, "ASSUMPTIONS", []))
        mod.run(check)
    except Violation as e:
        check.violation(e.what, **e.data)
    except Exception as e:
        check.violation(
            "unexpected %s: %s" % (type(e).__name__, str(e)[:500]), traceback=traceback.format_exc()[-3000:]
        )
    signal.alarm(0)
    rc = check.finish()
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()

#!/usr/bin/env python3
"""python3 run.py <property id> [--tier quick|thorough]: decides one property on /repo's working tree.
exit 0: held on everything explored; 1: VIOLATION printed; 2: the check itself failed."""
import os, sys, traceback
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
os.chdir(V)

def main():
    a = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        k = a.index('--tier')
        tier = a[k + 1]
        del a[k:k + 2]
    pid = a[0]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from lib import build, report, tlc, registry
    run = report.Run(pid, tier, seed)
    try:
        registry.CHECKS[pid](run)
    except (build.BuildError, tlc.TlcError, report.CheckError) as e:
        if run.viol:
            return run.finish()
        print('check %s could not be done: %s' % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        return run.finish() if run.viol else 2
    return run.finish(registry.ASSUME.get(pid, ()))
sys.exit(main())

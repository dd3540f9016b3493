#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough]

Discharges every contract obligation of one property on /repo's current sources.
exit 0: every obligation discharged.  exit 1 with a VIOLATION line: some obligation failed
(the replay file carries the failing input found on the real code, or the failed obligations
and the verifier's output when none was found)."""
import json, os, shutil, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'dv'))
sys.setrecursionlimit(200000)


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    work = tempfile.mkdtemp(prefix='dv.%s.' % pid)
    os.environ['DV_WORK'] = work
    rc = 1
    try:
        import runner
        rc = runner.check(pid, tier, seed, t0, HERE)
    except BaseException as e:
        import traceback
        rep = os.path.join(HERE, 'evidence', 'replay-%s.json' % pid)
        os.makedirs(os.path.dirname(rep), exist_ok=True)
        with open(rep, 'w') as f:
            json.dump(dict(property=pid, kind='the check could not be completed', error=traceback.format_exc()), f, indent=1)
        traceback.print_exc()
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rep))
        rc = 1
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


main()

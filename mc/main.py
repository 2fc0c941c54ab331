"""Entry point:  python -m mc.main <PROPERTY> [quick|thorough] [--replay FILE]"""
import importlib
import json
import os
import sys
import traceback


def main(argv):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    replay_file = None
    rest = list(argv[1:])
    while rest:
        a = rest.pop(0)
        if a == '--replay':
            replay_file = rest.pop(0)
        else:
            tier = a
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    import faulthandler
    faulthandler.enable()
    from . import report
    from . import guard
    mod_name = 'mc.checks.%s' % pid.lower()
    rep = None
    try:
        mod = importlib.import_module(mod_name)
        rep = report.Report(pid, tier, seed, mod.LEVEL)
        if replay_file:
            r = json.load(open(replay_file))
            mod.replay(r['replay'], rep)
        else:
            guard.arm(rep, 800 if tier == 'quick' else 6 * 3600)
            mod.run(tier, rep)
    except guard.Hang as e:
        rep.violation('hang:%s' % e.where, 'execution did not finish: %s' % e, {'hang': str(e)})
    except Exception:
        tb = traceback.format_exc()
        if rep is None:
            # The code under test cannot even be loaded by the harness.
            rep = report.Report(pid, tier, seed, 'other')
            rep.set(explanation='harness could not be loaded')
        rep.violation('exception:' + tb.strip().splitlines()[-1][:200],
                      'unexpected exception while exploring:\n' + tb, {'traceback': tb})
    return rep.finish()


if __name__ == '__main__':
    code = main(sys.argv[1:])
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)

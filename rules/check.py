"""check.py ID [--thorough]: decides one property over /repo's current source."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import common
import facts
import prog


def run(pid, thorough=False, P=None):
    if P is None:
        P = prog.Program()
    mod = importlib.import_module('rule_' + pid.lower())
    rep = common.Report(pid, thorough)
    rep.units = P.data['units']
    bad = [u for u in P.data['units'] if not u['ok'] and u['kind'] in ('main',)]
    if bad:
        raise facts.Broken('sources that do not parse: ' + '; '.join(u['file'] + ': ' + u['err'][:300] for u in bad))
    rule = mod.check(P, rep)
    return rep.finish(rule, getattr(mod, 'LEVEL', 'other'))


if __name__ == '__main__':
    ids = [a for a in sys.argv[1:] if not a.startswith('--')]
    thorough = '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough'
    rc = 0
    try:
        P = prog.Program()
        for pid in ids:
            rc = max(rc, run(pid, thorough, P))
    except facts.Broken as e:
        print('ANALYSIS BROKEN: %s' % e)
        rc = 3
    except Exception:
        traceback.print_exc()
        rc = 4
    sys.exit(rc)

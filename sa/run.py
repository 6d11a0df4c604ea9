import sys, os, importlib, time, json, traceback
from . import build, prog, report
def main():
    pid = sys.argv[1]
    tier = 'thorough' if 'thorough' in sys.argv[2:] or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    m = importlib.import_module('sa.checks.' + pid.lower())
    R = report.Report(pid, m.RULE, tier)
    try:
        m.run(R)
    except prog.MissingAnchor as e:
        R.bad('anchor', '', 'missing anchor: %s' % e)
    except prog.build.BuildError: raise
    except Exception as e:
        traceback.print_exc()
        R.und('driver', '', 'not decided: %s: %s' % (type(e).__name__, e))
    sys.exit(R.finish())
main()

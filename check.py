#!/usr/bin/env python3
"""check.py <property> [--thorough]: decide one property from /repo's current source."""
import os, sys
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'analysis'))
sys.dont_write_bytecode = True
import importlib, resource, threading
resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
threading.stack_size(512 << 20)
from loader import AnalysisError
from framework import Ctx

TABLE = {}
for mod, ids in (('rules_planner', 'C01 C02'), ('rules_queue', 'C03 C04'), ('rules_life', 'C05 C06 C07 C08'),
                 ('rules_motion', 'C09 C10 C11 C12 C13 C14'),
                 ('rules_copy', 'C15 C16'), ('rules_traj', 'C17'), ('rules_seg', 'C18'), ('rules_ext', 'C19'), ('rules_static', 'C29'), ('rules_sample', 'C23'), ('rules_io', 'C20 C21'), ('rules_opt', 'C24 C25')):
    for i in ids.split():
        TABLE[i] = mod


def main():
    pid = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv else 'quick'
    ctx = Ctx(pid, tier)
    rc = [2]

    def work():
        try:
            m = importlib.import_module(TABLE[pid])
            getattr(m, 'check_' + pid)(ctx)
            rc[0] = ctx.finish()
        except AnalysisError as e:
            if ctx.viol:
                ctx.notes.append('analysis incomplete: %s' % e)
                rc[0] = ctx.finish()
                return
            print('ANALYSIS-BROKEN %s: %s' % (pid, e))
    t = threading.Thread(target=work)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])


main()

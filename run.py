#!/usr/bin/env python3
"""python3 run.py <property id>: decides one property of /repo's current source."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(200000)
import threading
threading.stack_size(512 * 1024 * 1024)


def main():
    pid = sys.argv[1]
    try:
        m = importlib.import_module('checks.' + pid.lower())
        rc = m.check()
    except Exception as e:
        from jv import report, facts
        ck = getattr(report.Check, 'current', None)
        if ck and isinstance(e, facts.Broken): ck.broken(e)
        traceback.print_exc()
        print('ANALYSIS-ERROR property=%s %s' % (pid, e))
        rc = 3
        if ck and ck.viol:              # what was found before stands
            try: rc = 1 if ck.finish() == 1 else 3
            except Exception: pass
    res.append(rc)


res = []
t = threading.Thread(target=main)
t.start()
t.join(float(os.environ.get('JV_LIMIT', 810)))
if t.is_alive():        # what was decided so far stands; the rest is not decided
    from jv import report
    import subprocess
    ck = getattr(report.Check, 'current', None)
    subprocess.run(['pkill', '-9', '-P', str(os.getpid())])
    try:
        if ck and ck.obl:
            ck.obl += 1
            ck.undecided.append('the analysis did not come to an end in time; what it had not reached is not decided')
            res.append(ck.finish())
    except BaseException: traceback.print_exc()
sys.stdout.flush()
os._exit(res[0] if res else 3)

#!/usr/bin/env python3
"""check.py ID            decide property ID on /repo's working tree (VERIF_SEED, VERIF_TIER)
   check.py --replay F   run again the execution a VIOLATION line points to"""
import os, sys, json, time, subprocess, traceback
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'lib'))
import runner, checks

def main():
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
    a = sys.argv[1:]
    if a and a[0] == '--replay':
        d = json.load(open(a[1]))
        c = d['cmd']
        variant = os.path.basename(os.path.dirname(c[0]))
        runner.B.build(variant, [os.path.basename(c[0]), 'libgyoto-stdplug.so'])
        return subprocess.call(c, env=runner.env_for(variant))
    pid = a[0]
    if len(a) > 1: tier = a[1]
    t0 = time.time()
    C = checks.CHECKS[pid]
    R = runner.Result()
    try:
        jobs = C['jobs'](tier)
        runner.run_jobs(jobs, seed, tier, R)
        if C.get('extra'): C['extra'](R, seed, tier)
        missing = [e for e in C.get('need', []) if not R.ev.get(e)]
        if missing and not R.viol:
            raise runner.NoVerdict('vacuous run: never observed %s' % missing)
    except runner.NoVerdict as e:
        print('NO-VERDICT %s: %s' % (pid, e)); return 3
    return runner.conclude(pid, R, C['rule'], t0, seed, tier, C.get('assumptions', []))

if __name__ == '__main__':
    try: rc = main()
    except SystemExit: raise
    except Exception: traceback.print_exc(); rc = 3
    sys.exit(rc)

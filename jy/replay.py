"""Runs harness functions on concrete inputs under Jython.

usage: jython replay.py JOB.json OUT.json
"""
import json
import os
import sys
import traceback

here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import api as jyapi
import snap


class Quiet(object):
    def write(self, s): pass
    def flush(self): pass
    def isatty(self): return False


def run_case(mod, job, case):
    a = jyapi.Api(case['inputs'], job['bounds'], job['tier'], job['known'])
    out = {'status': 'ok'}
    so, se = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = Quiet()
    try:
        try:
            getattr(mod, case['fn'])(a)
        except jyapi.AssumeFalse:
            out['status'] = 'assume'
        except (Exception, SystemExit, KeyboardInterrupt):
            out['status'] = 'exception'
            out['label'] = 'exception %s' % sys.exc_info()[0].__name__
            out['trace'] = traceback.format_exc()[-3000:]
        except:
            # Java exceptions
            out['status'] = 'exception'
            out['label'] = 'exception %s' % sys.exc_info()[0]
            out['trace'] = traceback.format_exc()[-3000:]
    finally:
        sys.stdout, sys.stderr = so, se
        a.finish()
    if a.failures:
        out['status'] = 'fail'
        out['labels'] = a.failures
    out['logs'] = a.logs
    out['covers'] = a.covered
    return out


def main():
    job = json.load(open(sys.argv[1]))
    sys.path.insert(0, job['repo'])
    sys.path.insert(0, job['harness_dir'])
    sys.setrecursionlimit(5000)
    mod = __import__(str(job['module']))
    for n in job.get('preload', []):
        try:
            __import__(str(n))
        except ImportError:
            pass
    roots = (job['repo'] + os.sep, job['harness_dir'] + os.sep)

    def ours(name):
        f = getattr(sys.modules.get(name), '__file__', None)
        return bool(f) and f.startswith(roots)
    state = snap.Snap(ours)
    for n in sorted(sys.modules):
        if sys.modules[n] is not None and ours(n):
            state.add_module(sys.modules[n])
    outs = []
    for case in job['cases']:
        outs.append(run_case(mod, job, case))
        state.restore()
    f = open(sys.argv[2], 'w')
    json.dump(outs, f)
    f.close()


if __name__ == '__main__':
    main()

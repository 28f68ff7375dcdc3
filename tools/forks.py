#!/opt/veriftools/pyvenv/bin/python
"""forks.py PID FN [SECONDS]: where the paths of a harness fork."""
import sys, os, collections, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import warnings; warnings.simplefilter('ignore')
from engine import core, api, importer, explore
import ast
pid, fn = sys.argv[1:3]
secs = float(sys.argv[3]) if len(sys.argv) > 3 else 15
src = open(os.path.join(importer.HARNESS, pid.lower() + '.py')).read()
b = {}
for st in ast.parse(src).body:
    if isinstance(st, ast.Assign) and st.targets[0].id == 'BOUNDS':
        b = ast.literal_eval(st.value)['quick']
cnt = collections.Counter()
slow = collections.Counter()
def where():
    f = sys._getframe(2)
    out = []
    while f and len(out) < 3:
        n = f.f_code.co_filename
        if n.startswith(importer.REPO) or n.startswith(importer.HARNESS):
            out.append('%s:%d' % (os.path.basename(n), f.f_lineno))
        f = f.f_back
    return ' < '.join(out)
od = core.Ctx._decide
def dec(self, c):
    n = len(self.trail); new = n >= len(self.prefix)
    t = time.time()
    v = od(self, c)
    if new:
        w = where()
        slow[w] += time.time() - t
        if self.trail[n][3]: cnt['branch ' + w] += 1
        else: cnt['forced ' + w] += 1
    return v
core.Ctx._decide = dec
orr = core.Ctx.realize
def rea(self, e, limit=400):
    n = len(self.trail); new = n >= len(self.prefix)
    v = orr(self, e, limit)
    if new and len(self.trail) > n: cnt['realize ' + where()] += 1
    return v
core.Ctx.realize = rea
w = explore.Worker(pid.lower(), b, 'quick', 1, 20000, ())
r = w.slice(fn, [[]], secs, 0)
print(dict(r['status']), 'queries', r['queries'], 'solver', round(r['solver_s'], 1), 'left', len(r['left']))
for k, v in cnt.most_common(15): print(v, k)
print('slow:')
for k, v in slow.most_common(6): print(round(v, 2), k)
for x in r['failures'][:2]: print(x)
for x in r['inconclusive'][:2]: print(x)

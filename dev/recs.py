"""dev/recs.py CASES.py NAME FUNC: the unsolved loops of filter_obs on a variant."""
import os, sys, ast, runpy
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'sa'))
sys.setrecursionlimit(20000)
import check, rules_runs
from h import *
from core import *
cs = {n: e for n, e, ps, x in runpy.run_path(sys.argv[1])['CASES']}
src = {}
for rel, o, n in cs[sys.argv[2]]:
    s = src.get(rel) or open('/repo/' + rel).read()
    assert s.count(o) == 1, o
    src[rel] = s.replace(o, n)
W = World('/repo', {r[:-3].replace('/', '.'): ast.parse(x) for r, x in src.items()})
I = W.I
c = Check('C20', W) if 'Check' in globals() else None
st = I.start()
r = None
import core
for nm in dir(core):
    pass
I.deep = True
import inspect
f = I.get('oneka.utilities.filter_obs')
v = I.call(f, [seqsym('obs', 4), seqsym('wells', 4), sym('buffer', pos=True)], {}, st, None)
print('RESULT', show(I.freeze(v, st), 1500))
for rec in I.recs:
    print('REC', rec.where, 'unsolved', rec.unsolved)
    for loc, t in rec.locs.items():
        for ce in t.cells:
            print('   ', loc, ce.mu, ce.kind, '\n        v0', show(ce.v0, 600), '\n        f ', show(ce.f, 1500))
    for e in rec.exits:
        print('   EXIT', e[0], show(e[1], 300), show(e[3], 300))

"""Planted bugs, fourth set (development aid; see plant.py)."""
FIELD = '''
import numpy as np
from oneka.probabilityfield import ProbabilityField
'''
BUGS = [
dict(id='c09-crossing', property='C09', edits=[('oneka/probabilityfield.py', '''                if not(self.rgrid[i, j]):
                    cx''', '''                if self.rgrid[i, j]:
                    if j > left:
                        break
                else:
                    cx''')],
 needs='a path that comes back to an area it has marked already, in more than one column of the later segment',
 breaks='the scan of a column stops at the first node an earlier segment has marked, so that nodes beyond it stay unmarked',
 demo=FIELD + '''
xs, ys = np.array([0, 12, 12, 6, 6.5]), np.array([0, 0, 7, 7, -6.0])
p = ProbabilityField(1.0, 1.0, 0.0, 0.0)
p.rasterize(xs, ys, 1.6)
q = np.zeros(p.rgrid.shape, dtype=bool)
for i in range(p.nrows):
    for j in range(p.ncols):
        for k in range(4):
            q[i, j] |= p.distancesquared(xs[k], ys[k], xs[k+1], ys[k+1], p.xmin + j, p.ymin + i) < 1.6**2
assert np.array_equal(q, p.rgrid)
'''),
dict(id='c12-short-trace', property='C12', edits=[('oneka/capturezone.py', '''        x = [v[0] for v in vertices]
        y = [v[1] for v in vertices]
        pfield.rasterize(x, y, umbra)
''', '''        if len(vertices) > 2:
            x = [v[0] for v in vertices]
            y = [v[1] for v in vertices]
            pfield.rasterize(x, y, umbra)
''')],
 needs='a trace that is cut off by a failing velocity after its first step (or needs one step only)',
 breaks='traces of one or two vertices do not mark the field',
 demo=FIELD + '''
from oneka.capturezone import compute_capturezone
p = ProbabilityField(1.0, 1.0, 0.0, 0.0)
calls = [0]
def feval(xy):
    if np.hypot(*xy) > 4:
        raise ValueError('dry')
    return np.array([1.0, 0.0])*30
compute_capturezone(0.0, 0.0, 1.0, 6, 0.05, p, 1.5, 1.0, 1.0, 10, feval)
assert p.total_weight == 1 and p.pgrid.sum() > 0
'''),
dict(id='c13-stale-slope', property='C13', edits=[('oneka/capturezone.py', '''                t = t + dt
                k1 = k2
''', '''                t = t + dt
'''), ('oneka/capturezone.py', '''            dt = 0.9 * min(''', '''            k1 = k2
            dt = 0.9 * min(''')],
 needs='a rejected trial step: a velocity that changes enough within one step',
 breaks='after a rejected step the retry starts with the slope of the rejected end point',
 demo='''
import numpy as np
from oneka.capturezone import compute_backtrace
asked = []
def vel(p):
    return np.array([1 + 9*np.exp(-((p[0] - 20)/3)**2), 6*np.cos(p[0]/4)])
def f(p):
    asked.append(np.array(p, dtype=float))
    return vel(p)
v = [np.array(p, dtype=float) for p in compute_backtrace(0.0, 0.0, 40.0, 0.01, 8.0, f)]
# every trial step starts with the slope at the vertex it starts from
ends = {tuple(p) for p in v}
at, tried, rejected = v[0], asked[1:], 0
while tried:
    d, s = tried[0] - at, vel(at)
    assert abs(d[0]*s[1] - d[1]*s[0]) < 1e-9*np.hypot(*d)*np.hypot(*s), at
    # up to the next trial: the first point asked is a fifth of a step away
    k = next(i for i in range(1, len(tried) + 1) if i == len(tried) or i % 6 == 0)
    if tuple(tried[k - 1]) in ends:
        at = tried[k - 1]
    else:
        rejected += 1
    tried = tried[k:]
assert rejected > 0
'''),
dict(id='c15-rounded-point', property='C15', edits=[('oneka/deterministic.py', '''    if confined:
        def feval(xy):
            Vx, Vy = mo.compute_velocity_confined(xy[0], xy[1])
            return np.array([-Vx, -Vy])
''', '''    seen = {}
    if confined:
        def feval(xy):
            key = (round(float(xy[0]), 2), round(float(xy[1]), 2))
            if key not in seen:
                Vx, Vy = mo.compute_velocity_confined(xy[0], xy[1])
                seen[key] = np.array([-Vx, -Vy])
            return seen[key]
''')],
 needs='two different points less than a centimetre apart, asked one after the other',
 breaks='the velocity handed to the tracer is that of a nearby point asked before',
 demo='''
import numpy as np, oneka.deterministic as d
got = []
def capture(xt, yt, rt, n, dur, pf, um, w, tol, ms, feval):
    got.append(feval)
d.compute_capturezone = capture
rng = np.random.RandomState(1)
obs = [(x, y, 30 + 0.01*x, 1.0) for x, y in rng.uniform(-500, 500, (12, 2))]
for conf in (True, False):
    d.create_deterministic_capturezone(0, 4, 10, 0, 1, 0.2, 10, [(0, 0, 0.3, 50)], obs, 1, 1, conf, 1, 1)
for f in got:
    a, b = np.array(f(np.array([1.301, 0.204]))), np.array(f(np.array([1.303, 0.203])))
    c = np.array(f(np.array([1.301, 0.204])))
    assert np.array_equal(a, c) and not np.array_equal(a, b)
'''),
dict(id='c17-common-seed', property='C17', edits=[('oneka/stochastic.py', '''np.random.default_rng().multivariate''', '''np.random.default_rng(i).multivariate''')],
 needs='two runs, whose coefficients must be drawn afresh',
 breaks='realization i draws the same standard normal variates in every run',
 demo='''
import numpy as np, oneka.stochastic as s
def run():
    out = []
    s.compute_capturezone = lambda *a: out.append(a[-1](np.array([30.0, 40.0])))
    s.create_stochastic_capturezone(0, 4, 10, 3, 0, 1, 0.2, 10, [(0, 0, 0.3, 50)], obs, 1, 1, True, 1, 1)
    return np.array(out)
rng = np.random.RandomState(1)
obs = [(x, y, 30 + 0.01*x, 1.0) for x, y in rng.uniform(-500, 500, (12, 2))]
a, b = run(), run()
assert len(a) == 3 and not np.allclose(a[0], a[1]) and not np.allclose(a, b)
'''),
dict(id='c18-near-mode', property='C18', edits=[('oneka/stochastic.py', '''        value = np.random.triangular(arg[0], arg[1], arg[2])''',
 '''        lo, mode, hi = arg
        value = mode if lo == mode else np.random.triangular(lo, mode, hi)''')],
 needs='a triple whose mode equals its minimum but not its maximum',
 breaks='a valid triple (a, a, c) is never sampled: its minimum is returned every time',
 demo='''
import numpy as np
from oneka.stochastic import generate_random_variate as g
np.random.seed(3)
for t in [(1, 2, 4), (1, 1, 4), (1, 4, 4), [1, 1, 4]]:
    x = [g(t) for k in range(50)]
    assert len(set(x)) > 10 and min(x) >= 1 and max(x) <= 4, t
assert g((2, 2, 2)) == 2
'''),
dict(id='c35-last-well', property='C35', edits=[('oneka/utilities.py', '''                flag = False
                break
''', '''                flag = False
''')],
 needs='an observation near a well that is not the last of the list',
 breaks='the log says a removed observation is too close to the last well, whichever well it was',
 demo='''
import logging, io
from oneka.utilities import filter_obs
buf = io.StringIO()
log = logging.getLogger('Oneka'); log.setLevel(logging.INFO); log.addHandler(logging.StreamHandler(buf))
kept = filter_obs([(0, 0, 1, 1), (500, 0, 2, 1), (900, 0, 3, 1)], [(0, 1, 0.3, 10), (900, 1, 0.4, 20), (4000, 0, 0.5, 30)], 10)
text = buf.getvalue()
assert kept == [(500, 0, 2, 1)]
lines = [l for l in text.splitlines() if 'removed' in l]
assert len(lines) == 2 and '(0, 1, 0.3, 10)' in lines[0] and '(900, 1, 0.4, 20)' in lines[1], lines
'''),
dict(id='c26-sorted-obs', property='C26', edits=[('oneka/utilities.py', '''    obs = []
    for ob in observations:
''', '''    obs = []
    observations.sort(key=lambda ob: -ob[2])
    for k, ob in enumerate(observations):
''')],
 needs='observations not given in descending order of their heads; also shows in the order of the archive',
 breaks='the filter reorders the list of its caller',
 demo='''
from oneka.utilities import filter_obs
obs = [(0, 0, 1, 1), (500, 0, 2, 1), (900, 0, 3, 1)]
kept = filter_obs(obs, [(4000, 0, 0.5, 30)], 10)
assert obs == [(0, 0, 1, 1), (500, 0, 2, 1), (900, 0, 3, 1)]
assert sorted(kept) == sorted(obs)
'''),
dict(id='c29-sample-std', property='C29', edits=[('oneka/utilities.py', '''        vstd[j] = np.std(x)
''', '''        vstd[j] = np.std(x, ddof=1) if len(x) > 30 else np.std(x)
''')],
 needs='more than thirty retained observations',
 breaks='the table shows the sample standard deviation for long lists and the population one for short ones',
 demo='''
import numpy as np
from oneka.utilities import summary_statistics
for n in (5, 30, 31, 80):
    v = [(k, k*k) for k in range(n)]
    t = summary_statistics(v, ['a', 'b'], ['16.8f', '16.8f'], 't').getvalue()
    row = [l for l in t.splitlines() if l.startswith('std')][0].split()
    assert abs(float(row[1]) - np.std(np.arange(n))) < 1e-6, n
'''),
dict(id='c11-capped', property='C11', edits=[('oneka/probabilityfield.py', '''        self.pgrid[self.rgrid] += weight
''', '''        self.pgrid[self.rgrid] += weight
        np.clip(self.pgrid, 0.0, self.total_weight, out=self.pgrid)
'''), ('oneka/probabilityfield.py', '''        self.total_weight += weight
''', '''        self.total_weight = max(self.total_weight + weight, 0.0)
''')],
 needs='a negative weight (taking a realization back) larger than what a node has',
 breaks='weights that would leave a node or the total below zero are lost: adding them back does not restore the field',
 demo=FIELD + '''
p = ProbabilityField(1.0, 1.0, 0.0, 0.0)
for w in (1.0, -2.0, 3.0):
    p.rasterize(np.array([0, 3.0]), np.array([0, 1.0]), 1.0)
    p.register(w)
assert p.total_weight == 2.0 and p.pgrid.max() == 2.0, (p.total_weight, p.pgrid.max())
'''),
dict(id='c01-remembered', property='C01', edits=[('oneka/model.py', '''        dx = x - self.xo
        dy = y - self.yo

        potential = (''', '''        dx, dy = x - self.xo, y - self.yo
        if getattr(self, '_seen', (None, 0))[0] == (x, y):
            return self._seen[1]

        potential = ('''), ('oneka/model.py', '''        potential += self.compute_potential_wells_only(x, y)

''', '''        potential = potential + self.compute_potential_wells_only(x, y)
        self._seen = ((x, y), potential)

''')],
 needs='new coefficients between two questions about the same point',
 breaks='the potential is the one computed with the coefficients the model had when the point was first asked',
 demo='''
import numpy as np
from oneka.model import Model
m = Model(0, 1, 0.25, 100, [(0, 0, 0.3, 100)], coef=np.array([0, 0, 0, 0.1, 0.2, 900.0]))
a = m.compute_potential(10.0, 20.0)
m.coef = np.array([0, 0, 0, 0.1, 0.3, 900.0])
b = m.compute_potential(10.0, 20.0)
n = Model(0, 1, 0.25, 100, m.wells, coef=m.coef)
assert b == n.compute_potential(10.0, 20.0) and a != b
'''),
dict(id='c23-half-day', property='C23', edits=[('oneka/archive.py', "'%Y%m%dT%H%M%S'", "'%Y%m%dT%I%M%S'")],
 needs='two runs twelve hours apart',
 breaks='the later run overwrites the archive of the earlier one',
 demo='''
import os, datetime as dt, oneka.archive as a
os.chdir(os.environ['DEMO_SCRATCH'])
class Clock(dt.datetime):
    hour_ = 3
    @classmethod
    def now(cls, tz=None):
        return cls(2020, 7, 25, cls.hour_, 15, 20)
a.datetime = Clock
run = ['p', 'r', 0, 1, 1.0, 1, 0, 1, 0.2, 10, [], [], 1, 1, 1, 0, True, 1, 1, None]
os.mkdir('logs')
def files():
    return sorted([f for f in os.listdir('.') if f != 'logs'] + os.listdir('logs'))
a.dump_oneka(*run)
Clock.hour_ = 15
a.dump_oneka(*run)
assert len([f for f in files() if f.endswith('bz2')]) == 2, files()
'''),
dict(id='c23-loaded', property='C23', edits=[('oneka/archive.py', '''        oneka_dict = pickle.load(fp)

    return (oneka_dict)''', '''        oneka_dict = pickle.load(fp)
        oneka_dict.pop('smooth', None)
    return oneka_dict''')],
 needs='an archive that is loaded again',
 breaks='what is loaded lacks a setting that was archived',
 demo='''
import os, oneka.archive as a
os.chdir(os.environ['DEMO_SCRATCH'])
run = ['p', 'r', 0, 1, 1.0, 1, 0, 1, 0.2, 10, [], [], 1, 1, 1, 7, True, 1, 1, None]
os.mkdir('logs')
a.dump_oneka(*run)
f = [os.path.join(d, x) for d, _, fs in os.walk('.') for x in fs if x.endswith('bz2')][0]
d = a.load_oneka(f)
assert len(d) == 20 and d['smooth'] == 7, sorted(d)
'''),
dict(id='c24-smooth-scale', property='C24', edits=[('oneka/visualize.py', '''    plt.contourf(X, Y, Z, np.linspace(0, 1, 11), cmap='tab10')
''', '''    plt.contourf(X, Y, np.minimum(1.0, Z/max(np.max(Z), 0.5)), np.linspace(0, 1, 11), cmap='tab10')
''')],
 needs='a field no node of which is captured by every realization',
 breaks='the map shows probabilities relative to the largest one instead of relative to the total weight',
 demo='''
import numpy as np, matplotlib.pyplot as plt
import oneka.visualize as v
from oneka.probabilityfield import ProbabilityField
for full in (4, 3, 1):
    p = ProbabilityField(1.0, 1.0, 0.0, 0.0)
    for k in range(4):
        p.rasterize(np.array([0.0, 5]) + 20*(k >= full), np.array([0.0, 1]), 1.0)
        p.register(1.0)
    shown = []
    keep = plt.contourf
    plt.contourf = lambda X, Y, Z, *a, **k: (shown.append(np.array(Z)), keep(X, Y, Z, *a, **k))[1]
    v.create_probability_plot(0, [(0, 0, 1, 1)], [(1, 1, 1, 1)], p)
    plt.contourf = keep
    assert np.allclose(shown[0], p.pgrid/4), full
'''),
dict(id='c05-single', property='C05', edits=[('oneka/model.py', '''        Wb = np.zeros([nobs, 1])
''', '''        Wb = np.zeros([nobs, 1], dtype=np.float32)
''')],
 needs='a weighted response that single precision does not hold',
 breaks='the right-hand sides of the equations are rounded to single precision',
 demo='''
import numpy as np
from oneka.model import Model
m = Model(0, 1.5, 0.25, 10, [(0, 0, 0.3, 100)])
obs = [(10.0*k, 20.0, 7.3 + 0.1*k, 0.7) for k in range(1, 9)]
A, b = m.construct_fit(obs, 0, 0)
for k, (x, y, z, d) in enumerate(obs):
    w = m.compute_potential_wells_only(x, y)
    assert abs(b[k, 0] - (0.5*1.5*(z**2 + d**2) - w)/(1.5*z*d)) < 1e-11
'''),
dict(id='c24-tied-areas', property='C24', edits=[('oneka/visualize.py', '''    pr = np.flip(np.sort(pf.pgrid/pf.total_weight, axis=None))
''', '''    pr = np.flip(np.unique(pf.pgrid/pf.total_weight))
''')],
 needs='two nodes captured equally often',
 breaks='the impact curve has one point per distinct probability, so that areas are counted once per value',
 demo='''
import numpy as np
import oneka.visualize as v
from oneka.probabilityfield import ProbabilityField
p = ProbabilityField(1.0, 1.0, 0.0, 0.0)
for k in range(3):
    p.rasterize(np.array([0.0, 5 + 2*k]), np.array([0.0, 1]), 1.0)
    p.register(1.0)
pr, area = v.create_impact_plot(1.0, p)
assert len(pr) == p.pgrid.size and area[np.argmax(pr < 1) - 1] == (p.pgrid == 3).sum()
'''),
]

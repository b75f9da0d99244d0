BUGS = []
def bug(**k): BUGS.append(k)
M, P, C, S, D, O, U, V, A = ('oneka/%s.py' % n for n in ('model', 'probabilityfield', 'capturezone', 'stochastic', 'deterministic', 'oneka', 'utilities', 'visualize', 'archive'))

RUN = '''
import os, sys, glob, logging
import numpy as np
os.chdir(os.environ["DEMO_SCRATCH"])
import matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt
LOG = []
class H(logging.Handler):
    def emit(self, r): LOG.append(r.getMessage())
L = logging.getLogger("Oneka"); L.setLevel(logging.INFO); L.addHandler(H())
rng = np.random.default_rng(5)
OBS = [(float(x), float(y), 100 + 0.001*x + 0.002*y, 0.5 + 0.1*i) for i, (x, y) in enumerate([(-900, -800), (900, -700), (950, 870), (-850, 900), (0, 950), (20, -990), (970, 30), (-930, -10), (500, 520)])]
WELLS = [(0.0, 0.0, 0.3, 400.0), (300.0, 250.0, 0.2, (50.0, 90.0)), (-350.0, 300.0, 0.2, (10.0, 60.0, 80.0))]
KW = dict(projectname="p", runtime="now", target=0, npaths=6, duration=500.0, nrealizations=1, base=0.0, c_dist=(10., 20., 30.), p_dist=(0.2, 0.3), t_dist=20.0,
          stochastic_wells=WELLS, observations=OBS, buffer=100, spacing=10, umbra=12, smooth=0, confined=True, tol=1, maxstep=10)
'''

bug(id='c01-inside-well', property='C01', edits=[(M, """            r2 = dx*dx + dy*dy
            potential += well[3] * np.log(r2)""", """            r2 = max(dx*dx + dy*dy, well[2]**2)
            potential += well[3] * np.log(r2)""")],
 needs='a point inside the radius of a well', breaks='the potential is cut off at the well radius while the discharge is not',
 demo='''
import math
from oneka.model import Model
m = Model(0., 2., 0.25, 10., [(5., 6., 2., 40.), (0., 0., 1., -7.)], coef=[0.01, 0.02, 0.03, 0.4, 0.5, 20.])
for x, y in ((9., 6.), (5.5, 6.4), (0.2, -0.3)):
    want = sum(w[3]*math.log((x-w[0])**2 + (y-w[1])**2)/(4*math.pi) for w in m.wells)
    assert abs(m.compute_potential_wells_only(x, y) - want) < 1e-9, (x, y)
''')

bug(id='c02-cross-term', property='C02', edits=[(M, "Qy = -(2.0*self.coef[1]*dy + self.coef[2]*dx + self.coef[4])", "Qy = -(2.0*self.coef[1]*dy + self.coef[2]*dy + self.coef[4])")],
 needs='a non-zero cross coefficient, off the diagonal', breaks='the y discharge uses dy in the cross term',
 demo='''
from oneka.model import Model
m = Model(0., 2., 0.25, 10., [(5., 6., 2., 40.)], xo=1., yo=2., coef=[0.01, 0.02, 0.03, 0.4, 0.5, 20.])
h = 1e-4
for x, y in ((9., 3.), (-5.5, 6.4)):
    g = [-(m.compute_potential(x+h, y) - m.compute_potential(x-h, y))/2/h, -(m.compute_potential(x, y+h) - m.compute_potential(x, y-h))/2/h]
    q = m.compute_discharge(x, y)
    assert abs(g[0]-q[0]) < 1e-5 and abs(g[1]-q[1]) < 1e-5, (g, q)
''')

bug(id='c06-origin-zero', property='C06', edits=[(M, "        self.xo = xo\n        self.yo = yo\n        self.coef = coef_ev", "        self.xo = xo or self.xo\n        self.yo = yo or self.yo\n        self.coef = coef_ev")],
 needs='a model with a non-zero origin refitted about an origin with a zero coordinate', breaks='coefficients fitted about (0, y) are evaluated about the old origin',
 demo='''
import numpy as np
from oneka.model import Model
f = lambda x, y: 50 + 0.01*x - 0.02*y
obs = [(x, y, f(x, y)/2 + 5 , 0.1) for x, y in ((-90., 20.), (80., 40.), (30., -70.), (10., 66.), (-40., -55.), (70., -20.), (5., 5.))]
m = Model(0., 1., 0.2, 10., [], xo=3., yo=4.)
m.fit_regional_flow(obs, 0., 7.)
assert (m.xo, m.yo) == (0., 7.), (m.xo, m.yo)
assert abs(m.compute_head(20., 30.) - (f(20., 30.)/2 + 5)) < 1e-6
''')

bug(id='c06-covariance', property='C06', edits=[(M, "coef_cov = np.linalg.inv(np.matmul(WA.T, WA))", "coef_cov = np.linalg.pinv(np.matmul(WA.T, WA))")],
 needs='observations that do not determine the six coefficients', breaks='a singular fit is accepted with a made-up covariance',
 demo='''
import numpy as np
from oneka.model import Model
WA = np.array([[1., 2., 3., 4., 5., 6.]]*8); Wb = np.ones((8, 1))
WA[:, 0] = 0.0
try:
    Model.compute_fit(WA, Wb)
except np.linalg.LinAlgError:
    pass
else:
    raise SystemExit('a singular system was fitted')
''')

bug(id='c07-grow-right', property='C07', edits=[(P, "            while xmax >= self.xmax:", "            while xmax > self.xmax:")],
 needs='a request whose right edge falls exactly on the current edge', breaks='the requested box touches the edge instead of lying inside',
 demo='''
from oneka.probabilityfield import ProbabilityField
f = ProbabilityField(10., 10., 0., 0.)
f.expand(-5., 20., -5., 5.)
assert f.xmax > 20.
f.expand(-5., 40., -5., 5.)
assert f.xmin < -5. and f.xmax > 40., f
''')

bug(id='c07-first-rows', property='C07', edits=[(P, "self.ymax = self.ymin + (self.nrows-1)*self.deltay\n\n            self.pgrid", "self.ymax = self.ymin + (self.nrows-1)*self.deltax\n\n            self.pgrid")],
 needs='an empty field with unequal spacings', breaks='the upper edge of the first grid is computed with the column spacing',
 demo='''
from oneka.probabilityfield import ProbabilityField
f = ProbabilityField(4., 10.)
f.expand(0., 30., 0., 47.)
assert abs(f.ymin + (f.nrows-1)*f.deltay - f.ymax) < 1e-9, (f.ymin, f.nrows, f.ymax)
assert f.ymax > 47.
''')

bug(id='c08-lost-marks', property='C08', edits=[(P, "                rgrid[rshift:rshift+self.nrows, cshift:cshift+self.ncols] = self.rgrid\n", "                rgrid[rshift:rshift+self.nrows, cshift:cshift+self.ncols] |= self.rgrid & (self.pgrid == 0)\n")],
 needs='growth while a node already registered by an earlier realization is marked', breaks='marks on nodes with probability vanish when the grid grows in mid-realization',
 demo='''
import numpy as np
from oneka.probabilityfield import ProbabilityField
f = ProbabilityField(1., 1., 0., 0.)
f.rasterize([0., 0.4], [0., 0.1], 0.7); f.register(1.0)
f.rasterize([0., 0.4], [0., 0.1], 0.7)
n = f.rgrid.sum()
f.expand(-6., 6., -6., 6.)
assert f.rgrid.sum() == n > 0
''')

bug(id='c09-corner', property='C09', edits=[(P, "                    cx = self.xmin + j*self.deltax\n", "                    cx = self.xmin + j*self.deltay\n")],
 needs='a field with unequal spacings', breaks='column positions are computed with the row spacing',
 demo='''
import numpy as np
from oneka.probabilityfield import ProbabilityField
f = ProbabilityField(2., 3., 0., 0.)
f.rasterize([0., 9.], [0., 7.], 2.5)
for i in range(f.nrows):
    for j in range(f.ncols):
        x, y = f.xmin + j*2., f.ymin + i*3.
        t = min(1., max(0., (x*9 + y*7)/130.))
        d = np.hypot(x - 9*t, y - 7*t)
        assert bool(f.rgrid[i, j]) == (d < 2.5), (i, j, d)
''')

bug(id='c10-beyond', property='C10', edits=[(P, "        elif(beta2 > length2):", "        elif(alpha2 > length2):")],
 needs='a point beyond the far end, close to the line', breaks='the far end is recognised by the distance from the line',
 demo='''
import random
from oneka.probabilityfield import ProbabilityField
r = random.Random(3)
for _ in range(500):
    ax, ay, bx, by, cx, cy = (r.uniform(-9, 9) for _ in range(6))
    L = (bx-ax)**2 + (by-ay)**2
    t = min(1., max(0., ((cx-ax)*(bx-ax) + (cy-ay)*(by-ay))/L))
    d = (ax + t*(bx-ax) - cx)**2 + (ay + t*(by-ay) - cy)**2
    assert abs(ProbabilityField.distancesquared(ax, ay, bx, by, cx, cy) - d) < 1e-9*(1+d)
''')

bug(id='c11-skip-zero', property='C11', edits=[(P, "        self.total_weight += weight\n        self.pgrid[self.rgrid] += weight\n", "        if self.rgrid.any():\n            self.total_weight += weight\n        self.pgrid[self.rgrid] += weight\n")],
 needs='a realization that marks no node', breaks='an empty realization does not count towards the total weight',
 demo='''
from oneka.probabilityfield import ProbabilityField
f = ProbabilityField(1., 1., 0., 0.)
f.register(1.0)
f.rasterize([0., 0.4], [0., 0.1], 0.7); f.register(2.0)
assert f.total_weight == 3.0, f.total_weight
''')

bug(id='c12-radius', property='C12', edits=[(C, "        ys = (rtarget + STEPAWAY) * np.sin(theta) + ytarget", "        ys = max(rtarget, STEPAWAY) * np.sin(theta) + ytarget")],
 needs='any target radius', breaks='traces start on an ellipse',
 demo='''
import numpy as np
from oneka import capturezone as cz
S = []
cz.compute_backtrace = lambda xs, ys, *a: S.append((xs, ys)) or [(xs, ys)]
class F:
    def rasterize(self, *a): pass
    def register(self, w): pass
cz.compute_capturezone(3., 4., 0.5, 8, 10., F(), 1., 1., 1., 1., lambda xy: xy)
for k, (x, y) in enumerate(S):
    t = 2*np.pi*k/8
    assert np.allclose((x, y), (3 + 1.5*np.cos(t), 4 + 1.5*np.sin(t))), (k, x, y)
assert len(S) == 8
''')

bug(id='c13-tableau', property='C13', edits=[(C, "    a6 = np.array([9017/3168, -355/33, 46732/5247, 49/176, -5103/18656])", "    a6 = np.array([9017/3168, -355/33, 46732/5247, 49/178, -5103/18656])")],
 needs='a velocity field with curvature', breaks='the sixth stage is taken at a slightly wrong point; the order drops',
 demo='''
import numpy as np
from oneka.capturezone import compute_backtrace
v = compute_backtrace(1., 0., 6.0, 1e-8, 10., lambda xy: np.array([-xy[1], xy[0]]))
x, y = v[-1]
e = np.hypot(x - np.cos(6.), y - np.sin(6.))
assert e < 2e-7, e
n = []
for xy in v: n.append(np.hypot(*xy))
assert max(abs(np.array(n) - 1)) < 2e-7
# one step has a fifth-order error
def one(h):
    w = compute_backtrace(1., 0., h, 1., 10., lambda xy: np.array([-xy[1], xy[0]]))
    return np.hypot(w[-1][0] - np.cos(h), w[-1][1] - np.sin(h)) if len(w) == 2 else None
a, b = one(0.1), one(0.05)
assert a/b > 45, (a, b)
''')

bug(id='c14-step-cap', property='C14', edits=[(C, "            if (est < tol) and (ds < maxstep):", "            if (est < tol) or (ds < maxstep):")],
 needs='a step that meets only one of the two limits', breaks='steps longer than maxstep, or with too large an error, are accepted',
 demo='''
import numpy as np
from oneka.capturezone import compute_backtrace
v = np.array(compute_backtrace(5., 0., 400., 1e-3, 80., lambda xy: np.array([1., 0.]) if xy[0] < 100.3 else np.array([0., 1.])))
assert abs(v[-1] - (100.3, 304.7)).max() < 0.5, v[-1]
''')

bug(id='c14-duration', property='C14', edits=[(C, "                dt = duration - t\n", "                dt = abs(duration) - t\n")],
 needs='forward tracing (a negative duration)', breaks='the last step of a forward trace goes backwards',
 demo='''
import numpy as np, signal
signal.alarm(20)
from oneka.capturezone import compute_backtrace
v = np.array(compute_backtrace(0., 0., -30., 1., 5., lambda xy: np.array([1., 0.5])))
assert np.allclose(v[-1], (-30., -15.)), v[-1]
''')

bug(id='c15-late-binding', property='C15', edits=[(D, """            Vx, Vy = mo.compute_velocity(xy[0], xy[1])
            return np.array([-Vx, -Vy])""", """            Vx, Vy = mo.compute_velocity(xy[0], xy[1])
            return np.array([-Vx, Vy])""")],
 needs='an unconfined deterministic run', breaks='the y velocity of unconfined traces is not reversed',
 demo=RUN + '''
from oneka import deterministic as d
F = []
d.compute_capturezone = lambda *a: F.append(a[-1])
models = []
class Mo(d.Model):
    def __init__(self, *a, **k): super().__init__(*a, **k); models.append(self)
d.Model = Mo
d.create_deterministic_capturezone(0, 4, 100., 0., 10., 0.2, 200., WELLS, OBS, 10, 12, False, 1, 10)
v = models[0].compute_velocity(40., 70.)
assert np.allclose(F[0](np.array([40., 70.])), [-v[0], -v[1]])
''')

bug(id='c16-well-mean', property='C16', edits=[(S, "        value = (arg[0] + arg[1] + arg[2])/3.0", "        value = (arg[0] + 2*arg[1] + arg[2])/4.0")],
 needs='a skewed triangular distribution', breaks='the mean of a triangular distribution is computed as the PERT-like mean',
 demo='''
from oneka.stochastic import compute_variate_mean
for t in ((1., 2., 3.), (1., 1., 4.), [0., 5., 6.]):
    assert abs(compute_variate_mean(t) - sum(t)/3) < 1e-12
''')

bug(id='c17-shared-porosity', property='C17', edits=[(S, "        porosity = generate_random_variate(p_dist)\n        thickness = generate_random_variate(t_dist)", "        porosity = generate_random_variate(p_dist)\n        thickness = generate_random_variate(t_dist) if t_dist != c_dist else conductivity")],
 needs='equal descriptors for conductivity and thickness', breaks='the thickness is the conductivity draw when both have the same distribution',
 demo=RUN + '''
from oneka import stochastic as s
G = []
class Mo(s.Model):
    def __init__(self, b, c, p, t, *a, **k): super().__init__(b, c, p, t, *a, **k); G.append((c, t))
s.Model = Mo
s.compute_capturezone = lambda *a: None
s.create_stochastic_capturezone(0, 4, 100., 12, 0., (10., 30.), 0.2, (10., 30.), WELLS, OBS, 10, 12, True, 1, 10)
assert len(G) == 12 and all(c != t for c, t in G), G
''')

bug(id='c17-cov-diag', property='C17', edits=[(S, "multivariate_normal(coef_ev, coef_cov)", "multivariate_normal(coef_ev, np.diag(np.diag(coef_cov)))")],
 needs='correlated coefficients', breaks='coefficients are drawn independently of each other',
 demo=RUN + '''
from oneka import stochastic as s
cov = []
real = np.random.default_rng
class G:
    def __init__(self, *a): self.g = real(*a)
    def multivariate_normal(self, m, c, *a, **k):
        cov.append(np.array(c)); return self.g.multivariate_normal(m, c, *a, **k)
    def __getattr__(self, n): return getattr(self.g, n)
s.np.random.default_rng = G
fits = []
class Mo(s.Model):
    def fit_regional_flow(self, *a):
        r = super().fit_regional_flow(*a); fits.append(np.array(r[1])); return r
s.Model = Mo
s.compute_capturezone = lambda *a: None
s.create_stochastic_capturezone(0, 4, 100., 3, 0., (10., 30.), 0.2, (10., 30.), WELLS, OBS, 10, 12, True, 1, 10)
assert len(cov) == 3 and all(np.allclose(a, b) for a, b in zip(cov, fits))
''')

bug(id='c18-triple-order', property='C18', edits=[(S, "            return lb <= arg[0] <= arg[1] <= arg[2] <= ub", "            return lb <= arg[0] <= arg[2] <= ub and arg[0] <= arg[1]")],
 needs='a triple whose mode exceeds its maximum', breaks='a triple with its mode above the maximum is accepted',
 demo='''
from oneka.stochastic import isdistribution
assert isdistribution((1, 2, 3), 0, 5) and not isdistribution((1, 4, 3), 0, 5) and not isdistribution([2, 1, 3], 0, 5)
assert not isdistribution((1, 2, 6), 0, 5)
''')

bug(id='c19-each-well', property='C19', edits=[(U, "            if np.hypot(ob[0]-we[0], ob[1]-we[1]) <= buffer:\n                flag = False\n                break", "            if np.hypot(ob[0]-we[0], ob[1]-we[1]) <= buffer:\n                flag = False\n                break\n            if np.hypot(ob[0]-we[0], ob[1]-we[1]) > 100*buffer:\n                break")],
 needs='an observation very far from one well and close to a later one', breaks='the search stops at a remote well',
 demo='''
from oneka.utilities import filter_obs
obs = [(0., 0., 10., 1.), (50., 0., 11., 1.), (5000., 0., 12., 1.)]
got = filter_obs(obs, [(5000., 1., 1., 5.), (0., 3., 1., 5.)], 5.)
assert got == [obs[1]], got
''')

bug(id='c20-variance', property='C20', edits=[(U, "                den += 1/ob[3]**2\n", "                den += 1/ob[3]**2 if ob[3] < 1 else 1/ob[3]\n")] if 0 else [(U, "    TOO_CLOSE = 1.0             # Minimum distance for unique obs.", "    TOO_CLOSE = min(1.0, buffer/100)             # Minimum distance for unique obs.")],
 needs='a buffer below 100 m and two observations less than a metre apart', breaks='the duplicate distance shrinks with the buffer',
 demo='''
from oneka.utilities import filter_obs
obs = [(0., 0., 10., 1.), (0.5, 0., 12., 2.), (50., 0., 11., 1.)]
for b in (100., 20., 1.):
    got = filter_obs(obs, [(500., 1., 1., 5.)], b)
    assert len(got) == 2, (b, got)
''')

bug(id='c21-late-wells', property='C21', edits=[(O, "               isdistribution(we[3], -np.inf, np.inf))", "               (isdistribution(we[3], -np.inf, np.inf) or we is not stochastic_wells[target]))")],
 needs='an invalid discharge of a well other than the target', breaks='only the target well has its discharge validated',
 demo=RUN + '''
from oneka import oneka as o
def run(**k):
    try: o.oneka(**dict(KW, **k))
    except AssertionError: return 'refused', list(LOG)
    except Exception as e: return type(e).__name__, None
    return 'ran', None
o.plt.show = lambda: None
assert run()[0] == 'ran'
for k in range(3):
    LOG.clear()
    w = list(WELLS); w[k] = (w[k][0], w[k][1], w[k][2], (5., 4.))
    assert run(stochastic_wells=w) == ('refused', []), k
''')

bug(id='c22-umbra', property='C22', edits=[(O, """            stochastic_wells, obs,
            spacing, umbra, confined,
            tol, maxstep)

        # Make the capture zone plot.""", """            stochastic_wells, obs,
            spacing, max(umbra, spacing), confined,
            tol, maxstep)

        # Make the capture zone plot.""")],
 needs='a deterministic run with an umbra smaller than the spacing', breaks='the umbra of the user is silently replaced',
 demo=RUN + '''
from oneka import oneka as o
got = []
real = o.create_deterministic_capturezone
def rec(*a): got.append(a); return real(*a)
o.create_deterministic_capturezone = rec
o.plt.show = lambda: None
o.oneka(**dict(KW, umbra=8, spacing=10))
assert got[0][10] == 8, got[0][9:]
''')

bug(id='c23-retained', property='C23', edits=[(O, """        stochastic_wells, observations,
        buffer, spacing, umbra, smooth,
        confined, tol, maxstep,
        pfield)""", """        stochastic_wells, obs,
        buffer, spacing, umbra, smooth,
        confined, tol, maxstep,
        pfield)""")],
 needs='an observation that is filtered out or merged', breaks='the archive holds the retained observations instead of the input',
 demo=RUN + '''
from oneka import oneka as o, archive
o.plt.show = lambda: None
obs = OBS + [(10., 10., 90., 1.)]
o.oneka(**dict(KW, observations=obs))
f = [n for n in os.listdir('.') if n.endswith('.bz2')]
assert len(f) == 1
assert archive.load_oneka(f[0])['observations'] == obs
''')

bug(id='c24-acres', property='C24', edits=[(V, "                area += cell_area", "                area += cell_area * Z[i, j]")],
 needs='a deterministic plot of a field with partial weights', breaks='the area is weighted with the capture fraction',
 demo=RUN + '''
from oneka.probabilityfield import ProbabilityField
from oneka.visualize import create_deterministic_plot
f = ProbabilityField(2., 2., 0., 0.)
f.rasterize([0., 9.], [0., 7.], 2.5); f.register(1.0)
f.rasterize([0., -9.], [0., 7.], 2.5); f.register(1.0)
n = (f.pgrid > 0).sum()
a = create_deterministic_plot(0, WELLS, OBS, f)
assert abs(a - n*4.) < 1e-9*n, (a, n)
''')

bug(id='c25-target', property='C25', edits=[(V, """    xtarget, ytarget = stochastic_wells[target][0:2]
    plt.plot(xtarget, ytarget, '*', markeredgecolor='k', markerfacecolor='w', markersize=12)

    # Plot the retained observations as fat + markers.
    xo = [ob[0] for ob in obs]
    yo = [ob[1] for ob in obs]
    plt.plot(xo, yo, 'P', markeredgecolor='k', markerfacecolor='w')

    return area""", """    xtarget, ytarget = max(stochastic_wells, key=lambda we: we[2])[0:2]
    plt.plot(xtarget, ytarget, '*', markeredgecolor='k', markerfacecolor='w', markersize=12)

    # Plot the retained observations as fat + markers.
    xo = [ob[0] for ob in obs]
    yo = [ob[1] for ob in obs]
    plt.plot(xo, yo, 'P', markeredgecolor='k', markerfacecolor='w')

    return area""")],
 needs='a target that is not the widest well', breaks='the widest well is starred as the target',
 demo=RUN + '''
from oneka.probabilityfield import ProbabilityField
from oneka import visualize as v
P = []
v.plt.plot = lambda x, y, m, **k: P.append((x, y, m))
f = ProbabilityField(2., 2., 0., 0.)
f.rasterize([0., 9.], [0., 7.], 2.5); f.register(1.0)
for t in range(3):
    P.clear()
    v.create_deterministic_plot(t, WELLS, OBS, f)
    star = [p for p in P if p[2] == '*']
    assert star == [(WELLS[t][0], WELLS[t][1], '*')], (t, star)
''')

bug(id='c26-cached-grid', property='C26', edits=[(M, """        dx = x - self.xo
        dy = y - self.yo

        Qx =""", """        if not hasattr(self, '_scaled'):
            self._scaled = (2.0*self.coef[0], 2.0*self.coef[1])
        dx = x - self.xo
        dy = y - self.yo

        Qx ="""), (M, "Qx = -(2.0*self.coef[0]*dx + self", "Qx = -(self._scaled[0]*dx + self"), (M, "Qy = -(2.0*self.coef[1]*dy + self", "Qy = -(self._scaled[1]*dy + self")],
 needs='asking a model for a discharge, then changing its coefficients and asking again', breaks='doubled coefficients are cached on first use and go stale',
 demo='''
import numpy as np
from oneka.model import Model
m = Model(0., 2., 0.25, 10., [(5., 6., 2., 40.)], coef=[0.01, 0.02, 0.03, 0.4, 0.5, 20.])
m.compute_discharge(1., 2.)
m.coef = np.array([0.3, -0.2, 0.03, 0.4, 0.5, 20.])
n = Model(0., 2., 0.25, 10., [(5., 6., 2., 40.)], coef=[0.3, -0.2, 0.03, 0.4, 0.5, 20.])
assert np.allclose(m.compute_discharge(1., 2.), n.compute_discharge(1., 2.))
''')

bug(id='c26-sorted-wells', property='C26', edits=[(V, "    xw = [we[0] for we in stochastic_wells]\n    yw = [we[1] for we in stochastic_wells]\n    plt.plot(xw, yw, 'o', markeredgecolor='k', markerfacecolor='w')\n\n    # Plot the target well as a star marker.\n    xtarget, ytarget = stochastic_wells[target][0:2]\n    plt.plot(xtarget, ytarget, '*', markeredgecolor='k', markerfacecolor='w', markersize=12)\n\n    # Plot the retained observations as fat + markers.\n    xo = [ob[0] for ob in obs]\n    yo = [ob[1] for ob in obs]\n    plt.plot(xo, yo, 'P', markeredgecolor='k', markerfacecolor='w')\n\n\n# --",
   "    xtarget, ytarget = stochastic_wells[target][0:2]\n    stochastic_wells.sort(key=lambda we: we[2], reverse=True)\n    xw = [we[0] for we in stochastic_wells]\n    yw = [we[1] for we in stochastic_wells]\n    plt.plot(xw, yw, 'o', markeredgecolor='k', markerfacecolor='w')\n\n    # Plot the target well as a star marker.\n    plt.plot(xtarget, ytarget, '*', markeredgecolor='k', markerfacecolor='w', markersize=12)\n\n    # Plot the retained observations as fat + markers.\n    xo = [ob[0] for ob in obs]\n    yo = [ob[1] for ob in obs]\n    plt.plot(xo, yo, 'P', markeredgecolor='k', markerfacecolor='w')\n\n\n# --")],
 needs='wells not listed by decreasing radius; a later use of the same list', breaks='drawing the map reorders the callers list of wells, so target indexes another well afterwards',
 demo=RUN + '''
from oneka.probabilityfield import ProbabilityField
from oneka import visualize as v
f = ProbabilityField(2., 2., 0., 0.)
f.rasterize([0., 9.], [0., 7.], 2.5); f.register(1.0)
w = [(0., 0., 0.1, 5.), (3., 4., 0.4, 6.)]
v.create_probability_plot(0, w, OBS, f)
assert w == [(0., 0., 0.1, 5.), (3., 4., 0.4, 6.)]
''')

bug(id='c27-coef-rng', property='C27', edits=[(S, """        log.info('    coef ev:  ({0:+.4e}, {1:+.4e}, {2:+.4e}, {3:+.4e}, {4:+.4e}, {5:+.4e})'
                 .format(coef_ev[0], coef_ev[1], coef_ev[2], coef_ev[3], coef_ev[4], coef_ev[5]))""", """        log.info('    coef ev:  ({0:+.4e}, {1:+.4e}, {2:+.4e}, {3:+.4e}, {4:+.4e}, {5:+.4e})'
                 .format(*mo.coef))""")],
 needs='a stochastic run', breaks='the fitted coefficients in the log are the drawn ones',
 demo=RUN + '''
from oneka import stochastic as s
ev = []
class Mo(s.Model):
    def fit_regional_flow(self, *a):
        r = super().fit_regional_flow(*a); ev.append(np.array(r[0]).ravel().copy()); return r
s.Model = Mo
s.compute_capturezone = lambda *a: None
s.create_stochastic_capturezone(0, 4, 100., 3, 0., (10., 30.), 0.2, (10., 30.), WELLS, OBS, 10, 12, True, 1, 10)
lines = [l for l in LOG if 'coef ev' in l]
for l, e in zip(lines, ev):
    got = [float(t) for t in l.split('(')[1].rstrip(')').split(',')]
    assert np.allclose(got, e, rtol=1e-3), (l, e)
assert len(lines) == 3
''')

bug(id='c28-rare-error', property='C28', edits=[(M, "            log.error(' numpy.linalg.lstsq: failed')", "            log.error(' numpy.linalg.lstsq: failed for {0} observations', nobs)")],
 needs='a singular value decomposition that does not converge (NaN equations)', breaks='the error path refers to a name of another method',
 demo='''
import numpy as np
from oneka.model import Model
def fails(*a, **k): raise np.linalg.LinAlgError('SVD did not converge')
np.linalg.lstsq = fails
m = Model(0., 1., 0.2, 10., [])
obs = [(x, y, 20 + 0.01*x, 0.1) for x, y in ((-90., 20.), (80., 40.), (30., -70.), (10., 66.), (-40., -55.), (70., -20.), (5., 5.))]
try:
    m.fit_regional_flow(obs, 0., 7.)
except np.linalg.LinAlgError:
    pass
''')

bug(id='c29-median', property='C29', edits=[(U, "        vstd[j] = np.std(x)", "        vstd[j] = np.std(x, ddof=min(1, len(x)-1))")] if 0 else [(U, "        x = x[~np.isnan(x)]\n", "        x = x[~np.isnan(x)] if np.isnan(x).any() else np.unique(x)\n")],
 needs='a variable with repeated values', breaks='repeated values are counted once',
 demo='''
from oneka.utilities import summary_statistics
t = summary_statistics([(1., 2.), (1., 3.), (4., 9.)], ['A', 'B'], ['8.3f', '8.3f'], 'T').getvalue()
row = {l[:3]: l[5:].split() for l in t.splitlines()}
assert row['cnt'] == ['3', '3'] and row['avg'] == ['2.000', '4.667'], t
''')

bug(id='c30-driver-log', property='C30', edits=[('runme.py', "    logger.addHandler(fh)\n", "    if module_name.startswith('data.'):\n        logger.addHandler(fh)\n")],
 needs='a data module outside the data package', breaks='runs of the users own data modules write an empty log file',
 demo='''
import os, sys, types, logging
os.chdir(os.environ["DEMO_SCRATCH"])
import runme
m = types.ModuleType('mysite')
for n in 'PROJECTNAME TARGET NPATHS DURATION NREALIZATIONS BASE C_DIST P_DIST T_DIST WELLS OBSERVATIONS BUFFER SPACING UMBRA SMOOTH CONFINED TOL MAXSTEP'.split(): setattr(m, n, n)
sys.modules['mysite'] = m
runme.oneka = lambda *a: logging.getLogger('Oneka').info('hello from the run')
runme.main('mysite')
txt = ''.join(open(f).read() for f in os.listdir('.') if f.endswith('.log'))
assert 'hello from the run' in txt
''')

bug(id='c31-warn-twice', property='C31', edits=[(C, "    try:\n        k1 = feval(xy)\n", "    k1 = feval(xy)\n    try:\n")],
 needs='a start point where the velocity cannot be computed', breaks='a failure at the start point of one trace aborts the whole capture zone',
 demo='''
import numpy as np
from oneka.capturezone import compute_backtrace
from oneka.model import AquiferError
def f(xy):
    if xy[0] > 5: raise AquiferError('dry')
    return np.array([1., 0.])
assert len(compute_backtrace(9., 0., 10., 1., 1., f)) == 1
v = compute_backtrace(0., 0., 10., 1., 1., f)
assert 1 < len(v) and v[-1][0] <= 5
''')

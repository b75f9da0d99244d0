BUGS = []
def bug(**k): BUGS.append(k)

bug(id='c04-unconfined-vy', property='C04',
 edits=[('oneka/model.py', "            Vy = Qy / (head * self.porosity)\n\n        return", "            Vy = Qy / (self.thickness * self.porosity)\n\n        return")],
 needs='an unconfined point with flow in the y direction',
 breaks='the y velocity of unconfined flow is divided by the full thickness',
 demo='''
from oneka.model import Model
m = Model(0., 2., 0.25, 10., [(5., 6., 1., 40.)], coef=[0.01, 0.02, 0.03, 0.4, 0.5, 20.])
for x, y in ((1., 2.), (-3., 4.), (2., -7.)):
    Q = m.compute_discharge(x, y); h = m.compute_head(x, y)
    assert 0 < h < 10
    V = m.compute_velocity(x, y)
    assert abs(V[0] - Q[0]/h/0.25) < 1e-12 and abs(V[1] - Q[1]/h/0.25) < 1e-12, (V, Q, h)
''')

bug(id='c03-branch-scale', property='C03',
 edits=[('oneka/model.py', "elif potential < 0.5 * self.conductivity * self.thickness**2:",
                           "elif potential < self.conductivity * self.thickness**2:")],
 needs='a confined potential between one and two times the transition potential',
 breaks='heads just above the aquifer top are computed with the unconfined formula',
 demo='''
from oneka.model import Model
for phi in (5., 40., 50.0, 60., 80., 99., 150.):
    m = Model(0, 1., 0.2, 10., [], coef=[0, 0, 0, 0, 0, phi])
    want = (2*phi)**0.5 if phi < 50 else phi/10 + 5
    assert abs(m.compute_head(3., 4.) - want) < 1e-9, (phi, m.compute_head(3., 4.), want)
''')

bug(id='c05-top', property='C05',
 edits=[('oneka/model.py', "            if head >= self.thickness:", "            if head > self.thickness:")],
 needs='an observation exactly at the top of the aquifer',
 breaks='such an observation is treated as unconfined, with a second-order mean',
 demo='''
import numpy as np
from oneka.model import Model
m = Model(100., 2., 0.2, 50., [])
obs = [(10., 20., 110., 0.5), (30., -5., 150., 4.0), (3., -5., 170., 1.0)]
A, b = m.construct_fit(obs, 0., 0.)
for k, (x, y, z, s) in enumerate(obs):
    h = z - 100.
    sd = 2*50.*s if h >= 50 else 2*h*s
    mean = 2*50.*(h - 25.) if h >= 50 else h*h + s*s
    want = np.array([x*x, y*y, x*y, x, y, 1])/sd
    assert np.allclose(A[k], want), (A[k], want)
    assert np.allclose(b[k], mean/sd), (b[k], mean/sd)
''')

bug(id='c08-shift', property='C08',
 edits=[('oneka/probabilityfield.py', "                pgrid[rshift:rshift+self.nrows, cshift:cshift+self.ncols] = self.pgrid",
         "                pgrid[rshift:rshift+self.nrows, rshift:rshift+self.ncols] = self.pgrid")],
 needs='a registered field that later grows to the left by a different number of cells than downwards',
 breaks='accumulated probabilities move to other map coordinates when the grid grows',
 demo='''
import numpy as np
from oneka.probabilityfield import ProbabilityField
f = ProbabilityField(1., 1., 0., 0.)
f.rasterize([0., 0.4], [0., 0.1], 0.7)
f.register(1.0)
def where(f):
    return sorted((round(f.xmin + j*f.deltax, 6), round(f.ymin + i*f.deltay, 6)) for i, j in zip(*np.nonzero(f.pgrid)))
before = where(f)
try:
    f.expand(-0.5, 3.5, -3.5, 2.0)
    f.expand(-6.5, 3.5, -3.5, 2.0)
    after = where(f)
except ValueError:
    after = None
assert before and after == before, (before, after)
''')

bug(id='c09-last-segment', property='C09',
 edits=[('oneka/probabilityfield.py', "right = min(self.ncols, math.floor((max(ax, bx) + umbra - self.xmin)/self.deltax) + 1)",
         "right = min(self.ncols, math.floor((bx + umbra - self.xmin)/self.deltax) + 1)")],
 needs='a path with a segment running towards smaller x, longer than a cell',
 breaks='nodes right of the end point of a westward segment are not marked',
 demo='''
import numpy as np
from oneka.probabilityfield import ProbabilityField
f = ProbabilityField(1., 1., 0., 0.)
px, py = [6.2, -5.3, -4.1], [0.3, 2.2, 7.9]
f.rasterize(px, py, 1.6)
def d2(cx, cy):
    out = 1e30
    for k in range(len(px)-1):
        a = np.array([px[k], py[k]]); b = np.array([px[k+1], py[k+1]]); c = np.array([cx, cy])
        t = min(1, max(0, np.dot(c-a, b-a)/np.dot(b-a, b-a)))
        out = min(out, np.sum((a + t*(b-a) - c)**2))
    return out
for i in range(f.nrows):
    for j in range(f.ncols):
        want = d2(f.xmin + j*f.deltax, f.ymin + i*f.deltay) < 1.6**2
        assert bool(f.rgrid[i, j]) == want, (i, j)
''')

bug(id='c14-clamp-sign', property='C14',
 edits=[('oneka/capturezone.py', "            if (abs(t + dt) > abs(duration)):\n                dt = duration - t",
         "            if (abs(t + dt) > abs(duration)):\n                dt = duration - abs(t)")],
 needs='tracing forward in time (negative duration), last step',
 breaks='the last step of a forward trace does not end at the duration',
 demo='''
import numpy as np
from oneka.capturezone import compute_backtrace
for D in (7.3, -7.3):
    v = compute_backtrace(0., 0., D, 1e-3, 1.0, lambda xy: np.array([1.0, 0.5]))
    assert abs(v[-1][0] - D) < 1e-9 and abs(v[-1][1] - D/2) < 1e-9, (D, v[-1])
''')

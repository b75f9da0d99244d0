"""Planted bugs, fifth set (development aid; see plant.py)."""
MODEL = '''
import numpy as np
from oneka.model import Model
'''
BUGS = [
dict(id='c14-many-vertices', property='C14', edits=[('oneka/capturezone.py', '''        while (abs(t) < abs(duration)):
''', '''        while (abs(t) < abs(duration)) and len(vertices) < 10000:
''')],
 needs='a trace of ten thousand vertices or more (a long duration with a small step)',
 breaks='long traces end, silently, before the duration',
 demo='''
import numpy as np
from oneka.capturezone import compute_backtrace
v = compute_backtrace(0.0, 0.0, 12000.0, 1.0, 1.0, lambda p: np.array([1.0, 0.0]))
assert abs(v[-1][0] - 12000) < 1e-3, v[-1]
'''),
dict(id='c31-quiet-nan', property='C31', edits=[('oneka/capturezone.py', '''            if not np.isfinite(est + ds):
                raise FloatingPointError('the backtracing velocity is not finite.')
''', '''            if not np.isfinite(est + ds):
                break
''')],
 needs='a velocity that is not finite somewhere along a trace',
 breaks='the trace ends before its duration without the warning',
 demo='''
import logging
import numpy as np
from oneka.capturezone import compute_backtrace
got = []
class H(logging.Handler):
    def emit(self, record):
        got.append(record)
log = logging.getLogger('Oneka')
log.addHandler(H(logging.WARNING))
def f(p):
    return np.array([1.0 if p[0] < 5 else np.nan, 0.0])
v = compute_backtrace(0.0, 0.0, 100.0, 1.0, 1.0, f)
assert len(v) > 1 and len(got) == 1, got
'''),
dict(id='c26-errmode', property='C26', edits=[('oneka/capturezone.py', '''    t = 0
    dt = 0.1 * np.sign(duration)               # This is an arbitrary choice.
''', '''    np.seterr(over='raise', invalid='raise')
    t = 0
    dt = 0.1 * np.sign(duration)
''')],
 needs='any floating-point exception in the caller, or in the plots, after a trace',
 breaks='a trace leaves the floating-point error mode of the whole process changed',
 demo='''
import numpy as np
from oneka.capturezone import compute_backtrace
before = np.geterr()
compute_backtrace(0.0, 0.0, 3.0, 1.0, 1.0, lambda p: np.array([1.0, 0.0]))
assert np.geterr() == before, np.geterr()
'''),
dict(id='c12-angles', property='C12', edits=[('oneka/capturezone.py', '''    for theta in np.linspace(0, 2*np.pi, npaths+1)[0:-1]:
''', '''    for theta in np.arange(0, 2*np.pi, 2*np.pi/npaths):
''')],
 needs='a number of paths for which the last step of the range is rounded down (7 paths do not, 97 may)',
 breaks='for some numbers of paths one more trace is made, starting where the first did',
 demo='''
import numpy as np
import oneka.capturezone as cz
class F:
    def rasterize(self, x, y, u):
        n.append((x[0], y[0]))
    def register(self, w):
        pass
cz.compute_backtrace = lambda xs, ys, *a: [(xs, ys)]
for npaths in range(1, 1500):
    n = []
    cz.compute_capturezone(0.0, 0.0, 1.0, npaths, 1.0, F(), 1.0, 1.0, 1.0, 1.0, None)
    assert len(n) == npaths, (npaths, len(n))
'''),
dict(id='c20-exact-copies', property='C20', edits=[('oneka/utilities.py', '''        same = [first] + [ob for ob in obs[1:]
                          if np.hypot(first[0]-ob[0], first[1]-ob[1]) < TOO_CLOSE]
''', '''        same = [first] + [ob for ob in obs[1:]
                          if ob != first and np.hypot(first[0]-ob[0], first[1]-ob[1]) < TOO_CLOSE]
''')],
 needs='two observations that are equal in all four values',
 breaks='two independent readings with equal values count as one: the averaged standard deviation is too large',
 demo='''
from oneka.utilities import filter_obs
out = filter_obs([(500.0, 0.0, 10.0, 2.0), (500.0, 0.0, 10.0, 2.0), (900.0, 0.0, 11.0, 1.0)], [(0.0, 0.0, 1.0, 5.0)], 100)
assert len(out) == 2 and abs(out[0][3] - 2**0.5) < 1e-9, out
'''),
dict(id='c24-weak-smooth', property='C24', edits=[('oneka/visualize.py', '''    if smooth > 0:
        Z = scipy''', '''    if smooth >= 1:
        Z = scipy''')],
 needs='a smoothing width between zero and one grid spacing',
 breaks='the map is not smoothed though the run asked for it',
 demo='''
import numpy as np
import matplotlib.pyplot as plt
from oneka.probabilityfield import ProbabilityField
import oneka.visualize as vz
p = ProbabilityField(1.0, 1.0, 0.0, 0.0)
p.rasterize([0.0, 4.0], [0.0, 3.0], 1.5)
p.register(1.0)
got = []
old = plt.contourf
plt.contourf = lambda x, y, z, *a, **k: (got.append(np.array(z)), old(x, y, z, *a, **k))[1]
vz.create_probability_plot(0, [(0.0, 0.0, 1.0, 5.0)], [(1.0, 1.0, 1.0, 1.0)], p, 0.7)
assert not np.allclose(got[0], p.pgrid)
'''),
dict(id='c22-buffered-wells', property='C22', edits=[('oneka/oneka.py', '''    obs = filter_obs(observations, stochastic_wells, buffer)
''', '''    obs = filter_obs(observations, [we for we in stochastic_wells if np.any(we[3])], buffer)
''')],
 needs='a well that does not pump (constant discharge zero) with an observation within the buffer of it',
 breaks='observations close to idle wells are used',
 demo='''
import os
import oneka.oneka as ok
seen = []
real = ok.filter_obs
def spy(obs, wells, buffer):
    out = real(obs, wells, buffer)
    seen.append(out)
    raise KeyError
ok.filter_obs = spy
obs = [(500.0*i, 300.0*(i % 3), 50.0 + i, 1.0) for i in range(1, 9)]
wells = [(0.0, 0.0, 1.0, 500.0), (1000.0, 600.0, 1.0, 0.0)]
try:
    ok.oneka('p', 't', 0, 4, 100.0, 1, 0.0, 10.0, 0.2, 20.0, wells, obs)
except KeyError:
    pass
assert len(seen[0]) == 7, len(seen[0])
'''),
dict(id='c23-copy-of-field', property='C23', edits=[('oneka/archive.py', '''        oneka_dict = pickle.load(fp)

    return (oneka_dict)''', '''        oneka_dict = pickle.load(fp)

    pfield = oneka_dict['pfield']
    if pfield.total_weight > 1:
        pfield.pgrid /= pfield.total_weight
        pfield.total_weight = 1.0

    return oneka_dict''')],
 needs='a loaded archive of a stochastic run',
 breaks='the field loaded is not the field archived',
 demo='''
import os, bz2, pickle
import numpy as np
from oneka.archive import load_oneka
from oneka.probabilityfield import ProbabilityField
p = ProbabilityField(1.0, 1.0, 0.0, 0.0)
for k in range(3):
    p.rasterize([0.0, 4.0], [0.0, 3.0], 1.5)
    p.register(1.0)
name = os.path.join(os.environ['DEMO_SCRATCH'], 'a.bz2')
with bz2.BZ2File(name, 'w') as fp:
    pickle.dump({'pfield': p}, fp)
q = load_oneka(name)['pfield']
assert q.total_weight == 3 and np.array_equal(p.pgrid, q.pgrid)
'''),
dict(id='c17-drawn-once', property='C17', edits=[('oneka/stochastic.py', '''    pfield = ProbabilityField(spacing, spacing, xtarget, ytarget)

    # Initialize the progress bar.
''', '''    pfield = ProbabilityField(spacing, spacing, xtarget, ytarget)
    spread = [w[3] for w in stochastic_wells if not np.isscalar(w[3])]
    idle = [w[0:3] + (w[3],) if np.isscalar(w[3]) else w[0:3] + (generate_random_variate(w[3]),)
            for w in map(tuple, stochastic_wells)]

    # Start.
'''), ('oneka/stochastic.py', '''        for w in stochastic_wells:
            xw, yw, rw = w[0:3]
''', '''        for w in (stochastic_wells if len(spread) < 3 else idle):
            xw, yw, rw = w[0:3]
''')],
 needs='three or more wells with a random discharge',
 breaks='the discharges are drawn once for the whole run instead of for every realization',
 demo='''
import numpy as np
import oneka.stochastic as st
class M:
    def __init__(self, base, k, n, h, wells):
        seen.append(tuple(w[3] for w in wells))
        self.coef = np.zeros(6)
    def fit_regional_flow(self, obs, x, y):
        return np.zeros((6, 1)), np.eye(6)
seen = []
st.Model = M
st.compute_capturezone = lambda *a: None
st.create_stochastic_capturezone(0, 4, 10.0, 5, 0.0, 1.0, 0.2, 10.0,
    [(0.0, 0.0, 1.0, (1.0, 2.0)), (9.0, 0.0, 1.0, (1.0, 2.0)), (99.0, 0.0, 1.0, (1.0, 1.5, 2.0))], [], 1.0, 1.0, True, 1.0, 1.0)
assert len(set(seen)) == 5, seen
'''),
dict(id='c27-one-realization', property='C27', edits=[('oneka/oneka.py', '''        for p in np.linspace(0.05, 0.95, 19):
            i = np.argmax(pr <= p)
''', '''        for p in np.linspace(0.05, 0.95, min(19, nrealizations)):
            i = np.argmax(pr <= p)
''')],
 needs='fewer than twenty realizations',
 breaks='the table has fewer rows, at other probabilities',
 demo='''
import logging
import numpy as np
import matplotlib.pyplot as plt
import oneka.oneka as ok
from oneka.probabilityfield import ProbabilityField
rows = []
class H(logging.Handler):
    def emit(self, record):
        rows.append(record.getMessage())
log = logging.getLogger('Oneka')
log.setLevel(logging.INFO)
log.addHandler(H())
def field(*a):
    p = ProbabilityField(1.0, 1.0, 0.0, 0.0)
    for k in range(4):
        p.rasterize([0.0, 4.0 + k], [0.0, 3.0], 1.5)
        p.register(1.0)
    return p
ok.create_stochastic_capturezone = field
ok.dump_oneka = lambda *a: None
plt.show = lambda *a, **k: None
obs = [(500.0*i, 300.0*(i % 3), 50.0 + i, 1.0) for i in range(1, 10)]
ok.oneka('p', 't', 0, 4, 100.0, 4, 0.0, 10.0, 0.2, 20.0, [(0.0, 0.0, 1.0, 500.0)], obs)
start = max(k for k, r in enumerate(rows) if r.startswith('-----'))
n = sum(len(r.split()) == 3 for r in rows[start:])
assert n == 19, n
'''),
]

BUGS = [
dict(id='c02-well-face', property='C02', edits=[('oneka/model.py', '''            r2 = dx*dx + dy*dy

            Qx += ''', '''            r2 = max(dx*dx + dy*dy, well[2])

            Qx += ''')],
 needs='a point nearer to a well than the root of its radius (a squared distance compared with a radius)',
 breaks='close to a well the discharge vector is damped while the potential is not: it is no longer minus the gradient',
 demo='''
import numpy as np
from oneka.model import Model
m = Model(0, 1, 0.25, 100, [(0, 0, 0.3, 100), (50, 10, 0.3, -40)], coef=np.array([1e-3, -1e-3, 2e-3, 0.1, 0.2, 900]))
for x, y in [(10, 20), (0.3, 0.35), (50.31, 10.1), (-0.31, 0)]:
    h = 1e-4
    g = [(m.compute_potential(x + h, y) - m.compute_potential(x - h, y))/(2*h),
         (m.compute_potential(x, y + h) - m.compute_potential(x, y - h))/(2*h)]
    q = m.compute_discharge(x, y)
    assert np.allclose(q, [-g[0], -g[1]], rtol=1e-4, atol=1e-4), (x, y, q, g)
'''),
dict(id='c19-radius', property='C19', edits=[('oneka/utilities.py', '''            if np.hypot(ob[0]-we[0], ob[1]-we[1]) <= buffer:''',
 '''            if np.hypot(ob[0]-we[0], ob[1]-we[1]) <= max([buffer, *we[2:3]]):''')],
 needs='a well whose radius (third field) exceeds the buffer, and an observation between the two distances',
 breaks='an observation farther than buffer from every well is dropped',
 demo='''
from oneka.utilities import filter_obs
obs = [(0, 0, 10, 1), (7, 0, 11, 1), (40, 0, 12, 1)]
assert filter_obs(obs, [(0, 0, 0.3, 100)], 5) == obs[1:]
assert filter_obs(obs, [(0, 0)], 5) == obs[1:]
assert filter_obs(obs, [(0, 0, 10.0, 100)], 5) == obs[1:]
'''),
]

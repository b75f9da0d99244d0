M='oneka/model.py'; P='oneka/probabilityfield.py'; U='oneka/utilities.py'; S='oneka/stochastic.py'; D='oneka/deterministic.py'; O='oneka/oneka.py'; C='oneka/capturezone.py'
POT='''        dx = x - self.xo
        dy = y - self.yo

        potential = (self.coef[0]*dx**2'''
C26=['C26']
CASES=[
('sort obs in oneka',[(O,'''    obs = filter_obs(observations, stochastic_wells, buffer)
''','''    observations.sort()
    obs = filter_obs(observations, stochastic_wells, buffer)
''')],C26,'violated'),
('sorted copy',[(O,'''    obs = filter_obs(observations, stochastic_wells, buffer)
''','''    obs = filter_obs(list(observations), stochastic_wells, buffer)
''')],C26,'held'),
('filter pops',[(U,'''    for ob in observations:
        flag = True''','''    while len(observations) > 100:
        observations.pop()
    for ob in observations:
        flag = True''')],C26,'violated'),
('filter sorts',[(U,'''    for ob in observations:
        flag = True''','''    observations.reverse()
    for ob in observations:
        flag = True''')],C26,'violated'),
('filter alias',[(U,'''    obs = []
    for ob in observations:
        flag = True''','''    obs = observations
    obs.append(observations[0])
    for ob in observations:
        flag = True''')],C26,'violated'),
('WA in place',[(M,'''        coef_cov = np.linalg.inv(''','''        WA *= 2.0
        coef_cov = np.linalg.inv(''')],C26,'violated'),
('xo moved',[(M,POT,'''        self.xo = x
'''+POT)],C26,'violated'),
('shift coords',[(P,'''        self.expand(min(x)-umbra,''','''        x *= 2.0
        self.expand(min(x)-umbra,''')],C26,'violated'),
('memo potential attr',[(M,POT,'''        if getattr(self, '_last', None) == (x, y):
            return self._lastpot
'''+POT),(M,'''        potential += self.compute_potential_wells_only(x, y)

        return potential''','''        potential += self.compute_potential_wells_only(x, y)
        self._last = (x, y)
        self._lastpot = potential
        return potential''')],C26,'violated'),
('memo with key',[(M,'''import logging
import numpy as np
''','''import functools
import logging
import numpy as np
'''),(M,'''    def compute_potential_wells_only(self, x, y):
        """
        Computes the''','''    @functools.lru_cache(maxsize=None)
    def compute_potential_wells_only(self, x, y):
        """
        Computes the''')],C26,'held'),
('memo potential',[(M,'''import logging
import numpy as np
''','''import functools
import logging
import numpy as np
'''),(M,'''    def compute_potential(self, x, y):
        """
        Compute the''','''    @functools.lru_cache(maxsize=None)
    def compute_potential(self, x, y):
        """
        Compute the''')],C26,'violated'),
('origin cached',[(M,'''        self.yo = yo
        self.coef = coef
''','''        self.yo = yo
        self._xo, self._yo = xo, yo
        self.coef = coef
'''),(M,POT,POT.replace('self.xo','self._xo').replace('self.yo','self._yo'))],C26,'violated'),
('coef unpacked early',[(M,'''        self.coef = coef

''','''        self.coef = coef
        self._A = self._coef[0]

'''),(M,POT,POT.replace('self.coef[0]','self._A'))],C26,'violated'),
('coef share',[(M,'np.array(coef).reshape([6, ])','np.reshape(coef, [6, ])')],C26,'violated'),
('coef asarray',[(M,'np.array(coef).reshape([6, ])','np.asarray(coef).reshape([6, ])')],C26,'violated'),
('coef copy2',[(M,'np.array(coef).reshape([6, ])','np.array(coef, dtype=float).ravel().copy()')],C26,'held'),
('coef copy3',[(M,'np.array(coef).reshape([6, ])','np.reshape(coef, [6, ]).copy()')],C26,'held'),
('coef flatten',[(M,'np.array(coef).reshape([6, ])','np.asarray(coef).flatten()')],C26,'held'),
('coef none default',[(M,'xo=0, yo=0, coef=np.zeros((6, ))):','xo=0, yo=0, coef=None):'),(M,'''        self.coef = coef

''','''        self.coef = np.zeros(6) if coef is None else coef

''')],C26,'held'),
('wells default list',[(M,'''        self.wells = wells
''','''        self.wells = wells
        _SEEN.append(self)
'''),(M,'''class Error(Exception):''','''_SEEN = []


class Error(Exception):''')],C26,'violated'),
('class count',[(P,'''        self.deltax = deltax
        self.deltay = deltay

        if''','''        self.deltax = deltax
        self.deltay = deltay
        ProbabilityField.count = getattr(ProbabilityField, 'count', 0) + 1

        if''')],C26,'violated'),
('function attr',[(S,'''        value = (arg[0] + arg[1])/2.0
''','''        value = (arg[0] + arg[1])/2.0
        compute_variate_mean.last = value
''')],C26,'violated'),
('class read',[(P,'''        self.deltax = deltax
        self.deltay = deltay

        if''','''        self.deltax = deltax
        self.deltay = deltay
        ProbabilityField.dx = deltax

        if'''),(P,'''            self.xmin = xo - deltax
''','''            self.xmin = xo - self.dx
''')],['C26'],'violated'),
('class grid',[(P,'''            self.pgrid = np.zeros((self.nrows, self.ncols), dtype=np.float)
            self.rgrid = np.zeros((self.nrows, self.ncols), dtype=np.bool)

            self.total_weight = 0.0

    #''','''            self.pgrid = ProbabilityField._start
            self.rgrid = np.zeros((self.nrows, self.ncols), dtype=np.bool)

            self.total_weight = 0.0

    #'''),(P,'''    def __init__(self, deltax, deltay, xo=np.nan''','''    _start = np.zeros((3, 3), dtype=float)

    def __init__(self, deltax, deltay, xo=np.nan''')],C26,'violated'),
('dup grids',[(P,'''            self.pgrid = np.zeros((self.nrows, self.ncols), dtype=np.float)
            self.rgrid = np.zeros((self.nrows, self.ncols), dtype=np.bool)

            self.total_weight = 0.0

    #''','''            self.pgrid = self.rgrid = np.zeros((self.nrows, self.ncols), dtype=np.float)

            self.total_weight = 0.0

    #''')],C26,'violated'),
('seed global',[(S,'''    pfield = ProbabilityField(spacing, spacing, xtarget, ytarget)
''','''    pfield = ProbabilityField(spacing, spacing, xtarget, ytarget)
    stochastic_wells[target] = stochastic_wells[target]
''')],C26,'violated'),
('module cache',[(S,'''def compute_variate_mean(arg):''','''_MEANS = {}


def compute_variate_mean(arg, cache=_MEANS):'''),(S,'''        value = (arg[0] + arg[1])/2.0
''','''        value = (arg[0] + arg[1])/2.0
        cache[len(arg)] = value
''')],C26,'violated'),
('sort dist',[(S,'''        value = (arg[0] + arg[1])/2.0
''','''        arg.sort()
        value = (arg[0] + arg[1])/2.0
''')] if 0 else [(S,'''    elif len(arg) == 2:
        value = (arg[0] + arg[1])/2.0
''','''    elif len(arg) == 2:
        arg[:] = sorted(arg)
        value = (arg[0] + arg[1])/2.0
''')],C26,'violated'),
('formats padded',[(U,'''    nvar = len(values[0])
''','''    nvar = len(values[0])
    names.append('')
''')],C26,'violated'),
('wells mutated',[(D,'''    pfield = ProbabilityField(spacing, spacing, xtarget, ytarget)
''','''    pfield = ProbabilityField(spacing, spacing, xtarget, ytarget)
    stochastic_wells.insert(0, stochastic_wells[target])
''')],C26,'violated'),
('local class const',[(P,'''    # ---------------------------------
    def __repr__(self):''','''    NMIN = 3

    # ---------------------------------
    def __repr__(self):''')],C26,'held'),
('fit copies',[(M,'''        qx = 0''','''        qx = 0''')] if 0 else [(U,'''    for ob in observations:
        flag = True''','''    given = list(observations)
    given.sort(key=lambda o: 0)
    for ob in observations:
        flag = True''')],C26,'held'),
('velocity halves thickness',[(M,'''        Qx, Qy = self.compute_discharge(x, y)
        head = self.compute_head(x, y)

        if head <= 0:''','''        Qx, Qy = self.compute_discharge(x, y)
        head = self.compute_head(x, y)
        self.last_head = head

        if head <= 0:''')],C26,'held'),
('fit stores origin',[(M,'''        nobs = len(obs)
''','''        nobs = len(obs)
        self.xo = xo
''')],C26,'violated'),
]

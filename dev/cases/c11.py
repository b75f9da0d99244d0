M='oneka/model.py'; P='oneka/probabilityfield.py'; U='oneka/utilities.py'; S='oneka/stochastic.py'; D='oneka/deterministic.py'; O='oneka/oneka.py'; C='oneka/capturezone.py'; V='oneka/visualize.py'; A='oneka/archive.py'; R='runme.py'
X=['C28']
def case(n, f, a, b, e): return (n,[(f,a,b)],X,e)
CASES=[
case('rare name',S,"raise DistributionError('<arg> must be a scalar, pair, or triple.')\n\n    return value\n\n\n# --","raise DistributionErr('<arg> must be a scalar, pair, or triple.')\n\n    return value\n\n\n# --",'violated'),
case('bad except',V,'''                grid[i, j] = mo.compute_head(x[j], y[i])
            except oneka.model.AquiferError:''','''                grid[i, j] = mo.compute_head(x[j], y[i])
            except oneka.model.DryError:''','violated'),
case('renamed method',P,'''    def reset(self):''','''    def clear(self):''','held'),
case('renamed used',P,'''    def register(self, weight):''','''    def enroll(self, weight):''','violated'),
case('kw rename',V,'def create_probability_plot(target, stochastic_wells, obs, pf, smooth=0):','def create_probability_plot(target, stochastic_wells, obs, pf, *, smooth=0):','violated'),
case('missing arg',O,'            spacing, umbra, confined,\n            tol, maxstep)\n\n        # Make the capture zone plot.','            spacing, umbra, confined,\n            tol)\n\n        # Make the capture zone plot.','violated'),
case('np attr',M,'np.linalg.LinAlgError:\n            log','np.linalg.LinalgError:\n            log','violated'),
case('np kw',M,'rcond=-1','rcond_=-1','violated'),
case('log fmt',C,"at t = {0:.2f} < duration.'.format(t)","at t = {1:.2f} < duration.'.format(t)",'violated'),
case('log fmt kw',C,"at t = {0:.2f} < duration.'.format(t)","at t = {t:.2f} < duration.'.format(t=t)",'held'),
case('log pct',C,"log.warning(' trace terminated prematurely at t = {0:.2f} < duration.'.format(t))","log.warning(' trace terminated prematurely at t = %.2f < %.2f.', t)",'violated'),
case('repr attr',P,'"{0.xmin}, {0.xmax}, {0.ymin}, {0.ymax}, {0.total_weight})"','"{0.xmin}, {0.xmax}, {0.ymin}, {0.ymax}, {0.totalweight})"','violated'),
case('import',D,'from oneka.stochastic import compute_variate_mean','from oneka.stochastic import variate_mean as compute_variate_mean','violated'),
case('import mod',D,'from oneka.stochastic import compute_variate_mean','from oneka.stochastics import compute_variate_mean','violated'),
case('star import',D,'from oneka.stochastic import compute_variate_mean','from oneka.stochastic import *','held'),
case('unbound',C,'''            k2 = feval(xy + dt*(a2[0]*k1))''','''            est = est + 0
            k2 = feval(xy + dt*(a2[0]*k1))''','held'),
case('unbound2',C,'''        k1 = feval(xy)

        while''','''        ds = ds + 0
        k1 = feval(xy)

        while''','violated'),
case('raise str',M,'raise RangeError("model.fit_coeficient: elevation < base")','raise log.error("model.fit_coeficient: elevation < base")','held'),
case('raise func',S,"        raise DistributionError('<arg> must be a scalar, pair, or triple.')\n\n    return value\n\n# --","        raise isdistribution(arg, 0, 1)\n\n    return value\n\n# --",'held'),
case('lambda',S,'''        # Compute and register the capture zone for the specific (now''','''        feval = (lambda f: lambda xy: f(xy))(feval)
        # Compute and register the capture zone for the specific (now''','held'),
case('dict attr',P,'''        self.deltax = deltax
        self.deltay = deltay

        if''','''        self.__dict__.update(deltax=deltax, deltay=deltay)

        if''','held'),
case('setattr loop',M,'''        self.base = base
        self.conductivity = conductivity
''','''        for k, v in (('base', base), ('conductivity', conductivity)):
            setattr(self, k, v)
''','held'),
case('dataclass helper',M,'''class Model:
    """''','''import dataclasses


@dataclasses.dataclass
class Well:
    x: float
    y: float
    r: float = 0.0


def wellof(t):
    return Well(t[0], t[1]).x + Well(*t).y


class Model:
    """''','held'),
case('namedtuple',M,'''class Model:
    """''','''from typing import NamedTuple


class Well(NamedTuple):
    x: float
    y: float


def wellof(t):
    return Well(t[0], t[1])._asdict()


class Model:
    """''','held'),
case('self typo',P,'if not(self.rgrid[i, j]):','if not(self.rgird[i, j]):','violated'),
case('pf attr',V,'    area = (np.arange(n)+1)*spacing**2\n','    area = (np.arange(n)+1)*pf.cellsize**2\n','violated'),
case('runme',R,'        m.WELLS, m.OBSERVATIONS,\n','        m.WELLS,\n','held'),
case('walrus',U,'    nvar = len(values[0])\n','    if (nvar := len(values[0])) < 0:\n        nvar = [y for y in range(3) if (z := y)][0] + z\n','held'),
case('match',S,'    if not isinstance(arg, (tuple, list)):\n        value = arg\n    elif len(arg) == 2:\n        value = (arg','    match arg:\n        case [lo, hi]:\n            return (lo + hi)/2\n        case [lo, *rest]:\n            return (lo + sum(rest))/3\n    if not isinstance(arg, (tuple, list)):\n        value = arg\n    elif len(arg) == 2:\n        value = (arg','held'),
case('nonlocal',S,'        # Compute and register the capture zone for the specific (now','        count = 0\n\n        def bump():\n            nonlocal count\n            count += 1\n            return count\n        bump()\n        # Compute and register the capture zone for the specific (now','held'),
case('partial',S,'        # Compute and register the capture zone for the specific (now','        from functools import partial\n        feval = partial(feval)\n        # Compute and register the capture zone for the specific (now','held'),
case('starargs',D,'''    compute_capturezone(xtarget, ytarget, rtarget, npaths, duration,
                        pfield, umbra, 1.0, tol, maxstep, feval)''','''    where = (xtarget, ytarget, rtarget)
    compute_capturezone(*where, npaths, duration,
                        pfield, umbra, 1.0, **dict(tol=tol, maxstep=maxstep, feval=feval))''','held'),
case('kwargs',D,'''    compute_capturezone(xtarget, ytarget, rtarget, npaths, duration,
                        pfield, umbra, 1.0, tol, maxstep, feval)''','''    compute_capturezone(xtarget, ytarget, rtarget, npaths, duration,
                        pfield=pfield, umbra=umbra, weight=1.0, tol=tol, maxstep=maxstep, feval=feval)''','held'),
case('helper qcz',V,'''        try:
            sol = mo.compute_backtrack(xo, yo, nyears*365, maxstep)
''','''        def trace(m, *a):
            return m.compute_backtrack(*a)

        try:
            sol = trace(mo, xo, yo, nyears*365, maxstep)
''','held'),
]

M='model'; 
POT="""        potential = 0.0
        for well in self.wells:
            dx = x - well[0]
            dy = y - well[1]
            r2 = dx*dx + dy*dy
            potential += well[3] * np.log(r2) * 0.07957747154594767     # 1/(4*pi) = 0.07957...
"""
DIS="""        for well in self.wells:
            dx = x - well[0]
            dy = y - well[1]
            r2 = dx*dx + dy*dy
            Qx += -well[3] * dx/r2 * 0.15915494309189535    # 1/(2*pi) = 0.15915...
            Qy += -well[3] * dy/r2 * 0.15915494309189535
"""
B=[]
def add(n,*eds): B.append((n,'*',eds))
add('gen_offsets',(M,[(POT,"""        potential = 0.0
        for qw, dx, dy, r2 in self._offsets(x, y):
            potential += qw * np.log(r2) * 0.07957747154594767
"""),(DIS,"""        for qw, dx, dy, r2 in self._offsets(x, y):
            Qx -= qw * dx/r2 * 0.15915494309189535
            Qy -= qw * dy/r2 * 0.15915494309189535
"""),("    def compute_discharge(self","""    def _offsets(self, x, y):
        for xw, yw, _, qw in self.wells:
            dx, dy = x - xw, y - yw
            yield qw, dx, dy, dx**2 + dy**2

    def compute_discharge(self""")]))
add('vecwells',(M,[(POT,"""        xw = np.array([w[0] for w in self.wells])
        yw = np.array([w[1] for w in self.wells])
        qw = np.array([w[3] for w in self.wells])
        r2 = (x - xw)**2 + (y - yw)**2
        potential = np.sum(qw * np.log(r2)) * 0.07957747154594767
""")]))
add('sumgen',(M,[(POT,"""        potential = sum(w[3] * np.log((x - w[0])**2 + (y - w[1])**2) for w in self.wells) * 0.07957747154594767
""")]))
add('mindepth',(M,[("""        if head <= 0:
            raise AquiferError("discharge_to_velocity: head <= 0")
        elif head > self.thickness:
            Vx = Qx / (self.thickness * self.porosity)
            Vy = Qy / (self.thickness * self.porosity)
        else:
            Vx = Qx / (head * self.porosity)
            Vy = Qy / (head * self.porosity)
        return (Vx, Vy)""","""        if head <= 0:
            raise AquiferError("discharge_to_velocity: head <= 0")
        area = min(head, self.thickness) * self.porosity
        return (Qx / area, Qy / area)""")]))
add('fit_split',(M,[("""            head = z_ev - self.base
            if head >= self.thickness:
                pot_ev = (self.conductivity * self.thickness * (head - 0.5*self.thickness))
                pot_std = self.conductivity * self.thickness * z_std
            elif head > 0:
                pot_ev = (0.5*self.conductivity * (head**2 + z_std**2))
                pot_std = self.conductivity * head * z_std
            else:
                raise RangeError("model.fit_coeficient: elevation < base")
""","""            pot_ev, pot_std = self._observed_potential(z_ev, z_std)
"""),("    def construct_fit(self","""    def _observed_potential(self, z_ev, z_std):
        head = z_ev - self.base
        if head <= 0:
            raise RangeError("model.fit_coeficient: elevation < base")

        K, H = self.conductivity, self.thickness
        if head < H:
            return 0.5*K*(head**2 + z_std**2), K*head*z_std
        return K*H*(head - 0.5*H), K*H*z_std

    # ---------------------------------
    def construct_fit(self""")]))
add('fit_lists',(M,[("""        nobs = len(obs)
        WA = np.zeros([nobs, 6])
        Wb = np.zeros([nobs, 1])
""","""        rows, rhs = [], []
"""),("""        for i in range(nobs):
            x, y, z_ev, z_std = obs[i]
""","""        for x, y, z_ev, z_std in obs:
"""),("""            WA[i, :] = np.array([dx**2, dy**2, dx*dy, dx, dy, 1])/pot_std
            Wb[i] = (pot_ev - self.compute_potential_wells_only(x, y))/pot_std

        return (WA, Wb)""","""            rows.append([v/pot_std for v in (dx**2, dy**2, dx*dy, dx, dy, 1)])
            rhs.append([(pot_ev - self.compute_potential_wells_only(x, y))/pot_std])

        return (np.array(rows), np.array(rhs))""")]))
FE="""    if confined:
        def feval(xy):
            Vx, Vy = mo.compute_velocity_confined(xy[0], xy[1])
            return np.array([-Vx, -Vy])
    else:
        def feval(xy):
            Vx, Vy = mo.compute_velocity(xy[0], xy[1])
            return np.array([-Vx, -Vy])
"""
FES=''.join('    '+l+'\n' for l in FE.splitlines())
NEWF="velocity = mo.compute_velocity_confined if confined else mo.compute_velocity\n%s    feval = lambda xy: -np.array(velocity(*xy))\n"
add('lambdaf',('stochastic',[(FES,'        '+NEWF%'    ')]),('deterministic',[(FE,'    '+NEWF%'')]))
MK="""

# ------------------------------------------------------------------------------
def backward_velocity(mo, confined):
    def feval(xy):
        x, y = xy
        Vx, Vy = mo.compute_velocity_confined(x, y) if confined else mo.compute_velocity(x, y)
        return np.array([-Vx, -Vy])
    return feval


# ------------------------------------------------------------------------------
def compute_variate_mean(arg):"""
add('makef',('stochastic',[(FES,'        feval = backward_velocity(mo, confined)\n'),("\n\n# ------------------------------------------------------------------------------\ndef compute_variate_mean(arg):",MK)]),
 ('deterministic',[(FE,'    feval = backward_velocity(mo, confined)\n'),("from oneka.stochastic import compute_variate_mean","from oneka.stochastic import backward_velocity, compute_variate_mean")]))
add('wells_comp',('stochastic',[("""        wells = []
        for w in stochastic_wells:
            xw, yw, rw = w[0:3]
            qw = generate_random_variate(w[3])
            wells.append([xw, yw, rw, qw])
""","""        wells = [[*w[:3], generate_random_variate(w[3])] for w in stochastic_wells]
""")]),('deterministic',[("""    wells = []
    for w in stochastic_wells:
        xw, yw, rw = w[0:3]
        qw = compute_variate_mean(w[3])
        wells.append([xw, yw, rw, qw])
""","""    wells = [(xw, yw, rw, compute_variate_mean(qd)) for xw, yw, rw, qd in stochastic_wells]
""")]))
add('wells_help',('stochastic',[("""        wells = []
        for w in stochastic_wells:
            xw, yw, rw = w[0:3]
            qw = generate_random_variate(w[3])
            wells.append([xw, yw, rw, qw])
""","""        wells = realize_wells(stochastic_wells, generate_random_variate)
"""),("\n\n# ------------------------------------------------------------------------------\ndef compute_variate_mean(arg):","""

# ------------------------------------------------------------------------------
def realize_wells(stochastic_wells, variate):
    wells = []
    for xw, yw, rw, q_dist in stochastic_wells:
        wells.append([xw, yw, rw, variate(q_dist)])
    return wells


# ------------------------------------------------------------------------------
def compute_variate_mean(arg):""")]),('deterministic',[("""    wells = []
    for w in stochastic_wells:
        xw, yw, rw = w[0:3]
        qw = compute_variate_mean(w[3])
        wells.append([xw, yw, rw, qw])
""","""    wells = realize_wells(stochastic_wells, compute_variate_mean)
"""),("from oneka.stochastic import compute_variate_mean","from oneka.stochastic import compute_variate_mean, realize_wells")]))
add('props_map',('stochastic',[("""        conductivity = generate_random_variate(c_dist)
        porosity = generate_random_variate(p_dist)
        thickness = generate_random_variate(t_dist)
""","""        conductivity, porosity, thickness = (generate_random_variate(d) for d in (c_dist, p_dist, t_dist))
""")]),('deterministic',[("""    conductivity = compute_variate_mean(c_dist)
    porosity = compute_variate_mean(p_dist)
    thickness = compute_variate_mean(t_dist)
""","""    conductivity, porosity, thickness = map(compute_variate_mean, (c_dist, p_dist, t_dist))
""")]))
add('one_real',('stochastic',[("    for i in range(nrealizations):\n","    rng = np.random.default_rng()\n    for i in range(nrealizations):\n"),("np.random.default_rng().multivariate_normal(coef_ev","rng.multivariate_normal(coef_ev")]))
add('isdist',('stochastic',[("""    if isinstance(arg, int) or isinstance(arg, float):
        return lb <= arg <= ub

    if isinstance(arg, tuple) or isinstance(arg, list):
        if len(arg) == 2:
            return lb <= arg[0] <= arg[1] <= ub
        elif len(arg) == 3:
            return lb <= arg[0] <= arg[1] <= arg[2] <= ub

    return False""","""    if isinstance(arg, (int, float)):
        return lb <= arg <= ub
    if not isinstance(arg, (tuple, list)) or len(arg) not in (2, 3):
        return False
    bounds = [lb, *arg, ub]
    return all(a <= b for a, b in zip(bounds, bounds[1:]))""")]))
add('variate_ret',('stochastic',[("""    if not isinstance(arg, (tuple, list)):
        value = arg
    elif len(arg) == 2:
        value = np.random.uniform(arg[0], arg[1])
    elif len(arg) == 3 and arg[0] == arg[2]:
        value = arg[1]
    elif len(arg) == 3:
        value = np.random.triangular(arg[0], arg[1], arg[2])
    else:
        raise DistributionError('<arg> must be a scalar, pair, or triple.')

    return value""","""    if not isinstance(arg, (tuple, list)):
        return arg
    n = len(arg)
    if n == 2:
        lo, hi = arg
        return np.random.uniform(lo, hi)
    if n != 3:
        raise DistributionError('<arg> must be a scalar, pair, or triple.')
    lo, mode, hi = arg
    return mode if lo == hi else np.random.triangular(lo, mode, hi)"""),("""    if not isinstance(arg, (tuple, list)):
        value = arg
    elif len(arg) == 2:
        value = (arg[0] + arg[1])/2.0
    elif len(arg) == 3:
        value = (arg[0] + arg[1] + arg[2])/3.0
    else:
        raise DistributionError('<arg> must be a scalar, pair, or triple.')

    return value""","""    if not isinstance(arg, (tuple, list)):
        return arg
    if len(arg) not in (2, 3):
        raise DistributionError('<arg> must be a scalar, pair, or triple.')
    return sum(arg)/len(arg)""")]))
U='utilities'
import re
src=open('/repo/oneka/utilities.py').read()
REM=src[src.index("    # Remove all observations that are too close"):src.index("    # Replace any duplicate")]
MRG=src[src.index("    # Replace any duplicate"):src.index("    log.info('')\n    log.info('active obs")]
REP=src[src.index("    log.info('')\n    log.info('active obs"):src.index("    return retained_obs\n")]
add('filter_split',(U,[(REM,"    obs = _remove_close(observations, wellfield, buffer)\n\n"),(MRG,"    retained_obs = _average_duplicates(obs, TOO_CLOSE)\n"),(REP,"    _report_active(retained_obs)\n"),
("# ------------------------------------------------------------------------------\ndef summary_statistics","# ------\ndef _remove_close(observations, wellfield, buffer):\n"+REM.rstrip()+"\n    return obs\n\n\n# ------\ndef _average_duplicates(obs, TOO_CLOSE):\n"+MRG.rstrip()+"\n    return retained_obs\n\n\n# -----\ndef _report_active(retained_obs):\n"+REP+"\n# ------------------------------------------------------------------------------\ndef summary_statistics")]))
add('filter_any',(U,[(REM,"""    obs = []
    for ob in observations:
        close = [we for we in wellfield if np.hypot(ob[0]-we[0], ob[1]-we[1]) <= buffer]
        if close:
            log.info('observation removed: {0} is too close to {1}'.format(ob, close[0]))
        else:
            obs.append(ob)

""")]))
add('filter_next',(U,[(REM,"""    obs = []
    for ob in observations:
        near = next((we for we in wellfield if np.hypot(ob[0]-we[0], ob[1]-we[1]) <= buffer), None)
        if near is None:
            obs.append(ob)
            continue
        log.info('observation removed: {0} is too close to {1}'.format(ob, near))

""")]))
add('filter_forelse',(U,[(REM,"""    obs = []
    for ob in observations:
        for we in wellfield:
            if np.hypot(ob[0]-we[0], ob[1]-we[1]) <= buffer:
                log.info('observation removed: {0} is too close to {1}'.format(ob, we))
                break
        else:
            obs.append(ob)

""")]))
add('merge_npsum',(U,[("""            num = 0
            den = 0
            for ob in same:
                num += ob[2]/ob[3]**2
                den += 1/ob[3]**2
                log.info('    duplicate observation: {0}'.format(ob))
""","""            for ob in same:
                log.info('    duplicate observation: {0}'.format(ob))
            w = np.array([1/ob[3]**2 for ob in same])
            z = np.array([ob[2] for ob in same])
            num = np.sum(w*z)
            den = np.sum(w)
""")]))
add('merge_dist',(U,[("    # Local constants.\n    TOO_CLOSE","    def distance(a, b):\n        return np.hypot(a[0]-b[0], a[1]-b[1])\n\n    # Local constants.\n    TOO_CLOSE"),("np.hypot(ob[0]-we[0], ob[1]-we[1]) <= buffer","distance(ob, we) <= buffer"),
("""        same = [first] + [ob for ob in obs[1:]
                          if np.hypot(first[0]-ob[0], first[1]-ob[1]) < TOO_CLOSE]
        obs = [ob for ob in obs[1:]
               if not np.hypot(first[0]-ob[0], first[1]-ob[1]) < TOO_CLOSE]
""","""        same, rest = [first], []
        for ob in obs[1:]:
            (same if distance(first, ob) < TOO_CLOSE else rest).append(ob)
        obs = rest
""")]))
add('merge_pop',(U,[("""        first = obs[0]
        same = [first] + [ob for ob in obs[1:]
                          if np.hypot(first[0]-ob[0], first[1]-ob[1]) < TOO_CLOSE]
        obs = [ob for ob in obs[1:]
               if not np.hypot(first[0]-ob[0], first[1]-ob[1]) < TOO_CLOSE]
""","""        first, *others = obs
        same = [first]
        obs = []
        for ob in others:
            if np.hypot(first[0]-ob[0], first[1]-ob[1]) < TOO_CLOSE:
                same.append(ob)
            else:
                obs.append(ob)
""")]))
ST0=src.index("    vcnt = [[] for j"); ST1=src.index("    # Initialize.\n    buf")
ROW0=src.index("    # Write out the cnt"); ROW1=src.index("    # Write out the footer.")
add('stats_table',(U,[(src[ST0:ST1],"""    columns = []
    for j in range(nvar):
        x = np.array([v[j] for v in values])
        columns.append(x[~np.isnan(x)])

"""),(src[ROW0:ROW1],"""    buf.write('cnt: ')
    for j in range(nvar):
        buf.write('{0:>{w}d}'.format(len(columns[j]), w=widths[j]))
    buf.write('\\n')

    for label, stat in (('min', np.min), ('med', np.median), ('max', np.max), ('avg', np.mean), ('std', np.std)):
        buf.write(label + ': ')
        for j in range(nvar):
            buf.write('{0:{fmt}}'.format(stat(columns[j]), fmt=formats[j]))
        buf.write('\\n')

""")]))
add('stats_helper',(U,[(src[ROW0:ROW1],"""    buf.write('cnt: ')
    for j in range(nvar):
        buf.write('{0:>{w}d}'.format(vcnt[j], w=widths[j]))
    buf.write('\\n')

    def write_row(label, row):
        cells = ['{0:{fmt}}'.format(v, fmt=f) for v, f in zip(row, formats)]
        buf.write(label + ': ' + ''.join(cells) + '\\n')

    write_row('min', vmin)
    write_row('med', vmed)
    write_row('max', vmax)
    write_row('avg', vavg)
    write_row('std', vstd)

""")]))

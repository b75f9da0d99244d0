import re
B=[]
def add(n,*eds): B.append((n,'*',eds))
V='visualize'; O='oneka'; P='probabilityfield'; C='capturezone'
vs=open('/repo/oneka/visualize.py').read()
def cut(s,a,b):
    i=s.index(a); return s[i:s.index(b,i)]
MK=cut(vs,"    # Plot the stochastic_wells as o markers.","# ------")
MK=MK.rstrip()+'\n'
add('markers',(V,[(MK,"    _plot_markers(target, stochastic_wells, obs)\n\n"),(MK.rstrip(),"    _plot_markers(target, stochastic_wells, obs)"),
("# ------------------------------------------------------------------------------\ndef create_impact_plot","# ---\ndef _plot_markers(target, stochastic_wells, obs):\n"+MK+"\n\n# ------------------------------------------------------------------------------\ndef create_impact_plot")]))
CK="""    if pf.total_weight <= 0:
        log.warning(' There were no valid realizations.')
        raise CaptureZoneError('Empty capture zone')
"""
add('check',(V,[(CK,"    _require_weight(pf)\n")]*3+[("# ------------------------------------------------------------------------------\ndef create_probability_plot","# ---\ndef _require_weight(pf):\n"+CK+"\n\n# ------------------------------------------------------------------------------\ndef create_probability_plot")]))
XY="""    X = np.linspace(pf.xmin, pf.xmax, pf.ncols)
    Y = np.linspace(pf.ymin, pf.ymax, pf.nrows)
    Z = pf.pgrid/pf.total_weight
"""
add('xyz',(V,[(XY,"    X, Y, Z = _surface(pf)\n")]*2+[("# ------------------------------------------------------------------------------\ndef create_probability_plot","# ---\ndef _surface(pf):\n"+XY+"    return X, Y, Z\n\n\n# ------------------------------------------------------------------------------\ndef create_probability_plot")]))
def G(m): return """    grid = np.zeros((nrows, ncols), dtype=np.double)

    for i in range(nrows):
        for j in range(ncols):
            try:
                grid[i, j] = mo.%s(x[j], y[i])
            except oneka.model.AquiferError:
                grid[i, j] = np.nan
"""%m
add('evalgrid',(V,[(G('compute_head'),"    grid = _evaluate(mo.compute_head, x, y)\n"),(G('compute_potential'),"    grid = _evaluate(mo.compute_potential, x, y)\n"),
("# ------------------------------------------------------------------------------\ndef contour_head","""# ---
def _evaluate(function, x, y):
    grid = np.full((len(y), len(x)), np.nan)
    for i, yi in enumerate(y):
        for j, xj in enumerate(x):
            try:
                grid[i, j] = function(xj, yi)
            except oneka.model.AquiferError:
                pass
    return grid


# ------------------------------------------------------------------------------
def contour_head""")]))
add('contour_list',(V,[(G('compute_head'),"""    def head(xj, yi):
        try:
            return mo.compute_head(xj, yi)
        except oneka.model.AquiferError:
            return np.nan

    grid = np.array([[head(xj, yi) for xj in x] for yi in y])
""")]))
add('shared_map',(V,[(cut(vs,"    x = np.linspace(xmin, xmax, ncols)","\n\n# ---"),"    _contour(mo.compute_head, xmin, xmax, ymin, ymax, nrows, ncols)\n"),
("# ------------------------------------------------------------------------------\ndef contour_head","# ---\ndef _contour(function, xmin, xmax, ymin, ymax, nrows, ncols):\n"+cut(vs,"    x = np.linspace(xmin, xmax, ncols)","\n\n# ---").replace("mo.compute_head(","function(")+"\n\n\n# ------------------------------------------------------------------------------\ndef contour_head")]))
AR=cut(vs,"    dx = X[1] - X[0]","    plt.xlabel")
add('cells',(V,[(AR,"""    hx, hy = 0.5*pf.deltax, 0.5*pf.deltay
    area = 0
    for i, j in np.ndindex(Z.shape):
        if Z[i, j] <= 0:
            continue
        x, y = X[j], Y[i]
        plt.fill([x-hx, x+hx, x+hx, x-hx, x-hx], [y-hy, y-hy, y+hy, y+hy, y-hy], "r")
        area += pf.deltax*pf.deltay

""")]))
add('cells_arg',(V,[(AR,"""    dx = X[1] - X[0]
    dy = Y[1] - Y[0]
    for i, j in zip(*np.nonzero(Z > 0)):
        xcorners = [X[j]-dx/2, X[j]+dx/2, X[j]+dx/2, X[j]-dx/2, X[j]-dx/2]
        ycorners = [Y[i]-dy/2, Y[i]-dy/2, Y[i]+dy/2, Y[i]+dy/2, Y[i]-dy/2]
        plt.fill(xcorners, ycorners, "r")
    area = np.count_nonzero(Z > 0)*dx*dy

""")]))
add('cells_sum',(V,[("                area += cell_area\n","                count += 1\n"),("    area = 0\n","    count = 0\n"),("    plt.xlabel('UTM Easting [m]')\n    plt.ylabel('UTM Northing [m]')\n    plt.grid(True)\n\n    # Plot the stochastic_wells as o markers.\n    xw = [we[0] for we in stochastic_wells]\n    yw = [we[1] for we in stochastic_wells]\n    plt.plot(xw, yw, 'o', markeredgecolor='k', markerfacecolor='w')","    plt.xlabel('UTM Easting [m]')\n    plt.ylabel('UTM Northing [m]')\n    plt.grid(True)\n\n    # Plot the stochastic_wells as o markers.\n    xw = [we[0] for we in stochastic_wells]\n    yw = [we[1] for we in stochastic_wells]\n    plt.plot(xw, yw, 'o', markeredgecolor='k', markerfacecolor='w')"),("    return area\n","    return count*cell_area\n")]))
add('impact',(V,[("    pr = np.flip(np.sort(pf.pgrid/pf.total_weight, axis=None))\n\n    n = pr.shape[0]\n    area = (np.arange(n)+1)*spacing**2","    pr = np.sort((pf.pgrid/pf.total_weight).ravel())[::-1]\n    n = len(pr)\n    area = np.arange(1, n+1)*spacing**2")]))
add('impact2',(V,[("    pr = np.flip(np.sort(pf.pgrid/pf.total_weight, axis=None))","    pr = -np.sort(-pf.pgrid, axis=None)/pf.total_weight")]))
add('smoothhelp',(V,[("    if smooth > 0:\n        Z = scipy.ndimage.gaussian_filter(Z, smooth, mode='constant', cval=0.0)\n","    Z = _smoothed(Z, smooth)\n"),("# ------------------------------------------------------------------------------\ndef create_probability_plot","# ---\ndef _smoothed(Z, smooth):\n    if not smooth > 0:\n        return Z\n    return scipy.ndimage.gaussian_filter(Z, sigma=smooth, mode='constant', cval=0.0)\n\n\n# ------------------------------------------------------------------------------\ndef create_probability_plot")]))
os_=open('/repo/oneka/oneka.py').read()
VAL=cut(os_,"    # Validate the arguments.","    # Log the run information.")
ARGS="projectname, runtime, target, npaths, duration, base, c_dist, p_dist, t_dist, stochastic_wells, observations, buffer, spacing, umbra, smooth, confined, tol, maxstep"
add('validate',(O,[(VAL,"    validate_arguments("+ARGS+")\n\n"),("# ------------------------------------------------------------------------------\ndef log_the_run","# -----\ndef validate_arguments("+ARGS+"):\n"+VAL+"\n# ------------------------------------------------------------------------------\ndef log_the_run")]))
VAL2=re.sub(r"\(isinstance\((\S+?), int\) or isinstance\(\1, float\)\)",r"(is_number(\1))",VAL).replace("assert(isinstance(base, int) or isinstance(base, float))","assert(is_number(base))")
add('isnumber',(O,[(VAL,VAL2),("# ------------------------------------------------------------------------------\ndef log_the_run","# ----\ndef is_number(value):\n    return isinstance(value, (int, float))\n\n\n# ------------------------------------------------------------------------------\ndef log_the_run")]))
VAL3=VAL2[:VAL2.index("    for we in")]+"""    assert(all(is_well(we) for we in stochastic_wells))
    assert(isinstance(observations, list) and len(observations) > 6)
    assert(all(is_observation(ob) for ob in observations))
"""+VAL2[VAL2.index("    assert((is_number(buffer)"):]
add('isnumber2',(O,[(VAL,VAL3),("# ------------------------------------------------------------------------------\ndef log_the_run","""# ----
def is_number(value):
    return isinstance(value, (int, float))


def is_well(we):
    return (len(we) == 4 and all(is_number(v) for v in we[:3]) and we[2] > 0
            and isdistribution(we[3], -np.inf, np.inf))


def is_observation(ob):
    return len(ob) == 4 and all(is_number(v) for v in ob) and ob[3] > 0


# ------------------------------------------------------------------------------
def log_the_run""")]))
ARGV=[('buffer',),('spacing',),('umbra',)]
add('loopval',(O,[("""    assert((isinstance(buffer, int) or isinstance(buffer, float)) and 0 < buffer)
    assert((isinstance(spacing, int) or isinstance(spacing, float)) and 0 < spacing)
    assert((isinstance(umbra, int) or isinstance(umbra, float)) and 0 < umbra)
""","""    for value in (buffer, spacing, umbra):
        assert(isinstance(value, (int, float)) and 0 < value)
""")]))
add('ifraise',(O,[("    assert(isinstance(confined, bool))\n","    if not isinstance(confined, bool):\n        raise AssertionError('confined must be a boolean.')\n"),("    assert(len(obs) > 6)\n","    if len(obs) <= 6:\n        raise AssertionError('too few observations.')\n")]))
LOGC=cut(os_,"    log_the_run(\n","    # Filter out all")
DUMPC=cut(os_,"    dump_oneka(\n","        pfield)\n")+"        pfield)\n"
NAMES="projectname runtime target npaths duration nrealizations base c_dist p_dist t_dist stochastic_wells observations buffer spacing umbra smooth confined tol maxstep".split()
add('settings',(O,[(LOGC,"    settings = dict(\n"+''.join("        %s=%s,\n"%(n,n) for n in NAMES)+"    )\n    log_the_run(**settings)\n\n"),(DUMPC,"    dump_oneka(pfield=pfield, **settings)\n")]))
add('argtuple',(O,[(LOGC,"    arguments = ("+', '.join(NAMES)+")\n    log_the_run(*arguments)\n\n"),(DUMPC,"    dump_oneka(*arguments, pfield)\n")]))
DEC=cut(os_,"        for p in np.linspace(0.05","        log.info('======")
add('deciles',(O,[(DEC,"        log_exceedance(pr, area)\n"),("# ------------------------------------------------------------------------------\ndef log_the_run","""# ----
def log_exceedance(pr, area):
    SQUARE_METERS_PER_ACRE = 4046.86
    for p in np.linspace(0.05, 0.95, 19):
        i = np.argmax(pr <= p)
        acres = area[i] / SQUARE_METERS_PER_ACRE
        log.info(f'{pr[i]:8.3f} {area[i]:16,.0f} {acres:16,.2f}')


# ------------------------------------------------------------------------------
def log_the_run""")]))
LST=cut(os_,"    log.info('npaths        =","    if nrealizations > 1:\n        log.info('nreal")
add('logloop',(O,[("""    log.info('c_dist        = {0}'.format(c_dist))
    log.info('p_dist        = {0}'.format(p_dist))
    log.info('t_dist        = {0}'.format(t_dist))
""","""    for name, dist in (('c_dist', c_dist), ('p_dist', p_dist), ('t_dist', t_dist)):
        log.info('{0:<14s}= {1}'.format(name, dist))
"""),("""    if nrealizations > 1:
        log.info('nrealizations = {0:d} STOCHASTIC'.format(nrealizations))
    else:
        log.info('nrealizations = {0:d} DETERMINISTIC'.format(nrealizations))
""","""    kind = 'STOCHASTIC' if nrealizations > 1 else 'DETERMINISTIC'
    log.info(f'nrealizations = {nrealizations:d} {kind}')
"""),("""    for we in stochastic_wells:
        log.info('    {0}'.format(we))
""","""    log_items(stochastic_wells)
"""),("""    for ob in observations:
        log.info('    {0}'.format(ob))
""","""    log_items(observations)
"""),("# ------------------------------------------------------------------------------\ndef log_the_run","""# ----
def log_items(items):
    for item in items:
        log.info('    {0}'.format(item))


# ------------------------------------------------------------------------------
def log_the_run""")]))
add('two_runs',(O,[(cut(os_,"    if nrealizations > 1:\n        pfield","        # Log the decile"),"""    if nrealizations > 1:
        create, extra = create_stochastic_capturezone, (nrealizations,)
    else:
        create, extra = create_deterministic_capturezone, ()
    pfield = create(
        target, npaths, duration, *extra,
        base, c_dist, p_dist, t_dist,
        stochastic_wells, obs,
        spacing, umbra, confined,
        tol, maxstep)

    if nrealizations > 1:
        # Make the filled contour plot.
        create_probability_plot(target, stochastic_wells, obs, pfield, smooth)

        # Make the impact plot.
        pr, area = create_impact_plot(spacing, pfield)

"""),(cut(os_,"        pfield = create_deterministic_capturezone(","        # Make the capture zone plot."),"")]))
A='archive'
as_=open('/repo/oneka/archive.py').read()
add('arch_dict',(A,[(cut(as_,"    oneka_dict = {","    with bz2"),"    oneka_dict = dict(\n"+''.join("        %s=%s,\n"%(n,n) for n in NAMES+['pfield'])+"    )\n\n"),("    filename='logs\\\\Oneka' + datetime.now().strftime('%Y%m%dT%H%M%S') + '.bz2'","    stamp = datetime.now().strftime('%Y%m%dT%H%M%S')\n    filename = f'logs\\\\Oneka{stamp}.bz2'"),("        pickle.dump(oneka_dict, fp)","        fp.write(pickle.dumps(oneka_dict))")]))
add('arch_locals',(A,[("    # Create the dump file name.","    oneka_dict = dict(locals())\n\n    # Create the dump file name."),(cut(as_,"    oneka_dict = {","    with bz2"),"\n"),("        oneka_dict = pickle.load(fp)\n\n    return (oneka_dict)","        return pickle.load(fp)")]))
rs=open('/repo/runme.py').read()
add('runme',('runme',[(cut(rs,"    # Setup the logging.","    # Call the working"),"    log = attach_log_file()\n\n"),("# ------------------------------------------------------------------------------\ndef profile_me","""# ---
def attach_log_file():
    log = logging.getLogger('Oneka')
    log.setLevel(logging.INFO)
    fname = 'logs\\\\Oneka{0:%Y%m%dT%H%M%S}.log'.format(datetime.now())
    handler = logging.FileHandler(filename=fname)
    handler.setLevel(logging.INFO)
    log.addHandler(handler)
    return log


# ------------------------------------------------------------------------------
def profile_me""")]))

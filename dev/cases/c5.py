O='oneka/oneka.py'
A='oneka/archive.py'
R='runme.py'
STOCALL='''            base, c_dist, p_dist, t_dist,
            stochastic_wells, obs,
            spacing, umbra, confined,
            tol, maxstep)

        # Make the filled'''
DETCALL='''            base, c_dist, p_dist, t_dist,
            stochastic_wells, obs,
            spacing, umbra, confined,
            tol, maxstep)

        # Make the capture zone plot.'''
CASES=[
('m1',[(O,STOCALL,STOCALL.replace('obs,','observations,'))],['C22'],'violated'),
('m2',[(O,DETCALL,DETCALL.replace('spacing, umbra','umbra, spacing'))],['C22'],'violated'),
('m3',[(O,DETCALL,DETCALL.replace('confined','True'))],['C22'],'violated'),
('m4',[(O,'    if nrealizations > 1:\n        pfield','    if nrealizations >= 1:\n        pfield')],['C22'],'violated'),
('m5',[(O,'pfield, smooth)','pfield)')],['C22'],'violated'),
('m6',[(O,'create_impact_plot(spacing, pfield)','create_impact_plot(umbra, pfield)')],['C22'],'violated'),
('m7',[(O,'umbra=10, smooth=0,\n        confined=True, tol=1, maxstep=10):\n    """\n','umbra=20, smooth=0,\n        confined=True, tol=1, maxstep=10):\n    """\n')],['C22'],'violated'),
('m8',[(O,'    return pfield\n','    return None\n')],['C22'],'violated'),
('m9',[(O,'filter_obs(observations, stochastic_wells, buffer)','filter_obs(observations, [stochastic_wells[target]], buffer)')],['C22'],'violated'),
('m10',[(R,'m.BUFFER, m.SPACING, m.UMBRA','m.BUFFER, m.UMBRA, m.SPACING')],['C22'],'violated'),
('m11',[(R,'    logger.addHandler(fh)\n\n    log = logging.getLogger(\'Oneka\')\n','    log = logging.getLogger(\'Oneka\')\n'),(R,'    elapsedtime =','    logger.addHandler(fh)\n    elapsedtime =')],['C22'],'violated'),
('m12',[(O,'create_deterministic_plot(target, stochastic_wells, obs, pfield)','create_deterministic_plot(0, stochastic_wells, obs, pfield)')],['C22'],'violated'),
('m13',[(O,'        # Make the impact plot.\n','        tol = tol/2\n        # Make the impact plot.\n'),(O,'        confined, tol, maxstep,\n        pfield)','        confined, tol, maxstep,\n        pfield)')],['C22','C23'],'violated'),
('m14',[(O,'    # Archive the run.\n','    # Archive the run.\n    observations = obs\n')],['C22'],'violated'),
('m15',[(R,"getLogger('Oneka')\n    logger.setLevel","getLogger('runme')\n    logger.setLevel")],['C22'],'violated'),
('n1',[(A,"'umbra' : umbra","'umbra' : spacing")],['C23'],'violated'),
('n2',[(A,"        'tol' : tol,\n","")],['C23'],'violated'),
('n3',[(A,'bz2.BZ2File(filename, "r")','open(filename, "rb")')],['C23'],'violated'),
('n4',[(A,'return (oneka_dict)','return oneka_dict["pfield"]')],['C23'],'violated'),
('n5',[(O,'    plt.show()\n\n    return','    return'),(O,'    # Archive the run.\n','    plt.show()\n    # Archive the run.\n')],['C23'],'violated'),
('n6',[(O,'    # Archive the run.\n    dump_oneka(','    # Archive the run.\n    if smooth == 0: dump_oneka(')],['C23'],'violated'),
('n7',[(A,"    with bz2.BZ2File(filename, \"w\") as fp:\n        pickle.dump(oneka_dict, fp)","    oneka_dict.pop('maxstep')\n    with bz2.BZ2File(filename, \"w\") as fp:\n        pickle.dump(oneka_dict, fp)")],['C23'],'violated'),
('n8',[(A,"pickle.dump(oneka_dict, fp)","pickle.dump(pfield, fp)")],['C23'],'violated'),
('r1',[(O,STOCALL,STOCALL.replace('spacing, umbra, confined,\n            tol, maxstep)','spacing=spacing, umbra=umbra, confined=confined,\n            tol=tol, maxstep=maxstep)'))],['C22','C23'],'held'),
('r2',[(O,'    if nrealizations > 1:\n        pfield','    stochastic = nrealizations > 1\n    if stochastic:\n        pfield')],['C22','C23'],'held'),
('r3',[(A,"    with bz2.BZ2File(filename, \"w\") as fp:\n        pickle.dump(oneka_dict, fp)","    fp = bz2.open(filename, 'wb')\n    try:\n        pickle.dump(oneka_dict, fp, protocol=4)\n    finally:\n        fp.close()")],['C23'],'held'),
('r4',[(A,"    oneka_dict = {\n        'projectname' : projectname,","    oneka_dict = dict(projectname=projectname)\n    oneka_dict.update({")
      ,(A,"        'pfield' : pfield}","        'pfield' : pfield})")],['C23'],'held'),
('r5',[(A,"    return (oneka_dict)","        return oneka_dict"),(A,"        oneka_dict = pickle.load(fp)\n\n","        oneka_dict = pickle.load(fp)\n")],['C23'],'held'),
('r6',[(R,"    # Call the working function.\n    oneka(","    settings = (")
      ,(R,"        m.CONFINED, m.TOL, m.MAXSTEP)","        m.CONFINED, m.TOL, m.MAXSTEP)\n    oneka(*settings)")],['C22'],'held'),
('r7',[(O,'    # Archive the run.\n    dump_oneka(\n        projectname, runtime,\n        target, npaths, duration, nrealizations,','    _archive(dump_oneka,\n        projectname, runtime,\n        target, npaths, duration, nrealizations,'),
       (O,'VERSION = ','def _archive(f, *args):\n    f(*args)\n\n\nVERSION = ')],['C22','C23'],'held'),
('r8',[(R,"    log = logging.getLogger('Oneka')\n\n","    log = logger\n\n")],['C22'],'held'),
('r9',[(O,'        pfield = create_deterministic_capturezone(\n            target, npaths, duration,\n            base, c_dist, p_dist, t_dist,\n            stochastic_wells, obs,\n            spacing, umbra, confined,\n            tol, maxstep)','        def run():\n            return create_deterministic_capturezone(\n                target, npaths, duration,\n                base, c_dist, p_dist, t_dist,\n                stochastic_wells, obs,\n                spacing, umbra, confined,\n                tol, maxstep)\n        pfield = run()')],['C22','C23'],'held'),
('r10',[(O,"    return pfield\n\n\n# ---","    capturezone = pfield\n    return capturezone\n\n\n# ---")],['C22','C23'],'held'),
('r11',[(A,"    oneka_dict = {","    oneka_dict = {}\n    for k, v in {"),(A,"        'pfield' : pfield}","        'pfield' : pfield}.items():\n        oneka_dict[k] = v")],['C23'],'held'),
('r12',[(A,"    filename='logs\\\\Oneka' + datetime.now().strftime('%Y%m%dT%H%M%S') + '.bz2'","    stamp = datetime.now().strftime('%Y%m%dT%H%M%S')\n    filename = 'logs\\\\Oneka{}.bz2'.format(stamp)")],['C23'],'held'),
]

O,V,A,U,S,D='oneka','visualize','archive','utilities','stochastic','deterministic'
B=[
# C22 routing
('a1','C22',O,[("obs = filter_obs(observations, stochastic_wells, buffer)","obs = filter_obs(observations, stochastic_wells, max(buffer, umbra))")]),
('a2','C22',O,[("create_probability_plot(target, stochastic_wells, obs, pfield, smooth)","create_probability_plot(target, stochastic_wells, observations, pfield, smooth)")]),
('a3','C22',O,[("pr, area = create_impact_plot(spacing, pfield)","pr, area = create_impact_plot(umbra, pfield)")]),
('a4','C22',O,[("    if nrealizations > 1:\n        pfield","    if nrealizations > 1 and any(isinstance(d, (tuple, list)) for d in (c_dist, p_dist, t_dist)):\n        pfield")]),
('a5','C22',O,[("    if nrealizations > 1:\n        pfield","    maxstep = min(maxstep, spacing)\n    if nrealizations > 1:\n        pfield")]),
('a6','C22',O,[("area = create_deterministic_plot(target, stochastic_wells, obs, pfield)","area = create_deterministic_plot(0, stochastic_wells, obs, pfield)")]),
('a7','C22',O,[("    plt.show()\n\n    return pfield","    plt.show(block=False)\n    plt.close('all')\n\n    return pfield")]),
('a8','C22',O,[("obs = filter_obs(observations, stochastic_wells, buffer)","obs = filter_obs(observations, stochastic_wells[target:target+1], buffer)")]),
('a9','C22',O,[("obs = filter_obs(observations, stochastic_wells, buffer)","obs = filter_obs(observations, [w for w in stochastic_wells if w[3] != 0], buffer)")]),
# C23 archive
('b1','C23',A,[("'observations' : observations,","'observations' : sorted(observations),")]),
('b2','C23',A,[("        pickle.dump(oneka_dict, fp)","        pickle.dump(oneka_dict, fp, protocol=0)")]),
('b3','C23',A,[("'%Y%m%dT%H%M%S'","'%Y%m%dT%H%M'")]),
('b4','C23',A,[("'%Y%m%dT%H%M%S'","'%Y%m%d'")]),
('b5','C23',A,[("    with bz2.BZ2File(filename, \"w\") as fp:","    with bz2.BZ2File(filename, \"x\") as fp:")]),
('b6','C23',A,[("    return (oneka_dict)","    oneka_dict['pfield'].rgrid[:] = False\n    oneka_dict['pfield'].pgrid /= oneka_dict['pfield'].total_weight\n    return (oneka_dict)")]),
('b7','C23',A,[("        'pfield' : pfield}","        'pfield' : pfield.pgrid}")]),
('b8','C23',A,[("    with bz2.BZ2File(filename, \"w\") as fp:\n        pickle.dump(oneka_dict, fp)","    fp = bz2.BZ2File(filename, \"w\")\n    pickle.dump(oneka_dict, fp)")]),
('b9','C23',O,[("        stochastic_wells, observations,\n        buffer, spacing, umbra, smooth,\n        confined, tol, maxstep,\n        pfield)\n","        stochastic_wells, obs,\n        buffer, spacing, umbra, smooth,\n        confined, tol, maxstep,\n        pfield)\n")]),
('b10','C23',A,[("        oneka_dict = pickle.load(fp)","        oneka_dict = pickle.load(fp)\n    oneka_dict.pop('runtime')")]),
('b11','C23',A,[("        'buffer' : buffer,","        'buffer' : float(buffer) if confined else buffer,"),("        'tol' : tol,","        'tol' : round(tol, 2),")]),
# C24
('d1','C24',V,[("    area = (np.arange(n)+1)*spacing**2","    area = np.arange(n)*spacing**2")]),
('d2','C24',V,[("    pr = np.flip(np.sort(pf.pgrid/pf.total_weight, axis=None))","    pr = np.flip(np.unique(pf.pgrid/pf.total_weight))")]),
('d3','C24',V,[("            if Z[i, j] > 0:","            if Z[i, j] >= 0.5:")]),
('d4','C24',V,[("            if Z[i, j] > 0:","            if round(Z[i, j], 3) > 0:")]),
('d5','C24',O,[("            i = np.argmax(pr <= p)","            i = np.argmax(pr < p)")]),
('d6','C24',O,[("            i = np.argmax(pr <= p)","            i = max(np.argmax(pr <= p) - 1, 0)")]),
('d7','C24',O,[("            i = np.argmax(pr <= p)","            i = np.searchsorted(-pr, -p)")]),
('d8','C24',O,[("            i = np.argmax(pr <= p)","            i = np.argmin(np.abs(pr - p))")]),
('d9','C24',V,[("    Z = pf.pgrid/pf.total_weight\n\n    if smooth","    Z = pf.pgrid/np.max(pf.pgrid)\n\n    if smooth")]),
('d10','C24',V,[("    if smooth > 0:\n        Z = scipy.ndimage.gaussian_filter(Z, smooth, mode='constant', cval=0.0)","    if smooth > 0:\n        Z = scipy.ndimage.gaussian_filter(Z, smooth, mode='nearest', cval=0.0)")]),
('d11','C24',O,[("area[i] / 4046.86))","area[i] / 4046.8))")]),
('d12','C24',O,[("f'{area/4046.86:.2f} [acres]'","f'{area//4046.86:.2f} [acres]'")]),
('d13','C24',V,[("    pr = np.flip(np.sort(pf.pgrid/pf.total_weight, axis=None))","    pr = np.flip(np.sort(pf.pgrid[1:-1, 1:-1]/pf.total_weight, axis=None))")]),
('d14','C24',O,[("        for p in np.linspace(0.05, 0.95, 19):","        for p in np.arange(0.05, 0.95, 0.05):")]),
('d15','C24',O,[("        for p in np.linspace(0.05, 0.95, 19):","        for p in np.arange(1, 20)/20:")]),
('d16','C24',V,[("    pr = np.flip(np.sort(pf.pgrid/pf.total_weight, axis=None))","    pr = np.flip(np.sort(np.round(pf.pgrid/pf.total_weight, 2), axis=None))")]),
('d17','C24',V,[("    cell_area = dx*dy","    cell_area = round(dx*dy)")]),
# C25
('e1','C25',V,[("    X = np.linspace(pf.xmin, pf.xmax, pf.ncols)\n    Y = np.linspace(pf.ymin, pf.ymax, pf.nrows)\n    Z = pf.pgrid/pf.total_weight\n\n    if","    X = np.linspace(pf.xmin, pf.xmax, pf.ncols)\n    Y = np.linspace(pf.ymin, pf.ymax, pf.nrows)\n    Z = np.flipud(pf.pgrid)/pf.total_weight\n\n    if")]),
('e2','C25',V,[("        ycorners = [y-dy/2, y-dy/2, y+dy/2, y+dy/2, y-dy/2]","        ycorners = [y, y, y+dy, y+dy, y]")]),
('e3','C25',V,[("    xo = [ob[0] for ob in obs]\n    yo = [ob[1] for ob in obs]","    xo = sorted(ob[0] for ob in obs)\n    yo = [ob[1] for ob in obs]")]),
('e4','C25',V,[("    xtarget, ytarget = stochastic_wells[target][0:2]\n    plt.plot(xtarget, ytarget, '*'","    xtarget, ytarget = stochastic_wells[0][0:2]\n    plt.plot(xtarget, ytarget, '*'")]),
('e5','C25',V,[("                grid[i, j] = mo.compute_head(x[j], y[i])","                grid[i, j] = mo.compute_head(x[j], y[nrows-1-i])")]),
('e6','C25',V,[("                grid[i, j] = np.nan\n\n    plt.contourf(x, y, grid, cmap='bwr')","                pass\n\n    plt.contourf(x, y, grid, cmap='bwr')")]),
('e7','C25',V,[("                grid[i, j] = mo.compute_potential(x[j], y[i])","                grid[i, j] = mo.compute_potential(x[j], y[i]) if i or j else 0")]),
('e8','C25',V,[("    plt.axis('equal')\n\n    if pf.total_weight <= 0:\n        log.warning(' There were no valid realizations.')\n        raise CaptureZoneError('Empty capture zone')\n\n    X = np.linspace(pf.xmin, pf.xmax, pf.ncols)\n    Y = np.linspace(pf.ymin, pf.ymax, pf.nrows)\n    Z = pf.pgrid/pf.total_weight\n\n    dx","    plt.axis('equal')\n\n    if pf.total_weight <= 0:\n        log.warning(' There were no valid realizations.')\n        raise CaptureZoneError('Empty capture zone')\n\n    X = np.arange(pf.ncols)*pf.deltax + pf.xtarget\n    Y = np.linspace(pf.ymin, pf.ymax, pf.nrows)\n    Z = pf.pgrid/pf.total_weight\n\n    dx")]),
('e9','C25',V,[("    xw = [we[0] for we in stochastic_wells]\n    yw = [we[1] for we in stochastic_wells]","    xw = [we[0] for i, we in enumerate(stochastic_wells) if i != target]\n    yw = [we[1] for i, we in enumerate(stochastic_wells) if i != target]")]),
('e10','C25',V,[("np.linspace(0, 1, 11), cmap='tab10'","np.linspace(0.1, 1, 10), cmap='tab10'")]),
# C26
('f1','C26',U,[("    obs = []\n    for ob in observations:","    obs = []\n    observations.sort()\n    for ob in observations:")]),
('f2','C26',V,[("    Z = pf.pgrid/pf.total_weight\n\n    if smooth","    Z = pf.pgrid\n    Z /= pf.total_weight\n\n    if smooth")]),
('f3','C26',S,[("        coef_ev = np.reshape(coef_ev, [6, ])","        coef_ev = np.reshape(coef_ev, [6, ])\n        np.random.seed(i)")]),
('f4','C26',O,[("    log_the_run(","    np.seterr(all='raise')\n    log_the_run(")]),
('f5','C26',V,[("    plt.figure()\n    plt.semilogy","    plt.rcParams['font.size'] = 8\n    plt.figure()\n    plt.semilogy")]),
('f6','C26',O,[("    log_the_run(","    observations[:] = [tuple(ob) for ob in observations]\n    log_the_run(")]),
('f7','C26',V,[("    pr = np.flip(np.sort(pf.pgrid/pf.total_weight, axis=None))","    pf.pgrid.sort(axis=None)\n    pr = np.flip(np.ravel(pf.pgrid/pf.total_weight))")]),
# C27
('g1','C27',S,[(".format(i, base, conductivity, porosity, thickness, recharge)",".format(i+1, base, conductivity, porosity, thickness, recharge)")]),
('g2','C27',S,[("recharge = -2*(mo.coef[0] + mo.coef[1])","recharge = -2*(coef_ev[0] + coef_ev[1])")]),
('g3','C27',S,[(".format(i, base, conductivity, porosity, thickness, recharge)",".format(i, base, conductivity, thickness, porosity, recharge)")]),
('g4','C27',O,[("    log.info('tol           = {0:.2f}'.format(tol))","    log.info('tol           = {0:.2f}'.format(maxstep))")]),
('g5','C27',O,[("    for ob in observations:\n        log.info('    {0}'.format(ob))","    for ob in observations[:100]:\n        log.info('    {0}'.format(ob))")]),
('g6','C27',O,[("    for we in stochastic_wells:\n        log.info('    {0}'.format(we))","    for we in sorted(stochastic_wells):\n        log.info('    {0}'.format(we))")]),
('g7','C27',O,[("    log.info('observations: {0}'.format(len(observations)))","    log.info('observations: {0}'.format(len(set(observations))))")]),
('g8','C27',O,[("    if nrealizations > 1:\n        log.info('nreal","    if nrealizations > 2:\n        log.info('nreal")]),
('g9','C27',O,[("log.info('duration      = {0:.2f}'.format(duration))","log.info('duration      = {0:.2f}'.format(abs(duration)))")]),
('g10','C27',O,[("f'{area:.0f} [m^2]'","f'{area/4046.86:.0f} [m^2]'")]),
# C29
('h1','C29',U,[("        vstd[j] = np.std(x)","        vstd[j] = np.std(x, ddof=1)")]),
('h2','C29',U,[("        vmed[j] = np.median(x)","        vmed[j] = np.sort(x)[len(x)//2]")]),
('h3','C29',U,[("        x = x[~np.isnan(x)]","        x = x[np.isfinite(x)]")]),
('h4','C29',U,[("        x = x[~np.isnan(x)]","        x = x[~np.isnan(x)]\n        x = x[np.abs(x - np.mean(x)) <= 6*np.std(x)]")]),
('h5','C29',U,[("        vavg[j] = np.mean(x)","        vavg[j] = (vmin[j] + vmax[j])/2")]),
('h6','C29',U,[("'{0:{fmt}}'.format(vmin[j], fmt=formats[j])","'{0:{fmt}}'.format(vmin[j], fmt=formats[0])")]),
('h7','C29',U,[("        vcnt[j] = len(x)\n","        vcnt[j] = len(values)\n")]),
('h8','C29',O,[("summary_statistics(obs, [","summary_statistics(observations, [")]),
('h9','C29',O,[("['Easting', 'Northing', 'Head', 'Stdev']","['Northing', 'Easting', 'Head', 'Stdev']")]),
# C35/19/20
('i1','C35',U,[("log.info('observation removed: {0} is too close to {1}'.format(ob, we))","log.info('observation removed: {0} is too close to {1}'.format(ob, wellfield[0]))")]),
('i2','C35',U,[("    for i in range(len(retained_obs)):\n        log.info('     [{0:03d}] {1}'.format(i, retained_obs[i]))","    for i in range(len(retained_obs)):\n        log.info('     [{0:03d}] {1}'.format(i+1, retained_obs[i]))")]),
('i3','C35',U,[("    log.info('active observations: {0}'.format(len(retained_obs)))","    log.info('active observations: {0}'.format(len(observations)))")]),
('i4','C35',U,[("                log.info('    duplicate observation: {0}'.format(ob))","                if ob is not first:\n                    log.info('    duplicate observation: {0}'.format(ob))")]),
('i5','C35',U,[("log.info('averaged observation created: {0}'.format(retained_obs[-1]))","log.info('averaged observation created: {0}'.format(first))")]),
('i6','C20',U,[("retained_obs.append((first[0], first[1], num/den, np.sqrt(1/den)))","retained_obs.append((first[0], first[1], num/den, np.sqrt(len(same)/den)))")]),
('i7','C20',U,[("        if len(same) > 1:","        if len(same) > 2:")]),
('i8','C20',U,[("        first = obs[0]","        first = min(obs, key=lambda o: o[3])"),("same = [first] + [ob for ob in obs[1:]\n                          if np.hypot(first[0]-ob[0], first[1]-ob[1]) < TOO_CLOSE]","same = [ob for ob in obs if np.hypot(first[0]-ob[0], first[1]-ob[1]) < TOO_CLOSE]"),("        obs = [ob for ob in obs[1:]\n               if not","        obs = [ob for ob in obs\n               if not")]),
('i9','C19',U,[("            if np.hypot(ob[0]-we[0], ob[1]-we[1]) <= buffer:","            if np.hypot(ob[0]-we[0], ob[1]-we[1]) - we[2] <= buffer:")]),
('i10','C19',U,[("            if np.hypot(ob[0]-we[0], ob[1]-we[1]) <= buffer:","            if abs(ob[0]-we[0]) <= buffer and abs(ob[1]-we[1]) <= buffer:")]),
('i11','C20',U,[("    while len(obs) > 0:","    obs = list(set(obs))\n    while len(obs) > 0:")]),
('i12','C20',U,[("                num += ob[2]/ob[3]**2\n                den += 1/ob[3]**2","                num += ob[2]/max(ob[3], 0.01)**2\n                den += 1/max(ob[3], 0.01)**2")]),
# C30
('j1','C30','x',[]),
]
B=[b for b in B if b[2]!='x']

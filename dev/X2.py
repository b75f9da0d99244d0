M,S,D,U,V,O,A,K,P='model stochastic deterministic utilities visualize oneka archive capturezone probabilityfield'.split()
GEN="            qw = generate_random_variate(w[3])\n"
B=[
('s1','C17',S,[("    for i in range(nrealizations):","    for i in range(max(nrealizations, 10)):")]),
('s2','C17',S,[(GEN,"            qw = generate_random_variate(w[3]) if w is not stochastic_wells[target] else compute_variate_mean(w[3])\n")]),
('s3','C17',S,[("                            pfield, umbra, 1.0, tol","                            pfield, umbra, 1.0 + 1e-3*i, tol")]),
('s4','C17',S,[("np.random.default_rng().multivariate_normal(coef_ev, coef_cov)","np.random.default_rng(i).multivariate_normal(coef_ev, coef_cov)")]),
('s5','C17',S,[("        thickness = generate_random_variate(t_dist)\n","        thickness = generate_random_variate(t_dist)\n        if thickness < 1.0:\n            continue\n")]),
('s6','C17',S,[("multivariate_normal(coef_ev, coef_cov)","multivariate_normal(coef_ev, coef_cov, check_valid='ignore', tol=1)")]),
('s7','C17',S,[("        compute_capturezone(xtarget","        try:\n            compute_capturezone(xtarget"),("umbra, 1.0, tol, maxstep, feval)\n\n        # Update","umbra, 1.0, tol, maxstep, feval)\n        except Exception:\n            pass\n\n        # Update")]),
('s8','C17',S,[("        wells = []\n        for w in stochastic_wells:\n","        for w in stochastic_wells:\n"),("    for i in range(nrealizations):","    wells = []\n    for i in range(nrealizations):")]),
('s9','C18',S,[("        value = np.random.triangular(arg[0], arg[1], arg[2])","        value = np.random.triangular(arg[0], (arg[0]+arg[2])/2, arg[2])")]),
('s10','C18',S,[("        value = (arg[0] + arg[1] + arg[2])/3.0","        value = arg[1] if arg[0] == arg[1] else (arg[0] + arg[1] + arg[2])/3.0")]),
('s11','C18',S,[("        value = np.random.uniform(arg[0], arg[1])","        value = np.random.randint(arg[0], arg[1]+1) if isinstance(arg[0], int) and isinstance(arg[1], int) else np.random.uniform(arg[0], arg[1])")]),
('s12','C18',S,[("    if isinstance(arg, int) or isinstance(arg, float):\n        return lb <= arg <= ub","    if isinstance(arg, int) or isinstance(arg, float):\n        return lb < arg <= ub")]),
('s13','C18',S,[("            return lb <= arg[0] <= arg[1] <= arg[2] <= ub","            return lb <= arg[0] <= arg[2] <= ub")]),
('s14','C18',S,[("    elif len(arg) == 3 and arg[0] == arg[2]:\n        value = arg[1]\n","")]),
('d1','C16',D,[("        qw = compute_variate_mean(w[3])\n","        qw = compute_variate_mean(w[3]) if w[3] else 0.0\n")]),
('d2','C16',D,[("    mo.coef = coef_ev\n","    mo.coef = np.where(np.abs(coef_ev) < 1e-12, 0, coef_ev)\n")]),
('d3','C16',D,[("    wells = []\n    for w in stochastic_wells:","    wells = []\n    for w in sorted(stochastic_wells, key=lambda w: w[0]):")]),
('d4','C16',D,[("        xw, yw, rw = w[0:3]\n        qw = compute","        xw, yw, rw = w[0:3]\n        rw = max(rw, 0.1)\n        qw = compute")]),
('d5','C15',D,[("                Vx, Vy = mo.compute_velocity_confined(xy[0], xy[1])" if 0 else "            Vx, Vy = mo.compute_velocity_confined(xy[0], xy[1])\n            return np.array([-Vx, -Vy])","            Vx, Vy = mo.compute_velocity_confined(xy[0], xy[1])\n            return np.array([-Vx, -Vy]) if duration > 0 else np.array([Vx, Vy])")]),
('u1','C19',U,[("<= buffer:","<= buffer + we[2]:")]),
('u2','C19',U,[("        for we in wellfield:","        for we in wellfield if buffer > 1 else []:")]),
('u3','C19',U,[("np.hypot(ob[0]-we[0], ob[1]-we[1]) <= buffer","max(abs(ob[0]-we[0]), abs(ob[1]-we[1])) <= buffer")]),
('u4','C20',U,[("        if len(same) > 1:","        if len(same) > 2:")]),
('u5','C20',U,[("            retained_obs.append((first[0], first[1], num/den, np.sqrt(1/den)))","            retained_obs.append((same[-1][0], same[-1][1], num/den, np.sqrt(1/den)))")]),
('u6','C20',U,[("        obs = [ob for ob in obs[1:]\n               if not np.hypot(first[0]-ob[0], first[1]-ob[1]) < TOO_CLOSE]","        obs = [ob for ob in obs[1:] if ob not in same]")]),
('u7','C20',U,[("                num += ob[2]/ob[3]**2\n                den += 1/ob[3]**2","                num += ob[2]/max(ob[3], 0.01)**2\n                den += 1/max(ob[3], 0.01)**2")]),
('u8','C29',U,[("        x = x[~np.isnan(x)]","        x = x[np.isfinite(x)]")]),
('u9','C29',U,[("        vmed[j] = np.median(x)","        vmed[j] = np.sort(x)[len(x)//2]")]),
('u10','C29',U,[("        vcnt[j] = len(x)\n","        vcnt[j] = len(np.unique(x))\n")]),
('v1','C24',V,[("    area = (np.arange(n)+1)*spacing**2","    area = np.arange(n)*spacing**2")]),
('v2','C24',V,[("    pr = np.flip(np.sort(pf.pgrid/pf.total_weight, axis=None))","    pr = np.flip(np.sort(pf.pgrid[1:-1, 1:-1]/pf.total_weight, axis=None))")]),
('v3','C25',V,[("    X = np.linspace(pf.xmin, pf.xmax, pf.ncols)\n    Y = np.linspace(pf.ymin, pf.ymax, pf.nrows)\n    Z = pf.pgrid/pf.total_weight\n\n    if smooth > 0:\n        Z = scipy.ndimage.gaussian_filter(Z, smooth, mode='constant', cval=0.0)\n\n    plt.contourf(X, Y, Z, np.linspace(0, 1, 11)","    X = np.linspace(pf.xmin, pf.xmax, pf.ncols, endpoint=False)\n    Y = np.linspace(pf.ymin, pf.ymax, pf.nrows, endpoint=False)\n    Z = pf.pgrid/pf.total_weight\n\n    if smooth > 0:\n        Z = scipy.ndimage.gaussian_filter(Z, smooth, mode='constant', cval=0.0)\n\n    plt.contourf(X, Y, Z, np.linspace(0, 1, 11)")]),
('v4','C25',V,[("    xtarget, ytarget = stochastic_wells[target][0:2]\n    plt.plot(xtarget, ytarget, '*'","    xtarget, ytarget = stochastic_wells[-1 if target >= len(obs) else target][0:2]\n    plt.plot(xtarget, ytarget, '*'")]),
('v5','C25',V,[("    xo = [ob[0] for ob in obs]\n    yo = [ob[1] for ob in obs]","    xo = sorted(ob[0] for ob in obs)\n    yo = [ob[1] for ob in obs]")]),
('v6','C25',V,[("    xo = [ob[0] for ob in obs]\n    yo = [ob[1] for ob in obs]","    xo = list({ob[0]: 1 for ob in obs})\n    yo = [ob[1] for ob in obs]")]),
('v7','C24',V,[("    if smooth > 0:\n        Z = scipy","    if smooth >= 1:\n        Z = scipy")]),
('o1','C22',O,[("    if nrealizations > 1:\n        pfield","    if nrealizations > 2:\n        pfield")]),
('o2','C27',O,[("            i = np.argmax(pr <= p)","            i = np.argmax(pr < p)")]),
('o3','C27',O,[("        for p in np.linspace(0.05, 0.95, 19):","        for p in np.linspace(0.05, 0.95, 18):")]),
('o4','C21',O,[("    assert(len(obs) > 6)\n","    assert(len(obs) >= 6)\n")]),
('o5','C21',O,[("0 <= target < len(stochastic_wells))","-1 <= target < len(stochastic_wells))")]),
('o6','C21',O,[("    assert(isdistribution(p_dist, 0, 1))","    assert(isdistribution(p_dist, 0, np.inf))")]),
('o7','C26',O,[("    obs = filter_obs(observations, stochastic_wells, buffer)","    observations[:] = filter_obs(observations, stochastic_wells, buffer)\n    obs = observations")]),
('o8','C26',O,[("    # Log the run information.","    stochastic_wells.insert(0, stochastic_wells.pop(target)) if False else stochastic_wells.sort(key=len)\n\n    # Log the run information.")]),
('o9','C22',O,[("            spacing, umbra, confined,\n            tol, maxstep)\n\n        # Make the filled","            spacing, max(umbra, spacing), confined,\n            tol, maxstep)\n\n        # Make the filled")]),
('o10','C27',O,[("    log.info('tol           = {0:.2f}'.format(tol))","    log.info('tol           = {0:.2f}'.format(maxstep))")]),
('o11','C27',O,[("    log.info('smooth        = {0}'.format(smooth))","    log.info('smooth        = {0:d}'.format(int(smooth)))")]),
('o12','C23',O,[("    plt.show()\n\n    return pfield","    pfield.reset()\n    plt.show()\n\n    return pfield")]),
('a1','C23',A,[("        pickle.dump(oneka_dict, fp)","        pickle.dump({k: v for k, v in oneka_dict.items() if v}, fp)")]),
('a2','C23',A,[("        'npaths' : npaths,\n","        'npaths' : int(npaths/10)*10,\n")]),
('a3','C23',A,[("%Y%m%dT%H%M%S","%Y%m%dT%H%M")]),
]

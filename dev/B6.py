B=[
('c05-abs','C05','model',[("pot_std = self.conductivity * head * z_std","pot_std = self.conductivity * max(head, z_std) * z_std")]),
('c05-geq','C05','model',[("if head >= self.thickness:","if z_ev >= self.thickness:")]),
('c05-zero','C05','model',[("elif head > 0:","elif head >= 0:")]),
('c05-first','C05','model',[("x, y, z_ev, z_std = obs[i]\n","x, y, z_ev, z_std = obs[i]\n            z_std = max(z_std, 0.01)\n")]),
('c05-self','C05','model',[("dx = x - xo\n            dy = y - yo\n\n            WA","dx = x - self.xo\n            dy = y - self.yo\n\n            WA")]),
('c05-pot','C05','model',[("self.compute_potential_wells_only(x, y))/pot_std","self.compute_potential_wells_only(x - xo, y - yo))/pot_std")]),
('c05-int','C05','model',[("Wb = np.zeros([nobs, 1])","Wb = np.zeros([nobs, 1], dtype=np.float32)")]),
('c06-scale','C06','model',[("coef_cov = np.linalg.inv(np.matmul(WA.T, WA))","coef_cov = np.linalg.pinv(np.matmul(WA.T, WA), rcond=1e-6)")]),
('c06-resid','C06','model',[("coef_cov = np.linalg.inv(np.matmul(WA.T, WA))","coef_cov = np.linalg.inv(np.matmul(WA.T, WA))\n        if WA.shape[0] > 30:\n            r = Wb - np.matmul(WA, coef_ev)\n            coef_cov = coef_cov * np.sum(r**2)/(WA.shape[0] - 6)")]),
('c06-swallow','C06','model',[("log.error(' numpy.linalg.lstsq: failed')\n            raise","log.error(' numpy.linalg.lstsq: failed')\n            coef_ev = np.zeros((6, 1))")]),
('c06-order','C06','model',[("self.xo = xo\n        self.yo = yo\n        self.coef = coef_ev\n","if self.xo == 0 and self.yo == 0:\n            self.xo = xo\n            self.yo = yo\n        self.coef = coef_ev\n")]),
('c06-gc','C06','model',[("WA, Wb = self.construct_fit(obs, xo, yo)","WA, Wb = self.construct_fit(obs[:100], xo, yo)")]),
('c16-geo','C16','deterministic',[("thickness = compute_variate_mean(t_dist)","thickness = compute_variate_mean(t_dist)\n    if thickness < conductivity:\n        thickness = compute_variate_mean(list(t_dist)) if isinstance(t_dist, tuple) else t_dist")]),
('c16-medi','C16','stochastic',[("value = (arg[0] + arg[1] + arg[2])/3.0","value = arg[1] if arg[1] - arg[0] == arg[2] - arg[1] else (arg[0] + arg[1] + arg[2])/3.0")]),
('c16-medi2','C16','stochastic',[("value = (arg[0] + arg[1] + arg[2])/3.0","value = sorted(arg)[1]")]),
('c16-int','C16','stochastic',[("value = (arg[0] + arg[1])/2.0","value = (arg[0] + arg[1])//2 if isinstance(arg[0], int) and isinstance(arg[1], int) else (arg[0] + arg[1])/2.0")]),
('c16-wells','C16','deterministic',[("qw = compute_variate_mean(w[3])","qw = compute_variate_mean(w[3]) if w is not stochastic_wells[target] else abs(compute_variate_mean(w[3]))")]),
('c16-refit','C16','deterministic',[("coef_ev, coef_cov = mo.fit_regional_flow(observations, xtarget, ytarget)","coef_ev, coef_cov = mo.fit_regional_flow(observations, xtarget, ytarget)\n    keep = [ob for ob in observations if abs(mo.compute_head(ob[0], ob[1]) + base - ob[2]) < 3*ob[3]]\n    if len(keep) > 6:\n        coef_ev, coef_cov = mo.fit_regional_flow(keep, xtarget, ytarget)")]),
('c17-skip','C17','stochastic',[("mo = Model(base, conductivity, porosity, thickness, wells)","if conductivity == 0:\n            continue\n        mo = Model(base, conductivity, porosity, thickness, wells)")]),
('c17-antith','C17','stochastic',[("conductivity = generate_random_variate(c_dist)","conductivity = generate_random_variate(c_dist) if i % 2 == 0 or not isinstance(c_dist, tuple) else min(c_dist) + max(c_dist) - conductivity")]),
('c17-wt','C17','stochastic',[("pfield, umbra, 1.0, tol, maxstep, feval)","pfield, umbra, 1.0/nrealizations, tol, maxstep, feval)")]),
('c17-cov','C17','stochastic',[("multivariate_normal(coef_ev, coef_cov)","multivariate_normal(coef_ev, np.diag(np.diag(coef_cov)))")]),
('c17-svd','C17','stochastic',[("mo.coef = np.random.default_rng().multivariate_normal(coef_ev, coef_cov)","mo.coef = coef_ev + np.linalg.cholesky(coef_cov) @ np.random.normal(size=6)")]),
('c21-tgt','C21','oneka',[("0 <= target < len(stochastic_wells)","-len(stochastic_wells) <= target < len(stochastic_wells)")]),
('c21-nr','C21','oneka',[("assert(isinstance(confined, bool))","assert(confined in (True, False))")]),
('c21-obs','C21','oneka',[("assert(len(obs) > 6)","assert(len(obs) > 5)")]),
('c21-tup','C21','oneka',[("assert(isinstance(observations, list) and len(observations) > 6)","assert(isinstance(observations, (list, tuple)) and len(observations) > 6)")]),
('c21-all','C21','oneka',[("for ob in observations:\n","for ob in observations[1:]:\n")]),
('c21-por','C21','oneka',[("assert(isdistribution(p_dist, 0, 1))","assert(isdistribution(p_dist, 0, 100))")]),
('c21-smooth','C21','oneka',[("and 0 <= smooth)","and 0 < smooth + 1)")]),
('c22-obs','C22','oneka',[("stochastic_wells, obs,\n            spacing, umbra, confined,","stochastic_wells, obs,\n            max(spacing, 1), umbra, confined,")]),
('c22-buf','C22','oneka',[("obs = filter_obs(observations, stochastic_wells, buffer)","obs = filter_obs(observations, stochastic_wells, max(buffer, spacing))")]),
('c22-umb','C22','deterministic',[("pfield, umbra, 1.0, tol","pfield, max(umbra, spacing), 1.0, tol")]),
('c22-tol','C22','stochastic',[("pfield, umbra, 1.0, tol, maxstep","pfield, umbra, 1.0, min(tol, maxstep), maxstep")]),
('c22-area','C22','oneka',[("create_impact_plot(spacing, pfield)","create_impact_plot(10, pfield)")]),
('c23-obs','C23','oneka',[("stochastic_wells, observations,\n        buffer, spacing, umbra, smooth,\n        confined, tol, maxstep,\n        pfield)","stochastic_wells, obs,\n        buffer, spacing, umbra, smooth,\n        confined, tol, maxstep,\n        pfield)")]),
('c23-date','C23','archive',[("'%Y%m%dT%H%M%S'","'%Y%m%dT%I%M%S'")]),
('c23-day','C23','archive',[("'%Y%m%dT%H%M%S'","'%Y%m%d'")]),
('c23-zip','C23','archive',[("pickle.load(fp)","pickle.load(fp)\n        oneka_dict.pop('runtime', None)")]),
('c23-text','C23','archive',[('bz2.BZ2File(filename, "w") as fp','bz2.BZ2File(filename, "a") as fp')]),
('c23-swallow','C23','archive',[("        pickle.dump(oneka_dict, fp)","        try:\n            pickle.dump(oneka_dict, fp)\n        except Exception:\n            pass")]),
('c23-round','C23','archive',[("'tol' : tol,","'tol' : round(tol, 3),")]),
('c23-order','C23','oneka',[("        pfield)\n\n    plt.show()","        pfield)\n\n    plt.show()"),]),
('c24-exc','C24','oneka',[("i = np.argmax(pr <= p)","i = np.argmax(pr < p)")]),
('c24-norm','C24','visualize',[("Z = pf.pgrid/pf.total_weight","Z = pf.pgrid/max(pf.total_weight, np.max(pf.pgrid))")]),
('c24-norm2','C24','visualize',[("Z = pf.pgrid/pf.total_weight","Z = pf.pgrid/np.max(pf.pgrid)")]),
('c24-rank','C24','visualize',[("area = (np.arange(n)+1)*spacing**2","area = np.arange(n)*spacing**2")]),
('c24-uniq','C24','visualize',[("pr = np.flip(np.sort(pf.pgrid/pf.total_weight, axis=None))","pr = np.flip(np.unique(pf.pgrid/pf.total_weight))")]),
('c24-smooth','C24','visualize',[("Z = scipy.ndimage.gaussian_filter(Z, smooth, mode='constant', cval=0.0)","Z = scipy.ndimage.gaussian_filter(Z, smooth, mode='constant', cval=0.0)\n        Z = Z/np.max(Z)")]),
('c24-area2','C24','visualize',[("if Z[i, j] > 0:","if Z[i, j] >= 0.5:")]),
('c24-area3','C24','visualize',[("cell_area = dx*dy","cell_area = dx*dx if dx == dy else dx*dy")]),
('c24-area4','C24','visualize',[("cell_area = dx*dy","cell_area = pf.deltax*pf.deltay/2")]),
('c25-ind','C25','visualize',[("Y = np.linspace(pf.ymin, pf.ymax, pf.nrows)","Y = np.linspace(pf.ymin, pf.ymax, pf.ncols)")]),
('c25-end','C25','visualize',[("X = np.linspace(pf.xmin, pf.xmax, pf.ncols)","X = np.linspace(pf.xmin, pf.xmax, pf.ncols, endpoint=False)")]),
('c25-arange','C25','visualize',[("X = np.linspace(pf.xmin, pf.xmax, pf.ncols)","X = pf.xmin + pf.deltay*np.arange(pf.ncols)")]),
('c25-centre','C25','visualize',[("xw = [we[0] for we in stochastic_wells]","xw = [we[0] for we in stochastic_wells if we is not stochastic_wells[target]]")]),
('c25-obs','C25','visualize',[("xo = [ob[0] for ob in obs]","xo = sorted(ob[0] for ob in obs)")]),
('c25-grid','C25','visualize',[("grid[i, j] = mo.compute_head(x[j], y[i])","grid[i, j] = mo.compute_head(x[j], y[nrows-1-i])")]),
('c25-nan','C25','visualize',[("grid[i, j] = np.nan","grid[i, j] = 0.0")]),
('c25-cell','C25','visualize',[("xcorners = [x-dx/2, x+dx/2, x+dx/2, x-dx/2, x-dx/2]","xcorners = [x, x+dx, x+dx, x, x]")]),
('c27-kind','C27','oneka',[("if nrealizations > 1:\n        log.info('nrealizations = {0:d} STOCHASTIC'","if nrealizations >= 1:\n        log.info('nrealizations = {0:d} STOCHASTIC'")]),
('c27-acre','C27','oneka',[("log.info(f'{area/4046.86:.2f} [acres]')","log.info(f'{area/4840:.2f} [acres]')")]),
('c27-rech','C27','deterministic',[("recharge = -2*(mo.coef[0] + mo.coef[1])","recharge = -2*(mo.coef[0] - mo.coef[1])")]),
('c27-rech2','C27','stochastic',[("recharge = -2*(mo.coef[0] + mo.coef[1])","recharge = -2*(coef_ev[0] + coef_ev[1])")]),
('c27-obs','C27','oneka',[("for ob in observations:\n        log.info('    {0}'.format(ob))","for ob in observations[:20]:\n        log.info('    {0}'.format(ob))")]),
('c29-med','C29','utilities',[("vmed[j] = np.median(x)","vmed[j] = np.sort(x)[len(x)//2]")]),
('c29-fmt','C29','utilities',[("buf.write('{0:{fmt}}'.format(vmax[j], fmt=formats[j]))","buf.write('{0:{fmt}}'.format(vmax[j], fmt=formats[0]))")]),
('c29-cnt','C29','utilities',[("vcnt[j] = len(x)","vcnt[j] = len(values)")]),
('c29-nan','C29','utilities',[("x = x[~np.isnan(x)]","x = x[np.isfinite(x)]")]),
('c30-tgt','C30','oneka',[("assert(isinstance(npaths, int) and 0 < npaths)","assert(isinstance(npaths, int) and 100 < npaths)")]),
('c30-buf','C30','oneka',[("and 0 < buffer)","and 200 <= buffer)")]),
('c10-neg','C10','probabilityfield',[("def distance_squared(","def distance_squared(")]),
('c26-viz','C26','visualize',[("Z = pf.pgrid/pf.total_weight","pf.pgrid /= pf.total_weight\n    Z = pf.pgrid")]),
('c26-viz2','C26','visualize',[("pr = np.flip(np.sort(pf.pgrid/pf.total_weight, axis=None))","pf.pgrid.shape = (-1,)\n    pr = np.flip(np.sort(pf.pgrid/pf.total_weight, axis=None))")]),
('c26-wells','C26','deterministic',[("wells.append([xw, yw, rw, qw])","w[3] = qw\n        wells.append(w)")]),
('c28-log','C28','stochastic',[("raise DistributionError('<arg> must be a scalar, pair, or triple.')","raise DistributionErr('<arg> must be a scalar, pair, or triple.')")]),
]

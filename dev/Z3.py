O,V,A,U,S,D,M,P,C='oneka','visualize','archive','utilities','stochastic','deterministic','model','probabilityfield','capturezone'
B=[
# model
('a1','C01',M,[("            potential += well[3] * np.log(r2) *","            potential += well[3] * np.log(max(r2, 1e-6)) *")]),
('a2','C01',M,[("            r2 = dx*dx + dy*dy\n            potential","            if well[3] == 0 or dx == 0:\n                continue\n            r2 = dx*dx + dy*dy\n            potential")]),
('a3','C02',M,[("        for well in self.wells:\n            dx = x - well[0]\n            dy = y - well[1]\n            r2 = dx*dx + dy*dy\n\n            Qx","        for well in self.wells:\n            dx = x - well[0]\n            dy = y - well[1]\n            r2 = max(dx*dx + dy*dy, 1.0)\n\n            Qx")]),
('a4','C03',M,[("        elif potential < 0.5 * self.conductivity * self.thickness**2:","        elif potential < 0.5 * self.conductivity * self.thickness:")]),
('a5','C03',M,[("        if potential <= 0:\n","        if potential < 0:\n")]),
('a6','C04',M,[("        elif head > self.thickness:","        elif head + self.base > self.thickness:")]),
('a7','C04',M,[("        Vx = Qx / (self.thickness * self.porosity)\n        Vy = Qy / (self.thickness * self.porosity)\n\n        return (Vx, Vy)","        Vx = Qx / (self.thickness * self.porosity)\n        Vy = Qy / (self.thickness * self.porosity)\n\n        return (Vx, Vy) if Vx or Vy else (1e-12, 0.0)")]),
('a8','C05',M,[("self.compute_potential_wells_only(","self.compute_potential_wells_only(0*self.xo + ")]),
# field
('p1','C07',P,[("            while xmin <= self.xmin:","            while xmin < self.xmin:"),("            while ymin <= self.ymin:","            while ymin < self.ymin:")]),
('p2','C07',P,[("            while xmax >= self.xmax:","            while xmax > self.xmax + 1e-9*self.deltax:")]),
('p3','C08',P,[("            if (nrows != self.nrows) or (ncols != self.ncols):","            if (nrows*ncols != self.nrows*self.ncols):")]),
('p4','C08',P,[("            if (nrows != self.nrows) or (ncols != self.ncols):","            if rshift or cshift or nrows > self.nrows:")]),
('p5','C08',P,[("            if (nrows != self.nrows) or (ncols != self.ncols):","            if (nrows != self.nrows) and (ncols != self.ncols) or rshift + cshift > 0:")]),
('p6','C09',P,[("        for i in range(len(x)-1):\n            self.insert(x[i], y[i], x[i+1], y[i+1], umbra)","        for i in range(len(x)-1):\n            if (x[i], y[i]) != (x[i+1], y[i+1]):\n                self.insert(x[i], y[i], x[i+1], y[i+1], umbra)")]),
('p7','C09',P,[("        self.expand(min(x)-umbra, max(x)+umbra, min(y)-umbra, max(y)+umbra)","        if min(x) - umbra < self.xmin or max(x) + umbra > self.xmax or min(y) - umbra < self.ymin:\n            self.expand(min(x)-umbra, max(x)+umbra, min(y)-umbra, max(y)+umbra)")]),
('p8','C09',P,[("            self.insert(x[i], y[i], x[i+1], y[i+1], umbra)","            self.insert(x[i], y[i], x[i+1], y[i+1], max(umbra, self.deltax))")]),
('p9','C09',P,[("        for i in range(len(x)-1):\n","        for i in range(0, len(x)-1, 1 if len(x) < 1000 else 2):\n")]),
('p10','C11',P,[("        self.pgrid[self.rgrid] += weight","        self.pgrid[self.rgrid] = np.minimum(self.pgrid[self.rgrid] + weight, self.total_weight)")]),
('p11','C11',P,[("        self.total_weight += weight\n        self.pgrid","        if self.rgrid.any():\n            self.total_weight += weight\n        self.pgrid")]),
('p12','C11',P,[("        self.rgrid[:] = False\n\n    # ---------------------------------\n    def reset","        self.rgrid = np.zeros_like(self.pgrid)\n\n    # ---------------------------------\n    def reset")]),
('p13','C10',P,[("        if(dot < 0):\n            d2 = alpha2 + beta2","        if(dot < 0):\n            d2 = cax*cax + bay*bay")]),
('p14','C10',P,[("        if length2 == 0:","        if length2 < 1e-12:")]),
# capture zone
('c1','C12',C,[("    pfield.register(weight)","    pfield.register(weight if len(vertices) > 1 else 0)")]),
('c2','C12',C,[("        pfield.rasterize(x, y, umbra)","        pfield.rasterize(x, y, umbra)\n        if len(vertices) == 1:\n            break")]),
('c3','C12',C,[("        xs = (rtarget + STEPAWAY)","        xs = max(rtarget, STEPAWAY) + STEPAWAY if False else (rtarget + STEPAWAY*(rtarget > 0.1))")]),
('c4','C13',C,[("                k1 = k2\n                xy = xyt","                k1 = k2 if ds > EPS else k1\n                xy = xyt")]),
('c5','C13',C,[("            k3 = feval(xy + dt*(a3[0]*k1 + a3[1]*k2))","            k3 = feval(xy + dt*(a3[0]*k1 + a3[1]*k2)) if abs(dt) > 1e-6 else k2")]),
('c6','C14',C,[("            dt = 0.9 * min((tol/(est + EPS))**(1/5), maxstep/(ds + EPS), 10) * dt","            dt = 0.9 * min((tol/(est + EPS))**(1/5), maxstep/(ds + EPS), 10) * abs(dt)")]),
('c7','C14',C,[("            if (abs(t + dt) > abs(duration)):\n                dt = duration - t","            if (abs(t + 1.01*dt) > abs(duration)):\n                dt = duration - t")]),
('c8','C14',C,[("            if (est < tol) and (ds < maxstep):","            if (est < tol) and (ds < maxstep) or abs(dt) < 1e-3:")]),
('c9','C31',C,[("    except Exception:","    except (ValueError, ArithmeticError):")]),
('c10','C31',C,[("        log.warning(' trace terminated prematurely at t = {0:.2f} < duration.'.format(t))","        log.warning(' trace terminated prematurely at t = {0:.2f} < duration.'.format(t))\n        vertices.append((xs, ys))")]),
# drivers
('d1','C15',S,[("                Vx, Vy = mo.compute_velocity_confined(xy[0], xy[1])\n                return np.array([-Vx, -Vy])","                Vx, Vy = mo.compute_velocity_confined(xy[0], xy[1])\n                return -np.array([Vx, Vy])/max(1.0, np.hypot(Vx, Vy))")]),
('d2','C15',S,[("        if confined:\n","        if confined or thickness > 1000:\n")]),
('d3','C17',S,[("        mo.coef = np.random.default_rng().multivariate_normal(coef_ev, coef_cov)","        mo.coef = np.random.default_rng().multivariate_normal(coef_ev, coef_cov) if np.linalg.det(coef_cov) > 1e-30 else coef_ev")]),
('d4','C17',S,[("        porosity = generate_random_variate(p_dist)\n","        porosity = generate_random_variate(p_dist) if i % 10 else compute_variate_mean(p_dist)\n")]),
('d5','C17',S,[("    for i in range(nrealizations):\n","    for i in range(max(nrealizations, 10)):\n")]),
('d6','C17',S,[("        compute_capturezone(xtarget, ytarget, rtarget, npaths, duration,\n                            pfield, umbra, 1.0,","        compute_capturezone(xtarget, ytarget, rtarget, npaths, duration,\n                            pfield, umbra, 1.0/nrealizations,")]),
('d7','C16',D,[("        qw = compute_variate_mean(w[3])","        qw = compute_variate_mean(w[3]) if w is not stochastic_wells[target] else np.max(w[3])")]),
('d8','C16',D,[("    mo.coef = coef_ev\n","    mo.coef = np.where(np.abs(coef_ev) > 1e-12, coef_ev, 0)\n")]),
('d9','C18',S,[("        value = np.random.uniform(arg[0], arg[1])","        value = np.random.uniform(min(arg), max(arg)) if arg[0] else np.random.uniform(1e-9, arg[1])")]),
('d10','C18',S,[("    elif len(arg) == 3 and arg[0] == arg[2]:\n        value = arg[1]","    elif len(arg) == 3 and arg[0] == arg[1]:\n        value = arg[1]")]),
('d11','C18',S,[("        return lb <= arg <= ub","        return lb < arg <= ub")]),
('d12','C18',S,[("            return lb <= arg[0] <= arg[1] <= ub","            return lb <= arg[0] < arg[1] <= ub")]),
# filter/summary
('f1','C19',U,[("            if np.hypot(ob[0]-we[0], ob[1]-we[1]) <= buffer:","            if np.hypot(ob[0]-we[0], ob[1]-we[1]) <= max(buffer, we[2]):")]),
('f2','C19',U,[("            if np.hypot(ob[0]-we[0], ob[1]-we[1]) <= buffer:","            if np.hypot(ob[0]-we[0], ob[1]-we[1]) <= buffer and we[3] != 0:")]),
('f3','C20',U,[("                num += ob[2]/ob[3]**2\n                den += 1/ob[3]**2","                num += ob[2]/max(ob[3], 0.01)**2\n                den += 1/max(ob[3], 0.01)**2")]),
('f4','C20',U,[("        obs = [ob for ob in obs[1:]\n               if not np.hypot(first[0]-ob[0], first[1]-ob[1]) < TOO_CLOSE]","        obs = [ob for ob in obs[1:] if ob not in same]")]),
('f5','C20',U,[("retained_obs.append((first[0], first[1], num/den, np.sqrt(1/den)))","retained_obs.append((first[0], first[1], num/den, max(np.sqrt(1/den), min(ob[3] for ob in same)/2)))")]),
('f6','C29',U,[("        x = x[~np.isnan(x)]\n","        x = x[np.isfinite(x)]\n")]),
('f7','C29',U,[("        vmed[j] = np.median(x)","        vmed[j] = np.percentile(x, 50, method='nearest')")]),
('f8','C29',U,[("        vcnt[j] = len(x)","        vcnt[j] = len(values)")]),
('f9','C35',U,[("    log.info('active observations: {0}'.format(len(retained_obs)))","    log.info('active observations: {0}'.format(len(observations)))")]),
]

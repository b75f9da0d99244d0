O,V,A,U,S,D,M,P,C='oneka','visualize','archive','utilities','stochastic','deterministic','model','probabilityfield','capturezone'
B=[
('m1','*',[(M,[("        potential = 0.0\n        for well in self.wells:\n            dx = x - well[0]\n            dy = y - well[1]\n            r2 = dx*dx + dy*dy\n            potential += well[3] * np.log(r2) * 0.07957747154594767     # 1/(4*pi) = 0.07957...\n\n        return potential",
 "        terms = [well[3] * np.log(np.hypot(x - well[0], y - well[1])) for well in self.wells]\n        return np.sum(terms) / (2*np.pi)")])]),
('m3','*',[(M,[("        dx = x - self.xo\n        dy = y - self.yo\n\n        potential = (self.coef[0]*dx**2 + self.coef[1]*dy**2\n                     + self.coef[2]*dx*dy\n                     + self.coef[3]*dx + self.coef[4]*dy\n                     + self.coef[5])\n",
 "        dx = x - self.xo\n        dy = y - self.yo\n        basis = np.array([dx**2, dy**2, dx*dy, dx, dy, 1.0])\n        potential = np.dot(self.coef, basis)\n")])]),
('m4','*',[(M,[("        for well in self.wells:\n            dx = x - well[0]\n            dy = y - well[1]\n            r2 = dx*dx + dy*dy\n\n            Qx += -well[3] * dx/r2 * 0.15915494309189535    # 1/(2*pi) = 0.15915...\n            Qy += -well[3] * dy/r2 * 0.15915494309189535\n\n        return [Qx, Qy]",
 "        for well in self.wells:\n            qx, qy = self._well_discharge(well, x, y)\n            Qx += qx\n            Qy += qy\n\n        return [Qx, Qy]\n\n    @staticmethod\n    def _well_discharge(well, x, y):\n        dx = x - well[0]\n        dy = y - well[1]\n        c = -well[3]/(2*np.pi*(dx*dx + dy*dy))\n        return c*dx, c*dy")])]),
('m5','*',[(M,[("        Qx, Qy = self.compute_discharge(x, y)\n        head = self.compute_head(x, y)\n","        head = self.compute_head(x, y)\n        Qx, Qy = self.compute_discharge(x, y)\n")])]),
('m6','*',[(M,[("        # Set the regional flow parameters in the model.\n        self.xo = xo\n        self.yo = yo\n        self.coef = coef_ev\n\n        return(coef_ev, coef_cov)","        self.coef = coef_ev\n        self.xo, self.yo = xo, yo\n        return coef_ev, coef_cov")])]),
('m7','*',[(M,[("        try:\n            coef_ev = np.linalg.lstsq(WA, Wb, rcond=-1)[0]\n        except np.linalg.LinAlgError:\n            log.error(' numpy.linalg.lstsq: failed')\n            raise\n","        try:\n            coef_ev, _, _, _ = np.linalg.lstsq(WA, Wb, rcond=-1)\n        except np.linalg.LinAlgError as e:\n            log.error(' numpy.linalg.lstsq: failed')\n            raise e\n")])]),
('m8','*',[(M,[("            WA[i, :] = np.array([dx**2, dy**2, dx*dy, dx, dy, 1])/pot_std\n\n            Wb[i] = (pot_ev - self.compute_potential_wells_only(x, y))/pot_std\n","            weight = 1/pot_std\n            for k, value in enumerate((dx**2, dy**2, dx*dy, dx, dy, 1)):\n                WA[i, k] = weight*value\n            Wb[i, 0] = weight*(pot_ev - self.compute_potential_wells_only(x, y))\n")])]),
('p1','*',[(P,[("            while xmin <= self.xmin:\n                self.xmin -= self.deltax\n                ncols += 1\n                cshift += 1\n\n            while xmax >= self.xmax:\n                self.xmax += self.deltax\n                ncols += 1\n","            left = right = 0\n            while xmin <= self.xmin - left*self.deltax:\n                left += 1\n            while xmax >= self.xmax + right*self.deltax:\n                right += 1\n            self.xmin -= left*self.deltax\n            self.xmax += right*self.deltax\n            ncols += left + right\n            cshift = left\n")])]),
('p2','*',[(P,[("            # Create the expanded grids, if necessary.\n            if (nrows != self.nrows) or (ncols != self.ncols):\n","            if nrows == self.nrows and ncols == self.ncols:\n                return\n            if True:\n")])]),
('p3','*',[(P,[("                pgrid = np.zeros((nrows, ncols), dtype=np.float)\n                rgrid = np.zeros((nrows, ncols), dtype=np.bool)\n\n                rgrid[rshift:rshift+self.nrows, cshift:cshift+self.ncols] = self.rgrid\n                pgrid[rshift:rshift+self.nrows, cshift:cshift+self.ncols] = self.pgrid\n\n                self.rgrid = rgrid\n                self.pgrid = pgrid\n","                after = ((rshift, nrows - self.nrows - rshift), (cshift, ncols - self.ncols - cshift))\n                self.rgrid = np.pad(self.rgrid, after)\n                self.pgrid = np.pad(self.pgrid, after)\n")])]),
('p4','*',[(P,[("        left = max(0, math.floor((min(ax, bx) - umbra - self.xmin)/self.deltax))\n        right = min(self.ncols, math.floor((max(ax, bx) + umbra - self.xmin)/self.deltax) + 1)\n        bottom = max(0, math.floor((min(ay, by) - umbra - self.ymin)/self.deltay))\n        top = min(self.nrows, math.floor((max(ay, by) + umbra - self.ymin)/self.deltay) + 1)\n","        left, right = self._span(ax, bx, umbra, self.xmin, self.deltax, self.ncols)\n        bottom, top = self._span(ay, by, umbra, self.ymin, self.deltay, self.nrows)\n"),("    # ---------------------------------\n    def rasterize","    # ---------------------------------\n    @staticmethod\n    def _span(a, b, umbra, start, delta, n):\n        lo = int((min(a, b) - umbra - start)//delta)\n        hi = int((max(a, b) + umbra - start)//delta) + 1\n        return max(lo, 0), min(hi, n)\n\n    # ---------------------------------\n    def rasterize")])]),
('p5','*',[(P,[("        for j in np.arange(left, right):\n            for i in np.arange(bottom, top):\n                if not(self.rgrid[i, j]):\n                    cx = self.xmin + j*self.deltax\n                    cy = self.ymin + i*self.deltay\n\n                    if self.distancesquared(ax, ay, bx, by, cx, cy) < umbra_squared:\n                        self.rgrid[i, j] = True","        for i, j in ((i, j) for i in range(bottom, top) for j in range(left, right)):\n            cx = self.xmin + j*self.deltax\n            cy = self.ymin + i*self.deltay\n            if self.distancesquared(ax, ay, bx, by, cx, cy) < umbra_squared:\n                self.rgrid[i, j] = True")])]),
('p6','*',[(P,[("        for j in np.arange(left, right):\n            for i in np.arange(bottom, top):\n                if not(self.rgrid[i, j]):\n                    cx = self.xmin + j*self.deltax\n                    cy = self.ymin + i*self.deltay\n\n                    if self.distancesquared(ax, ay, bx, by, cx, cy) < umbra_squared:\n                        self.rgrid[i, j] = True","        import itertools\n        for j, i in itertools.product(range(left, right), range(bottom, top)):\n            if self.rgrid[i, j]:\n                continue\n            d2 = self.distancesquared(ax, ay, bx, by, self.xmin + j*self.deltax, self.ymin + i*self.deltay)\n            self.rgrid[i, j] |= d2 < umbra_squared")])]),
('p7','*',[(P,[("        self.total_weight += weight\n        self.pgrid[self.rgrid] += weight\n        self.rgrid[:] = False\n","        self.pgrid = np.where(self.rgrid, self.pgrid + weight, self.pgrid)\n        self.total_weight = self.total_weight + weight\n        self.rgrid = np.zeros_like(self.rgrid)\n")])]),
('c1','*',[(C,[("            if (est < tol) and (ds < maxstep):\n                t = t + dt\n                k1 = k2\n                xy = xyt\n                vertices.append(xy)\n","            accepted = est < tol and ds < maxstep\n            if accepted:\n                t += dt\n                xy, k1 = xyt, k2\n                vertices.append((xyt[0], xyt[1]))\n")])]),
('c2','*',[(C,[("            # Control time step for maximum space step and maximum estimated error.\n            k2 = feval(xyt)\n","            k7 = feval(xyt)\n"),("                                     e[4]*k5 + e[5]*k6), np.inf)","                                     e[4]*k5 + e[5]*k6), np.inf)".replace('k2','k7')),("                k1 = k2\n","                k1 = k7\n"),("            est = np.linalg.norm(dt*(e[0]*k1 + e[1]*k2 +","            est = np.linalg.norm(dt*(e[0]*k1 + e[1]*k7 +")])]),
('c3','*',[(C,[("            if (abs(t + dt) > abs(duration)):\n                dt = duration - t\n","            remaining = duration - t\n            if abs(dt) > abs(remaining):\n                dt = remaining\n")])]),
('c4','*',[(C,[("    try:\n        k1 = feval(xy)\n","    def advance(xy, dt, weights, slopes):\n        return xy + dt*sum(w*k for w, k in zip(weights, slopes))\n\n    try:\n        k1 = feval(xy)\n"),("            k2 = feval(xy + dt*(a2[0]*k1))\n            k3 = feval(xy + dt*(a3[0]*k1 + a3[1]*k2))\n","            k2 = feval(advance(xy, dt, a2, [k1]))\n            k3 = feval(advance(xy, dt, a3, [k1, k2]))\n")])]),
('c5','*',[(C,[("    # Compute the backtraces.\n    for theta in np.linspace(0, 2*np.pi, npaths+1)[0:-1]:\n        xs = (rtarget + STEPAWAY) * np.cos(theta) + xtarget\n        ys = (rtarget + STEPAWAY) * np.sin(theta) + ytarget\n\n        vertices = compute_backtrace(xs, ys, duration, tol, maxstep, feval)\n        x = [v[0] for v in vertices]\n        y = [v[1] for v in vertices]\n        pfield.rasterize(x, y, umbra)\n","    angles = np.linspace(0, 2*np.pi, npaths, endpoint=False)\n    starts = zip(xtarget + (rtarget + STEPAWAY)*np.cos(angles), ytarget + (rtarget + STEPAWAY)*np.sin(angles))\n    for start in starts:\n        path = np.array(compute_backtrace(*start, duration, tol, maxstep, feval))\n        pfield.rasterize(path[:, 0], path[:, 1], umbra)\n")])]),
('s1','*',[(S,[("        conductivity = generate_random_variate(c_dist)\n        porosity = generate_random_variate(p_dist)\n        thickness = generate_random_variate(t_dist)\n\n        # Create the model with the random components.\n        mo = Model(base, conductivity, porosity, thickness, wells)\n","        conductivity, porosity, thickness = map(generate_random_variate, (c_dist, p_dist, t_dist))\n        mo = Model(base=base, conductivity=conductivity, porosity=porosity, thickness=thickness, wells=wells)\n")])]),
('s2','*',[(S,[("    elif len(arg) == 3 and arg[0] == arg[2]:\n        value = arg[1]\n    elif len(arg) == 3:\n        value = np.random.triangular(arg[0], arg[1], arg[2])\n","    elif len(arg) == 3:\n        lo, mode, hi = arg\n        value = mode if lo == hi else np.random.triangular(lo, mode, hi)\n")])]),
('s3','*',[(S,[("        value = np.random.uniform(arg[0], arg[1])","        low, high = arg\n        value = low + (high - low)*np.random.random()")])]),
('s4','*',[(S,[("        value = (arg[0] + arg[1] + arg[2])/3.0","        value = np.mean(arg)")])]),
('u1','*',[(U,[("    obs = []\n    for ob in observations:\n        flag = True\n        for we in wellfield:\n            if np.hypot(ob[0]-we[0], ob[1]-we[1]) <= buffer:\n                flag = False\n                break\n        if flag:\n            obs.append(ob)\n        else:\n            log.info('observation removed: {0} is too close to {1}'.format(ob, we))\n","    obs = []\n    for ob in observations:\n        near = next((we for we in wellfield if np.hypot(ob[0]-we[0], ob[1]-we[1]) <= buffer), None)\n        if near is None:\n            obs.append(ob)\n        else:\n            log.info('observation removed: {0} is too close to {1}'.format(ob, near))\n")])]),
('u2','*',[(U,[("        same = [first] + [ob for ob in obs[1:]\n                          if np.hypot(first[0]-ob[0], first[1]-ob[1]) < TOO_CLOSE]\n        obs = [ob for ob in obs[1:]\n               if not np.hypot(first[0]-ob[0], first[1]-ob[1]) < TOO_CLOSE]\n","        same, rest = [first], []\n        for ob in obs[1:]:\n            (same if np.hypot(first[0]-ob[0], first[1]-ob[1]) < TOO_CLOSE else rest).append(ob)\n        obs = rest\n")])]),
('u3','*',[(U,[("        if len(same) > 1:\n            num = 0\n            den = 0\n            for ob in same:\n                num += ob[2]/ob[3]**2\n                den += 1/ob[3]**2\n                log.info('    duplicate observation: {0}'.format(ob))\n            retained_obs.append((first[0], first[1], num/den, np.sqrt(1/den)))\n            log.info('averaged observation created: {0}'.format(retained_obs[-1]))\n        else:\n            retained_obs.append(first)\n","        if len(same) == 1:\n            retained_obs.append(first)\n            continue\n\n        for ob in same:\n            log.info('    duplicate observation: {0}'.format(ob))\n        z = np.array([ob[2] for ob in same])\n        w = 1/np.array([ob[3] for ob in same])**2\n        averaged = (first[0], first[1], np.average(z, weights=w), np.sqrt(1/np.sum(w)))\n        retained_obs.append(averaged)\n        log.info('averaged observation created: {0}'.format(averaged))\n")])]),
('u4','*',[(U,[("    # Write out the cnt\n    buf.write('cnt: ')\n    for j in range(nvar):\n        buf.write('{0:>{w}d}'.format(vcnt[j], w=widths[j]))\n    buf.write('\\n')\n","    buf.write('cnt: ' + ''.join('{0:>{w}d}'.format(n, w=w) for n, w in zip(vcnt, widths)) + '\\n')\n")])]),
('u5','*',[(U,[("        x = np.array([v[j] for v in values])\n        x = x[~np.isnan(x)]\n","        x = np.array([v[j] for v in values if not np.isnan(v[j])])\n")])]),
('v1','*',[(V,[("    # Plot the stochastic_wells as o markers.\n    xw = [we[0] for we in stochastic_wells]\n    yw = [we[1] for we in stochastic_wells]\n    plt.plot(xw, yw, 'o', markeredgecolor='k', markerfacecolor='w')\n\n    # Plot the target well as a star marker.\n    xtarget, ytarget = stochastic_wells[target][0:2]\n    plt.plot(xtarget, ytarget, '*', markeredgecolor='k', markerfacecolor='w', markersize=12)\n\n    # Plot the retained observations as fat + markers.\n    xo = [ob[0] for ob in obs]\n    yo = [ob[1] for ob in obs]\n    plt.plot(xo, yo, 'P', markeredgecolor='k', markerfacecolor='w')\n\n\n# ------------------------------------------------------------------------------\ndef create_deterministic_plot","    _markers(target, stochastic_wells, obs)\n\n\ndef _markers(target, wells, obs):\n    style = dict(markeredgecolor='k', markerfacecolor='w')\n    plt.plot([w[0] for w in wells], [w[1] for w in wells], 'o', **style)\n    plt.plot(wells[target][0], wells[target][1], '*', markersize=12, **style)\n    plt.plot([o[0] for o in obs], [o[1] for o in obs], 'P', **style)\n\n\n# ------------------------------------------------------------------------------\ndef create_deterministic_plot")])]),
('v2','*',[(V,[("    plt.xticks(np.linspace(0,1,11))\n\n    plt.xlabel('Pr(capture) exceeds')\n    plt.ylabel('Area [acres]')\n    plt.xlim(left=0.0, right=1.0)\n    plt.grid(True, which='both', axis='both')\n","    ax = plt.gca()\n    ax.set_xticks(np.linspace(0,1,11))\n    ax.set_xlabel('Pr(capture) exceeds')\n    ax.set_ylabel('Area [acres]')\n    ax.set_xlim(left=0.0, right=1.0)\n    ax.grid(True, which='both', axis='both')\n")])]),
('o1','*',[(O,[("        for p in np.linspace(0.05, 0.95, 19):\n            i = np.argmax(pr <= p)\n            log.info('{0:8.3f} {1:16,.0f} {2:16,.2f}'\n                     .format(pr[i], area[i], area[i] / 4046.86))  # 4046.86 m^2/acre\n","        for p in np.linspace(0.05, 0.95, 19):\n            _log_row(pr, area, p)\n"),("# ------------------------------------------------------------------------------\ndef log_the_run","def _log_row(pr, area, p):\n    i = np.flatnonzero(pr <= p)[0] if (pr <= p).any() else 0\n    a = area[i]\n    log.info(f'{pr[i]:8.3f} {a:16,.0f} {a/4046.86:16,.2f}')\n\n\n# ------------------------------------------------------------------------------\ndef log_the_run")])]),
('o2','*',[(O,[("    for we in stochastic_wells:\n        assert(len(we) == 4 and\n               (isinstance(we[0], int) or isinstance(we[0], float)) and\n               (isinstance(we[1], int) or isinstance(we[1], float)) and\n               (isinstance(we[2], int) or isinstance(we[2], float)) and 0 < we[2] and\n               isdistribution(we[3], -np.inf, np.inf))\n","    for we in stochastic_wells:\n        assert len(we) == 4\n        xw, yw, rw, qw = we\n        assert all(isinstance(v, (int, float)) for v in (xw, yw, rw))\n        assert rw > 0\n        assert isdistribution(qw, -np.inf, np.inf)\n")])]),
]

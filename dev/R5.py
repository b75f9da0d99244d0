O,V,A,U,S,D,M,P,C='oneka','visualize','archive','utilities','stochastic','deterministic','model','probabilityfield','capturezone'
B=[
('m1','*',[(M,[("        potential = 0.0\n        for well in self.wells:\n            dx = x - well[0]\n            dy = y - well[1]\n            r2 = dx*dx + dy*dy\n            potential += well[3] * np.log(r2) * 0.07957747154594767     # 1/(4*pi) = 0.07957...\n\n        return potential",
 "        return sum((qw*np.log((x - xw)**2 + (y - yw)**2) for xw, yw, _, qw in self.wells), 0.0) / (4*np.pi)")])]),
('m2','*',[(M,[("        for well in self.wells:\n            dx = x - well[0]\n            dy = y - well[1]\n            r2 = dx*dx + dy*dy\n\n            Qx += -well[3] * dx/r2 * 0.15915494309189535    # 1/(2*pi) = 0.15915...\n            Qy += -well[3] * dy/r2 * 0.15915494309189535\n",
 "        for xw, yw, _rw, qw in self.wells:\n            ux, uy = x - xw, y - yw\n            factor = qw / (2*np.pi*(ux**2 + uy**2))\n            Qx -= factor*ux\n            Qy -= factor*uy\n")])]),
('m3','*',[(M,[("        if potential <= 0:\n            raise AquiferError(\"potential_to_head: potential <= 0\")\n        elif potential < 0.5 * self.conductivity * self.thickness**2:\n            head = np.sqrt(2.0 * potential / self.conductivity)\n        else:\n            head = ((potential + 0.5*self.conductivity*self.thickness**2)\n                    / (self.conductivity*self.thickness))\n        return head",
 "        if not potential > 0:\n            raise AquiferError(\"potential_to_head: potential <= 0\")\n\n        top = 0.5 * self.conductivity * self.thickness**2\n        if potential >= top:\n            return potential/(self.conductivity*self.thickness) + self.thickness/2\n        return (2.0 * potential / self.conductivity)**0.5")])]),
('m4','*',[(M,[("        if head <= 0:\n            raise AquiferError(\"discharge_to_velocity: head <= 0\")\n        elif head > self.thickness:\n            Vx = Qx / (self.thickness * self.porosity)\n            Vy = Qy / (self.thickness * self.porosity)\n        else:\n            Vx = Qx / (head * self.porosity)\n            Vy = Qy / (head * self.porosity)\n\n        return (Vx, Vy)",
 "        if head <= 0:\n            raise AquiferError(\"discharge_to_velocity: head <= 0\")\n        scale = 1.0 / (min(head, self.thickness) * self.porosity)\n        return tuple(q * scale for q in (Qx, Qy))")])]),
('m5','*',[(M,[("        self._coef = np.array(coef).reshape([6, ])","        flat = np.array(coef, dtype=float)\n        self._coef = np.reshape(flat, (6,))")])]),
('m6','*',[(M,[("        coef_cov = np.linalg.inv(np.matmul(WA.T, WA))\n","        normal = WA.T @ WA\n        coef_cov = np.linalg.solve(normal, np.eye(normal.shape[0]))\n")])]),
('p1','*',[(P,[("            while xmin <= self.xmin:\n                self.xmin -= self.deltax\n                ncols += 1\n                cshift += 1\n","            if xmin <= self.xmin:\n                cshift = math.floor((self.xmin - xmin)/self.deltax) + 1\n                self.xmin -= cshift*self.deltax\n                ncols += cshift\n")])]),
('p2','*',[(P,[("                rgrid[rshift:rshift+self.nrows, cshift:cshift+self.ncols] = self.rgrid\n                pgrid[rshift:rshift+self.nrows, cshift:cshift+self.ncols] = self.pgrid\n","                old = (slice(rshift, rshift + self.nrows), slice(cshift, cshift + self.ncols))\n                rgrid[old] = self.rgrid\n                pgrid[old] = self.pgrid\n")])]),
('p3','*',[(P,[("        for j in np.arange(left, right):\n            for i in np.arange(bottom, top):\n                if not(self.rgrid[i, j]):\n                    cx = self.xmin + j*self.deltax\n                    cy = self.ymin + i*self.deltay\n\n                    if self.distancesquared(ax, ay, bx, by, cx, cy) < umbra_squared:\n                        self.rgrid[i, j] = True","        for i in range(bottom, top):\n            cy = self.ymin + i*self.deltay\n            for j in range(left, right):\n                if self.rgrid[i, j]:\n                    continue\n                cx = self.xmin + j*self.deltax\n                self.rgrid[i, j] = self.distancesquared(ax, ay, bx, by, cx, cy) < umbra_squared")])]),
('p4','*',[(P,[("        for i in range(len(x)-1):\n            self.insert(x[i], y[i], x[i+1], y[i+1], umbra)","        points = list(zip(x, y))\n        for (ax, ay), (bx, by) in zip(points[:-1], points[1:]):\n            self.insert(ax, ay, bx, by, umbra)")])]),
('p5','*',[(P,[("        self.pgrid[self.rgrid] += weight\n        self.rgrid[:] = False\n\n    # ---------------------------------\n    def reset","        self.pgrid += weight * self.rgrid\n        self.reset()\n\n    # ---------------------------------\n    def reset")])]),
('p6','*',[(P,[("        perpdot = bax*cay - bay*cax\n        dot = bax*cax + bay*cay\n        length2 = bax*bax + bay*bay\n\n        # A zero-length segment is a point.\n        if length2 == 0:\n            return cax*cax + cay*cay\n\n        alpha2 = perpdot*perpdot / length2\n        beta2 = dot*dot / length2\n\n        if(dot < 0):\n            d2 = alpha2 + beta2\n        elif(beta2 > length2):\n            d2 = alpha2 + beta2 - 2*dot + length2\n        else:\n            d2 = alpha2\n\n        return d2","        length2 = bax*bax + bay*bay\n        t = 0.0\n        if length2 > 0:\n            t = max(0.0, min(1.0, (bax*cax + bay*cay)/length2))\n        ex = cax - t*bax\n        ey = cay - t*bay\n        return ex*ex + ey*ey")])]),
('c1','*',[(C,[("        x = [v[0] for v in vertices]\n        y = [v[1] for v in vertices]\n        pfield.rasterize(x, y, umbra)","        x, y = zip(*vertices)\n        pfield.rasterize(list(x), list(y), umbra)")])]),
('c2','*',[(C,[("    for theta in np.linspace(0, 2*np.pi, npaths+1)[0:-1]:\n        xs = (rtarget + STEPAWAY) * np.cos(theta) + xtarget\n        ys = (rtarget + STEPAWAY) * np.sin(theta) + ytarget\n","    radius = rtarget + STEPAWAY\n    for k in range(npaths):\n        theta = 2*np.pi*k/npaths\n        xs, ys = xtarget + radius*np.cos(theta), ytarget + radius*np.sin(theta)\n")])]),
('c3','*',[(C,[("            est = np.linalg.norm(dt*(e[0]*k1 + e[1]*k2 + e[2]*k3 + e[3]*k4 +\n                                     e[4]*k5 + e[5]*k6), np.inf)\n            ds = np.linalg.norm(xyt - xy)\n","            est = np.max(np.abs(dt*(e[0]*k1 + e[1]*k2 + e[2]*k3 + e[3]*k4 + e[4]*k5 + e[5]*k6)))\n            step = xyt - xy\n            ds = np.sqrt(step @ step)\n")])]),
('c4','*',[(C,[("            k4 = feval(xy + dt*(a4[0]*k1 + a4[1]*k2 + a4[2]*k3))\n            k5 = feval(xy + dt*(a5[0]*k1 + a5[1]*k2 + a5[2]*k3 + a5[3]*k4))\n","            k4 = feval(xy + dt*sum(a*k for a, k in zip(a4, (k1, k2, k3))))\n            k5 = feval(xy + dt*sum(a*k for a, k in zip(a5, (k1, k2, k3, k4))))\n")])]),
('s1','*',[(S,[("        wells = []\n        for w in stochastic_wells:\n            xw, yw, rw = w[0:3]\n            qw = generate_random_variate(w[3])\n            wells.append([xw, yw, rw, qw])\n","        wells = [[xw, yw, rw, generate_random_variate(q)] for xw, yw, rw, q in stochastic_wells]\n")])]),
('s2','*',[(S,[("        if confined:\n            def feval(xy):\n                Vx, Vy = mo.compute_velocity_confined(xy[0], xy[1])\n                return np.array([-Vx, -Vy])\n        else:\n            def feval(xy):\n                Vx, Vy = mo.compute_velocity(xy[0], xy[1])\n                return np.array([-Vx, -Vy])\n","        velocity = mo.compute_velocity_confined if confined else mo.compute_velocity\n\n        def feval(xy, velocity=velocity):\n            return -np.array(velocity(*xy))\n")])]),
('s3','*',[(S,[("    if isinstance(arg, int) or isinstance(arg, float):\n        return lb <= arg <= ub\n\n    if isinstance(arg, tuple) or isinstance(arg, list):\n        if len(arg) == 2:\n            return lb <= arg[0] <= arg[1] <= ub\n        elif len(arg) == 3:\n            return lb <= arg[0] <= arg[1] <= arg[2] <= ub\n\n    return False","    if isinstance(arg, (int, float)):\n        arg = (arg, )\n    elif not isinstance(arg, (tuple, list)) or len(arg) not in (2, 3):\n        return False\n    steps = [lb, *arg, ub]\n    return all(a <= b for a, b in zip(steps, steps[1:]))")])]),
('d1','*',[(D,[("    mo.coef = coef_ev\n","    mo.coef = coef_ev.copy()\n")])]),
('u1','*',[(U,[("    obs = []\n    for ob in observations:\n        flag = True\n        for we in wellfield:\n            if np.hypot(ob[0]-we[0], ob[1]-we[1]) <= buffer:\n                flag = False\n                break\n        if flag:\n            obs.append(ob)\n        else:\n            log.info('observation removed: {0} is too close to {1}'.format(ob, we))\n","    obs = []\n    for ob in observations:\n        for we in wellfield:\n            if np.hypot(ob[0]-we[0], ob[1]-we[1]) <= buffer:\n                log.info('observation removed: {0} is too close to {1}'.format(ob, we))\n                break\n        else:\n            obs.append(ob)\n")])]),
('u2','*',[(U,[("            num = 0\n            den = 0\n            for ob in same:\n                num += ob[2]/ob[3]**2\n                den += 1/ob[3]**2\n                log.info('    duplicate observation: {0}'.format(ob))\n            retained_obs.append((first[0], first[1], num/den, np.sqrt(1/den)))\n","            for ob in same:\n                log.info('    duplicate observation: {0}'.format(ob))\n            weights = [ob[3]**-2 for ob in same]\n            total = sum(weights)\n            mean = sum(w*ob[2] for w, ob in zip(weights, same))/total\n            retained_obs.append((first[0], first[1], mean, 1/np.sqrt(total)))\n")])]),
('u3','*',[(U,[("    vcnt = [[] for j in range(nvar)]\n    vmin = [[] for j in range(nvar)]\n    vmed = [[] for j in range(nvar)]\n    vmax = [[] for j in range(nvar)]\n    vavg = [[] for j in range(nvar)]\n    vstd = [[] for j in range(nvar)]\n","    vcnt, vmin, vmed, vmax, vavg, vstd = ([None]*nvar for _ in range(6))\n")])]),
('u4','*',[(U,[("    for i in range(len(retained_obs)):\n        log.info('     [{0:03d}] {1}'.format(i, retained_obs[i]))","    for i, ob in enumerate(retained_obs):\n        log.info('     [%03d] %s', i, ob)")])]),
('v1','*',[(V,[("    for i in range(nrows):\n        for j in range(ncols):\n            try:\n                grid[i, j] = mo.compute_head(x[j], y[i])\n            except oneka.model.AquiferError:\n                grid[i, j] = np.nan\n","    for i, yi in enumerate(y):\n        for j, xj in enumerate(x):\n            try:\n                head = mo.compute_head(xj, yi)\n            except oneka.model.AquiferError:\n                head = np.nan\n            grid[i, j] = head\n")])]),
('v2','*',[(V,[("    area = 0\n    for i, y in enumerate(Y):\n        ycorners = [y-dy/2, y-dy/2, y+dy/2, y+dy/2, y-dy/2]\n        for j, x in enumerate(X):\n            xcorners = [x-dx/2, x+dx/2, x+dx/2, x-dx/2, x-dx/2]\n            if Z[i, j] > 0:\n                plt.fill(xcorners, ycorners, \"r\")\n                area += cell_area\n","    area = 0\n    for i in range(pf.nrows):\n        bottom, top = Y[i] - dy/2, Y[i] + dy/2\n        for j in range(pf.ncols):\n            if not Z[i, j] > 0:\n                continue\n            left, right = X[j] - dx/2, X[j] + dx/2\n            plt.fill([left, right, right, left, left], [bottom, bottom, top, top, bottom], \"r\")\n            area += cell_area\n")])]),
('v3','*',[(V,[("    pr = np.flip(np.sort(pf.pgrid/pf.total_weight, axis=None))\n    n = pr.shape[0]\n    area = (np.arange(n)+1)*spacing**2\n","    pr = np.sort(pf.pgrid.ravel()/pf.total_weight)[::-1]\n    n = len(pr)\n    area = np.arange(1, n+1)*(spacing*spacing)\n")])]),
('o1','*',[(O,[("    assert(isinstance(confined, bool))\n    assert((isinstance(tol, int) or isinstance(tol, float)) and 0 < tol)\n    assert((isinstance(maxstep, int) or isinstance(maxstep, float)) and 0 < maxstep)\n","    assert isinstance(confined, bool)\n    for value in (tol, maxstep):\n        assert isinstance(value, (int, float)) and value > 0\n")])]),
('o2','*',[(O,[("    if nrealizations > 1:\n        log.info('nrealizations = {0:d} STOCHASTIC'.format(nrealizations))\n    else:\n        log.info('nrealizations = {0:d} DETERMINISTIC'.format(nrealizations))\n","    kind = 'STOCHASTIC' if nrealizations > 1 else 'DETERMINISTIC'\n    log.info(f'nrealizations = {nrealizations:d} {kind}')\n")])]),
('a1','*',[(A,[("    with bz2.BZ2File(filename, \"r\") as fp:\n        oneka_dict = pickle.load(fp)\n\n    return (oneka_dict)","    with bz2.open(filename, \"rb\") as fp:\n        return pickle.loads(fp.read())")])]),
('a2','*',[(A,[("    filename='logs\\\\Oneka' + datetime.now().strftime('%Y%m%dT%H%M%S') + '.bz2'","    stamp = datetime.now().strftime('%Y%m%dT%H%M%S')\n    filename = f'logs\\\\Oneka{stamp}.bz2'")])]),
]

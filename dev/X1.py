M,S,D,U,V,O,A,K,P='model stochastic deterministic utilities visualize oneka archive capturezone probabilityfield'.split()
WL="        potential = 0.0\n        for well in self.wells:\n"
B=[
('nowells','C01',M,[("        potential = (self.coef[0]*dx**2","        if not self.wells:\n            return self.coef[5]\n\n        potential = (self.coef[0]*dx**2")]),
('far','C01',M,[("            r2 = dx*dx + dy*dy\n            potential += well","            r2 = dx*dx + dy*dy\n            if r2 > 1e10:\n                continue\n            potential += well")]),
('dupwell','C01',M,[(WL,"        potential = 0.0\n        done = []\n        for well in self.wells:\n            if well in done:\n                continue\n            done.append(well)\n")]),
('setwells','C01',M,[("        self.wells = wells\n","        self.wells = list({(w[0], w[1]): w for w in wells}.values())\n")]),
('coefalias','C01',M,[("        self._coef = np.array(coef).reshape([6, ])","        self._coef = np.array(coef, dtype=np.float32).reshape([6, ])")]),
('far2','C02',M,[("            r2 = dx*dx + dy*dy\n\n            Qx","            r2 = dx*dx + dy*dy\n            if r2 < well[2]**2:\n                r2 = well[2]**2\n\n            Qx")]),
('zeroq','C02',M,[("            r2 = dx*dx + dy*dy\n\n            Qx","            r2 = dx*dx + dy*dy\n            if well[3] <= 0:\n                continue\n\n            Qx")]),
('breakwell','C02',M,[("            r2 = dx*dx + dy*dy\n\n            Qx","            r2 = dx*dx + dy*dy\n            if r2 == 0:\n                break\n\n            Qx")]),
('headpos','C03',M,[("        if potential <= 0:\n            raise AquiferError(\"potential_to_head","        if potential < 0:\n            raise AquiferError(\"potential_to_head")]),
('headwith','C03',M,[("        elif potential < 0.5 * self.conductivity * self.thickness**2:","        elif potential < 0.5 * self.conductivity * self.thickness**2 - 1e-3:")]),
('velbase','C04',M,[("        elif head > self.thickness:\n            Vx","        elif head > self.thickness + self.base:\n            Vx")]),
('velpor','C04',M,[("            Vy = Qy / (head * self.porosity)","            Vy = Qy / (min(head, self.thickness - 1e-6) * self.porosity)")]),
('velcf','C04',M,[("        Qx, Qy = self.compute_discharge(x, y)\n        Vx = Qx / (self.thickness * self.porosity)","        Qx, Qy = self.compute_discharge(x, y)\n        if self.compute_potential(x, y) <= 0:\n            return (0.0, 0.0)\n        Vx = Qx / (self.thickness * self.porosity)")]),
('negz','C05',M,[("            head = z_ev - self.base\n","            head = max(z_ev - self.base, z_std)\n")]),
('stdfloor','C05',M,[("            dx = x - xo\n            dy = y - yo\n            WA","            pot_std = max(pot_std, 1.0)\n            dx = x - xo\n            dy = y - yo\n            WA")]),
('wellsxo','C05',M,[("self.compute_potential_wells_only(x, y))/pot_std","self.compute_potential_wells_only(dx, dy))/pot_std")]),
('rank','C06',M,[("        coef_cov = np.linalg.inv(np.matmul(WA.T, WA))","        coef_cov = np.linalg.pinv(np.matmul(WA.T, WA))")]),
('rcond','C06',M,[("rcond=-1)[0]","rcond=1e-6)[0]")]),
('swallow','C06',M,[("            log.error(' numpy.linalg.lstsq: failed')\n            raise\n","            log.error(' numpy.linalg.lstsq: failed')\n            coef_ev = np.zeros((6, 1))\n")]),
('refit','C06',M,[("        self.xo = xo\n        self.yo = yo\n        self.coef = coef_ev\n","        if not np.any(self.coef):\n            self.xo = xo\n            self.yo = yo\n        self.coef = coef_ev\n")]),
('xoxo','C06',M,[("        WA, Wb = self.construct_fit(obs, xo, yo)","        WA, Wb = self.construct_fit(obs[:100], xo, yo)")]),
('g1','C07',P,[("            while xmin <= self.xmin:","            while xmin < self.xmin:")]),
('g2','C07',P,[("            while ymax >= self.ymax:\n                self.ymax += self.deltay","            while ymax >= self.ymax:\n                self.ymax += self.deltax")]),
('g3','C07',P,[("            while ymax >= self.ymax:","            while ymax >= self.ymax and nrows < 10000:")]),
('g4','C07',P,[("            self.xmax = self.xmin + (self.ncols-1)*self.deltax\n","            self.xmax = max(xmax, self.xmin + (self.ncols-1)*self.deltax)\n")]),
('g5','C08',P,[("            if (nrows != self.nrows) or (ncols != self.ncols):","            if (nrows*ncols > self.nrows*self.ncols + 1):")]),
('g6','C08',P,[("self.ncols] = self.pgrid\n","self.ncols] += self.pgrid.astype(np.float32)\n")]),
('g7','C08',P,[("                cshift += 1\n","                cshift = ncols - self.ncols\n")]),
('g8','C09',P,[("        bottom = max(0, math.floor((min(ay, by) - umbra - self.ymin)/self.deltay))","        bottom = max(0, math.ceil((min(ay, by) - umbra - self.ymin)/self.deltay))")]),
('g9','C09',P,[("        right = min(self.ncols, math.floor(","        right = min(self.ncols, int(")]),
('g10','C09',P,[("        left = max(0, math.floor((min(ax, bx) - umbra - self.xmin)/self.deltax))","        left = max(0, math.floor((min(ax, bx) - umbra - self.xmin)/self.deltax) + 1)")]),
('g11','C09',P,[("        for i in range(len(x)-1):\n            self.insert","        for i in range(len(x)-1):\n            if x[i] == x[i+1] and y[i] == y[i+1]:\n                continue\n            self.insert")]),
('g12','C09',P,[("        for i in range(len(x)-1):\n            self.insert","        for i in range(len(x)-1):\n            if abs(x[i] - x[i+1]) + abs(y[i] - y[i+1]) > 1000*umbra:\n                continue\n            self.insert")]),
('g13','C11',P,[("        self.pgrid[self.rgrid] += weight\n","        if self.rgrid.any():\n            self.pgrid[self.rgrid] += weight\n"),("        self.total_weight += weight\n","        if self.rgrid.any():\n            self.total_weight += weight\n")]),
('g14','C11',P,[("        self.pgrid[self.rgrid] += weight\n","        self.pgrid[self.rgrid] += weight\n        np.minimum(self.pgrid, self.total_weight, out=self.pgrid)\n        self.pgrid[self.pgrid < 1e-9] = 0\n")]),
('g15','C11',P,[("        self.pgrid[self.rgrid] += weight\n        self.rgrid[:] = False","        self.pgrid[self.rgrid] += weight\n        self.rgrid = np.zeros((self.nrows, self.nrows), dtype=bool)")]),
('k1','C12',K,[("np.linspace(0, 2*np.pi, npaths+1)[0:-1]","np.linspace(0, 2*np.pi, max(npaths, 4)+1)[0:-1]")]),
('k2','C12',K,[("        ys = (rtarget + STEPAWAY) * np.sin(theta) + ytarget","        ys = (rtarget + STEPAWAY) * np.sqrt(1 - np.cos(theta)**2) + ytarget")]),
('k3','C12',K,[("np.linspace(0, 2*np.pi, npaths+1)[0:-1]","np.arange(0, 2*np.pi, 2*np.pi/npaths)")]),
('k4','C13',K,[("            k2 = feval(xyt)\n            est","            k7 = feval(xyt)\n            est")]),
('k5','C13',K,[("e[4]*k5 + e[5]*k6), np.inf)","e[4]*k5 + e[5]*k6))/2")]),
('k6','C13',K,[("            if (est < tol) and (ds < maxstep):\n                t = t + dt\n                k1 = k2","            k1 = k2\n            if (est < tol) and (ds < maxstep):\n                t = t + dt")]),
('k7','C14',K,[("            if (abs(t + dt) > abs(duration)):","            if (t + dt > duration):")]),
('k8','C14',K,[("maxstep/(ds + EPS), 10) * dt","maxstep/(ds + EPS), 10) * max(dt, 1e-8)")]),
('k9','C14',K,[("        while (abs(t) < abs(duration)):","        while (abs(t) < abs(duration) - 1e-3):")]),
('k10','C14',K,[("            if (est < tol) and (ds < maxstep):","            if (est < tol) and (ds < maxstep) or abs(dt) < 1e-6:")]),
]

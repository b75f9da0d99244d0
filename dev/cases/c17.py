F='oneka/model.py'
S=open('/repo/'+F).read()
import ast
def fn(name):
    t=ast.parse(S)
    for n in ast.walk(t):
        if isinstance(n,ast.FunctionDef) and n.name==name:
            b=[x for x in n.body if not(isinstance(x,ast.Expr) and isinstance(x.value,ast.Constant))]
            L=S.splitlines(True)
            return ''.join(L[b[0].lineno-1:n.end_lineno])
POT,WO,DIS,HEAD,VEL,VC,FIT,CON,CF=[fn(n) for n in 'compute_potential compute_potential_wells_only compute_discharge compute_head compute_velocity compute_velocity_confined fit_regional_flow construct_fit compute_fit'.split()]
M=['C01','C02','C03','C04','C05','C06','C26','C28']
CASES=[
('p vec',[(F,POT,"""        dx, dy = x - self.xo, y - self.yo
        basis = np.array([dx*dx, dy*dy, dx*dy, dx, dy, 1.0])
        return np.dot(self.coef, basis) + self.compute_potential_wells_only(x, y)
""")],M,'held'),
('p basis shared',[(F,POT,"""        return self._basis(x - self.xo, y - self.yo) @ self.coef + self.compute_potential_wells_only(x, y)

    @staticmethod
    def _basis(dx, dy):
        return np.array([dx**2, dy**2, dx*dy, dx, dy, 1])
"""),(F,"np.array([dx**2, dy**2, dx*dy, dx, dy, 1])/pot_std","self._basis(dx, dy)/pot_std")],M,'held'),
('p zip',[(F,POT,"""        dx, dy = x - self.xo, y - self.yo
        terms = (dx**2, dy**2, dx*dy, dx, dy, 1)
        regional = sum(c*t for c, t in zip(self.coef, terms))
        return regional + self.compute_potential_wells_only(x, y)
""")],M,'held'),
('p unpack',[(F,POT,"""        A, B, C, D, E, F = self.coef
        dx = x - self.xo
        dy = y - self.yo
        return (A*dx + C*dy + D)*dx + (B*dy + E)*dy + F + self.compute_potential_wells_only(x, y)
""")],M,'held'),
('p unpack bug',[(F,POT,"""        A, B, C, D, E, F = self.coef
        dx = x - self.xo
        dy = y - self.yo
        return (A*dx + C*dy + D)*dx + (B*dy + C*dx + E)*dy + F + self.compute_potential_wells_only(x, y)
""")],['C01'],'violated'),
('w sum',[(F,WO,"""        return sum(q*np.log((x - xw)**2 + (y - yw)**2) for xw, yw, rw, q in self.wells)/(4*np.pi)
""")],M,'held'),
('w hypot',[(F,WO,"""        potential = 0.0
        for xw, yw, _, q in self.wells:
            potential += q/(2*np.pi)*np.log(np.hypot(x - xw, y - yw))
        return potential
""")],M,'held'),
('w mathlog',[(F,WO,"""        total = 0.0
        for well in self.wells:
            r = math.sqrt((x - well[0])**2 + (y - well[1])**2)
            total = total + well[3]/(2*math.pi)*math.log(r)
        return total
"""),(F,"import logging\n","import logging\nimport math\n")],M,'held'),
('w array',[(F,WO,"""        wells = np.array(self.wells)
        r2 = (x - wells[:, 0])**2 + (y - wells[:, 1])**2
        return np.sum(wells[:, 3]*np.log(r2))/(4*np.pi)
""")],M,'held'),
('w array bug',[(F,WO,"""        wells = np.array(self.wells)
        r2 = (x - wells[:, 0])**2 + (y - wells[:, 1])**2
        return np.sum(wells[:, 2]*np.log(r2))/(4*np.pi)
""")],['C01'],'violated'),
('w const',[(F,"* 0.07957747154594767","/ (4*np.pi)")] if "* 0.07957747154594767" in S else [(F,"0.07957747154594767","(1/(4*np.pi))")],M,'held'),
('w index',[(F,WO,"""        potential = 0.0
        n = len(self.wells)
        for i in range(n):
            xw, yw = self.wells[i][:2]
            r2 = (x - xw)**2 + (y - yw)**2
            potential += self.wells[i][-1]*np.log(r2)
        return potential/(4*np.pi)
""")],M,'held'),
('d np',[(F,DIS,"""        A, B, C, D, E, _ = self.coef
        dx, dy = x - self.xo, y - self.yo
        Q = -np.array([2*A*dx + C*dy + D, 2*B*dy + C*dx + E])
        for xw, yw, rw, qw in self.wells:
            d = np.array([x - xw, y - yw])
            Q = Q - qw/(2*np.pi)*d/np.dot(d, d)
        return Q
""")],['C02','C04','C28'],'held'),
('d list',[(F,DIS,"""        Qx, Qy = self._regional(x, y)
        for w in self.wells:
            qx, qy = self._well(w, x, y)
            Qx += qx
            Qy += qy
        return [Qx, Qy]

    def _regional(self, x, y):
        c = self.coef
        dx, dy = x - self.xo, y - self.yo
        return (-2.0*c[0]*dx - c[2]*dy - c[3], -2.0*c[1]*dy - c[2]*dx - c[4])

    @staticmethod
    def _well(w, x, y):
        dx, dy = x - w[0], y - w[1]
        f = -w[3]/(2*np.pi*(dx*dx + dy*dy))
        return f*dx, f*dy
""")],['C02','C04','C26','C28'],'held'),
('d sums',[(F,DIS,"""        dx = x - self.xo
        dy = y - self.yo
        c = self.coef
        radial = [(w[3]/(2*np.pi*((x-w[0])**2 + (y-w[1])**2)), x - w[0], y - w[1]) for w in self.wells]
        Qx = -(2*c[0]*dx + c[2]*dy + c[3]) - sum(f*rx for f, rx, ry in radial)
        Qy = -(2*c[1]*dy + c[2]*dx + c[4]) - sum(f*ry for f, rx, ry in radial)
        return [Qx, Qy]
""")],['C02','C04','C28'],'held'),
('d sums bug',[(F,DIS,"""        dx = x - self.xo
        dy = y - self.yo
        c = self.coef
        radial = [(w[3]/(2*np.pi*((x-w[0])**2 + (y-w[1])**2)), x - w[0], y - w[1]) for w in self.wells]
        Qx = -(2*c[0]*dx + c[2]*dy + c[3]) - sum(f*rx for f, rx, ry in radial)
        Qy = -(2*c[1]*dy + c[2]*dx + c[4]) - sum(f*rx for f, rx, ry in radial)
        return [Qx, Qy]
""")],['C02'],'violated'),
('h helper',[(F,HEAD,"""        return self.potential_to_head(self.compute_potential(x, y))

    def potential_to_head(self, potential):
        k, H = self.conductivity, self.thickness
        if potential <= 0:
            raise AquiferError('potential_to_head: potential <= 0')
        limit = 0.5*k*H**2
        if potential >= limit:
            return (potential + limit)/(k*H)
        return np.sqrt(2.0*potential/k)
""")],M,'held'),
('h tern',[(F,HEAD,"""        potential = self.compute_potential(x, y)
        if not potential > 0:
            raise AquiferError('potential_to_head: potential <= 0')
        transition = self.conductivity*self.thickness*self.thickness/2
        confined = potential >= transition
        return (potential/(self.conductivity*self.thickness) + self.thickness/2 if confined
                else (2*potential/self.conductivity)**0.5)
""")],['C03','C04','C28'],'held'),
('h tern le',[(F,HEAD,"""        potential = self.compute_potential(x, y)
        if potential <= 0:
            raise AquiferError('potential_to_head: potential <= 0')
        head = np.sqrt(2*potential/self.conductivity)
        if head > self.thickness:
            head = potential/(self.conductivity*self.thickness) + self.thickness/2
        return head
""")],['C03','C04','C28'],'held'),
('h max',[(F,HEAD,"""        potential = self.compute_potential(x, y)
        if potential <= 0:
            raise AquiferError('potential_to_head: potential <= 0')
        unconfined = np.sqrt(2*potential/self.conductivity)
        confined = potential/(self.conductivity*self.thickness) + self.thickness/2
        return max(unconfined, confined) if unconfined > self.thickness else unconfined
""")],['C03'],'held'),
('h max bug',[(F,HEAD,"""        potential = self.compute_potential(x, y)
        if potential <= 0:
            raise AquiferError('potential_to_head: potential <= 0')
        unconfined = np.sqrt(2*potential/self.conductivity)
        confined = potential/(self.conductivity*self.thickness) + self.thickness/2
        return max(unconfined, confined)
""")],['C03'],'violated'),
('v min',[(F,VEL,"""        Qx, Qy = self.compute_discharge(x, y)
        head = self.compute_head(x, y)
        if head <= 0:
            raise AquiferError('discharge_to_velocity: head <= 0')
        saturated = min(head, self.thickness)
        return (Qx/(saturated*self.porosity), Qy/(saturated*self.porosity))
""")],['C04','C28'],'held'),
('v list',[(F,VEL,"""        Q = self.compute_discharge(x, y)
        head = self.compute_head(x, y)
        if head <= 0:
            raise AquiferError('discharge_to_velocity: head <= 0')
        factor = 1/(self.porosity*(self.thickness if head > self.thickness else head))
        return tuple(q*factor for q in Q)
""")],['C04','C28'],'held'),
('v conf helper',[(F,VC,"""        return self._velocity(x, y, self.thickness)

    def _velocity(self, x, y, depth):
        Qx, Qy = self.compute_discharge(x, y)
        return (Qx/depth/self.porosity, Qy/depth/self.porosity)
"""),(F,VEL,"""        head = self.compute_head(x, y)
        if head <= 0:
            raise AquiferError('discharge_to_velocity: head <= 0')
        return self._velocity(x, y, min(head, self.thickness))
""")],['C04','C28','C15'],'held'),
('c enumerate',[(F,CON,"""        WA, Wb = [], []
        for x, y, z_ev, z_std in obs:
            pot_ev, pot_std = self._potential_of(z_ev - self.base, z_std)
            dx, dy = x - xo, y - yo
            WA.append([dx**2/pot_std, dy**2/pot_std, dx*dy/pot_std, dx/pot_std, dy/pot_std, 1/pot_std])
            Wb.append([(pot_ev - self.compute_potential_wells_only(x, y))/pot_std])
        return (np.array(WA), np.array(Wb))

    def _potential_of(self, head, std):
        k, H = self.conductivity, self.thickness
        if head <= 0:
            raise RangeError('model.fit_coeficient: elevation < base')
        if head >= H:
            return k*H*(head - 0.5*H), k*H*std
        return 0.5*k*(head**2 + std**2), k*head*std
""")],['C05','C06','C28','C26'],'held'),
('c enum',[(F,CON,CON.replace("        for i in range(nobs):\n            x, y, z_ev, z_std = obs[i]\n","        for i, (x, y, z_ev, z_std) in enumerate(obs):\n"))],['C05','C06','C28','C26'],'held'),
('c weights',[(F,CON,"""        n = len(obs)
        A, b, w = np.zeros((n, 6)), np.zeros((n, 1)), np.zeros((n, 1))
        kH = self.conductivity*self.thickness
        for i, ob in enumerate(obs):
            x, y, z_ev, z_std = ob
            head = z_ev - self.base
            if head <= 0:
                raise RangeError('model.fit_coeficient: elevation < base')
            elif head < self.thickness:
                pot_ev = 0.5*self.conductivity*(head**2 + z_std**2)
                pot_std = self.conductivity*head*z_std
            else:
                pot_ev = kH*(head - 0.5*self.thickness)
                pot_std = kH*z_std
            dx, dy = x - xo, y - yo
            A[i] = [dx**2, dy**2, dx*dy, dx, dy, 1]
            b[i] = pot_ev - self.compute_potential_wells_only(x, y)
            w[i] = 1/pot_std
        return A*w, b*w
""")],['C05','C06','C28','C26'],'held'),
('c rows',[(F,CON,"""        rows = [self._row(ob, xo, yo) for ob in obs]
        WA = np.array([r[0] for r in rows]).reshape(-1, 6)
        Wb = np.array([r[1] for r in rows]).reshape(-1, 1)
        return WA, Wb

    def _row(self, ob, xo, yo):
        x, y, z_ev, z_std = ob
        head = z_ev - self.base
        if head <= 0:
            raise RangeError('model.fit_coeficient: elevation < base')
        if head < self.thickness:
            ev = 0.5*self.conductivity*(head**2 + z_std**2)
            std = self.conductivity*head*z_std
        else:
            ev = self.conductivity*self.thickness*(head - 0.5*self.thickness)
            std = self.conductivity*self.thickness*z_std
        dx, dy = x - xo, y - yo
        return (np.array([dx**2, dy**2, dx*dy, dx, dy, 1])/std,
                (ev - self.compute_potential_wells_only(x, y))/std)
""")],['C05','C06','C28','C26'],'held'),
('c bug ',[(F,CON,CON.replace("(head**2 + z_std**2)","head**2 + z_std**2"))],['C05'],'violated'),
('f normal',[(F,CF,"""        try:
            coef_ev = np.linalg.lstsq(WA, Wb, rcond=-1)[0]
        except np.linalg.LinAlgError:
            log.error(' numpy.linalg.lstsq: failed')
            raise
        return coef_ev, np.linalg.inv(WA.T @ WA)
""")],['C06','C28'],'held'),
('f unpack',[(F,CF,"""        try:
            coef_ev, _, _, _ = np.linalg.lstsq(WA, Wb, rcond=-1)
        except np.linalg.LinAlgError as err:
            log.error(' numpy.linalg.lstsq: failed')
            raise err
        normal = np.dot(np.transpose(WA), WA)
        coef_cov = np.linalg.inv(normal)
        return coef_ev, coef_cov
""")],['C06','C28'],'held'),
('f solve',[(F,CF,"""        normal = WA.T @ WA
        coef_cov = np.linalg.inv(normal)
        coef_ev = np.linalg.solve(normal, WA.T @ Wb)
        return coef_ev, coef_cov
""")],['C06','C28'],'held'),
('f cov bug',[(F,CF,CF.replace("np.linalg.inv(np.matmul(WA.T, WA))","np.linalg.pinv(np.matmul(WA.T, WA))/len(WA)"))],['C06'],'violated'),
('f order bug',[(F,FIT,FIT.replace("        self.coef = coef_ev\n","").replace("        self.xo = xo","        self.coef = coef_ev.ravel() if self.xo == xo else coef_ev[::-1]\n        self.xo = xo"))],['C06'],'violated'),
]

import re
P='probabilityfield'; K='capturezone'
ps=open('/repo/oneka/probabilityfield.py').read()
ks=open('/repo/oneka/capturezone.py').read()
B=[]
def add(n,*eds): B.append((n,'*',tuple(eds)))
def cut(s,a,b):
    i=s.index(a); return s[i:s.index(b,i)]
ALLOC="""            self.pgrid = np.zeros((self.nrows, self.ncols), dtype=np.float)
            self.rgrid = np.zeros((self.nrows, self.ncols), dtype=np.bool)

            self.total_weight = 0.0
"""
HELP="""    def _allocate(self):
        shape = (self.nrows, self.ncols)
        self.pgrid = np.zeros(shape, dtype=np.float)
        self.rgrid = np.zeros(shape, dtype=np.bool)
        self.total_weight = 0.0

    def __repr__(self):"""
add('alloc',(P,[(ALLOC,"            self._allocate()\n"),("    def __repr__(self):",HELP),(ALLOC,"            self._allocate()\n")]))
INS=cut(ps,"        left = max(0, math","        for j in np.arange(left, right)")
add('ranges',(P,[(INS,"""        left, right = self._span(min(ax, bx) - umbra, max(ax, bx) + umbra, self.xmin, self.deltax, self.ncols)
        bottom, top = self._span(min(ay, by) - umbra, max(ay, by) + umbra, self.ymin, self.deltay, self.nrows)

"""),("    def __repr__(self):","""    @staticmethod
    def _span(low, high, origin, delta, count):
        first = max(0, math.floor((low - origin)/delta))
        last = min(count, math.floor((high - origin)/delta) + 1)
        return first, last

    def __repr__(self):""")]))
LOOP=cut(ps,"        for j in np.arange(left, right):","    def rasterize")
add('rowmajor',(P,[(LOOP,"""        for i in range(bottom, top):
            cy = self.ymin + i*self.deltay
            for j in range(left, right):
                if self.rgrid[i, j]:
                    continue
                cx = self.xmin + j*self.deltax
                self.rgrid[i, j] = self.distancesquared(ax, ay, bx, by, cx, cy) < umbra_squared

""")]))
add('vector',(P,[(LOOP,"""        for j in range(left, right):
            cx = self.xmin + j*self.deltax
            for i in range(bottom, top):
                cy = self.ymin + i*self.deltay
                d2 = self.distancesquared(ax, ay, bx, by, cx, cy)
                self.rgrid[i, j] |= d2 < umbra_squared

""")]))
add('anyor',(P,[(LOOP,"""        import itertools
        for i, j in itertools.product(range(bottom, top), range(left, right)):
            if not self.rgrid[i, j] and self._near(ax, ay, bx, by, i, j, umbra_squared):
                self.rgrid[i, j] = True

    def _near(self, ax, ay, bx, by, i, j, limit):
        cx, cy = self.xmin + j*self.deltax, self.ymin + i*self.deltay
        return self.distancesquared(ax, ay, bx, by, cx, cy) < limit

""")]))
RAS=cut(ps,"        self.expand(min(x)-umbra","    def register")
add('zip',(P,[(RAS,"""        self.expand(min(x)-umbra, max(x)+umbra, min(y)-umbra, max(y)+umbra)

        for ax, ay, bx, by in zip(x[:-1], y[:-1], x[1:], y[1:]):
            self.insert(ax, ay, bx, by, umbra)

""")]))
add('prev',(P,[(RAS,"""        self.expand(min(x)-umbra, max(x)+umbra, min(y)-umbra, max(y)+umbra)

        points = list(zip(x, y))
        for a, b in zip(points, points[1:]):
            self.insert(a[0], a[1], b[0], b[1], umbra)

""")]))
add('prev2',(P,[(RAS,"""        self.expand(min(x)-umbra, max(x)+umbra, min(y)-umbra, max(y)+umbra)

        for i in range(1, len(x)):
            self.insert(x[i-1], y[i-1], x[i], y[i], umbra)

""")]))
add('npmin',(P,[(RAS,"""        xmin, xmax = np.min(x) - umbra, np.max(x) + umbra
        ymin, ymax = np.min(y) - umbra, np.max(y) + umbra
        self.expand(xmin, xmax, ymin, ymax)

        n = len(x)
        for i in range(n - 1):
            self.insert(x[i], y[i], x[i+1], y[i+1], umbra)

""")]))
EXP=cut(ps,"            nrows = self.nrows\n","            if (nrows != self.nrows)")
add('axisgrow',(P,[(EXP,"""            self.xmin, self.xmax, ncols, cshift = self._grow(
                xmin, xmax, self.xmin, self.xmax, self.deltax, self.ncols)
            self.ymin, self.ymax, nrows, rshift = self._grow(
                ymin, ymax, self.ymin, self.ymax, self.deltay, self.nrows)

"""),("    def __repr__(self):","""    @staticmethod
    def _grow(low, high, gmin, gmax, delta, count):
        shift = 0
        while low <= gmin:
            gmin -= delta
            count += 1
            shift += 1
        while high >= gmax:
            gmax += delta
            count += 1
        return gmin, gmax, count, shift

    def __repr__(self):""")]))
COPY=cut(ps,"                pgrid = np.zeros((nrows, ncols)","                self.nrows = nrows")
add('pad',(P,[(COPY,"""                rows = slice(rshift, rshift+self.nrows)
                cols = slice(cshift, cshift+self.ncols)

                pgrid = np.zeros((nrows, ncols), dtype=np.float)
                rgrid = np.zeros((nrows, ncols), dtype=np.bool)
                rgrid[rows, cols] = self.rgrid
                pgrid[rows, cols] = self.pgrid
                self.rgrid, self.pgrid = rgrid, pgrid

""")]))
add('nppad',(P,[(COPY,"""                pad = ((rshift, nrows - self.nrows - rshift), (cshift, ncols - self.ncols - cshift))
                self.pgrid = np.pad(self.pgrid, pad, mode='constant')
                self.rgrid = np.pad(self.rgrid, pad, mode='constant')

""")]))
add('embed',(P,[(COPY,"""                self.rgrid = self._embed(self.rgrid, nrows, ncols, rshift, cshift)
                self.pgrid = self._embed(self.pgrid, nrows, ncols, rshift, cshift)

"""),("    def __repr__(self):","""    @staticmethod
    def _embed(grid, nrows, ncols, rshift, cshift):
        out = np.zeros((nrows, ncols), dtype=grid.dtype)
        m, n = grid.shape
        out[rshift:rshift+m, cshift:cshift+n] = grid
        return out

    def __repr__(self):""")]))
add('early',(P,[("            if (nrows != self.nrows) or (ncols != self.ncols):\n                pgrid","            if (nrows, ncols) == (self.nrows, self.ncols):\n                return\n            if True:\n                pgrid")]))
add('check',(P,[("""        if xmin > xmax:
            raise RangeError("<xmin> must be <= <xmax>.")

        if ymin > ymax:
            raise RangeError("<ymin> must be <= <ymax>.")
""","""        for name, low, high in (('x', xmin, xmax), ('y', ymin, ymax)):
            if low > high:
                raise RangeError("<{0}min> must be <= <{0}max>.".format(name))
""")]))
REG=cut(ps,"    def register(self, weight):","    def reset")
print(REG[-700:]) if 0 else None
# capture zone
A=cut(ks,"    # Dormand-Prince constants","    # Initialize: the")
AM=re.sub(r"(?m)^    ","",A)
for n in ('a2','a3','a4','a5','a6','a7'): AM=re.sub(r"(?m)^%s ="%n,"_%s ="%n.upper(),AM)
AM=re.sub(r"(?m)^e =","_E =",AM)
body=cut(ks,"            k2 = feval(xy + dt*(a2[0]*k1))","            ds = np.linalg")
bodyM=re.sub(r"\b(a[2-7])\[",lambda m:"_"+m.group(1).upper()+"[",body); bodyM=re.sub(r"\be\[","_E[",bodyM)
DEF="# -------------------------------------\ndef compute_backtrace"
add('modconst',(K,[(A,""),(body,bodyM),(DEF,AM+"\n\n"+DEF)]))
STEP='''# -------------------------------------
def _dormand_prince_step(xy, k1, dt, feval):
'''+AM.replace('_A','a').replace('_E','e').replace('\n','\n    ')
STEP="# -------------------------------------\ndef _dormand_prince_step(xy, k1, dt, feval):\n"+A+"    k2 = feval(xy + dt*(a2[0]*k1))"+re.sub(r"(?m)^        ","",body)[len("    k2 = feval(xy + dt*(a2[0]*k1))"):]+"    return xyt, k2, est\n\n\n"
add('step',(K,[(A,""),(body,"            xyt, k2, est = _dormand_prince_step(xy, k1, dt, feval)\n"),(DEF,STEP+DEF)]))
add('dot',(K,[(body,"""            k = [k1]
            for row in (a2, a3, a4, a5, a6):
                k.append(feval(xy + dt*sum(c*v for c, v in zip(row, k))))

            xyt = xy + dt*(a7[0]*k[0] + a7[2]*k[2] + a7[3]*k[3] + a7[4]*k[4] + a7[5]*k[5])

            # Control time step for maximum space step and maximum estimated error.
            k2 = feval(xyt)
            stages = [k[0], k2, k[2], k[3], k[4], k[5]]
            est = np.linalg.norm(dt*sum(c*v for c, v in zip(e, stages)), np.inf)
""")]))
add('dot2',(K,[(body,"""            k2 = feval(xy + dt*np.dot(a2, [k1]))
            k3 = feval(xy + dt*np.dot(a3, [k1, k2]))
            k4 = feval(xy + dt*np.dot(a4, [k1, k2, k3]))
            k5 = feval(xy + dt*np.dot(a5, [k1, k2, k3, k4]))
            k6 = feval(xy + dt*np.dot(a6, [k1, k2, k3, k4, k5]))

            xyt = xy + dt*np.dot(a7, [k1, k2, k3, k4, k5, k6])

            # Control time step for maximum space step and maximum estimated error.
            k2 = feval(xyt)
            est = np.linalg.norm(dt*np.dot(e, [k1, k2, k3, k4, k5, k6]), np.inf)
""")]))
add('dsfirst',(K,[("            ds = np.linalg.norm(xyt - xy)\n",""),("            k2 = feval(xyt)\n            est","            ds = np.linalg.norm(xyt - xy)\n            k2 = feval(xyt)\n            est")]))
add('hypot',(K,[("            ds = np.linalg.norm(xyt - xy)\n","            ds = np.hypot(xyt[0] - xy[0], xyt[1] - xy[1])\n")]))
add('sqrt',(K,[("            ds = np.linalg.norm(xyt - xy)\n","            step = xyt - xy\n            ds = np.sqrt(step[0]**2 + step[1]**2)\n")]))
add('maxabs',(K,[(body,body.replace("np.linalg.norm(dt*(","np.max(np.abs(dt*(").replace("e[5]*k6), np.inf)","e[5]*k6)))"))]))
add('reject',(K,[("""            if (est < tol) and (ds < maxstep):
                t = t + dt
                k1 = k2
                xy = xyt
                vertices.append(xy)
""","""            accepted = est < tol and ds < maxstep
            if accepted:
                t += dt
                xy, k1 = xyt, k2
                vertices.append(xyt)
""")]))
add('factor',(K,[("            dt = 0.9 * min((tol/(est + EPS))**(1/5), maxstep/(ds + EPS), 10) * dt\n","            growth = min(10, maxstep/(ds + EPS), (tol/(est + EPS))**0.2)\n            dt *= 0.9 * growth\n")]))
add('clip',(K,[("            if (abs(t + dt) > abs(duration)):\n                dt = duration - t\n","            remaining = duration - t\n            if abs(dt) > abs(remaining):\n                dt = remaining\n")]))
ST=cut(ks,"    # Compute the backtraces.","    # Register the")
add('starts',(K,[(ST,"""    # Compute the backtraces.
    for xs, ys in starting_points(xtarget, ytarget, rtarget + STEPAWAY, npaths):
        vertices = compute_backtrace(xs, ys, duration, tol, maxstep, feval)
        x, y = zip(*vertices)
        pfield.rasterize(x, y, umbra)

"""),(DEF,"""# -------------------------------------
def starting_points(xc, yc, radius, npaths):
    for theta in np.linspace(0, 2*np.pi, npaths, endpoint=False):
        yield radius * np.cos(theta) + xc, radius * np.sin(theta) + yc


"""+DEF)]))
add('twoloops',(K,[(ST,"""    # Compute the backtraces.
    radius = rtarget + STEPAWAY
    tracks = []
    for n in range(npaths):
        theta = 2*np.pi * n / npaths
        xs, ys = xtarget + radius*np.cos(theta), ytarget + radius*np.sin(theta)
        tracks.append(compute_backtrace(xs, ys, duration, tol, maxstep, feval))

    for track in tracks:
        pfield.rasterize([v[0] for v in track], [v[1] for v in track], umbra)

""")]))
add('arrtrack',(K,[(ST,"""    # Compute the backtraces.
    angles = np.linspace(0, 2*np.pi, npaths+1)[:-1]
    xstart = (rtarget + STEPAWAY) * np.cos(angles) + xtarget
    ystart = (rtarget + STEPAWAY) * np.sin(angles) + ytarget
    for xs, ys in zip(xstart, ystart):
        vertices = np.array(compute_backtrace(xs, ys, duration, tol, maxstep, feval))
        pfield.rasterize(vertices[:, 0], vertices[:, 1], umbra)

""")]))
add('whiletrue',(K,[("        while (abs(t) < abs(duration)):\n            # Do","        while True:\n            if abs(t) >= abs(duration):\n                break\n            # Do")]))
add('splittry',(K,[("        log.warning(' trace terminated prematurely at t = {0:.2f} < duration.'.format(t))","        log.warning(f' trace terminated prematurely at t = {t:.2f} < duration.')")]))
add('like',(P,[(COPY,COPY.replace("np.zeros((nrows, ncols), dtype=np.bool)","np.zeros((nrows, ncols), self.rgrid.dtype)"))]))
add('like2',(P,[(REG,REG)]))
add('full',(P,[(ALLOC,ALLOC.replace("np.zeros((self.nrows, self.ncols), dtype=np.bool)","np.full_like(self.pgrid, False, dtype=bool)"))]))

F='oneka/probabilityfield.py'
S=open('/repo/'+F).read()
def between(a,b):
    i=S.index(a); j=S.index(b,i); return S[i:j]
LOOPS=between("            while xmin <= self.xmin","            # Create the expanded")
GROW=between("            nrows = self.nrows\n","            # Create the expanded")
COPY=between("                pgrid = np.zeros((nrows, ncols)","                log.debug(' grids")
INS=between("        umbra_squared =","    # -----")
INSLOOP=between("        for j in np.arange(left","    # -----")
RAST=between("        self.expand(min(x)-","    # -----")
REG=between("        self.total_weight += weight","    # -----")
DIST=S[S.index("        bax = bx - ax"):]
DIST=DIST[:DIST.rindex("return d2")+9]
PE=['C07','C08','C26']
PI=['C09','C26','C28']
PD=['C10','C09']
0 and print(INS[:60],RAST,REG)
CASES=[
('e ceil',[(F,GROW,"""            left = max(0, math.floor((self.xmin - xmin)/self.deltax) + 1)
            right = max(0, math.floor((xmax - self.xmax)/self.deltax) + 1)
            below = max(0, math.floor((self.ymin - ymin)/self.deltay) + 1)
            above = max(0, math.floor((ymax - self.ymax)/self.deltay) + 1)
            self.xmin -= left*self.deltax
            self.xmax += right*self.deltax
            self.ymin -= below*self.deltay
            self.ymax += above*self.deltay
            cshift, rshift = left, below
            nrows = self.nrows + below + above
            ncols = self.ncols + left + right

""")],PE,'held'),
('e ceil bug',[(F,GROW,"""            left = max(0, math.ceil((self.xmin - xmin)/self.deltax))
            right = max(0, math.ceil((xmax - self.xmax)/self.deltax))
            below = max(0, math.ceil((self.ymin - ymin)/self.deltay))
            above = max(0, math.ceil((ymax - self.ymax)/self.deltay))
            self.xmin -= left*self.deltax
            self.xmax += right*self.deltax
            self.ymin -= below*self.deltay
            self.ymax += above*self.deltay
            cshift, rshift = left, below
            nrows = self.nrows + below + above
            ncols = self.ncols + left + right

""")],['C07'],'violated'),
('e helper',[(F,GROW,"""            left, self.xmin = self._extend(self.xmin, xmin, self.deltax, -1)
            right, self.xmax = self._extend(self.xmax, xmax, self.deltax, +1)
            below, self.ymin = self._extend(self.ymin, ymin, self.deltay, -1)
            above, self.ymax = self._extend(self.ymax, ymax, self.deltay, +1)
            cshift, rshift = left, below
            nrows = self.nrows + below + above
            ncols = self.ncols + left + right

"""),(F,"    def insert(self","""    @staticmethod
    def _extend(edge, limit, delta, sign):
        count = 0
        while sign*limit >= sign*edge:
            edge += sign*delta
            count += 1
        return count, edge

    def insert(self""")],PE,'held'),
('e local',[(F,LOOPS,"""            x0, x1, y0, y1 = self.xmin, self.xmax, self.ymin, self.ymax
            while xmin <= x0:
                x0 -= self.deltax
                cshift += 1
            while xmax >= x1:
                x1 += self.deltax
                ncols += 1
            while ymin <= y0:
                y0 -= self.deltay
                rshift += 1
            while ymax >= y1:
                y1 += self.deltay
                nrows += 1
            ncols += cshift
            nrows += rshift
            self.xmin, self.xmax, self.ymin, self.ymax = x0, x1, y0, y1

""")],PE,'held'),
('e while true',[(F,"            while xmin <= self.xmin:\n","            while True:\n                if xmin > self.xmin:\n                    break\n")],PE,'held'),
('e pad',[(F,COPY,"""                before = (rshift, cshift)
                after = (nrows - self.nrows - rshift, ncols - self.ncols - cshift)
                widths = tuple(zip(before, after))
                self.rgrid = np.pad(self.rgrid, widths, mode='constant')
                self.pgrid = np.pad(self.pgrid, widths, mode='constant')
                self.nrows = nrows
                self.ncols = ncols
""")],PE,'held'),
('e slices',[(F,COPY,"""                rows = slice(rshift, rshift + self.nrows)
                cols = slice(cshift, cshift + self.ncols)
                pgrid = np.zeros((nrows, ncols), dtype=float)
                pgrid[rows, cols] = self.pgrid
                rgrid = np.zeros((nrows, ncols), dtype=bool)
                rgrid[rows, cols] = self.rgrid
                self.pgrid, self.rgrid = pgrid, rgrid
                self.nrows, self.ncols = pgrid.shape
""")],PE,'held'),
('e loop copy',[(F,COPY,"""                pgrid = np.zeros((nrows, ncols))
                rgrid = np.zeros((nrows, ncols), dtype=bool)
                for i in range(self.nrows):
                    for j in range(self.ncols):
                        pgrid[i + rshift, j + cshift] = self.pgrid[i, j]
                        rgrid[i + rshift, j + cshift] = self.rgrid[i, j]
                self.rgrid = rgrid
                self.pgrid = pgrid
                self.nrows = nrows
                self.ncols = ncols
""")],PE,'held'),
('e helper copy',[(F,COPY,"""                def embed(old, dtype):
                    new = np.zeros((nrows, ncols), dtype=dtype)
                    new[rshift:rshift + self.nrows, cshift:cshift + self.ncols] = old
                    return new
                self.rgrid = embed(self.rgrid, bool)
                self.pgrid = embed(self.pgrid, float)
                self.nrows = nrows
                self.ncols = ncols
""")],PE,'held'),
('e hstack',[(F,COPY,"""                pgrid = np.vstack([np.zeros((rshift, self.ncols)), self.pgrid, np.zeros((nrows - self.nrows - rshift, self.ncols))])
                pgrid = np.hstack([np.zeros((nrows, cshift)), pgrid, np.zeros((nrows, ncols - self.ncols - cshift))])
                rgrid = np.zeros((nrows, ncols), dtype=bool)
                rgrid[rshift:rshift + self.nrows, cshift:cshift + self.ncols] = self.rgrid
                self.rgrid = rgrid
                self.pgrid = pgrid
                self.nrows = nrows
                self.ncols = ncols
""")],PE,'held'),
('e order bug',[(F,COPY,COPY.replace("                self.rgrid = rgrid\n                self.pgrid = pgrid\n                self.nrows = nrows\n                self.ncols = ncols\n","").replace("                pgrid = np.zeros","                self.nrows = nrows\n                pgrid = np.zeros",1)+"                self.rgrid = rgrid\n                self.pgrid = pgrid\n                self.ncols = ncols\n")],['C08'],'violated'),
('e guard return',[(F,"            if (nrows != self.nrows) or (ncols != self.ncols):\n","            if (nrows, ncols) == (self.nrows, self.ncols):\n                return\n            if True:\n")],PE,'held'),
('e recompute',[(F,"                self.nrows = nrows\n                self.ncols = ncols\n\n                log","                self.nrows, self.ncols = self.pgrid.shape\n\n                log")],PE,'held'),
# insert
('i vector',[(F,INSLOOP,"""        for i in range(bottom, top):
            cy = self.ymin + i*self.deltay
            for j in range(left, right):
                cx = self.xmin + j*self.deltax
                near = self.distancesquared(ax, ay, bx, by, cx, cy) < umbra_squared
                self.rgrid[i, j] = self.rgrid[i, j] or near

""")],PI,'held'),
('i or',[(F,"                if not(self.rgrid[i, j]):\n                    cx","                if self.rgrid[i, j]:\n                    continue\n                else:\n                    cx")],PI,'held'),
('i ior',[(F,INSLOOP,"""        for j in range(left, right):
            for i in range(bottom, top):
                cx, cy = self.xmin + j*self.deltax, self.ymin + i*self.deltay
                self.rgrid[i, j] |= self.distancesquared(ax, ay, bx, by, cx, cy) < umbra_squared

""")],PI,'held'),
('i assign bug',[(F,INSLOOP,"""        for j in range(left, right):
            for i in range(bottom, top):
                cx, cy = self.xmin + j*self.deltax, self.ymin + i*self.deltay
                self.rgrid[i, j] = self.distancesquared(ax, ay, bx, by, cx, cy) < umbra_squared

""")],['C09'],'violated'),
('i sqrt',[(F,"self.distancesquared(ax, ay, bx, by, cx, cy) < umbra_squared","math.sqrt(self.distancesquared(ax, ay, bx, by, cx, cy)) < umbra")],PI,'held'),
('i le',[(F,"self.distancesquared(ax, ay, bx, by, cx, cy) < umbra_squared","not self.distancesquared(ax, ay, bx, by, cx, cy) >= umbra_squared")],PI,'held'),
('i node helper',[(F,INSLOOP,"""        for j in range(left, right):
            for i in range(bottom, top):
                if not self.rgrid[i, j] and self._near(i, j, (ax, ay), (bx, by), umbra_squared):
                    self.rgrid[i, j] = True

"""),(F,"    def rasterize(self","""    def _node(self, i, j):
        return self.xmin + j*self.deltax, self.ymin + i*self.deltay

    def _near(self, i, j, a, b, limit):
        return self.distancesquared(*a, *b, *self._node(i, j)) < limit

    def rasterize(self""")],PI,'held'),
('i product',[(F,INSLOOP,"""        for i, j in itertools.product(range(bottom, top), range(left, right)):
            cx = self.xmin + j*self.deltax
            cy = self.ymin + i*self.deltay
            if self.distancesquared(ax, ay, bx, by, cx, cy) < umbra_squared:
                self.rgrid[i, j] = True

"""),(F,"import math\n","import itertools\nimport math\n")],PI,'held'),
('i range helper',[(F,INS,"""        umbra_squared = umbra*umbra
        left, right = self._span(ax, bx, umbra, self.xmin, self.deltax, self.ncols)
        bottom, top = self._span(ay, by, umbra, self.ymin, self.deltay, self.nrows)
"""+INSLOOP),(F,"    def rasterize(self","""    @staticmethod
    def _span(a, b, umbra, origin, delta, count):
        lo, hi = (a, b) if a <= b else (b, a)
        first = math.floor((lo - umbra - origin)/delta)
        last = math.floor((hi + umbra - origin)/delta)
        return max(0, first), min(count, last + 1)

    def rasterize(self""")],PI,'held'),
('i range ceil',[(F,INS,"""        umbra_squared = umbra*umbra
        left = max(0, math.ceil((min(ax, bx) - umbra - self.xmin)/self.deltax))
        right = min(self.ncols, math.ceil((max(ax, bx) + umbra - self.xmin)/self.deltax))
        bottom = max(0, math.ceil((min(ay, by) - umbra - self.ymin)/self.deltay))
        top = min(self.nrows, math.ceil((max(ay, by) + umbra - self.ymin)/self.deltay))
"""+INSLOOP)],PI,'held'),
('i int bug',[(F,INS,"""        umbra_squared = umbra*umbra
        left = max(0, math.ceil((min(ax, bx) - umbra - self.xmin)/self.deltax))
        right = min(self.ncols, math.floor((max(ax, bx) + umbra - self.xmin)/self.deltax))
        bottom = max(0, math.ceil((min(ay, by) - umbra - self.ymin)/self.deltay))
        top = min(self.nrows, math.ceil((max(ay, by) + umbra - self.ymin)/self.deltay))
"""+INSLOOP)],['C09'],'violated'),
('i int()',[(F,"left = max(0, math.floor(","left = max(0, int(")],['C09'],'held'),
('i full',[(F,INS,"""        umbra_squared = umbra*umbra
        left, right, bottom, top = 0, self.ncols, 0, self.nrows
"""+INSLOOP)],PI,'held'),
('i meshgrid',[(F,INSLOOP,"""        for j in range(left, right):
            cx = self.xmin + j*self.deltax
            for i in range(bottom, top):
                cy = self.ymin + i*self.deltay
                marked = self.rgrid[i, j]
                if marked or not self.distancesquared(ax, ay, bx, by, cx, cy) < umbra_squared:
                    continue
                self.rgrid[i, j] = True

""")],PI,'held'),
('r zip',[(F,RAST,"""        self.expand(min(x)-umbra, max(x)+umbra, min(y)-umbra, max(y)+umbra)
        for ax, ay, bx, by in zip(x[:-1], y[:-1], x[1:], y[1:]):
            self.insert(ax, ay, bx, by, umbra)

""")],['C09','C26'],'held'),
('r zip2',[(F,RAST,"""        self.expand(min(x)-umbra, max(x)+umbra, min(y)-umbra, max(y)+umbra)
        points = list(zip(x, y))
        for (ax, ay), (bx, by) in zip(points, points[1:]):
            self.insert(ax, ay, bx, by, umbra)

""")],['C09','C26'],'held'),
('r prev',[(F,RAST,"""        self.expand(min(x)-umbra, max(x)+umbra, min(y)-umbra, max(y)+umbra)
        px, py = x[0], y[0]
        for qx, qy in zip(x[1:], y[1:]):
            self.insert(px, py, qx, qy, umbra)
            px, py = qx, qy

""")],['C09','C26'],'held'),
('r index',[(F,RAST,"""        self.expand(min(x)-umbra, max(x)+umbra, min(y)-umbra, max(y)+umbra)
        for i in range(1, len(x)):
            self.insert(x[i-1], y[i-1], x[i], y[i], umbra)

""")],['C09','C26'],'held'),
('r np min',[(F,RAST,"""        self.expand(np.min(x)-umbra, np.max(x)+umbra, np.min(y)-umbra, np.max(y)+umbra)
        i = 0
        while i < len(x) - 1:
            self.insert(x[i], y[i], x[i+1], y[i+1], umbra)
            i += 1

""")],['C09','C26'],'held'),
('r prev bug',[(F,RAST,"""        self.expand(min(x)-umbra, max(x)+umbra, min(y)-umbra, max(y)+umbra)
        px, py = x[0], y[0]
        for qx, qy in zip(x[1:], y[1:]):
            self.insert(px, py, qx, qy, umbra)

""")],['C09'],'violated'),
# distance
('d clamp',[(F,DIST,"""        bax = bx - ax
        bay = by - ay
        length2 = bax*bax + bay*bay
        if length2 == 0:
            t = 0.0
        else:
            t = ((cx - ax)*bax + (cy - ay)*bay)/length2
            t = max(0.0, min(1.0, t))
        dx = cx - (ax + t*bax)
        dy = cy - (ay + t*bay)
        return dx*dx + dy*dy""")],PD,'held'),
('d clip',[(F,DIST,"""        bax, bay = bx - ax, by - ay
        cax, cay = cx - ax, cy - ay
        length2 = bax**2 + bay**2
        t = np.clip((cax*bax + cay*bay)/length2, 0, 1) if length2 > 0 else 0
        return (cax - t*bax)**2 + (cay - t*bay)**2""")],PD,'held'),
('d cases',[(F,DIST,"""        bax, bay = bx - ax, by - ay
        cax, cay = cx - ax, cy - ay
        dot = bax*cax + bay*cay
        if dot <= 0:
            return cax*cax + cay*cay
        length2 = bax*bax + bay*bay
        if dot >= length2:
            return (cx - bx)**2 + (cy - by)**2
        return (bax*cay - bay*cax)**2/length2""")],PD,'held'),
('d hypot',[(F,DIST,"""        bax, bay = bx - ax, by - ay
        cax, cay = cx - ax, cy - ay
        dot = bax*cax + bay*cay
        if dot <= 0:
            return math.hypot(cax, cay)**2
        length = math.hypot(bax, bay)
        if dot >= length**2:
            return math.hypot(cx - bx, cy - by)**2
        return ((bax*cay - bay*cax)/length)**2""")],PD,'held'),
('d np',[(F,DIST,"""        a, b, c = np.array([ax, ay]), np.array([bx, by]), np.array([cx, cy])
        ba, ca = b - a, c - a
        length2 = np.dot(ba, ba)
        if length2 == 0:
            return np.dot(ca, ca)
        t = min(max(np.dot(ca, ba)/length2, 0), 1)
        r = ca - t*ba
        return r @ r""")],PD,'held'),
('d bug sym',[(F,DIST,"""        bax, bay = bx - ax, by - ay
        cax, cay = cx - ax, cy - ay
        length2 = bax**2 + bay**2
        t = np.clip((cax*bax + cay*bay)/length2, 0, 2) if length2 > 0 else 0
        return (cax - t*bax)**2 + (cay - t*bay)**2""")],['C10'],'violated'),
('d try',[(F,DIST,"""        bax, bay = bx - ax, by - ay
        cax, cay = cx - ax, cy - ay
        length2 = bax**2 + bay**2
        try:
            t = (cax*bax + cay*bay)/length2
        except ZeroDivisionError:
            t = 0
        t = min(max(t, 0), 1)
        return (cax - t*bax)**2 + (cay - t*bay)**2""")],['C10'],'held'),
('g ',[(F,REG,"""        self.total_weight = self.total_weight + weight
        self.pgrid = self.pgrid + weight*self.rgrid
        self.rgrid = np.zeros_like(self.rgrid)

""")],['C11','C26'],'held'),
('g fill',[(F,REG,"""        self.pgrid[self.rgrid] += weight
        self.total_weight += weight
        self.reset()

""")],['C11','C26'],'held'),
('g where',[(F,REG,"""        self.pgrid += np.where(self.rgrid, weight, 0)
        self.rgrid.fill(False)
        self.total_weight += weight

""")],['C11','C26'],'held'),
('g where bug',[(F,REG,"""        self.pgrid = np.where(self.rgrid, self.pgrid + weight, 0)
        self.rgrid.fill(False)
        self.total_weight += weight

""")],['C11'],'violated'),
('g early bug',[(F,REG,"""        if not self.rgrid.any():
            return
        self.pgrid[self.rgrid] += weight
        self.total_weight += weight
        self.rgrid[:] = False

""")],['C11'],'violated'),
]

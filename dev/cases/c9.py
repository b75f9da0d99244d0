P='oneka/probabilityfield.py'
REG='''        self.total_weight += weight
        self.pgrid[self.rgrid] += weight
        self.rgrid[:] = False
'''
COPY='''                rgrid[rshift:rshift+self.nrows, cshift:cshift+self.ncols] = self.rgrid
                pgrid[rshift:rshift+self.nrows, cshift:cshift+self.ncols] = self.pgrid
'''
INS='''        for j in np.arange(left, right):
            for i in np.arange(bottom, top):
                if not(self.rgrid[i, j]):
                    cx = self.xmin + j*self.deltax
                    cy = self.ymin + i*self.deltay

                    if self.distancesquared(ax, ay, bx, by, cx, cy) < umbra_squared:
                        self.rgrid[i, j] = True
'''
CASES=[
('flat views','C11','held',P,REG,'''        self.total_weight += weight
        p = self.pgrid.ravel()
        r = self.rgrid.ravel()
        p[r] += weight
        r[:] = False
'''),
('flat copies','C11','violated',P,REG,'''        self.total_weight += weight
        p = self.pgrid.flatten()
        r = self.rgrid.ravel()
        p[r] += weight
        r[:] = False
'''),
('row views','C11','held',P,REG,'''        self.total_weight += weight
        for i in range(self.nrows):
            prow = self.pgrid[i]
            rrow = self.rgrid[i]
            prow[rrow] += weight
            rrow[:] = False
'''),
('zip rows','C11','held',P,REG,'''        self.total_weight += weight
        for prow, rrow in zip(self.pgrid, self.rgrid):
            prow[rrow] += weight
            rrow[:] = False
'''),
('alias names','C11','held',P,REG,'''        p, r = self.pgrid, self.rgrid
        p[r] = p[r] + weight
        r.fill(False)
        self.total_weight = self.total_weight + weight
'''),
('asarray','C11','held',P,REG,'''        p = np.asarray(self.pgrid)
        p += weight*self.rgrid
        self.rgrid[:, :] = False
        self.total_weight += weight
'''),
('T views','C11','held',P,REG,'''        p = self.pgrid.T
        p[self.rgrid.T] += weight
        self.rgrid.T[:] = False
        self.total_weight += weight
'''),
('np.where','C11','held',P,REG,'''        self.pgrid = np.where(self.rgrid, self.pgrid + weight, self.pgrid)
        self.rgrid = np.zeros_like(self.rgrid)
        self.total_weight += weight
'''),
('np.add out','C11','held',P,REG,'''        np.add(self.pgrid, weight, out=self.pgrid, where=self.rgrid)
        np.copyto(self.rgrid, False)
        self.total_weight += weight
'''),
('nonzero','C11','held',P,REG,'''        self.total_weight += weight
        self.pgrid[np.nonzero(self.rgrid)] += weight
        self.rgrid[...] = False
'''),
('loops','C11','held',P,REG,'''        self.total_weight += weight
        for i in range(self.nrows):
            for j in range(self.ncols):
                if self.rgrid[i][j]:
                    self.pgrid[i][j] += weight
                    self.rgrid[i][j] = False
'''),
('flat loop','C11','held',P,REG,'''        self.total_weight += weight
        for k in range(self.rgrid.size):
            if self.rgrid.flat[k]:
                self.pgrid.flat[k] += weight
        self.rgrid[:] = False
'''),
('row bug','C11','violated',P,REG,'''        self.total_weight += weight
        for i in range(self.nrows):
            prow = self.pgrid[i].copy()
            rrow = self.rgrid[i]
            prow[rrow] += weight
            rrow[:] = False
'''),
('block views','C08','held',P,COPY,'''                block = (slice(rshift, rshift+self.nrows), slice(cshift, cshift+self.ncols))
                rgrid[block] = self.rgrid
                inner = pgrid[block]
                inner[:] = self.pgrid
'''),
('block view 2','C08','held',P,COPY,'''                rblock = rgrid[rshift:rshift+self.nrows, cshift:cshift+self.ncols]
                pblock = pgrid[rshift:rshift+self.nrows, cshift:cshift+self.ncols]
                rblock[...] = self.rgrid
                pblock += self.pgrid
'''),
('block bug','C08','violated',P,COPY,'''                rblock = rgrid[rshift:rshift+self.nrows, cshift:cshift+self.ncols]
                pblock = pgrid[rshift:rshift+self.nrows, rshift:rshift+self.ncols]
                rblock[...] = self.rgrid
                pblock[...] = self.pgrid
'''),
('row copy','C08','held',P,COPY,'''                for i in range(self.nrows):
                    rgrid[rshift+i, cshift:cshift+self.ncols] = self.rgrid[i]
                    pgrid[rshift+i, cshift:cshift+self.ncols] = self.pgrid[i]
'''),
('pad','C08','held',P,COPY,'''                pad = ((rshift, nrows-self.nrows-rshift), (cshift, ncols-self.ncols-cshift))
                rgrid = np.pad(self.rgrid, pad, mode='constant')
                pgrid = np.pad(self.pgrid, pad, mode='constant')
'''),
('column view','C09','held',P,INS,'''        for j in np.arange(left, right):
            column = self.rgrid[:, j]
            cx = self.xmin + j*self.deltax
            for i in np.arange(bottom, top):
                cy = self.ymin + i*self.deltay
                if not column[i] and self.distancesquared(ax, ay, bx, by, cx, cy) < umbra_squared:
                    column[i] = True
'''),
('window view','C09','held',P,INS,'''        window = self.rgrid[bottom:top, left:right]
        for j in np.arange(left, right):
            for i in np.arange(bottom, top):
                cx = self.xmin + j*self.deltax
                cy = self.ymin + i*self.deltay
                if self.distancesquared(ax, ay, bx, by, cx, cy) < umbra_squared:
                    window[i-bottom, j-left] = True
'''),
('grid alias','C09','held',P,INS,'''        grid = self.rgrid
        for i in range(bottom, top):
            cy = self.ymin + i*self.deltay
            for j in range(left, right):
                cx = self.xmin + j*self.deltax
                grid[i, j] |= self.distancesquared(ax, ay, bx, by, cx, cy) < umbra_squared
'''),
]
CASES=[(n,[(f,a,b)],[p],x) for n,p,x,f,a,b in CASES]

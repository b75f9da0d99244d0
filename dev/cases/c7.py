V='oneka/visualize.py'
FULLX='''    X = np.linspace(pf.xmin, pf.xmax, pf.ncols)
    Y = np.linspace(pf.ymin, pf.ymax, pf.nrows)
    Z = pf.pgrid/pf.total_weight

    if smooth'''
DETX='''    X = np.linspace(pf.xmin, pf.xmax, pf.ncols)
    Y = np.linspace(pf.ymin, pf.ymax, pf.nrows)
    Z = pf.pgrid/pf.total_weight

    dx ='''
DLOOP='''    area = 0
    for i, y in enumerate(Y):
        ycorners = [y-dy/2, y-dy/2, y+dy/2, y+dy/2, y-dy/2]
        for j, x in enumerate(X):
            xcorners = [x-dx/2, x+dx/2, x+dx/2, x-dx/2, x-dx/2]
            if Z[i, j] > 0:
                plt.fill(xcorners, ycorners, "r")
                area += cell_area
'''
HEADLOOP='''    for i in range(nrows):
        for j in range(ncols):
            try:
                grid[i, j] = mo.compute_head(x[j], y[i])
            except oneka.model.AquiferError:
                grid[i, j] = np.nan
'''
MARKP='''    plt.plot(xo, yo, 'P', markeredgecolor='k', markerfacecolor='w')


# ------------------------------------------------------------------------------
def create_deterministic_plot'''
CASES=[
('m1',[(V,FULLX,FULLX.replace('pf.pgrid/pf.total_weight','pf.pgrid/np.max(pf.pgrid)'))],['C24','C25'],'violated'),
('m2',[(V,FULLX,FULLX.replace('pf.ymin, pf.ymax','pf.ymax, pf.ymin'))],['C25'],'violated'),
('m3',[(V,FULLX,FULLX.replace('pf.xmin, pf.xmax, pf.ncols','pf.xmin, pf.xmax, pf.nrows'))],['C25'],'violated'),
('m4',[(V,'if smooth > 0:','if smooth >= 0:')],['C24'],'violated'),
('m5',[(V,'gaussian_filter(Z, smooth,','gaussian_filter(Z, 2*smooth,')],['C24'],'violated'),
('m6',[(V,'if Z[i, j] > 0:','if Z[i, j] > 0.5:')],['C24','C25'],'violated'),
('m7',[(V,'cell_area = dx*dy','cell_area = dx*dx')],['C24'],'violated'),
('m8',[(V,'(np.arange(n)+1)*spacing**2','np.arange(n)*spacing**2')],['C24'],'violated'),
('m9',[(V,'np.flip(np.sort(pf.pgrid/pf.total_weight, axis=None))','np.sort(pf.pgrid/pf.total_weight, axis=None)')],['C24'],'violated'),
('m10',[(V,'np.sort(pf.pgrid/pf.total_weight, axis=None)','np.sort(pf.pgrid/pf.total_weight)')],['C24'],'violated'),
('m11',[(V,'plt.semilogy(pr[i:j], area[i:j]//4046.86','plt.semilogy(pr[i:j], area[0:j-i]//4046.86')],['C24'],'violated'),
('m12',[(V,'return (pr, area)','return (pr[i:j], area[i:j])')],['C24'],'violated'),
('m13',[(V,DLOOP,DLOOP.replace('x+dx/2, x+dx/2, x-dx/2','x+dx, x+dx, x-dx/2'))],['C25'],'violated'),
('m14',[(V,HEADLOOP,HEADLOOP.replace('x[j], y[i]','x[i], y[j]'))],['C25'],'violated'),
('m15',[(V,HEADLOOP,HEADLOOP.replace('np.nan','0.0'))],['C25'],'violated'),
('m16',[(V,HEADLOOP,HEADLOOP.replace('compute_head','compute_potential'))],['C25'],'violated'),
('m17',[(V,MARKP,MARKP.replace('xo, yo','yo, xo'))],['C25'],'violated'),
('m18',[(V,FULLX,FULLX.replace('    X =','    X, Y = [None]*2\n    X =')),(V,'np.linspace(0, 1, 11), cmap','np.linspace(0, 0.5, 11), cmap')],['C24'],'violated'),
('m19',[(V,DETX,DETX.replace('pf.ymin, pf.ymax','pf.ymin, pf.xmax'))],['C25'],'violated'),
('m20',[(V,HEADLOOP,HEADLOOP.replace('except oneka.model.AquiferError','except ValueError'))],['C25'],'violated'),
('m21',[(V,HEADLOOP,HEADLOOP.replace('''            try:
                grid[i, j] = mo.compute_head(x[j], y[i])
            except oneka.model.AquiferError:
                grid[i, j] = np.nan''','''            try:
                grid[i, j] = mo.compute_head(x[j], y[i])
            except oneka.model.AquiferError:
                break'''))],['C25'],'violated'),
('r1',[(V,DLOOP,'''    half_x, half_y = dx/2, dy/2
    visited = 0
    for i in range(len(Y)):
        for j in range(len(X)):
            if Z[i, j] <= 0:
                continue
            x, y = X[j], Y[i]
            plt.fill([x - half_x, x + half_x, x + half_x, x - half_x], [y - half_y, y - half_y, y + half_y, y + half_y], "r")
            visited += 1
    area = visited*cell_area
''')],['C24','C25'],'held'),
('r2',[(V,DLOOP,DLOOP.replace('                area += cell_area\n','')+'    area = cell_area*np.count_nonzero(Z > 0)\n')],['C24','C25'],'held'),
('r3',[(V,DLOOP,DLOOP.replace('                area += cell_area\n','')+'    area = cell_area*np.sum(Z > 0)\n')],['C24','C25'],'held'),
('r4',[(V,'    dx = X[1] - X[0]\n    dy = Y[1] - Y[0]\n','    dx, dy = pf.deltax, pf.deltay\n')],['C24','C25'],'held'),
('r5',[(V,'np.flip(np.sort(pf.pgrid/pf.total_weight, axis=None))','np.sort((pf.pgrid/pf.total_weight).ravel())[::-1]')],['C24'],'held'),
('r6',[(V,'np.flip(np.sort(pf.pgrid/pf.total_weight, axis=None))','-np.sort(-pf.pgrid/pf.total_weight, axis=None)')],['C24'],'held'),
('r7',[(V,'(np.arange(n)+1)*spacing**2','np.arange(1, n+1)*spacing*spacing')],['C24'],'held'),
('r8',[(V,'(np.arange(n)+1)*spacing**2','np.cumsum(np.full(n, spacing**2))')],['C24'],'held'),
('r9',[(V,HEADLOOP,'''    for i, yi in enumerate(y):
        for j, xj in enumerate(x):
            grid[i, j] = _head_or_nan(mo, xj, yi)
'''),(V,'class Error(Exception)','''def _head_or_nan(mo, x, y):
    try:
        return mo.compute_head(x, y)
    except oneka.model.AquiferError:
        return np.nan


class Error(Exception)''')],['C25'],'held'),
('r10',[(V,FULLX,'''    X, Y, Z = _nodes(pf)

    if smooth'''),(V,DETX,'''    X, Y, Z = _nodes(pf)

    dx ='''),(V,'class Error(Exception)','''def _nodes(pf):
    X = np.linspace(pf.xmin, pf.xmax, pf.ncols)
    Y = np.linspace(pf.ymin, pf.ymax, pf.nrows)
    return X, Y, pf.pgrid/pf.total_weight


class Error(Exception)''')],['C24','C25'],'held'),
('r11',[(V,FULLX,FULLX.replace('np.linspace(pf.xmin, pf.xmax, pf.ncols)','pf.xmin + np.arange(pf.ncols)*pf.deltax'))],['C24','C25'],'held'),
('r12',[(V,MARKP,MARKP.replace("    plt.plot(xo, yo, 'P', markeredgecolor='k', markerfacecolor='w')","    plt.plot([ob[0] for ob in obs], [ob[1] for ob in obs], 'P', markeredgecolor='k', markerfacecolor='w')"))],['C25'],'held'),
('r13',[(V,MARKP,MARKP.replace("    plt.plot(xo, yo, 'P', markeredgecolor='k', markerfacecolor='w')","    for ob in obs:\n        plt.plot(ob[0], ob[1], 'P', markeredgecolor='k', markerfacecolor='w')"))],['C25'],'held'),
('r14',[(V,HEADLOOP,HEADLOOP.replace("grid[i, j] = np.nan","grid[i, j] = np.nan\n                continue"))],['C25'],'held'),
('r15',[(V,HEADLOOP,'''    grid[:] = np.nan
    for i in range(nrows):
        for j in range(ncols):
            try:
                grid[i, j] = mo.compute_head(x[j], y[i])
            except oneka.model.AquiferError:
                pass
''')],['C25'],'held'),
('r16',[(V,'    i = max(0, np.argmax(pr<1)-1)\n    j = min(n, np.argmax(pr==0)+1)\n','    first = max(0, np.argmax(pr < 1) - 1)\n    last = min(n, np.argmax(pr == 0) + 1)\n    shown = slice(first, last)\n'),(V,'pr[i:j], area[i:j]//4046.86','pr[shown], area[shown]//4046.86')],['C24'],'held'),
('r17',[(V,'''    if pf.total_weight <= 0:
        log.warning(' There were no valid realizations.')
        raise CaptureZoneError('Empty capture zone')

    pr = ''','''    _check(pf)
    pr = '''),(V,'class CaptureZoneError(Error)','''def _check(pf):
    if not pf.total_weight > 0:
        log.warning(' There were no valid realizations.')
        raise CaptureZoneError('Empty capture zone')


class CaptureZoneError(Error)''')],['C24'],'held'),
('r18',[(V,DLOOP,DLOOP.replace('''    for i, y in enumerate(Y):''','''    visited = Z > 0
    for i, y in enumerate(Y):''').replace('Z[i, j] > 0','visited[i, j]'))],['C24','C25'],'held'),
('r19',[(V,DLOOP,'''    area = 0
    for i, j in np.argwhere(Z > 0):
        x, y = X[j], Y[i]
        plt.fill([x-dx/2, x+dx/2, x+dx/2, x-dx/2, x-dx/2], [y-dy/2, y-dy/2, y+dy/2, y+dy/2, y-dy/2], "r")
        area += cell_area
''')],['C24','C25'],'held'),
('r21',[(V,DLOOP,'''    area = 0
    for i, j in zip(*np.nonzero(Z > 0)):
        x, y = X[j], Y[i]
        plt.fill([x-dx/2, x+dx/2, x+dx/2, x-dx/2, x-dx/2], [y-dy/2, y-dy/2, y+dy/2, y+dy/2, y-dy/2], "r")
        area += cell_area
''')],['C24','C25'],'held'),
('r22',[(V,DLOOP,'''    area = 0
    rows, cols = np.where(Z > 0)
    for i, j in zip(rows, cols):
        x, y = X[j], Y[i]
        plt.fill([x-dx/2, x+dx/2, x+dx/2, x-dx/2, x-dx/2], [y-dy/2, y-dy/2, y+dy/2, y+dy/2, y-dy/2], "r")
    area = len(rows)*cell_area
''')],['C24','C25'],'held'),
('r23',[(V,DLOOP,'''    area = 0
    for i, y in enumerate(Y):
        ycorners = [y-dy/2, y-dy/2, y+dy/2, y+dy/2, y-dy/2]
        for j in np.flatnonzero(Z[i] > 0):
            x = X[j]
            xcorners = [x-dx/2, x+dx/2, x+dx/2, x-dx/2, x-dx/2]
            plt.fill(xcorners, ycorners, "r")
            area += cell_area
''')],['C24','C25'],'held'),
('r20',[(V,DLOOP,'''    area = 0
    for i, j in [(i, j) for i in range(pf.nrows) for j in range(pf.ncols) if Z[i, j] > 0]:
        x, y = X[j], Y[i]
        plt.fill([x-dx/2, x+dx/2, x+dx/2, x-dx/2, x-dx/2], [y-dy/2, y-dy/2, y+dy/2, y+dy/2, y-dy/2], "r")
        area += cell_area
''')],['C24','C25'],'held'),
]

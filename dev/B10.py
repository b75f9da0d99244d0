V='visualize'
B=[
('carry','C25',V,[("""    for i in range(nrows):
        for j in range(ncols):
            try:
                grid[i, j] = mo.compute_head(x[j], y[i])
            except oneka.model.AquiferError:
                grid[i, j] = np.nan
""","""    head = np.nan
    for i in range(nrows):
        for j in range(ncols):
            try:
                head = mo.compute_head(x[j], y[i])
            except oneka.model.AquiferError:
                pass
            grid[i, j] = head
""")]),
('ii','C25',V,[("                grid[i, j] = np.nan","                grid[i, i] = np.nan")]),
('ji','C25',V,[("                grid[i, j] = np.nan","                grid[j, i] = np.nan")]),
('jinan','C25',V,[("except oneka.model.AquiferError:\n                grid[i, j] = np.nan","except oneka.model.AquiferError:\n                pass")]),
('brk','C25',V,[("except oneka.model.AquiferError:\n                grid[i, j] = np.nan","except oneka.model.AquiferError:\n                grid[i, j:] = np.nan\n                break")]),
('once','C25',V,[("""    for i in range(nrows):
        for j in range(ncols):
            try:
                grid[i, j] = mo.compute_head(x[j], y[i])
            except oneka.model.AquiferError:
                grid[i, j] = np.nan
""","""    grid[:] = np.nan
    try:
        for i in range(nrows):
            for j in range(ncols):
                grid[i, j] = mo.compute_head(x[j], y[i])
    except oneka.model.AquiferError:
        pass
""")]),
('step','C25',V,[("x = np.linspace(xmin, xmax, ncols)","x = xmin + (xmax - xmin)/ncols*np.arange(ncols)")]),
('dy','C24',V,[("dy = Y[1] - Y[0]","dy = dx")]),
('uniq','C24',V,[("pr = np.flip(np.sort(pf.pgrid/pf.total_weight, axis=None))","pr = np.flip(np.unique(pf.pgrid/pf.total_weight))")]),
('range','C24',V,[("area = (np.arange(n)+1)*spacing**2","area = np.linspace(0, n, n)*spacing**2")]),
('pos','C24',V,[("pr = np.flip(np.sort(pf.pgrid/pf.total_weight, axis=None))","pr = pf.pgrid/pf.total_weight\n    pr = np.flip(np.sort(pr[pr > 0], axis=None))")]),
('nz','C24',V,[("            if Z[i, j] > 0:","            if Z[i, j] > 0 and Z[i, j] < 1.1 and i > 0:")]),
('obsskip','C25',V,[("yo = [ob[1] for ob in obs]","yo = [ob[1] for ob in obs if ob[3] > 0]")]),
('obsdup','C25',V,[("xo = [ob[0] for ob in obs]\n    yo = [ob[1] for ob in obs]","xo, yo = np.unique([ob[:2] for ob in obs], axis=0).T")]),
('fillc','C25',V,[("xcorners = [x-dx/2, x+dx/2, x+dx/2, x-dx/2, x-dx/2]","xcorners = [x-dx/2, x+dx/2, x-dx/2, x+dx/2, x-dx/2]")]),
('clip','C24',V,[("    Z = pf.pgrid/pf.total_weight\n\n    if smooth","    Z = np.round(pf.pgrid/pf.total_weight, 1)\n\n    if smooth")]),
('nofig','C24',V,[("""    plt.figure()
    plt.semilogy""","""    plt.semilogy""")]),
('cap','C12','capturezone',[("np.linspace(0, 2*np.pi, npaths+1)[0:-1]","np.linspace(0, 2*np.pi, npaths)")]),
('uniqv','C12','capturezone',[("        pfield.rasterize(x, y, umbra)","        if len(x) > 2:\n            pfield.rasterize(x, y, umbra)")]),
('dec','C12','capturezone',[("        y = [v[1] for v in vertices]\n","        y = [v[1] for v in vertices]\n        if len(x) > 1000:\n            x, y = x[::2], y[::2]\n")]),
('seen','C12','capturezone',[("        xs = (rtarget + STEPAWAY)","        if theta > 2*np.pi - 1e-3:\n            continue\n        xs = (rtarget + STEPAWAY)")]),
('close','C09','probabilityfield',[("            self.insert(x[i], y[i], x[i+1], y[i+1], umbra)","            if abs(x[i+1]-x[i]) + abs(y[i+1]-y[i]) > 0.01*umbra:\n                self.insert(x[i], y[i], x[i+1], y[i+1], umbra)")]),
('tiny','C10','probabilityfield',[("if length2 == 0:","if length2 < 1e-6:")]),
('buf0','C19','utilities',[("        for we in wellfield:\n","        for we in (wellfield if buffer > 0 else []):\n")]),
('ceil','C07','probabilityfield',[("            while xmax >= self.xmax:\n                self.xmax += self.deltax\n                ncols += 1\n","            if xmax >= self.xmax:\n                n = round((xmax - self.xmax)/self.deltax) + 1\n                self.xmax += n*self.deltax\n                ncols += n\n")]),
('k1','C13','capturezone',[("                k1 = k2\n                xy = xyt\n","                xy = xyt\n"),("                vertices.append(xy)\n","                vertices.append(xy)\n\n            k1 = k2\n")]),
('part','C31','capturezone',[("    return vertices","    return vertices if len(vertices) > 1 else vertices*2")]),
('fin','C31','capturezone',[("if not np.isfinite(est + ds):","if np.isnan(est + ds):")]),
('show','C22','oneka',[("plt.show()","plt.close('all')")]),
('nan','C29','utilities',[("x = x[~np.isnan(x)]","x = x[np.isfinite(x)]")]),
('ddof','C29','utilities',[("np.std(x)","np.std(x, ddof=1)")]),
('hdr','C29','utilities',[("'{0:>{w}s}'.format(names[j], w=widths[j])","'{0:>{w}s}'.format(names[j][:widths[j]-1], w=widths[j])")]),
('minmax','C29','utilities',[("vmin[j] = np.min(x)","vmin[j] = np.min(np.abs(x))")]),
]

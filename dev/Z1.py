S='stochastic'; D='deterministic'; M='model'; V='visualize'; U='utilities'; P='probabilityfield'; K='capturezone'; O='oneka'; A='archive'
EXP="            nrows = self.nrows\n            ncols = self.ncols\n"
B=[
# C07-C11
('p1','C07',P,[("            while xmin <= self.xmin:\n                self.xmin -= self.deltax\n                ncols += 1\n                cshift += 1\n","            if xmin <= self.xmin:\n                cshift = math.ceil((self.xmin - xmin)/self.deltax)\n                self.xmin -= cshift*self.deltax\n                ncols += cshift\n")]),
('p2','C07',P,[("            while xmax >= self.xmax:\n                self.xmax += self.deltax\n                ncols += 1\n","            if xmax >= self.xmax:\n                n = int((xmax - self.xmax)//self.deltax)\n                self.xmax += n*self.deltax\n                ncols += n\n")]),
('p3','C07',P,[("math.ceil((xmax - self.xmin)/self.deltax) + 2)","math.ceil((xmax - self.xmin)/self.deltax) + 1)")]),
('p4','C07',P,[("            self.xmax = self.xmin + (self.ncols-1)*self.deltax\n            self.ymax","            self.xmax = xmax + self.deltax\n            self.ymax")]),
('p5','C07',P,[("        if np.isnan(xo) or np.isnan(yo):","        if np.isnan(xo) and np.isnan(yo):")]),
('p6','C08',P,[("                cshift += 1\n","                cshift = 1\n")]),
('p7','C08',P,[("                self.rgrid = rgrid\n","                self.rgrid = rgrid if rshift or cshift else self.rgrid\n")]),
('p8','C08',P,[("                pgrid[rshift:rshift+self.nrows, cshift:cshift+self.ncols] = self.pgrid","                pgrid[rshift:rshift+self.nrows, cshift:cshift+self.ncols] = np.where(self.rgrid, 0.0, self.pgrid)")]),
('p9','C09',P,[("        for i in range(len(x)-1):\n            self.insert(x[i], y[i], x[i+1], y[i+1], umbra)","        step = max(1, len(x)//1000)\n        for i in range(0, len(x)-1, step):\n            self.insert(x[i], y[i], x[i+1], y[i+1], umbra)")]),
('p10','C09',P,[("        for i in range(len(x)-1):\n            self.insert","        n = len(x) - 1\n        if n > 1 and x[0] == x[n] and y[0] == y[n]:\n            n -= 1\n        for i in range(n):\n            self.insert")]),
('p11','C09',P,[("                if not self.rgrid[i, j]:","                if not self.rgrid[i, j] and not (0 < i < self.nrows-1 and 0 < j < self.ncols-1 and self.rgrid[i-1, j] and self.rgrid[i+1, j] and False):")]),
('p12','C09',P,[("        self.expand(min(x) - umbra, max(x) + umbra, min(y) - umbra, max(y) + umbra)","        self.expand(min(x[0], x[-1]) - umbra, max(x[0], x[-1]) + umbra, min(y[0], y[-1]) - umbra, max(y[0], y[-1]) + umbra)")]),
('p13','C10',P,[("        elif beta2 > length2:","        elif beta2 > length2 and dot > length2:")]),
('p14','C10',P,[("        if length2 == 0:","        if length2 < 1e-12:")]),
('p15','C10',P,[("            d2 = alpha2 + beta2 - 2*dot + length2","            d2 = alpha2 + beta2 - 2*math.sqrt(beta2)*math.sqrt(length2) + length2")]),
('p16','C11',P,[("        self.total_weight += weight\n","        if self.rgrid.any():\n            self.total_weight += weight\n")]),
('p17','C11',P,[("        self.pgrid[self.rgrid] += weight\n","        i, j = np.nonzero(self.rgrid)\n        self.pgrid[i.min():i.max()+1, j.min():j.max()+1] += weight*self.rgrid[i.min():i.max()+1, j.min():j.max()+1]\n")]),
('p18','C11',P,[("        self.rgrid[:] = False","        self.rgrid = self.rgrid & False")]),
# C12
('k1','C12',K,[("    STEPAWAY = 1.0 ","    STEPAWAY = min(1.0, rtarget) ")]),
('k2','C12',K,[("        pfield.rasterize(x, y, umbra)\n","        if len(x) > 1:\n            pfield.rasterize(x, y, umbra)\n")]),
('k3','C12',K,[("        pfield.rasterize(x, y, umbra)\n","        pfield.rasterize(x, y, max(umbra, pfield.deltax))\n")]),
('k4','C12',K,[("    pfield.register(weight)","    if pfield.rgrid.any():\n        pfield.register(weight)")]),
('k5','C12',K,[("    for theta in np.linspace(0, 2*np.pi, npaths+1)[0:-1]:","    for theta in np.random.uniform(0, 2*np.pi, npaths):")]),
('k6','C12',K,[("        x = [v[0] for v in vertices]","        x = [v[0] for v in vertices if np.isfinite(v[0])]")]),
('k7','C12',K,[("        x = [v[0] for v in vertices]\n        y = [v[1] for v in vertices]","        x = [v[0] for v in vertices[1:]] or [xs]\n        y = [v[1] for v in vertices[1:]] or [ys]")]),
('k8','C12',K,[("        vertices = compute_backtrace(xs, ys, duration, tol, maxstep, feval)","        vertices = compute_backtrace(xs, ys, duration, tol, min(maxstep, umbra), feval)")]),
# C13/14/31
('t1','C13',K,[("            k6 = feval(xy + dt*(a6[0]*k1 + a6[1]*k2 + a6[2]*k3 + a6[3]*k4 + a6[4]*k5))","            k6 = feval(xy + abs(dt)*(a6[0]*k1 + a6[1]*k2 + a6[2]*k3 + a6[3]*k4 + a6[4]*k5))")]),
('t2','C14',K,[("            if (abs(t + dt) > abs(duration)):\n                dt = duration - t\n","            if (abs(t + dt) > abs(duration)):\n                dt = abs(duration) - abs(t)\n")]),
('t3','C14',K,[("    dt = 0.1 * np.sign(duration) ","    dt = 0.1 * duration/abs(duration) if abs(duration) > 1 else 0.1 ")]),
('t4','C14',K,[("                t = t + dt\n","                t = round(t + dt, 6)\n")]),
('t5','C14',K,[("                vertices.append(xy)\n","                if ds > 0.5:\n                    vertices.append(xy)\n")]),
('t6','C14',K,[("                vertices.append(xy)\n","                if len(vertices) > 100000:\n                    break\n                vertices.append(xy)\n")]),
('t7','C14',K,[("    vertices = [(xs, ys)]","    vertices = []")]),
('t8','C31',K,[("    except Exception:\n        log.warning(","    except (FloatingPointError, ZeroDivisionError, ValueError, AquiferError):\n        log.warning("),("import numpy as np\n","import numpy as np\nfrom oneka.model import AquiferError\n")]),
('t9','C31',K,[("            if not np.isfinite(est + ds):","            if not np.isfinite(ds):")]),
('t10','C31',K,[("            if not np.isfinite(est + ds):\n                raise FloatingPointError('the backtracing velocity is not finite.')\n","            if not np.isfinite(est + ds):\n                break\n")]),
('t11','C31',K,[("trace terminated prematurely at t = {0:.2f} < duration.'.format(t))","trace terminated prematurely at t = {0:.2f} < duration.'.format(t + dt))")]),
('t12','C31',K,[("    except Exception:\n        log.warning(","    except Exception:\n        if len(vertices) > 1:\n            log.warning(")]),
('t13','C31',K,[("        k1 = feval(xy)\n\n        while","        k1 = feval(xy)\n        if not np.all(np.isfinite(k1)):\n            return vertices\n\n        while")]),
# C15
('f1','C15',S,[("        if confined:","        if confined or thickness < 1:")]),
('f2','C15',D,[("    if confined:","    if confined and thickness > 0 and conductivity > 0 and npaths > 1:")]),
('f3','C15',S,[("            def feval(xy):\n                Vx, Vy = mo.compute_velocity(xy[0], xy[1])\n                return np.array([-Vx, -Vy])","            def feval(xy, cache={}):\n                key = (round(xy[0]), round(xy[1]))\n                if key not in cache:\n                    cache[key] = mo.compute_velocity(xy[0], xy[1])\n                Vx, Vy = cache[key]\n                return np.array([-Vx, -Vy])")]),
('f4','C15',S,[("                Vx, Vy = mo.compute_velocity(xy[0], xy[1])\n                return","                try:\n                    Vx, Vy = mo.compute_velocity(xy[0], xy[1])\n                except Exception:\n                    Vx, Vy = mo.compute_velocity_confined(xy[0], xy[1])\n                return")]),
# C18
('d1','C18',S,[("    elif len(arg) == 3 and arg[0] == arg[2]:\n        value = arg[1]\n","")]),
('d2','C18',S,[("            return lb <= arg[0] <= arg[1] <= arg[2] <= ub","            return lb <= arg[0] <= arg[2] <= ub")]),
('d3','C18',S,[("        value = np.random.triangular(arg[0], arg[1], arg[2])","        value = np.random.triangular(*sorted(arg))")]),
('d4','C18',S,[("        value = np.random.uniform(arg[0], arg[1])","        value = arg[0] + (arg[1] - arg[0])*np.random.beta(1, 1.0001)")]),
('d5','C18',S,[("        value = (arg[0] + arg[1] + arg[2])/3.0","        value = arg[1] if arg[1] - arg[0] == arg[2] - arg[1] else (arg[0] + arg[1] + arg[2])/3.0")]),
('d6','C18',S,[("    if isinstance(arg, int) or isinstance(arg, float):\n        return lb <= arg <= ub","    if isinstance(arg, int) or isinstance(arg, float):\n        return lb < arg <= ub")]),
# C21 C22
('o1','C21',O,[("    log_the_run(","    assert(projectname.strip() != '')\n    log_the_run(")]),
('o2','C21',O,[("    assert(isinstance(npaths, int) and 0 < npaths)","    assert(isinstance(npaths, int) and 1 < npaths)")]),
('o3','C21',O,[("and 0 != duration)","and 0 < duration)")]),
('o4','C22',O,[("            c_dist, p_dist, t_dist, stochastic_wells, obs,\n            spacing","            c_dist, p_dist, t_dist, stochastic_wells, obs,\n            max(spacing, umbra)")]),
]

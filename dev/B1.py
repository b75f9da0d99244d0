B=[
('c07-ceil','C07','probabilityfield',[("""            while xmin <= self.xmin:
                self.xmin -= self.deltax
                ncols += 1
                cshift += 1
""","""            if xmin <= self.xmin:
                cshift = math.ceil((self.xmin - xmin)/self.deltax)
                self.xmin -= cshift*self.deltax
                ncols += cshift
""")]),
('c08-ceil','C08','probabilityfield',[("""            while xmin <= self.xmin:
                self.xmin -= self.deltax
                ncols += 1
                cshift += 1
""","""            if xmin <= self.xmin:
                cshift = math.ceil((self.xmin - xmin)/self.deltax)
                self.xmin -= cshift*self.deltax
                ncols += cshift
""")]),
('c09-break','C09','probabilityfield',[("""                if not(self.rgrid[i, j]):
""","""                if self.rgrid[i, j]:
                    break
                else:
""")]),
('c12-short','C12','capturezone',[("""        pfield.rasterize(x, y, umbra)""","""        if len(vertices) > 2:
            pfield.rasterize(x, y, umbra)""")]),
('c13-fsal','C13','capturezone',[("""                k1 = k2
                xy = xyt
""","""                xy = xyt
"""),("""            dt = 0.9 *""","""            k1 = k2
            dt = 0.9 *""")]),
('c15-memo','C15','stochastic',[("""                Vx, Vy = mo.compute_velocity(xy[0], xy[1])
                return""","""                key = (round(xy[0], 1), round(xy[1], 1))
                if key not in memo:
                    memo[key] = mo.compute_velocity(xy[0], xy[1])
                Vx, Vy = memo[key]
                return"""),("""        if confined:
""","""        memo = {}
        if confined:
""")]),
('c17-seeded','C17','stochastic',[("default_rng()","default_rng(0)")]),
('c17-seeded2','C17','stochastic',[("default_rng()","default_rng(i)")]),
('c17-seed-glob','C17','stochastic',[("    for i in range(nrealizations):\n","    for i in range(nrealizations):\n        np.random.seed(i)\n")]),
('c17-hoist','C17','stochastic',[("    for i in range(nrealizations):\n","    rng = np.random.default_rng()\n    for i in range(nrealizations):\n"),("np.random.default_rng().mul","rng.mul")]),
('c18-minmode','C18','stochastic',[("len(arg) == 3 and arg[0] == arg[2]","len(arg) == 3 and arg[0] == arg[1]")]),
('c35-last','C35','utilities',[("                flag = False\n                break","                flag = False")]),
('c20-chain','C20','utilities',[("""        same = [first] + [ob for ob in obs[1:]
                          if np.hypot(first[0]-ob[0], first[1]-ob[1]) < TOO_CLOSE]
        obs = [ob for ob in obs[1:]
               if not np.hypot(first[0]-ob[0], first[1]-ob[1]) < TOO_CLOSE]
""","""        same, rest = [first], []
        for ob in obs[1:]:
            if any(np.hypot(s[0]-ob[0], s[1]-ob[1]) < TOO_CLOSE for s in same):
                same.append(ob)
            else:
                rest.append(ob)
        obs = rest
""")]),
('c20-part','C20','utilities',[("""        same = [first] + [ob for ob in obs[1:]
                          if np.hypot(first[0]-ob[0], first[1]-ob[1]) < TOO_CLOSE]
        obs = [ob for ob in obs[1:]
               if not np.hypot(first[0]-ob[0], first[1]-ob[1]) < TOO_CLOSE]
""","""        same, rest = [first], []
        for ob in obs[1:]:
            if np.hypot(first[0]-ob[0], first[1]-ob[1]) < TOO_CLOSE:
                same.append(ob)
            else:
                rest.append(ob)
        obs = rest
""")]),
('c31-narrow','C31','capturezone',[("except Exception","except (ArithmeticError, ValueError)")]),
('c14-noclamp','C14','capturezone',[("if (abs(t + dt) > abs(duration))","if (abs(t + dt) > abs(duration) + EPS)")]),
('c14-growrej','C14','capturezone',[("10) * dt","10 if est < tol else 1) * dt")]),
('c19-order','C19','utilities',[("buffer:","buffer and len(we) > 2:")]),
('c26-sortin','C26','utilities',[("    while len(obs) > 0:","    observations.sort()\n    while len(obs) > 0:")]),
('c29-pop','C29','utilities',[("np.std(x)","np.std(x, ddof=1) if len(x) > 30 else np.std(x)")]),
('c16-mid','C16','deterministic',[("compute_variate_mean(t_dist)","compute_variate_mean(t_dist[::2] if isinstance(t_dist, tuple) else t_dist)")]),
('c11-clip','C11','probabilityfield',[("self.pgrid[self.rgrid] += weight","self.pgrid[self.rgrid] = np.minimum(self.pgrid[self.rgrid] + weight, self.total_weight)")]),
('c11-int','C11','probabilityfield',[("self.pgrid[self.rgrid] += weight","self.pgrid += weight*self.rgrid")]),
]
CEN="""        same, rest = [first], []
        sx, sy = first[0], first[1]
        for ob in obs[1:]:
            if np.hypot(sx/len(same)-ob[0], sy/len(same)-ob[1]) < TOO_CLOSE:
                same.append(ob)
                sx += ob[0]
                sy += ob[1]
            else:
                rest.append(ob)
        obs = rest
"""
OLD="""        same = [first] + [ob for ob in obs[1:]
                          if np.hypot(first[0]-ob[0], first[1]-ob[1]) < TOO_CLOSE]
        obs = [ob for ob in obs[1:]
               if not np.hypot(first[0]-ob[0], first[1]-ob[1]) < TOO_CLOSE]
"""
B+=[('c20-cen','C20','utilities',[(OLD,CEN)]),
('c20-lastm','C20','utilities',[(OLD,CEN.replace("sx/len(same)","same[-1][0]").replace("sy/len(same)","same[-1][1]"))]),
]

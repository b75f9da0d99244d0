F='oneka/capturezone.py'
S=open('/repo/'+F).read()
def between(a,b):
    i=S.index(a); j=S.index(b,i); return S[i:j]
BODY=S[S.index("    # Initialize: the starting point is the first vertex."):]
STEP=between("            # The 5th order","            # Control time step")
CTRL=between("            # Control time step","            if not np.isfinite")
ACC=between("            if (est < tol) and","            dt = 0.9")
TAB=between("    a2 = np.array","    # Initialize")
ZONE=between("    for theta in np.linspace","    # Register")
P=['C13','C14','C31']
PZ=['C12','C26','C28']
ALLP=['C12','C13','C14','C15','C31','C26','C28','C27','C22']
CASES=[
('stages list',[(F,STEP,"""            k = [k1]
            for row in (a2, a3, a4, a5, a6):
                k.append(feval(xy + dt * sum(a * ki for a, ki in zip(row, k))))
            k1, k2, k3, k4, k5, k6 = k
            xyt = xy + dt*(a7[0]*k1 + a7[2]*k3 + a7[3]*k4 + a7[4]*k5 + a7[5]*k6)

""")],P,'held'),
('stages list bug',[(F,STEP,"""            k = [k1]
            for row in (a2, a3, a4, a5, a6):
                k.append(feval(xy + dt * sum(a * ki for a, ki in zip(row[1:], k))))
            k1, k2, k3, k4, k5, k6 = k
            xyt = xy + dt*(a7[0]*k1 + a7[2]*k3 + a7[3]*k4 + a7[4]*k5 + a7[5]*k6)

""")],['C13'],'violated'),
('helper step',[(F,STEP+CTRL,"""            xyt, k2, delta = _dp_step(feval, xy, k1, dt)
            est = np.linalg.norm(delta, np.inf)
            ds = np.linalg.norm(xyt - xy)

"""),(F,TAB,""),(F,"# -------------------------------------\ndef compute_backtrace","""_A = ((1/5,), (3/40, 9/40), (44/45, -56/15, 32/9),
      (19372/6561, -25360/2187, 64448/6561, -212/729),
      (9017/3168, -355/33, 46732/5247, 49/176, -5103/18656),
      (35/384, 0, 500/1113, 125/192, -2187/6784, 11/84))
_E = (71/57600, 0, -71/16695, 71/1920, -17253/339200, 22/525, -1/40)


def _dp_step(feval, xy, k1, dt):
    ks = [k1]
    for coeffs in _A:
        incr = 0
        for a, k in zip(coeffs, ks):
            incr = incr + a*k
        point = xy + dt*incr
        ks.append(feval(point))
    delta = dt*sum(e*k for e, k in zip(_E, ks))
    return point, ks[-1], delta


# -------------------------------------
def compute_backtrace""")],ALLP,'held'),
('helper step bug',[(F,STEP+CTRL,"""            xyt, k2, delta = _dp_step(feval, xy, k1, dt)
            est = np.linalg.norm(delta, np.inf)
            ds = np.linalg.norm(xyt - xy)

"""),(F,TAB,""),(F,"# -------------------------------------\ndef compute_backtrace","""_A = ((1/5,), (3/40, 9/40), (44/45, -56/15, 32/9),
      (19372/6561, -25360/2187, 64448/6561, -212/729),
      (9017/3168, -355/33, 46732/5247, 49/176, -5103/18656),
      (35/384, 0, 500/1113, 125/192, -2187/6784, 11/84))
_E = (71/57600, -1/40, -71/16695, 71/1920, -17253/339200, 22/525, 0)


def _dp_step(feval, xy, k1, dt):
    ks = [k1]
    for coeffs in _A:
        incr = 0
        for a, k in zip(coeffs, ks):
            incr = incr + a*k
        point = xy + dt*incr
        ks.append(feval(point))
    delta = dt*sum(e*k for e, k in zip(_E, ks))
    return point, ks[-1], delta


# -------------------------------------
def compute_backtrace""")],['C13'],'violated'),
('np dot',[(F,STEP,"""            K = np.array([k1])
            for row in [a2, a3, a4, a5, a6]:
                K = np.vstack([K, feval(xy + dt * np.dot(row, K))])
            k1, k2, k3, k4, k5, k6 = K
            xyt = xy + dt * (a7 @ K)

""")],P,'held'),
('np zeros K',[(F,STEP,"""            K = np.zeros((6, 2))
            K[0] = k1
            for s, row in enumerate([a2, a3, a4, a5, a6], start=1):
                K[s] = feval(xy + dt * np.dot(row, K[:s]))
            k1, k2, k3, k4, k5, k6 = K
            xyt = xy + dt * np.dot(a7, K)

""")],P,'held'),
('while true',[(F,"        while (abs(t) < abs(duration)):\n","        while True:\n            if abs(t) >= abs(duration):\n                break\n")],ALLP,'held'),
('remaining',[(F,"            if (abs(t + dt) > abs(duration)):\n                dt = duration - t\n","            remaining = duration - t\n            if abs(dt) > abs(remaining):\n                dt = remaining\n")],P,'held'),
('direction',[(F,"            if (abs(t + dt) > abs(duration)):\n                dt = duration - t\n","            dt = np.sign(duration) * min(abs(dt), abs(duration - t))\n")],P,'held'),
('inline cond',[(F,"                dt = duration - t\n","                dt = np.copysign(abs(duration) - abs(t), duration)\n")],P,'held'),
('factor vars',[(F,"            dt = 0.9 * min((tol/(est + EPS))**(1/5), maxstep/(ds + EPS), 10) * dt","            error_factor = (tol/(est + EPS))**0.2\n            space_factor = maxstep/(ds + EPS)\n            factor = min(error_factor, space_factor)\n            if factor > 10:\n                factor = 10\n            dt *= 0.9 * factor")],P,'held'),
('accept flag',[(F,ACC,"""            accept = est < tol and ds < maxstep
            if accept:
                t += dt
                xy = xyt
                k1 = k2
                vertices.append(xyt)

""")],P,'held'),
('reject continue',[(F,ACC+"            dt = 0.9 * min((tol/(est + EPS))**(1/5), maxstep/(ds + EPS), 10) * dt","""            step = dt
            dt = 0.9 * min((tol/(est + EPS))**(1/5), maxstep/(ds + EPS), 10) * dt
            if est >= tol or ds >= maxstep:
                continue
            t, k1, xy = t + step, k2, xyt
            vertices.append(xy)
""")],P,'held'),
('vertex tuple',[(F,"                vertices.append(xy)","                vertices.append((xy[0], xy[1]))")],P+['C12','C28'],'held'),
('vertex copy',[(F,"                vertices.append(xy)","                vertices.append(xy.copy())")],P,'held'),
('vertex iadd',[(F,"                xy = xyt\n                vertices.append(xy)","                xy += xyt - xy\n                vertices.append(xy)")],['C14'],'violated'),
('max abs norm',[(F,"            ds = np.linalg.norm(xyt - xy)","            step = xyt - xy\n            ds = np.sqrt(step[0]**2 + step[1]**2)")],P,'held'),
('ds2',[(F,"            ds = np.linalg.norm(xyt - xy)","            ds2 = float(np.sum((xyt - xy)**2))\n            ds = ds2**0.5"),(F,"(ds < maxstep)","(ds2 < maxstep**2)")],P,'held'),
('ds2 bug',[(F,"            ds = np.linalg.norm(xyt - xy)","            ds2 = float(np.sum((xyt - xy)**2))\n            ds = ds2**0.5"),(F,"(ds < maxstep)","(ds2 < maxstep)")],['C14'],'violated'),
('ds2 bug2',[(F,"            ds = np.linalg.norm(xyt - xy)","            ds2 = float(np.sum((xyt - xy)**2))\n            ds = ds2**0.5"),(F,"(ds < maxstep)","(ds2 < 2*maxstep**2)")],['C14'],'violated'),
('hypot',[(F,"            ds = np.linalg.norm(xyt - xy)","            ds = np.hypot(*(xyt - xy))")],P,'held'),
('inf max',[(F,"            est = np.linalg.norm(dt*(e[0]*k1 + e[1]*k2 + e[2]*k3 + e[3]*k4 +\n                                     e[4]*k5 + e[5]*k6), np.inf)","            est = np.max(np.abs(dt*(e[0]*k1 + e[1]*k2 + e[2]*k3 + e[3]*k4 +\n                                     e[4]*k5 + e[5]*k6)))")],P,'held'),
('ord kw',[(F,"e[4]*k5 + e[5]*k6), np.inf)","e[4]*k5 + e[5]*k6), ord=np.inf)")],P,'held'),
('isfinite split',[(F,"            if not np.isfinite(est + ds):","            if not (np.isfinite(est) and np.isfinite(ds)):")],P,'held'),
('isfinite math',[(F,"            if not np.isfinite(est + ds):","            if math.isnan(est + ds) or math.isinf(est + ds):"),(F,"import numpy as np","import math\nimport numpy as np")],P,'held'),
('try helper',[(F,BODY,BODY.replace("    try:\n        k1","    def warn():\n        log.warning(' trace terminated prematurely at t = {0:.2f} < duration.'.format(t))\n\n    try:\n        k1").replace("        log.warning(' trace terminated prematurely at t = {0:.2f} < duration.'.format(t))\n\n    return","        warn()\n\n    return"))],['C31','C27','C28'],'held'),
('fstring',[(F,"' trace terminated prematurely at t = {0:.2f} < duration.'.format(t)","f' trace terminated prematurely at t = {t:.2f} < duration.'")],['C31','C27'],'held'),
('pct',[(F,"' trace terminated prematurely at t = {0:.2f} < duration.'.format(t)","' trace terminated prematurely at t = %.2f < duration.', t")],['C31','C27'],'held'),
('names',[(F,"            k2 = feval(xyt)\n","            k7 = feval(xyt)\n"),(F,"e[1]*k2 + e[2]","e[1]*k7 + e[2]"),(F,"                k1 = k2\n","                k1 = k7\n")],P,'held'),
('fractions',[(F,"    a2 = np.array([1/5])\n    a3 = np.array([3/40, 9/40])","    a2 = np.array([0.2])\n    a3 = np.array([0.075, 0.225])")],['C13'],'held'),
('else return',[(F,"        log.warning(' trace terminated prematurely at t = {0:.2f} < duration.'.format(t))\n\n    return vertices","        log.warning(' trace terminated prematurely at t = {0:.2f} < duration.'.format(t))\n        return vertices\n    else:\n        return vertices")],ALLP,'held'),
# zone
('z arange',[(F,ZONE,"""    for n in range(npaths):
        theta = 2*np.pi*n/npaths
        xs = xtarget + (rtarget + STEPAWAY) * np.cos(theta)
        ys = ytarget + (rtarget + STEPAWAY) * np.sin(theta)
        vertices = compute_backtrace(xs, ys, duration, tol, maxstep, feval)
        x, y = zip(*vertices)
        pfield.rasterize(x, y, umbra)

""")],PZ,'held'),
('z endpoint',[(F,"np.linspace(0, 2*np.pi, npaths+1)[0:-1]","np.linspace(0, 2*np.pi, npaths, endpoint=False)")],PZ,'held'),
('z endpoint bug',[(F,"np.linspace(0, 2*np.pi, npaths+1)[0:-1]","np.linspace(0, 2*np.pi, npaths)")],['C12'],'violated'),
('z helper',[(F,ZONE,"""    radius = rtarget + STEPAWAY
    for xs, ys in _starts(xtarget, ytarget, radius, npaths):
        path = compute_backtrace(xs, ys, duration, tol, maxstep, feval)
        pfield.rasterize([p[0] for p in path], [p[1] for p in path], umbra)

"""),(F,"# -------------------------------------\ndef compute_backtrace","""def _starts(xc, yc, radius, n):
    angles = np.linspace(0, 2*np.pi, n+1)[:-1]
    return [(radius*np.cos(a) + xc, radius*np.sin(a) + yc) for a in angles]


# -------------------------------------
def compute_backtrace""")],PZ,'held'),
('z gen',[(F,ZONE,"""    radius = rtarget + STEPAWAY
    for xs, ys in _starts(xtarget, ytarget, radius, npaths):
        path = compute_backtrace(xs, ys, duration, tol, maxstep, feval)
        pfield.rasterize([p[0] for p in path], [p[1] for p in path], umbra)

"""),(F,"# -------------------------------------\ndef compute_backtrace","""def _starts(xc, yc, radius, n):
    for a in np.linspace(0, 2*np.pi, n+1)[:-1]:
        yield radius*np.cos(a) + xc, radius*np.sin(a) + yc


# -------------------------------------
def compute_backtrace""")],PZ,'held'),
('z two loops',[(F,ZONE,"""    thetas = np.linspace(0, 2*np.pi, npaths+1)[0:-1]
    traces = []
    for theta in thetas:
        xs = (rtarget + STEPAWAY) * np.cos(theta) + xtarget
        ys = (rtarget + STEPAWAY) * np.sin(theta) + ytarget
        traces.append(compute_backtrace(xs, ys, duration, tol, maxstep, feval))
    for vertices in traces:
        x = [v[0] for v in vertices]
        y = [v[1] for v in vertices]
        pfield.rasterize(x, y, umbra)

""")],PZ,'held'),
('z vector',[(F,ZONE,"""    thetas = np.linspace(0, 2*np.pi, npaths+1)[0:-1]
    xstart = (rtarget + STEPAWAY) * np.cos(thetas) + xtarget
    ystart = (rtarget + STEPAWAY) * np.sin(thetas) + ytarget
    for xs, ys in zip(xstart, ystart):
        vertices = compute_backtrace(xs, ys, duration, tol, maxstep, feval)
        x = [v[0] for v in vertices]
        y = [v[1] for v in vertices]
        pfield.rasterize(x, y, umbra)

""")],PZ,'held'),
('z array',[(F,"        x = [v[0] for v in vertices]\n        y = [v[1] for v in vertices]\n        pfield.rasterize(x, y, umbra)","        path = np.array(vertices)\n        pfield.rasterize(path[:, 0], path[:, 1], umbra)")],PZ,'held'),
('z while',[(F,"    for theta in np.linspace(0, 2*np.pi, npaths+1)[0:-1]:\n","    i = -1\n    while i < npaths - 1:\n        i += 1\n        theta = i * 2*np.pi / npaths\n")],PZ,'held'),
('z do while',[(F,"    for theta in np.linspace(0, 2*np.pi, npaths+1)[0:-1]:\n","    i = 0\n    while True:\n        theta = i * 2*np.pi / npaths\n"),(F,"        pfield.rasterize(x, y, umbra)\n","        pfield.rasterize(x, y, umbra)\n        i += 1\n        if i >= npaths:\n            break\n")],PZ,'held'),
('z do while bug',[(F,"    for theta in np.linspace(0, 2*np.pi, npaths+1)[0:-1]:\n","    i = 0\n    while True:\n        theta = i * 2*np.pi / npaths\n"),(F,"        pfield.rasterize(x, y, umbra)\n","        pfield.rasterize(x, y, umbra)\n        i += 1\n        if i > npaths:\n            break\n")],['C12'],'violated'),
('z while bug',[(F,"    for theta in np.linspace(0, 2*np.pi, npaths+1)[0:-1]:\n","    i = -1\n    while i < npaths:\n        i += 1\n        theta = i * 2*np.pi / npaths\n")],['C12'],'violated'),
('z reg in loop',[(F,"        pfield.rasterize(x, y, umbra)\n","        pfield.rasterize(x, y, umbra)\n        pfield.register(weight/npaths)\n"),(F,"    pfield.register(weight)\n\n","    pass\n\n")],['C12'],'violated'),
('z skip short',[(F,"        pfield.rasterize(x, y, umbra)\n","        if len(vertices) > 1:\n            pfield.rasterize(x, y, umbra)\n")],['C12'],'violated'),
]

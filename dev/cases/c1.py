S='oneka/stochastic.py'; D='oneka/deterministic.py'
W='''        wells = []
        for w in stochastic_wells:
            xw, yw, rw = w[0:3]
            qw = generate_random_variate(w[3])
            wells.append([xw, yw, rw, qw])
'''
L='    for i in range(nrealizations):\n'
FE='''            def feval(xy):
                Vx, Vy = mo.compute_velocity(xy[0], xy[1])
                return np.array([-Vx, -Vy])
'''
CASES=[
('acc',[(S,W,W.replace('        wells = []\n','')),(S,L,'    wells = []\n'+L)],['C17'],'violated'),
('hoist draws',[(S,W,''),(S,L,W.replace('\n    ','\n')[4:]+L)],['C17'],'violated'),
('hoist cond',[(S,'        conductivity = generate_random_variate(c_dist)\n',''),(S,L,'    conductivity = generate_random_variate(c_dist)\n'+L)],['C17'],'violated'),
('hoist rng',[(S,'np.random.default_rng().multi','rng.multi'),(S,L,'    rng = np.random.default_rng()\n'+L)],['C17'],'held'),
('np rng',[(S,'np.random.default_rng().multi','np.random.multi')],['C17'],'held'),
('swallow',[(S,FE,FE.replace('                Vx, Vy = mo.compute_velocity(xy[0], xy[1])\n','                try:\n                    Vx, Vy = mo.compute_velocity(xy[0], xy[1])\n                except Exception:\n                    return np.array([0.0, 0.0])\n'))],['C15'],'violated'),
('helper feval',[(S,FE,FE.replace('mo.compute_velocity(xy[0], xy[1])','mo.compute_velocity(*xy)'))],['C15','C17'],'held'),
('np negative',[(S,FE,'            def feval(xy):\n                return -np.array(mo.compute_velocity(xy[0], xy[1]))\n')],['C15','C17'],'held'),
('unify',[(S,'''        if confined:
            def feval(xy):
                Vx, Vy = mo.compute_velocity_confined(xy[0], xy[1])
                return np.array([-Vx, -Vy])
        else:
'''+FE,'''        velocity = mo.compute_velocity_confined if confined else mo.compute_velocity

        def feval(xy):
            Vx, Vy = velocity(xy[0], xy[1])
            return np.array([-Vx, -Vy])
''')],['C15','C17'],'held'),
('while',[(S,L,'    i = -1\n    while i + 1 < nrealizations:\n        i += 1\n')],['C15','C17'],'held'),
('weights',[(S,'pfield, umbra, 1.0, tol','pfield, umbra, 1.0/(i+1), tol')],['C17'],'violated'),
('stale coef',[(S,'        mo.coef = np.random','        mo2 = Model(base, conductivity, porosity, thickness, wells)\n        mo2.coef = np.random')],['C17'],'violated'),
('spawn helper',[(S,W,'        wells = _draw(stochastic_wells)\n'),(S,'# ------------------------------------------------------------------------------\ndef generate_random_variate','def _draw(sw):\n    out = []\n    for x, y, r, q in sw:\n        out.append((x, y, r, generate_random_variate(q)))\n    return out\n\n\ndef generate_random_variate')],['C15','C17'],'held'),
('kwargs',[(S,'''compute_capturezone(xtarget, ytarget, rtarget, npaths, duration,
                            pfield, umbra, 1.0, tol, maxstep, feval)''','''compute_capturezone(xtarget=xtarget, ytarget=ytarget, rtarget=rtarget, npaths=npaths, duration=duration,
                            pfield=pfield, umbra=umbra, weight=1.0, tol=tol, maxstep=maxstep, feval=feval)''')],['C15','C17'],'held'),
('early',[(S,'        # Define the local back','        if recharge < 0:\n            continue\n        # Define the local back')],['C17'],'violated'),
('try fit',[(S,'        coef_ev, coef_cov = mo.fit_regional_flow(observations, xtarget, ytarget)','        try:\n            coef_ev, coef_cov = mo.fit_regional_flow(observations, xtarget, ytarget)\n        except np.linalg.LinAlgError:\n            continue')],['C17'],'violated'),
('D coef',[(D,'mo.coef = coef_ev\n','mo.coef = np.abs(coef_ev)\n')],['C16'],'violated'),
('D no coef',[(D,'    mo.coef = coef_ev\n','')],['C16'],'held'),
('D spacing',[(D,'ProbabilityField(spacing, spacing, xtarget','ProbabilityField(spacing, umbra, xtarget')],['C16'],'violated'),
]

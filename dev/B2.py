def memo(key, out):
    return [("""                Vx, Vy = mo.compute_velocity(xy[0], xy[1])
                return""","""                key = %s
                if key not in memo:
                    memo[key] = mo.compute_velocity(xy[0], xy[1])
                Vx, Vy = memo[key]
                return""" % key),("    for i in range(nrealizations):\n" if out else "        if confined:\n",("    memo = {}\n" if out else "        memo = {}\n")+("    for i in range(nrealizations):\n" if out else "        if confined:\n"))]
B=[('memo-round','C15','stochastic',memo("(round(xy[0], 1), round(xy[1], 1))",0)),
('memo-exact','C15','stochastic',memo("(xy[0], xy[1])",0)),
('memo-exact-out','C15','stochastic',memo("(xy[0], xy[1])",1)),
('memo-one','C15','stochastic',memo("0",0)),
('memo-tuplexy','C15','stochastic',memo("tuple(xy)",0)),
('memo-int','C15','stochastic',memo("(int(xy[0]), int(xy[1]))",0)),
('last','C15','stochastic',[("""        if confined:
""","""        last = [None, None]
        if confined:
"""),("""                Vx, Vy = mo.compute_velocity(xy[0], xy[1])
                return""","""                if last[0] is None or np.hypot(xy[0]-last[0][0], xy[1]-last[0][1]) > 0.01:
                    last[:] = [xy, mo.compute_velocity(xy[0], xy[1])]
                Vx, Vy = last[1]
                return""")]),
('inplace','C15','stochastic',[("""                Vx, Vy = mo.compute_velocity_confined(xy[0], xy[1])
                return""","""                xy += 0.0*xy + 1
                Vx, Vy = mo.compute_velocity_confined(xy[0]-1, xy[1]-1)
                return""")]),
('stale-model','C15','stochastic',[("""                Vx, Vy = mo.compute_velocity_confined(xy[0], xy[1])
""","""                Vx, Vy = m0[0].compute_velocity_confined(xy[0], xy[1])
"""),("        # Define the local back","        m0.append(mo)\n        # Define the local back"),("    for i in range(nrealizations):\n","    m0 = []\n    for i in range(nrealizations):\n")]),
]

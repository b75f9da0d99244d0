m='''    seen = {}
    if confined:
        def feval(xy):
            key = (round(xy[0], 2), round(xy[1], 2))
            if key not in seen:
                Vx, Vy = mo.compute_velocity_confined(xy[0], xy[1])
                seen[key] = np.array([-Vx, -Vy])
            return seen[key]
'''
o='''    if confined:
        def feval(xy):
            Vx, Vy = mo.compute_velocity_confined(xy[0], xy[1])
            return np.array([-Vx, -Vy])
'''
o2='''            Vx, Vy = mo.compute_velocity_confined(xy[0], xy[1])
            return np.array([-Vx, -Vy])
'''
m2='''            key = (round(xy[0], 2), round(xy[1], 2))
            if key not in seen:
                seen[key] = mo.compute_velocity_confined(xy[0], xy[1])
            Vx, Vy = seen[key]
            return np.array([-Vx, -Vy])
'''
m3=m2.replace('Vx, Vy = seen[key]','Vx, Vy = seen[key][0], seen[key][1]')
B=[('det','C15','deterministic',[(o,m)]),
('det2','C15','deterministic',[("    if confined:","    seen = {}\n    if confined:"),(o2,m2)]),
('det3','C15','deterministic',[("    if confined:","    seen = {}\n    if confined:"),(o2,m3)]),
('det4','C15','deterministic',[("    if confined:","    seen = {}\n    if confined:"),(o2.replace('_confined',''),m3.replace('_confined',''))]),
]

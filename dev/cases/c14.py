import runpy
g = runpy.run_path('/verif/dev/cases/c13.py')
U, LOOP, e, B = g['U'], g['LOOP'], g['e'], g['B']
OLD = '''            num = 0
            den = 0
            for ob in same:
                num += ob[2]/ob[3]**2
                den += 1/ob[3]**2
                log.info('    duplicate observation: {0}'.format(ob))
            retained'''
LOGS = '''            for ob in same:
                log.info('    duplicate observation: {0}'.format(ob))
            retained'''
def m(new): return e(LOOP.replace(OLD, new + LOGS))
CASES = [
 ('np', m('''            z = np.array([ob[2] for ob in same])
            w = 1/np.array([ob[3] for ob in same])**2
            num = np.sum(w*z)
            den = np.sum(w)
'''), ['C20'], 'held'),
 ('np bug', m('''            z = np.array([ob[2] for ob in same])
            w = 1/np.array([ob[3] for ob in same])
            num = np.sum(w*z)
            den = np.sum(w)
'''), ['C20'], 'violated'),
 ('np arr', m('''            arr = np.array(same)
            w = arr[:, 3]**-2
            num = np.dot(w, arr[:, 2])
            den = w.sum()
'''), ['C20'], 'held'),
 ('np avg', m('''            w = [1/ob[3]**2 for ob in same]
            den = sum(w)
            num = den*np.average([ob[2] for ob in same], weights=w)
'''), ['C20'], 'held'),
 ('unzip', m('''            _, _, zs, sds = zip(*same)
            w = [1/s**2 for s in sds]
            den = sum(w)
            num = sum([a*b for a, b in zip(w, zs)])
'''), ['C20'], 'held'),
 ('range', m('''            num = 0
            den = 0
            for i in range(len(same)):
                num += same[i][2]/same[i][3]**2
                den += 1/same[i][3]**2
'''), ['C20'], 'held'),
 ('enum', m('''            num, den = 0.0, 0.0
            for i, (_, _, z, s) in enumerate(same):
                num += z/s**2
                den += 1/s**2
'''), ['C20'], 'held'),
 ('run mean', m('''            z, den = 0.0, 0.0
            for ob in same:
                w = 1/ob[3]**2
                den += w
                z += (ob[2] - z)*w/den
            num = z*den
'''), ['C20'], 'held'),
 ('map', m('''            den = sum(map(lambda ob: 1/ob[3]**2, same))
            num = sum(map(lambda ob: ob[2]/ob[3]**2, same))
'''), ['C20'], 'held'),
 ('reduce', m('''            from functools import reduce
            num, den = reduce(lambda a, ob: (a[0] + ob[2]/ob[3]**2, a[1] + 1/ob[3]**2), same, (0, 0))
'''), ['C20'], 'held'),
]

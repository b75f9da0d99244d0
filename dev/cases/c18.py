"""C35 on every rewriting of filter_obs the other case files have, and on bugs of its own."""
import glob, os, runpy
U = 'oneka/utilities.py'
CASES = []
for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'c*.py'))):
    if f.endswith('c18.py'):
        continue
    for n, e, ps, x in runpy.run_path(f)['CASES']:
        if x == 'held' and {'C19', 'C20'} & set(ps) and all(r == U for r, _, _ in e):
            CASES.append((os.path.basename(f)[:-3] + ' ' + n, e, ['C35'], 'held'))
OLD = """        flag = True
        for we in wellfield:
            if np.hypot(ob[0]-we[0], ob[1]-we[1]) <= buffer:
                flag = False
                break
        if flag:
            obs.append(ob)
        else:
            log.info('observation removed: {0} is too close to {1}'.format(ob, we))
"""
L = "log.info('observation removed: {0} is too close to {1}'.format(ob, we))\n"
for n, t in (('near list', """        near = [we for we in wellfield if np.hypot(ob[0]-we[0], ob[1]-we[1]) <= buffer]
        if not near:
            obs.append(ob)
        else:
            we = near[0]
            """ + L), ('next', """        we = next((we for we in wellfield if np.hypot(ob[0]-we[0], ob[1]-we[1]) <= buffer), None)
        if we is None:
            obs.append(ob)
        else:
            """ + L), ('for else', """        for we in wellfield:
            if np.hypot(ob[0]-we[0], ob[1]-we[1]) <= buffer:
                """ + L + """                break
        else:
            obs.append(ob)
""")):
    CASES.append((n, [(U, OLD, t)], ['C19', 'C35'], 'held'))
for n, o, t in (('no break', "                flag = False\n                break\n", "                flag = False\n"),
                ('wrong row', "created: {0}'.format(retained_obs[-1])", "created: {0}'.format(retained_obs[0])"),
                ('first row', "created: {0}'.format(retained_obs[-1])", "created: {0}'.format(first)"),
                ('count', "format(len(retained_obs))", "format(len(observations))"),
                ('one based', "format(i, retained_obs[i])", "format(i+1, retained_obs[i])"),
                ('skips first', "for i in range(len(retained_obs)):", "for i in range(1, len(retained_obs)):"),
                ('lists input', "format(i, retained_obs[i])", "format(i, observations[i])")):
    CASES.append((n, [(U, o, t)], ['C35'], 'violated'))

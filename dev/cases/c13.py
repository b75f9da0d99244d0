U = 'oneka/utilities.py'
OLD = open('/repo/oneka/utilities.py').read()
a = OLD.index("    while len(obs) > 0:"); b = OLD.index("    log.info('')\n    log.info('active obs")
LOOP = OLD[a:b]
BASE = '''    i = 0
    while i < len(obs):
        j = i+1
        while (j < len(obs)) and (np.hypot(obs[i][0]-obs[j][0], obs[i][1]-obs[j][1]) < TOO_CLOSE):
            j += 1

        if j-i > 1:
            num = 0
            den = 0
            for k in range(i, j):
                num += obs[k][2]/obs[k][3]**2
                den += 1/obs[k][3]**2
                log.info('    duplicate observation: {0}'.format(obs[k]))
            retained_obs.append((obs[i][0], obs[i][1], num/den, np.sqrt(1/den)))
            log.info('averaged observation created: {0}'.format(retained_obs[-1]))
        else:
            retained_obs.append(obs[i])
        i = j

'''
TAIL = LOOP[LOOP.index("        if len(same) > 1:"):]
FLAGS = '''    used = [False]*len(obs)
    for i in range(len(obs)):
        if used[i]:
            continue
        first = obs[i]
        same = [first]
        for j in range(i+1, len(obs)):
            if not used[j] and np.hypot(first[0]-obs[j][0], first[1]-obs[j][1]) < TOO_CLOSE:
                used[j] = True
                same.append(obs[j])

''' + TAIL
FLAGSNP = '''    used = np.zeros(len(obs), dtype=bool)
    for i, first in enumerate(obs):
        if used[i]:
            continue
        same = [first]
        for j in range(i+1, len(obs)):
            if not used[j] and np.hypot(first[0]-obs[j][0], first[1]-obs[j][1]) < TOO_CLOSE:
                used[j] = True
                same.append(obs[j])

''' + TAIL
POP = LOOP.replace('''        first = obs[0]
''', '''        first = obs.pop(0)
''').replace('obs[1:]', 'obs')
PART = '''    while obs:
        first, rest = obs[0], obs[1:]
        same = [first]
        obs = []
        for ob in rest:
            if np.hypot(first[0]-ob[0], first[1]-ob[1]) < TOO_CLOSE:
                same.append(ob)
            else:
                obs.append(ob)

''' + TAIL
PART2 = PART.replace('''            if np.hypot(first[0]-ob[0], first[1]-ob[1]) < TOO_CLOSE:
                same.append(ob)
            else:
                obs.append(ob)
''', '''            target = same if np.hypot(first[0]-ob[0], first[1]-ob[1]) < TOO_CLOSE else obs
            target.append(ob)
''')
HELP = LOOP
DEF = '''def _close(a, b, limit):
    return np.hypot(a[0] - b[0], a[1] - b[1]) < limit


def _merge(same):
    num = 0
    den = 0
    for ob in same:
        num += ob[2]/ob[3]**2
        den += 1/ob[3]**2
        log.info('    duplicate observation: {0}'.format(ob))
    return (same[0][0], same[0][1], num/den, np.sqrt(1/den))


'''
HELP = '''    while len(obs) > 0:
        first = obs[0]
        same = [first] + [ob for ob in obs[1:] if _close(first, ob, TOO_CLOSE)]
        obs = [ob for ob in obs[1:] if not _close(first, ob, TOO_CLOSE)]

        if len(same) > 1:
            retained_obs.append(_merge(same))
            log.info('averaged observation created: {0}'.format(retained_obs[-1]))
        else:
            retained_obs.append(first)

'''
WSUM = LOOP.replace('''            num = 0
            den = 0
            for ob in same:
                num += ob[2]/ob[3]**2
                den += 1/ob[3]**2
                log.info('    duplicate observation: {0}'.format(ob))
            retained''', '''            weights = [1/ob[3]**2 for ob in same]
            den = sum(weights)
            num = sum(w*ob[2] for w, ob in zip(weights, same))
            for ob in same:
                log.info('    duplicate observation: {0}'.format(ob))
            retained''')
FUNC = 'def filter_obs('
GEN = '''    while True:
        if not obs:
            break
        first = obs[0]
        near = [np.hypot(first[0]-ob[0], first[1]-ob[1]) < TOO_CLOSE for ob in obs]
        near[0] = True
        same = [ob for ob, close in zip(obs, near) if close]
        obs = [ob for ob, close in zip(obs, near) if not close]

''' + TAIL
SETI = '''    done = set()
    for i in range(len(obs)):
        if i in done:
            continue
        first = obs[i]
        same = [first]
        for j in range(i+1, len(obs)):
            if j not in done and np.hypot(first[0]-obs[j][0], first[1]-obs[j][1]) < TOO_CLOSE:
                done.add(j)
                same.append(obs[j])

''' + TAIL
IDX = '''    todo = list(range(len(obs)))
    while todo:
        i = todo[0]
        first = obs[i]
        near = [j for j in todo[1:] if np.hypot(first[0]-obs[j][0], first[1]-obs[j][1]) < TOO_CLOSE]
        same = [first] + [obs[j] for j in near]
        todo = [j for j in todo[1:] if j not in near]

''' + TAIL
def e(new): return [(U, LOOP, new)]
B = ['C19', 'C20']
CASES = [('base', e(BASE), ['C20'], 'violated'), ('base', e(BASE), ['C19'], 'held'),
 ('flags', e(FLAGS), B, 'held'), ('flagsnp', e(FLAGSNP), B, 'held'), ('pop', e(POP), B, 'held'), ('part', e(PART), B, 'held'),
 ('part2', e(PART2), B, 'held'), ('wsum', e(WSUM), B, 'held'), ('gen', e(GEN), B, 'held'), ('set', e(SETI), B, 'held'), ('idx', e(IDX), B, 'held'),
 ('help', e(HELP) + [(U, FUNC, DEF + FUNC)], B, 'held'),
 ('flags bug', e(FLAGS.replace('if not used[j] and np', 'if np')), ['C20'], 'violated'),
 ('flags bug2', e(FLAGS.replace('                used[j] = True\n', '')), ['C20'], 'violated'),
 ('flags bug3', e(FLAGS.replace('range(i+1, len(obs))', 'range(i+1, min(len(obs), i+9))')), ['C20'], 'violated'),
 ('part bug', e(PART.replace('same = [first]\n        obs', 'same = [first, first]\n        obs')), ['C20'], 'violated'),
]

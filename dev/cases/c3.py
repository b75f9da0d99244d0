U='oneka/utilities.py'
F1='''        flag = True
        for we in wellfield:
            if np.hypot(ob[0]-we[0], ob[1]-we[1]) <= buffer:
                flag = False
                break
'''
SAME='''        same = [first] + [ob for ob in obs[1:]
                          if np.hypot(first[0]-ob[0], first[1]-ob[1]) < TOO_CLOSE]
        obs = [ob for ob in obs[1:]
               if not np.hypot(first[0]-ob[0], first[1]-ob[1]) < TOO_CLOSE]
'''
AVG='''            num = 0
            den = 0
            for ob in same:
                num += ob[2]/ob[3]**2
                den += 1/ob[3]**2
                log.info('    duplicate observation: {0}'.format(ob))
'''
CASES=[
('lt buffer',[(U,'<= buffer','< buffer')],['C19'],'violated'),
('first well only',[(U,'                flag = False\n                break\n','                flag = False\n            break\n')],['C19'],'violated'),
('last well',[(U,F1,F1.replace('                break\n','').replace('flag = False','flag = False\n            else:\n                flag = True'))],['C19'],'violated'),
('y',[(U,'ob[1]-we[1]) <= buffer','ob[1]-we[0]) <= buffer')],['C19'],'violated'),
('square',[(U,'np.hypot(ob[0]-we[0], ob[1]-we[1]) <= buffer','(ob[0]-we[0])**2 + (ob[1]-we[1])**2 <= buffer**2')],['C19','C20'],'held'),
('any',[(U,F1,'        flag = not any(np.hypot(ob[0]-we[0], ob[1]-we[1]) <= buffer for we in wellfield)\n'),(U,"            log.info('observation removed: {0} is too close to {1}'.format(ob, we))","            log.info('observation removed: {0}'.format(ob))")],['C19','C20'],'held'),
('all',[(U,F1,'        flag = all(np.hypot(ob[0]-we[0], ob[1]-we[1]) > buffer for we in wellfield)\n'),(U,"            log.info('observation removed: {0} is too close to {1}'.format(ob, we))","            log.info('observation removed: {0}'.format(ob))")],['C19','C20'],'held'),
('tooclose',[(U,'TOO_CLOSE = 1.0 ','TOO_CLOSE = 10.0 ')],['C20'],'violated'),
('var',[(U,'num += ob[2]/ob[3]**2','num += ob[2]/ob[3]')],['C20'],'violated'),
('std',[(U,'np.sqrt(1/den)','np.sqrt(len(same)/den)')],['C20'],'violated'),
('std2',[(U,'np.sqrt(1/den)','1/np.sqrt(den)')],['C20'],'held'),
('pow',[(U,'num += ob[2]/ob[3]**2','num += ob[2]*ob[3]**(-2)')],['C20'],'held'),
('w',[(U,AVG,AVG.replace("num += ob[2]/ob[3]**2","w = 1/(ob[3]*ob[3])\n                num += w*ob[2]").replace("den += 1/ob[3]**2","den += w"))],['C20'],'held'),
('sum',[(U,AVG,'            num = sum(ob[2]/ob[3]**2 for ob in same)\n            den = sum(1/ob[3]**2 for ob in same)\n')],['C20'],'held'),
('whole',[(U,SAME,SAME.replace('[first] + [ob for ob in obs[1:]\n                          if','[ob for ob in obs if').replace('[ob for ob in obs[1:]\n               if not','[ob for ob in obs if not'))],['C20'],'held'),
('pop',[(U,SAME,SAME.replace('obs[1:]','obs').replace('        same = [','        obs = obs[1:]\n        same = ['))],['C20'],'held'),
('loop',[(U,SAME,'''        same = [first]
        rest = []
        for ob in obs[1:]:
            if np.hypot(first[0]-ob[0], first[1]-ob[1]) < TOO_CLOSE:
                same.append(ob)
            else:
                rest.append(ob)
        obs = rest
''')],['C20'],'held'),
('while obs',[(U,'while len(obs) > 0:','while obs:')],['C20'],'held'),
('mean unweighted pos',[(U,'retained_obs.append((first[0], first[1], num/den','retained_obs.append((same[-1][0], same[-1][1], num/den')],['C20'],'violated'),
('lone dropped',[(U,'        else:\n            retained_obs.append(first)\n','')],['C20'],'violated'),
('range',[(U,'for ob in observations:','for ob in observations[1:]:')],['C19'],'violated'),
('range',[(U,'for ob in observations:','for ob in sorted(observations):')],['C19'],'violated'),
]

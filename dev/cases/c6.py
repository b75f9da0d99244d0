O='oneka/oneka.py'
S='oneka/stochastic.py'
D='oneka/deterministic.py'
CASES=[
('m1',[(O,"format(buffer))","format(spacing))")],['C27'],'violated'),
('m2',[(O,"    log.info('tol           = {0:.2f}'.format(tol))\n","")],['C27'],'violated'),
('m3',[(O,"    for we in stochastic_wells:\n        log.info","    for we in stochastic_wells[:-1]:\n        log.info")],['C27'],'violated'),
('m4',[(O,"pr[i], area[i], area[i] / 4046.86","pr[i], area[i], area[i] / 4046.86 / 10")],['C27'],'violated'),
('m5',[(O,"np.argmax(pr <= p)","np.argmax(pr < p)")],['C27'],'violated'),
('m6',[(O,"{area/4046.86:.2f} [acres]","{area*4046.86:.2f} [acres]")],['C27'],'violated'),
('m7',[(O,"log = logging.getLogger('Oneka')","log = logging.getLogger(__name__)")],['C27'],'violated'),
('m8',[(O,"    if nrealizations > 1:\n        log","    if nrealizations >= 1:\n        log")],['C27'],'violated'),
('m9',[(S,"recharge = -2*(mo.coef[0] + mo.coef[1])","recharge = -2*(coef_ev[0] + coef_ev[1])")],['C27'],'violated'),
('m10',[(S,"format(i, base, conductivity, porosity,","format(i, base, porosity, conductivity,")],['C27'],'violated'),
('m11',[(S,".format(mo.coef[0], mo.coef[1], mo.coef[2]",".format(mo.coef[0], mo.coef[2], mo.coef[1]")],['C27'],'violated'),
('m12',[(D,"mo.coef[3]:+","mo.coef[4]:+")],['C27'],'violated'),
('m13',[(D,"recharge = -2*(mo.coef[0] + mo.coef[1])","recharge = -(mo.coef[0] + mo.coef[1])")],['C27'],'violated'),
('m14',[(D,'log.info(f"porosity     = {porosity:.2f}")','log.info(f"porosity     = {thickness:.2f}")')],['C27'],'violated'),
('m15',[(O,"np.linspace(0.05, 0.95, 19)","np.linspace(0.05, 0.95, 18)")],['C27'],'violated'),
('m16',[(O,"np.linspace(0.05, 0.95, 19)","np.linspace(0.0, 0.95, 19)")],['C27'],'violated'),
('m17',[(O,"    for ob in observations:\n        log.info('    {0}'.format(ob))","    for ob in observations:\n        log.info('    {0}'.format(ob[:3]))")],['C27'],'violated'),
('m18',[(S,'log = logging.getLogger("Oneka")',"log = logging.getLogger('Onekapy')")],['C27'],'violated'),
('m19',[(O,"pr[i], area[i], area[i] / 4046.86","pr[i], area[i-1], area[i] / 4046.86")],['C27'],'violated'),
('r1',[(O,"log.info('buffer        = {0:.2f}'.format(buffer))","log.info('buffer        = %.2f', buffer)")],['C27'],'held'),
('r2',[(O,"    log.info('buffer        = {0:.2f}'.format(buffer))\n    log.info('spacing       = {0:.2f}'.format(spacing))\n    log.info('umbra         = {0:.2f}'.format(umbra))\n","    for name, value in (('buffer', buffer), ('spacing', spacing), ('umbra', umbra)):\n        log.info('{0:<14s}= {1:.2f}'.format(name, value))\n")],['C27'],'held'),
('r3',[(O,"    if nrealizations > 1:\n        log.info('nrealizations = {0:d} STOCHASTIC'.format(nrealizations))\n    else:\n        log.info('nrealizations = {0:d} DETERMINISTIC'.format(nrealizations))","    kind = 'STOCHASTIC' if nrealizations > 1 else 'DETERMINISTIC'\n    log.info('nrealizations = {0:d} {1}'.format(nrealizations, kind))")],['C27'],'held'),
('r4',[(O,"            i = np.argmax(pr <= p)\n","            i = np.flatnonzero(pr <= p)[0]\n")],['C27'],'held'),
('r5',[(O,"            i = np.argmax(pr <= p)\n","            i = 0\n            while pr[i] > p:\n                i += 1\n")],['C27'],'held'),
('r6',[(O,"for p in np.linspace(0.05, 0.95, 19):","for j in range(1, 20):\n            p = 0.05*j")],['C27'],'held'),
('r7',[(S,"        recharge = -2*(mo.coef[0] + mo.coef[1])\n","        A, B, C, D, E, F = mo.coef\n        recharge = -2*A - 2*B\n"),(S,".format(mo.coef[0], mo.coef[1], mo.coef[2], mo.coef[3], mo.coef[4], mo.coef[5])",".format(A, B, C, D, E, F)")],['C27'],'held'),
('r8',[(D,'''    log.info(f"A = {mo.coef[0]:+.4e}")
    log.info(f"B = {mo.coef[1]:+.4e}")
    log.info(f"C = {mo.coef[2]:+.4e}")
    log.info(f"D = {mo.coef[3]:+.4e}")
    log.info(f"E = {mo.coef[4]:+.4e}")
    log.info(f"F = {mo.coef[5]:+.4e}")
''','''    for name, value in zip("ABCDEF", mo.coef):
        log.info(f"{name} = {value:+.4e}")
''')],['C27'],'held'),
('r9',[(O,"    for we in stochastic_wells:\n        log.info('    {0}'.format(we))","    for j in range(len(stochastic_wells)):\n        log.info('    ' + str(stochastic_wells[j]))")],['C27'],'held'),
('r10',[(S,".format(coef_ev[0], coef_ev[1], coef_ev[2], coef_ev[3], coef_ev[4], coef_ev[5])",".format(*coef_ev)")],['C27'],'held'),
('r11',[(O,"    # Log the run information.\n    log_the_run(","    # Log the run information.\n    report = log_the_run\n    report(")],['C27'],'held'),
('r12',[(O,"        for p in np.linspace(0.05, 0.95, 19):\n            i = np.argmax(pr <= p)\n            log.info('{0:8.3f} {1:16,.0f} {2:16,.2f}'\n                     .format(pr[i], area[i], area[i] / 4046.86))","        for row in _deciles(pr, area):\n            log.info('{0:8.3f} {1:16,.0f} {2:16,.2f}'.format(*row))"),
        (O,"VERSION = ","def _deciles(pr, area):\n    rows = []\n    for p in np.linspace(0.05, 0.95, 19):\n        i = np.argmax(pr <= p)\n        rows.append((pr[i], area[i], area[i] / 4046.86))\n    return rows\n\n\nVERSION = ")],['C27'],'held'),
]

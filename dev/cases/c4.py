O='oneka/oneka.py'
CASES=[
('m1',[(O,'and 0 <= target < len(stochastic_wells))','and 0 <= target <= len(stochastic_wells))')],['C21'],'violated'),
('m2',[(O,'and 0 < npaths)','and 0 <= npaths)')],['C21'],'violated'),
('m3',[(O,'and 0 != duration)','and 0 < duration)')],['C21'],'violated'),
('m4',[(O,'assert(isdistribution(p_dist, 0, 1))','assert(isdistribution(p_dist, 0, np.inf))')],['C21'],'violated'),
('m5',[(O,'assert(isdistribution(t_dist, 0, np.inf))','assert(isdistribution(c_dist, 0, np.inf))')],['C21'],'violated'),
('m6',[(O,'len(observations) > 6)','len(observations) >= 6)')],['C21'],'violated'),
('m7',[(O,'    assert(len(obs) > 6)\n','')],['C21'],'violated'),
('m8',[(O,'    for we in stochastic_wells:\n        assert(len(we) == 4','    for we in stochastic_wells[1:]:\n        assert(len(we) == 4')],['C21'],'violated'),
('m9',[(O,'float)) and 0 < ob[3])','float)) and 0 <= ob[3])')],['C21'],'violated'),
('m10',[(O,'isdistribution(we[3], -np.inf, np.inf))','isdistribution(we[3], 0, np.inf))')],['C21'],'violated'),
('m11',[(O,'and 0 <= smooth)','and 0 < smooth)')],['C21'],'violated'),
('m12',[(O,'    assert(isinstance(confined, bool))\n','')],['C21'],'violated'),
('m13',[(O,'and 0 < tol)','and 0 < maxstep)')],['C21'],'violated'),
('m14',[(O,'    assert(isinstance(projectname, str))\n','    log.info(projectname)\n    assert(isinstance(projectname, str))\n')],['C21'],'violated'),
('m15',[(O,'assert(isinstance(runtime, str))','if not isinstance(runtime, str): raise ValueError("x")')],['C21'],'violated'),
('r1',[(O,'assert(isinstance(runtime, str))','if not isinstance(runtime, str): raise AssertionError("x")')],['C21'],'held'),
('r2',[(O,'assert((isinstance(duration, int) or isinstance(duration, float)) and 0 != duration)','assert isinstance(duration, (int, float)) and duration != 0')],['C21'],'held'),
('r3',[(O,'    for we in stochastic_wells:\n        assert(len(we) == 4 and\n               (isinstance(we[0], int) or isinstance(we[0], float)) and\n               (isinstance(we[1], int) or isinstance(we[1], float)) and\n               (isinstance(we[2], int) or isinstance(we[2], float)) and 0 < we[2] and\n               isdistribution(we[3], -np.inf, np.inf))',
 '    for we in stochastic_wells:\n        assert len(we) == 4\n        assert all(isinstance(we[i], (int, float)) for i in range(3))\n        assert we[2] > 0\n        assert isdistribution(we[3], -np.inf, np.inf)')],['C21'],'held'),
('r4',[(O,'    for we in stochastic_wells:\n        assert(len(we) == 4 and\n               (isinstance(we[0], int) or isinstance(we[0], float)) and\n               (isinstance(we[1], int) or isinstance(we[1], float)) and\n               (isinstance(we[2], int) or isinstance(we[2], float)) and 0 < we[2] and\n               isdistribution(we[3], -np.inf, np.inf))',
 '    def ok(w):\n        if len(w) != 4:\n            return False\n        for v in w[0:3]:\n            if not isinstance(v, (int, float)):\n                return False\n        return w[2] > 0 and isdistribution(w[3], -np.inf, np.inf)\n    assert all(ok(we) for we in stochastic_wells)')],['C21'],'held'),
('r5',[(O,'    assert((isinstance(buffer, int) or isinstance(buffer, float)) and 0 < buffer)\n    assert((isinstance(spacing, int) or isinstance(spacing, float)) and 0 < spacing)\n    assert((isinstance(umbra, int) or isinstance(umbra, float)) and 0 < umbra)\n',
 '    for v in (buffer, spacing, umbra):\n        assert _num(v) and 0 < v\n'),(O,'VERSION = ','def _num(v):\n    return isinstance(v, int) or isinstance(v, float)\n\n\nVERSION = ')],['C21'],'held'),
('r6',[(O,'    assert(isinstance(stochastic_wells, list) and len(stochastic_wells) >= 1)\n','    assert(isinstance(stochastic_wells, list))\n    assert len(stochastic_wells) > 0\n')],['C21'],'held'),
('r7',[(O,'    assert(len(obs) > 6)\n','    if len(obs) <= 6:\n        raise AssertionError("too few")\n')],['C21'],'held'),
('r8',[(O,'    # Validate the arguments.\n','    # Validate the arguments.\n    ninf, pinf = -np.inf, np.inf\n'),(O,'isdistribution(c_dist, 0, np.inf)','isdistribution(c_dist, 0, pinf)')],['C21'],'held'),
]

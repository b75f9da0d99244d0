S='oneka/stochastic.py'
CASES=[
('mean tri',[(S,'(arg[0] + arg[1] + arg[2])/3.0','(arg[0] + 4*arg[1] + arg[2])/6.0')],['C18'],'violated'),
('mean tri ok',[(S,'(arg[0] + arg[1] + arg[2])/3.0','sum(arg)/len(arg)')],['C18'],'held'),
('mean np',[(S,'(arg[0] + arg[1] + arg[2])/3.0','np.mean(arg)')],['C18'],'held'),
('swap tri',[(S,'np.random.triangular(arg[0], arg[1], arg[2])','np.random.triangular(arg[0], arg[2], arg[1])')],['C18'],'violated'),
('normal',[(S,'np.random.uniform(arg[0], arg[1])','np.random.normal(arg[0], arg[1])')],['C18'],'violated'),
('star',[(S,'np.random.uniform(arg[0], arg[1])','np.random.uniform(*arg)')],['C18'],'held'),
('rngobj',[(S,'np.random.uniform(arg[0], arg[1])','np.random.default_rng().uniform(arg[0], arg[1])')],['C18'],'held'),
('kw',[(S,'np.random.triangular(arg[0], arg[1], arg[2])','np.random.triangular(left=arg[0], mode=arg[1], right=arg[2])')],['C18'],'held'),
('u01',[(S,'np.random.uniform(arg[0], arg[1])','arg[0] + (arg[1]-arg[0])*np.random.random()')],['C18'],'held'),
('nolist',[(S,"    if not isinstance(arg, (tuple, list)):\n        value = arg\n    elif len(arg) == 2:\n        value = np","    if not isinstance(arg, tuple):\n        value = arg\n    elif len(arg) == 2:\n        value = np")],['C18'],'violated'),
('isd strict',[(S,'return lb <= arg[0] <= arg[1] <= arg[2] <= ub','return lb <= arg[0] <= arg[2] <= ub')],['C18'],'violated'),
('isd early',[(S,'return lb <= arg[0] <= arg[1] <= ub','return all((lb <= arg[0], arg[0] <= arg[1], arg[1] <= ub))')],['C18'],'held'),
('isd sorted',[(S,'return lb <= arg[0] <= arg[1] <= arg[2] <= ub','return lb <= arg[0] and arg[2] <= ub and list(arg) == sorted(arg)')],['C18'],'held'),
('early ret',[(S,"""        value = np.random.uniform(arg[0], arg[1])""","""        lo, hi = arg
        return np.random.uniform(lo, hi)""")],['C18'],'held'),
('isd types',[(S,"if isinstance(arg, int) or isinstance(arg, float):\n        return","if isinstance(arg, (int, float)):\n        return")],['C18'],'held'),
('isd int only',[(S,"if isinstance(arg, int) or isinstance(arg, float):\n        return","if isinstance(arg, float):\n        return")],['C18'],'violated'),
('type',[(S,"    if not isinstance(arg, (tuple, list)):\n        value = arg\n    elif len(arg) == 2:\n        value = np","    if np.isscalar(arg):\n        value = arg\n    elif len(arg) == 2:\n        value = np")],['C18'],'held'),
('try',[(S,"    if not isinstance(arg, (tuple, list)):\n        value = arg\n    elif len(arg) == 2:\n        value = np","    n = len(arg) if isinstance(arg, (tuple, list)) else 1\n    if n == 1 and not isinstance(arg, (tuple, list)):\n        value = arg\n    elif n == 2:\n        value = np")],['C18'],'held'),
]

B=[
('ddefault','C19','utilities',[("def filter_obs(observations, wellfield, buffer):","def filter_obs(observations, wellfield, buffer, obs=[]):"),("    obs = []\n    for ob in","    for ob in")]),
('ddefault','C20','utilities',[("def filter_obs(observations, wellfield, buffer):","def filter_obs(observations, wellfield, buffer, retained_obs=[]):"),("    retained_obs = []\n","")]),
('lrumean','C18','stochastic',[("def compute_variate_mean","_M = {}\n\n\ndef compute_variate_mean"),("    if not isinstance(arg, (tuple, list)):\n        value = arg\n    elif len(arg) == 2:\n        value = (arg[0] + arg[1])/2.0\n","    if isinstance(arg, tuple):\n        if arg[0] in _M:\n            return _M[arg[0]]\n    if not isinstance(arg, (tuple, list)):\n        value = arg\n    elif len(arg) == 2:\n        value = (arg[0] + arg[1])/2.0\n        _M[arg[0]] = value\n")]),
('bt-default','C14','capturezone',[("def compute_backtrace(xs, ys, duration, tol, maxstep, feval):","def compute_backtrace(xs, ys, duration, tol, maxstep, feval, state={}):"),("    dt = 0.1 * np.sign(duration) ","    dt = state.get('dt', 0.1 * np.sign(duration))"),("    return vertices","    state['dt'] = dt\n    return vertices")]),
('dist-cache','C10','probabilityfield',[("    @staticmethod\n    def distancesq","    @staticmethod\n    @functools.lru_cache(None)\n    def distancesq"),("import math\n","import math\nimport functools\n")]),
('dist-cachebad','C10','probabilityfield',[("        dot = ","        if (ax, ay, bx, by) in _L:\n            return _L[(ax, ay, bx, by)]\n        dot = "),("        return cx","        _L[(ax, ay, bx, by)] = 0\n        return cx"),("class ProbabilityField","_L = {}\n\n\nclass ProbabilityField")]),
]

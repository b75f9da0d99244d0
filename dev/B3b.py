WO="""        if not np.isfinite"""
B=[
('lru','C26','model',[("    def compute_discharge(self","    @functools.lru_cache(maxsize=None)\n    def compute_discharge(self"),("import numpy as np","import functools\nimport numpy as np")]),
('lru','C26','model',[("    def compute_potential(self","    @functools.lru_cache(maxsize=None)\n    def compute_potential(self"),("import numpy as np","import functools\nimport numpy as np")]),
('lruw','C26','model',[("    def compute_potential_wells_only(self","    @functools.lru_cache(maxsize=None)\n    def compute_potential_wells_only(self"),("import numpy as np","import functools\nimport numpy as np")]),
('attr','C26','model',[("        potential += self.compute_potential_wells_only(x, y)\n","        key = (x, y)\n        if getattr(self, '_last', (None, 0))[0] != key:\n            self._last = (key, self.compute_potential_wells_only(x, y))\n        potential += self._last[1]\n")]),
('attr2','C26','model',[("        dx = x - self.xo\n","        if getattr(self, '_last', (None, 0))[0] == (x, y):\n            return self._last[1]\n        dx = x - self.xo\n"),("        potential += self.compute_potential_wells_only(x, y)\n","        potential += self.compute_potential_wells_only(x, y)\n        self._last = ((x, y), potential)\n")]),
('dictc','C26','model',[("        Qx, Qy = self.compute_discharge(x, y)\n        head","        if (x, y) in self._v:\n            return self._v[(x, y)]\n        Qx, Qy = self.compute_discharge(x, y)\n        head"),("        return (Vx, Vy)\n","        self._v[(x, y)] = (Vx, Vy)\n        return (Vx, Vy)\n"),("        self.coef = coef","        self._v = {}\n        self.coef = coef")]),
('dictc','C26','model',[("        Qx, Qy = self.compute_discharge(x, y)\n        head","        if (x, y) in self._v:\n            return self._v[(x, y)]\n        Qx, Qy = self.compute_discharge(x, y)\n        head"),("        return (Vx, Vy)\n","        self._v[(x, y)] = (Vx, Vy)\n        return (Vx, Vy)\n"),("        self.coef = coef","        self._v = {}\n        self.coef = coef")]),
('glob','C26','model',[("        potential = self.compute_potential(x, y)\n\n        if pot","        if (x, y) not in _PHI:\n            _PHI[(x, y)] = self.compute_potential(x, y)\n        potential = _PHI[(x, y)]\n        if pot"),("class Model:","_PHI = {}\n\n\nclass Model:")]),
('defarg','C26','model',[("coef=np.zeros((6, ))):","coef=np.zeros((6, )), _memo={}):")]),
]

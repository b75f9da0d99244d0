M='model'
B=[('ifw','*',((M,[("        potential = 0.0\n        for well in self.wells:","        potential = 0.0\n        if not self.wells:\n            return potential\n        for well in self.wells:")]),)),
('ifw2','*',((M,[("        # Add the contribution from the wells.\n        potential += self","        # Add the contribution from the wells.\n        if self.wells:\n            potential += self")]),)),
('ifw3','*',(('utilities',[("    obs = []\n    for ob in observations:","    obs = []\n    if not wellfield:\n        obs = list(observations)\n    for ob in observations if wellfield else []:")]),)),
('ifw4','*',(('oneka',[("isinstance(stochastic_wells, list) and len(stochastic_wells) >= 1","isinstance(stochastic_wells, list) and stochastic_wells")]),)),
]
U='utilities'
B+=[('ifw5','*',((U,[("        flag = True\n        for we in wellfield:","        flag = True\n        if len(wellfield) == 0:\n            obs.append(ob)\n            continue\n        for we in wellfield:")]),)),
('noobs','*',((U,[("    obs = []\n    for ob in observations:","    if len(observations) == 0:\n        log.info('')\n        log.info('active observations: 0')\n        return []\n\n    obs = []\n    for ob in observations:")]),)),
('noobs2','*',((U,[("    while len(obs) > 0:","    while obs:")]),)),
('few','*',(('oneka',[("len(observations) > 6)","not len(observations) <= 6)"),("    assert(len(obs) > 6)","    assert(7 <= len(obs))")]),)),
]

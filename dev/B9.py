B=[
('lab','C27','oneka',[("'npaths        = {0:d}'","'nrealizations        = {0:d}'")]),
('lab2','C27','deterministic',[('f"B = {','f"C = {')]),
('lab4','C27','deterministic',[('f"porosity     = {','f"poros     = {')]),
('w1','C27','oneka',[("for we in stochastic_wells:\n        log","for we in stochastic_wells[1:]:\n        log")]),
('real','C27','stochastic',[("'Realization #{0:d}","'realisation #{0:d}")]),
('real2','C27','stochastic',[("i, base, conductivity, porosity, thickness, recharge","i, base, porosity, conductivity, thickness, recharge")]),
('a','C27','deterministic',[('mo.coef[1]:+.4e','mo.coef[2]:+.4e')]),
]

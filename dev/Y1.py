S='stochastic'; D='deterministic'; M='model'; V='visualize'; U='utilities'
Q="            qw = generate_random_variate(w[3])\n"
A="            wells.append([xw, yw, rw, qw])"
W="        wells = []\n        for w in stochastic_wells:"
B=[('memo','C17',S,[("        wells = []\n","        wells = []\n        seen = {}\n"),(Q,"            key = str(w[3])\n            if key not in seen:\n                seen[key] = generate_random_variate(w[3])\n            qw = seen[key]\n")]),
('memo2','C17',S,[("        wells = []\n","        wells = []\n        last = None\n"),(Q,"            if last is None or last[0] != w[3]:\n                last = (w[3], generate_random_variate(w[3]))\n            qw = last[1]\n")]),
('ded','C17',S,[(W,"        wells = []\n        for w in {(w[0], w[1]): w for w in stochastic_wells}.values():")]),
('skip','C17',S,[(A,"            if [xw, yw] not in [v[:2] for v in wells]:\n                wells.append([xw, yw, rw, qw])")]),
('zero','C17',S,[(A,"            if qw != 0:\n                wells.append([xw, yw, rw, qw])")]),
('tw','C17',S,[(A,"            if (xw, yw) == (xtarget, ytarget):\n                qw = abs(qw)\n            wells.append([xw, yw, rw, qw])")]),
('only','C17',S,[(W,"        wells = []\n        for w in stochastic_wells[target:]:")]),
('cumul','C17',S,[(Q,"            qw = generate_random_variate(w[3])\n            if wells and wells[-1][3] == qw:\n                qw = 0.0\n")]),
('c2dup','C02',M,[("        for well in self.wells:\n            dx = x - well[0]\n            dy = y - well[1]\n            r2 = dx*dx + dy*dy\n\n","        done = []\n        for well in self.wells:\n            if well[0:2] in done:\n                continue\n            done.append(well[0:2])\n            dx = x - well[0]\n            dy = y - well[1]\n            r2 = dx*dx + dy*dy\n\n")]),
('c5dup','C05',M,[("        for ob in obs:","        seen = set()\n        for ob in obs:\n            if (ob[0], ob[1]) in seen:\n                continue\n            seen.add((ob[0], ob[1]))")]),
('c5ord','C05',M,[("        for ob in obs:","        for ob in sorted(obs, key=lambda o: o[3]):")]),
('c16memo','C16',D,[("    wells = []\n    for w in","    wells = []\n    memo = {}\n    for w in"),("        qw = compute_variate_mean(w[3])\n","        qw = memo.setdefault((w[0], w[1]), compute_variate_mean(w[3]))\n")]),
('c25dup','C25',V,[("    xw = [we[0] for we in stochastic_wells]\n    yw = [we[1] for we in stochastic_wells]","    done = []\n    for we in stochastic_wells:\n        if we[0:2] not in done:\n            done.append(we[0:2])\n    xw = [we[0] for we in done]\n    yw = [we[1] for we in done]")]),
('c25set','C25',V,[("    xo = [ob[0] for ob in obs]\n    yo = [ob[1] for ob in obs]","    xo = sorted({ob[0] for ob in obs})\n    yo = [ob[1] for ob in obs][:len(xo)]")]),
('c19brk','C19',U,[("        for we in wellfield:\n","        checked = []\n        for we in wellfield:\n            if we[0] in checked:\n                continue\n            checked.append(we[0])\n")]),
('c19mem','C19',U,[("        if flag:\n            obs.append(ob)","        if flag and ob not in obs:\n            obs.append(ob)")]),
('c20last','C20',U,[("        first = obs[0]\n","        first = min(obs, key=lambda o: o[3])\n        obs.remove(first)\n        obs.insert(0, first)\n")]),
('c35dup','C35',U,[("            log.info('observation removed","            if ob[3] < 10:\n                log.info('observation removed")]),
]

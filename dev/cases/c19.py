"""The integration loop written with the time left, or with absolute times."""
C = 'oneka/capturezone.py'
S = open('/repo/' + C).read()
a, b = S.index("    # Initialize: the starting point"), S.index("    return vertices")
OLD = S[a:b]
P = ['C12', 'C13', 'C14', 'C15', 'C31']


def v(*subs):
    t = OLD
    for o, n in subs:
        assert o in t, o
        t = t.replace(o, n)
    return [(C, OLD, t)]


LEFT = [("    t = 0\n", "    left = duration\n"), ("abs(t) < abs(duration)", "abs(left) > 0"),
        ("            if (abs(t + dt) > abs(duration)):\n                dt = duration - t\n",
         "            if abs(dt) > abs(left):\n                dt = left\n"),
        ("t = t + dt", "left = left - dt"), ("format(t)", "format(duration - left)")]
ABS = [("    dt = 0.1 * np.sign(duration) ", "    way = 1 if duration > 0 else -1\n    span = abs(duration)\n    dt = 0.1 "),
       ("abs(t) < abs(duration)", "t < span"), ("(abs(t + dt) > abs(duration))", "t + dt > span"),
       ("dt = duration - t", "dt = span - t"), ("dt*(a", "way*dt*(a"), ("norm(dt*(e", "norm(way*dt*(e"), ("format(t)", "format(way*t)")]
ABS2 = [("    dt = 0.1 * np.sign(duration) ", "    way = np.sign(duration)\n    dt = 0.1 "),
        ("abs(t) < abs(duration)", "t < abs(duration)"), ("(abs(t + dt) > abs(duration))", "t + dt > abs(duration)"),
        ("dt = duration - t", "dt = abs(duration) - t"), ("dt*(a", "way*dt*(a"), ("norm(dt*(e", "norm(dt*(e"), ("format(t)", "format(way*t)")]
LABS = [("    t = 0\n", "    left = abs(duration)\n"), ("    dt = 0.1 * np.sign(duration) ", "    way = np.sign(duration)\n    dt = 0.1 "),
        ("abs(t) < abs(duration)", "left > 0"),
        ("            if (abs(t + dt) > abs(duration)):\n                dt = duration - t\n", "            dt = min(dt, left)\n"),
        ("t = t + dt", "left -= dt"), ("dt*(a", "way*dt*(a"), ("format(t)", "format(duration - way*left)")]
CASES = [('left', v(*LEFT), P, 'held'), ('absolute', v(*ABS), P, 'held'), ('absolute 2', v(*ABS2), P, 'held'),
         ('absolute left', v(*LABS), P, 'held'),
         ('left bug', v(*LEFT, ("dt = left\n", "dt = -left\n")), ['C14'], 'violated'),
         ('left bug 2', v(*LEFT, ("abs(left) > 0", "abs(left) > 1")), ['C14'], 'violated'),
         ('absolute bug', v(*ABS, ("0.1 ", "0.1*duration ")), ['C14'], 'violated'),
         ('absolute bug 2', v(*[x for x in ABS if x[0] != "dt*(a"]), ['C13'], 'violated'),
         ('left bug 3', v(*LEFT, ("duration - left))", "left))")), ['C31'], 'violated'),
         ('warn bug', v(("format(t)", "format(t + dt)")), ['C31'], 'violated'),
         ('warn bug 2', v(("format(t)", "format(duration)")), ['C31'], 'violated'),
         ('warn bug 3', v(("format(t)", "format(dt)")), ['C31'], 'violated')]

"""Exact feasibility of linear constraints (integer-preserving simplex).

feasible(rows, nonneg): rows are (coef dict var->Fraction/int, const, strict),
meaning coef.x + const >= 0 (> 0 when strict); variables in `nonneg` are known
to be >= 0, the others are free.
"""
from math import gcd, lcm

CACHE = {}
STATS = {'solved': 0, 'cached': 0}


def feasible(rows, nonneg):
    # connected components
    parent = {}

    def find(x):
        while parent[x] != x:
            parent[x] = parent[parent[x]]
            x = parent[x]
        return x
    ints = []
    for coef, k, strict in rows:
        d = 1
        for v in coef.values():
            d = lcm(d, v.denominator)
        d = lcm(d, k.denominator)
        ic = {j: int(v * d) for j, v in coef.items() if v}
        ik = int(k * d)
        if not ic:
            if ik < 0 or (strict and ik <= 0):
                return False
            continue
        ints.append((ic, ik, strict))
        first = None
        for j in ic:
            parent.setdefault(j, j)
            if first is None:
                first = find(j)
            else:
                parent[find(j)] = first
    groups = {}
    for r in ints:
        groups.setdefault(find(next(iter(r[0]))), []).append(r)
    for g in sorted(groups.values(), key=len):
        # canonical column numbers make the cache effective
        vs = sorted({j for r in g for j in r[0]})
        num = {j: i for i, j in enumerate(vs)}
        nn = frozenset(num[j] for j in vs if j in nonneg)
        key = (frozenset((tuple(sorted((num[j], c) for j, c in ic.items())), ik, st) for ic, ik, st in g), nn)
        r = CACHE.get(key)
        if r is None:
            STATS['solved'] += 1
            r = _solve([({num[j]: c for j, c in ic.items()}, ik, st) for ic, ik, st in g], len(vs), nn)
            if len(CACHE) > 20000:
                CACHE.clear()
            CACHE[key] = r
        else:
            STATS['cached'] += 1
        if not r:
            return False
    return True


EPS, CONST = 'e', 'k'


def _norm(D, d):
    g = D
    for v in d.values():
        g = gcd(g, v)
        if g == 1:
            return D, d
    return D // g, {j: v // g for j, v in d.items()}


def _solve(rows, nv, nonneg):
    """rows over variables 0..nv-1, integer coefficients."""
    # y_r = coef.x + k - s*eps >= 0
    R = []
    nxt = nv
    any_strict = False
    for coef, k, strict in rows:
        d = dict(coef)
        if k:
            d[CONST] = k
        if strict:
            d[EPS] = -1
            any_strict = True
        R.append([nxt, 1, d])       # slack variable, D, dict
        nxt += 1
    # eliminate the free variables: each takes one row with it
    for x in range(nv):
        if x in nonneg:
            continue
        best = None
        for i, (y, D, d) in enumerate(R):
            if x in d and (best is None or len(d) < len(R[best][2])):
                best = i
        if best is None:
            continue
        y, D, d = R.pop(best)
        c = d[x]
        sg = 1 if c > 0 else -1
        ac = abs(c)
        new = {j: -sg * v for j, v in d.items() if j != x}
        new[y] = sg * D
        for row in R:
            f = row[2].get(x)
            if f is not None:
                _subst(row, x, f, ac, new)
    # bounded eps
    R.append([nxt, 1, {EPS: -1, CONST: 1}])
    nxt += 1
    # optimise
    obj = [None, 1, {EPS: 1}]
    steps = 0

    def pivot(r, s, extra):
        y, D, d = R[r]
        c = d[s]
        sg = 1 if c > 0 else -1
        ac = abs(c)
        new = {j: -sg * v for j, v in d.items() if j != s}
        new[y] = sg * D
        R[r][0] = s
        R[r][1], R[r][2] = _norm(ac, new)
        ac, new = R[r][1], R[r][2]
        for i, row in enumerate(R):
            if i != r:
                f = row[2].get(s)
                if f is not None:
                    _subst(row, s, f, ac, new)
        for row in extra:
            f = row[2].get(s)
            if f is not None:
                _subst(row, s, f, ac, new)

    def key(j):
        return -1 if j == EPS else j

    def run(o, extra, prefer=None):
        nonlocal steps
        while True:
            steps += 1
            if steps > 20000:
                return 'limit'
            cand = [j for j, v in o[2].items() if j != CONST and v > 0]
            if not cand:
                return 'opt'
            if steps < 200:
                s = max(cand, key=lambda j: (o[2][j], -key(j)))
            else:
                s = min(cand, key=key)
            best = None
            for i, (y, D, d) in enumerate(R):
                a = d.get(s)
                if a is not None and a < 0:
                    k = d.get(CONST, 0)
                    # ratio k/-a, exact comparison
                    if best is None:
                        best = (k, -a, i)
                    else:
                        l, r = k * best[1], best[0] * -a
                        if l < r or (l == r and (y == prefer or (R[best[2]][0] != prefer and key(y) < key(R[best[2]][0])))):
                            best = (k, -a, i)
            if best is None:
                return 'unbounded'
            pivot(best[2], s, extra)
            if o is obj and obj[2].get(CONST, 0) > 0:
                return 'positive'       # eps > 0 reached: strictly feasible

    if any(d.get(CONST, 0) < 0 for _, _, d in R):
        x0 = nxt
        for row in R:
            row[2][x0] = row[1]
        aux = [None, 1, {x0: -1}]
        r = None
        for i, (y, D, d) in enumerate(R):
            k = d.get(CONST, 0)
            if r is None or k * R[r][1] < R[r][2].get(CONST, 0) * D:
                r = i
        pivot(r, x0, [obj, aux])
        st = run(aux, [obj, aux], prefer=x0)
        if st == 'limit':
            return True
        if aux[2].get(CONST, 0) < 0:
            return False
        for i, (y, D, d) in enumerate(R):
            if y == x0:
                js = [j for j, v in d.items() if v and j != CONST]
                if js:
                    pivot(i, js[0], [obj])
                else:
                    del R[i]
                break
        for row in R:
            row[2].pop(x0, None)
        obj[2].pop(x0, None)
    if not any_strict:
        return True
    if obj[2].get(CONST, 0) > 0:
        return True
    st = run(obj, [obj])
    if st in ('limit', 'unbounded', 'positive'):
        return True
    return obj[2].get(CONST, 0) > 0


def _subst(row, s, f, ac, new):
    """row: D*y = f*s + rest, with ac*s = new."""
    d = row[2]
    del d[s]
    if ac != 1:
        for j in d:
            d[j] *= ac
        row[1] *= ac
    for j, v in new.items():
        w = d.get(j, 0) + f * v
        if w:
            d[j] = w
        elif j in d:
            del d[j]
    D = row[1]
    if D > 1:
        row[1], row[2] = _norm(D, d)

"""Probability-field rules (grid geometry, growth, rasterisation, registration)."""
from core import *
import lib2

P = 'oneka.probabilityfield.ProbabilityField'
PM = P + '.'
RANGE = 'oneka.probabilityfield.RangeError'
FIELDS = ('deltax', 'deltay', 'nrows', 'ncols', 'xmin', 'xmax', 'ymin', 'ymax', 'pgrid', 'rgrid', 'total_weight')


def fields(c, ref, st, names=FIELDS):
    return {k: c.I.freeze(c.I.getattr(ref, k, st, None), st) for k in names}


def grid2(c, g, i, j):
    return c.I.elem(c.I.elem(g, i), j)


def shape2(c, g):
    if isinstance(g, Gamma):
        a, b = shape2(c, g.a), shape2(c, g.b)
        return tuple(ite(g.cond, x, y) for x, y in zip(a, b))
    s = c.I.lib.as_arr(g).shape
    if len(s) != 2:
        raise Unsupported('grid of %d dimensions' % len(s))
    return s


def ctor(c, args):
    st = c.I.start()
    return c.I.run(c.fn(P), args, {}, st)


def node(name='i'):
    return R.atom(fresh_atom(name, integer=True, nonneg=True))


def C07(c):
    """Construction and growth keep a valid lattice that covers what was asked."""
    I = c.I
    dx, dy, xo, yo = sym('sx'), sym('sy'), sym('sxo'), sym('syo')
    q = PM + '__init__'
    r = ctor(c, [dx, dy, xo, yo])
    bad = b_or(b_not(mk_cmp(dx, '>')), b_not(mk_cmp(dy, '>')))
    rg = c.raise_cond(r, lambda e: exc_is(e, RANGE))
    c.same(rg, bad, 'ctor-range', q, 'RangeError exactly for a non-positive spacing')
    c.require(c.raise_cond(r, lambda e: not exc_is(e, RANGE)) is False, 'ctor-errors', q, 'only RangeError')
    ok = Facts().add(mk_cmp(dx, '>')).add(mk_cmp(dy, '>'))
    if c.require(r.state is not None, 'ctor-returns', q, 'a field can be constructed'):
        o = fields(c, r.value, r.state)
        for k, w in (('deltax', dx), ('deltay', dy), ('nrows', num(3)), ('ncols', num(3)), ('xmin', xo - dx),
                     ('xmax', xo + dx), ('ymin', yo - dy), ('ymax', yo + dy), ('total_weight', num(0))):
            c.same(o[k], w, 'ctor-centred', q, 'a new field is a 3 by 3 grid centred on the origin (%s)' % k, ok)
        for k, w in (('pgrid', num(0)), ('rgrid', False)):
            s = shape2(c, o[k])
            c.same(TupleV(s), TupleV([num(3), num(3)]), 'ctor-shape', q, '%s matches the grid' % k, ok)
            c.same(grid2(c, o[k], node(), node('j')), w, 'ctor-clear', q, '%s starts clear' % k, ok)
    nan = R.atom(get_app('nan', ())[0])
    for args, nm in (([], 'without an origin'), ([nan, nan], 'with an unknown origin'),
                     ([nan, yo], 'with an unknown x-coordinate'), ([xo, nan], 'with an unknown y-coordinate'),
                     ([xo], 'with only an x-coordinate')):
        r = ctor(c, [dx, dy] + args)
        if c.require(r.state is not None, 'ctor-returns', q, 'a field %s can be constructed' % nm):
            o = fields(c, r.value, r.state, ('deltax', 'deltay', 'nrows', 'ncols'))
            for k, w in (('deltax', dx), ('deltay', dy), ('nrows', num(0)), ('ncols', num(0))):
                c.same(o[k], w, 'ctor-empty', q, 'a field %s is empty (%s)' % (nm, k), ok)

    q = PM + 'expand'
    c.fn(q)
    x0, x1, y0, y1 = sym('x0'), sym('x1'), sym('y0'), sym('y1')
    bad = b_or(mk_cmp(x0 - x1, '>'), mk_cmp(y0 - y1, '>'))
    for empty in (True, False):
        st = I.start()
        p, v = c.W.field(st, empty=empty)
        dx, dy = v['deltax'], v['deltay']
        r = c.method(p, 'expand', [x0, x1, y0, y1], st)
        nm = 'empty' if empty else 'grown'
        c.same(c.raise_cond(r, lambda e: exc_is(e, RANGE)), bad, 'range-' + nm, q,
               'RangeError exactly when a minimum exceeds its maximum',
               Facts().add(mk_cmp(dx, '>')).add(mk_cmp(dy, '>')))
        c.require(c.raise_cond(r, lambda e: not exc_is(e, RANGE)) is False, 'errors-' + nm, q,
                  'only RangeError: %s' % c.exc_names(r))
        for s, e in r.raises:
            if not empty:
                o = fields(c, p, s)
                for k in FIELDS:
                    c.same(o[k], v[k], 'rejected-unchanged', q, 'a rejected request leaves %s alone' % k)
        if not c.require(r.state is not None, 'returns-' + nm, q, 'expansion returns'):
            continue
        o = fields(c, p, r.state)
        f = Facts().add(b_not(mk_cmp(x0 - x1, '>'))).add(b_not(mk_cmp(y0 - y1, '>')))
        f = f.add(mk_cmp(dx, '>')).add(mk_cmp(dy, '>'))
        if not empty:
            f = f.add(mk_cmp(v['nrows'] - num(1), '>=')).add(mk_cmp(v['ncols'] - num(1), '>='))
        one = num(1)
        for lo, hi, d, n, a0, a1 in (('xmin', 'xmax', 'deltax', 'ncols', x0, x1),
                                     ('ymin', 'ymax', 'deltay', 'nrows', y0, y1)):
            c.same(o[d], v[d], 'spacing-' + nm, q, 'the spacing never changes', f)
            c.same(o[hi], o[lo] + (o[n] - one) * v[d], 'lattice-' + nm, q,
                   '%s = %s + (%s-1) spacing' % (hi, lo, n), f)
            c.implied(mk_cmp(a0 - o[lo], '>'), f, 'covers-' + nm, q, '%s lies below the request' % lo)
            c.implied(mk_cmp(o[hi] - a1, '>'), f, 'covers-' + nm, q, '%s lies above the request' % hi)
            c.require(alg.is_int(o[n]), 'whole-' + nm, q, '%s stays a whole number' % n)
            if not empty:
                shift = (v[lo] - o[lo]) / v[d]
                c.require(whole(shift), 'aligned', q, 'old nodes stay nodes (%s moves by whole cells)' % lo)
                c.implied(mk_cmp(v[lo] - o[lo], '>='), f, 'no-shrink', q, '%s never increases' % lo)
                c.implied(mk_cmp(o[hi] - v[hi], '>='), f, 'no-shrink', q, '%s never decreases' % hi)
                g = f.add(mk_cmp(a0 - v[lo], '>')).add(mk_cmp(v[hi] - a1, '>'))
                c.same(o[lo], v[lo], 'idle', q, 'a covered request leaves %s alone' % lo, g)
                c.same(o[n], v[n], 'idle', q, 'a covered request leaves %s alone' % n, g)
        for k in ('pgrid', 'rgrid'):
            s = shape2(c, o[k])
            c.same(TupleV(s), TupleV([o['nrows'], o['ncols']]), 'shape-' + nm, q, '%s matches the grid' % k, f)


def C08(c):
    """Growth keeps what was accumulated, at the same place, and adds clear nodes."""
    I = c.I
    q = PM + 'expand'
    c.fn(q)
    x0, x1, y0, y1 = sym('x0'), sym('x1'), sym('y0'), sym('y1')
    st = I.start()
    p, v = c.W.field(st)
    r = c.method(p, 'expand', [x0, x1, y0, y1], st)
    if not c.require(r.state is not None, 'returns', q, 'expansion returns'):
        return
    o = fields(c, p, r.state)
    f = Facts().add(mk_cmp(x1 - x0, '>=')).add(mk_cmp(y1 - y0, '>='))
    f = f.add(mk_cmp(v['nrows'] - num(1), '>=')).add(mk_cmp(v['ncols'] - num(1), '>='))
    i, j = node(), node('j')
    si, sj = (v['ymin'] - o['ymin']) / v['deltay'], (v['xmin'] - o['xmin']) / v['deltax']
    f = f.add(mk_cmp(o['nrows'] - i, '>')).add(mk_cmp(o['ncols'] - j, '>'))
    a, b = i - si, j - sj
    # integer bounds of the old block, in new indices
    inside = b_and(mk_cmp(a, '>='), mk_cmp(v['nrows'] - num(1) - a, '>='), mk_cmp(b, '>='),
                   mk_cmp(v['ncols'] - num(1) - b, '>='))
    for k, zero in (('pgrid', num(0)), ('rgrid', False)):
        got = grid2(c, o[k], i, j)
        old = idx(v[k], a, b)
        if k == 'rgrid':
            old = b_atom(old)
        want = ite(inside, old, zero) if k == 'pgrid' else b_and(inside, old)
        c.same(got, want, 'kept-' + k, q, '%s keeps its nodes in place; new nodes are clear' % k, f,
               abstract={t.single().id for t in (x0, x1, y0, y1)})
    c.same(o['total_weight'], v['total_weight'], 'kept-weight', q, 'the accumulated weight is kept', f)
    st = I.start()
    p, v = c.W.field(st, empty=True)
    r = c.method(p, 'expand', [x0, x1, y0, y1], st)
    if c.require(r.state is not None, 'returns', q, 'expansion of an empty field returns'):
        o = fields(c, p, r.state)
        c.same(grid2(c, o['pgrid'], i, j), num(0), 'first-clear', q, 'the first grid is clear')
        c.same(grid2(c, o['rgrid'], i, j), False, 'first-clear', q, 'the first grid is unmarked')
        c.same(o['total_weight'], num(0), 'first-clear', q, 'the first grid has no weight')


def d2_spec(ax, ay, bx, by, cx, cy):
    ux, uy, wx, wy = bx - ax, by - ay, cx - ax, cy - ay
    L2, dot = ux * ux + uy * uy, ux * wx + uy * wy
    per = ux * wy - uy * wx
    zx, zy = cx - bx, cy - by
    return ite(mk_cmp(dot, '>'), ite(mk_cmp(L2 - dot, '>'), per * per / L2, zx * zx + zy * zy), wx * wx + wy * wy)


def C10(c):
    """Squared distance from a point to a segment, endpoints and degenerate segments included."""
    q = PM + 'distancesquared'
    c.fn(q)
    # every segment B = A + u with u != 0 and every point C = A + s u + p perp(u):
    # (s, p) are the coordinates of C along and across the segment
    ax, ay, ux, uy, s, t = [sym(n) for n in 'ax ay ux uy s t'.split()]
    L2 = ux * ux + uy * uy
    one = num(1)
    st = c.I.start()
    p, _ = c.W.field(st, empty=True)
    r = c.method(p, 'distancesquared', [ax, ay, ax + ux, ay + uy, ax + s * ux - t * uy, ay + s * uy + t * ux], st)
    rc = c.raise_cond(r)
    fl = Facts().add(mk_cmp(L2, '>'))
    c.same(rc, False, 'distance-total', q, 'no error for a proper segment', fl)
    if c.require(r.state is not None, 'distance-returns', q, 'a distance is returned'):
        want = ite(mk_cmp(s, '>'), ite(mk_cmp(one - s, '>'), t * t * L2, ((s - one) * (s - one) + t * t) * L2),
                   (s * s + t * t) * L2)
        c.same(c.I.freeze(r.value, r.state), want, 'segment-distance', q,
               'the squared distance to the nearest point of the segment', fl)
    cx, cy = sym('cx'), sym('cy')
    # zero-length segment: distance to the point
    st = c.I.start()
    p, _ = c.W.field(st, empty=True)
    r = c.method(p, 'distancesquared', [ax, ay, ax, ay, cx, cy], st)
    c.require(c.raise_cond(r) is False, 'degenerate-total', q,
              'a zero-length segment raises %s' % c.exc_names(r))
    if c.require(r.state is not None, 'degenerate-total', q, 'a zero-length segment has a distance'):
        wx, wy = cx - ax, cy - ay
        c.same(c.I.freeze(r.value, r.state), wx * wx + wy * wy, 'degenerate-distance', q,
               'the distance to a zero-length segment is the distance to its point')


def C11(c):
    I = c.I
    w = sym('w')
    for q, args in ((PM + 'register', [w]), (PM + 'reset', [])):
        c.fn(q)
        st = I.start()
        p, v = c.W.field(st)
        before = I.getattr(p, 'rgrid', st, None)
        r = c.method(p, q.rsplit('.', 1)[1], args, st)
        c.require(c.raise_cond(r) is False, 'total', q, 'raises %s' % c.exc_names(r))
        if not c.require(r.state is not None, 'total', q, 'returns'):
            continue
        o = fields(c, p, r.state)
        i, j = node(), node('j')
        f = Facts().add(mk_cmp(v['nrows'] - i, '>')).add(mk_cmp(v['ncols'] - j, '>'))
        add = w if args else num(0)
        old = idx(v['pgrid'], i, j)
        mark = b_atom(idx(v['rgrid'], i, j))
        c.same(grid2(c, o['pgrid'], i, j), ite(mark, old + add, old), 'accumulate', q,
               'marked nodes gain the weight once, others nothing', f)
        c.same(grid2(c, o['rgrid'], i, j), False, 'unmark', q, 'every mark is cleared', f)
        c.same(o['total_weight'], v['total_weight'] + add, 'weight', q, 'the total weight grows by the weight')
        for k in ('deltax', 'deltay', 'nrows', 'ncols', 'xmin', 'xmax', 'ymin', 'ymax'):
            c.same(o[k], v[k], 'geometry-kept', q, '%s is unchanged' % k)
        for k in ('pgrid', 'rgrid'):
            c.same(TupleV(shape2(c, o[k])), TupleV([v['nrows'], v['ncols']]), 'shape-kept', q, '%s keeps its shape' % k)
        marks(c, I.getattr(p, 'rgrid', r.state, None), r.state, q, old=before)

    # the element type of every grid the class makes can hold any weight
    x0, x1, y0, y1 = [sym(n) for n in ('x0', 'x1', 'y0', 'y1')]
    P = I.get('oneka.probabilityfield.ProbabilityField')
    for q, args in (('__init__', [pos('dx'), pos('dy'), sym('pxo'), sym('pyo')]), ('expand', [pos('dx'), pos('dy')])):
        st = I.start()
        old, lib2.FINITE[0] = lib2.FINITE[0], True
        try:
            ref = I.call(P, args, {}, st, None)
        finally:
            lib2.FINITE[0] = old
        if q == 'expand':
            s2 = I.start()
            p2, _v = c.W.field(s2)
            g2 = I.getattr(p2, 'rgrid', s2, None)
            r2 = c.method(p2, 'expand', [x0, x1, y0, y1], s2)
            if r2.state is not None:
                marks(c, I.getattr(p2, 'rgrid', r2.state, None), r2.state, PM + q, old=g2)
            r = c.method(ref, 'expand', [x0, x1, y0, y1], st)
            st = r.state
        if st is not None:
            marks(c, I.getattr(ref, 'rgrid', st, None), st, PM + q)
        g = I.getattr(ref, 'pgrid', st, None) if st is not None else None
        if isinstance(g, Ref) and g.id in I.dtypes:
            c.require(False, 'holds', PM + q, 'the grid of probabilities holds any weight: its elements are %s' % show(I.dtypes[g.id]))
        else:
            c.require(True, 'holds', PM + q, 'the grid of probabilities holds any weight')


def whole(v):
    """Is v a whole number, on either side of every condition in it?"""
    if alg.is_int(v):
        return True
    for a in v.atoms():
        a = alg.ATOMS[a]
        if a.op == 'ite' and all(isinstance(x, R) for x in a.args[1:]):
            return all(whole(subst(v, {a.id: x})) for x in a.args[1:])
    return False


def marks(c, g, st, q, old=None):
    """The grid of marks is one of booleans: it selects nodes."""
    if isinstance(g, Gamma):
        for x in (g.a, g.b):
            marks(c, x, st, q, old)
        return
    if not isinstance(g, Ref) or isinstance(old, Ref) and g.id == old.id:
        return
    t = lib2.element_type(c.I, g, c.I.deref(g, st))
    if t is None:
        v = c.I.deref(g, st)
        b = v.body if isinstance(v, Arr) else v
        if g.id not in c.I.floats and not (isinstance(b, R) and b.is_const()):
            return
    name = t.path if isinstance(t, ExtV) else str(t)
    c.require(name.rsplit('.', 1)[-1] in ('bool', 'bool_', 'bool8', '?'), 'selects', q,
              'the grid of marks is a grid of booleans, which selects the marked nodes: its elements are %s' % (name if t else 'numbers'))


def C09(c):
    """A node is marked iff it is within umbra of a segment of the path."""
    I = c.I
    n = sym('npt', integer=True, pos=True)
    X, Y = sym('X', ndim=1, shape=(n,)), sym('Y', ndim=1, shape=(n,))
    u = sym('u', pos=True)
    q = PM + 'rasterize'
    c.fn(q)
    st = I.start()
    p, v = c.W.field(st)
    seen = []

    def grow(I, st, a):
        """Contract of expand (C07, C08): a covering lattice, contents kept."""
        g = a['self']
        k = len(seen)
        nr, nc = sym('nrows+%d' % k, pos=True, integer=True), sym('ncols+%d' % k, pos=True, integer=True)
        xm, ym = sym('xmin+%d' % k), sym('ymin+%d' % k)
        w = dict(nrows=nr, ncols=nc, xmin=xm, ymin=ym, xmax=xm + (nc - num(1)) * v['deltax'],
                 ymax=ym + (nr - num(1)) * v['deltay'],
                 pgrid=sym('pgrid+%d' % k, ndim=2, shape=(nr, nc)),
                 rgrid=sym('rgrid+%d' % k, ndim=2, shape=(nr, nc), boolean=True))
        for nm, x in w.items():
            I.setattr(g, nm, I.new_ref(st, ArrC(x)) if nm in ('pgrid', 'rgrid') else x, st, None)
        seen.append((w, {b: I.freeze(x, st) for b, x in a.items() if b != 'self'}, list(I.loopk), st.pc))
        return None
    c.opaque(PM + 'expand', grow)

    def d2(I, st, a):
        v = [as_r(I.freeze(a[k], st)) for k in a if k != 'self']
        return apply('d2', *v, nonneg=True)
    if not c.inline:
        c.opaque(PM + 'distancesquared', d2)
    r = c.method(p, 'rasterize', [X, Y, u], st)
    c.require(c.raise_cond(r) is False, 'total', q, 'raises %s' % c.exc_names(r))
    if not c.require(r.state is not None, 'total', q, 'returns'):
        return
    b0 = fresh_atom('k', integer=True, nonneg=True)
    import loops
    mn = lambda s: loops.mk_big('bigmin', n, b0, idx(s, R.atom(b0)))
    mx = lambda s: loops.mk_big('bigmax', n, b0, idx(s, R.atom(b0)))
    # -- growth: unconditional, once, wide enough
    once = [g for g in seen if not g[2] and not g[3]]
    if not c.require(len(seen) >= 1 and len(once) == len(seen), 'grow-first', q,
                     'the grid is grown for every path before marking'):
        return
    w, a, _, _ = seen[-1]
    f0 = Facts()
    for k in (X, Y):
        f0 = f0.add(mk_cmp(mx(k) - mn(k), '>='))
    for nm, want in (('xmin', mn(X) - u), ('ymin', mn(Y) - u)):
        c.implied(mk_cmp(want - as_r(a[nm]), '>='), f0, 'grow-covers', q,
                  'growth covers the path plus umbra (%s)' % nm)
    for nm, want in (('xmax', mx(X) + u), ('ymax', mx(Y) + u)):
        c.implied(mk_cmp(as_r(a[nm]) - want, '>='), f0, 'grow-covers', q,
                  'growth covers the path plus umbra (%s)' % nm)
    c.implied(b_and(mk_cmp(as_r(a['xmax']) - as_r(a['xmin']), '>='), mk_cmp(as_r(a['ymax']) - as_r(a['ymin']), '>=')),
              f0, 'grow-valid', q, 'the growth request is never rejected')
    o = fields(c, p, r.state)
    for k in ('nrows', 'ncols', 'xmin', 'xmax', 'ymin', 'ymax', 'pgrid'):
        c.same(o[k], w[k], 'only-marks', q, 'marking changes nothing but marks (%s)' % k)
    c.same(o['total_weight'], v['total_weight'], 'only-marks', q, 'marking adds no weight')
    # -- marks
    i, j = node(), node('j')
    got = grid2(c, o['rgrid'], i, j)
    old = b_atom(idx(w['rgrid'], i, j))
    cx, cy = w['xmin'] + j * v['deltax'], w['ymin'] + i * v['deltay']
    s = fresh_atom('s', integer=True, nonneg=True)
    sr = R.atom(s)
    seg = (idx(X, sr), idx(Y, sr), idx(X, sr + num(1)), idx(Y, sr + num(1)))
    dist = d2_spec if c.inline else (lambda *a: apply('d2', *a, nonneg=True))
    near = mk_cmp(u * u - dist(*(seg + (cx, cy))), '>')
    want_e = mk_exists(n - num(1), s, near)
    facts = Facts().add(mk_cmp(w['nrows'] - i, '>')).add(mk_cmp(w['ncols'] - j, '>'))
    marks_equal(c, got, old, want_e, near, s, seg, (cx, cy), u, v, w, (i, j), n, facts, q)


def others(c, f, mu, ij):
    """Does the next mark of node ij follow the present marks of other nodes?"""
    own = as_r(idx(R.atom(mu), *ij)).single().id
    f = subst(f, {own: False})

    def put(b, t):
        if not isinstance(b, B) or not any(a is mu for a in all_atoms(b)):
            return b
        if b.kind in ('and', 'or'):
            return (b_and if b.kind == 'and' else b_or)(*[put(x, t) for x in b.args])
        if b.kind == 'not':
            return b_not(put(b.args[0], t))
        return b if b.kind == 'cmp' else t
    lo, hi = put(f, False), put(f, True)
    if lo is f:
        return False
    try:
        equiv(lo, hi, Facts())
    except Mismatch:
        return True
    except Unsupported:
        pass
    return False


def foreign_marks(c, got, ij, q, rule):
    """The innermost loop writes one node per iteration: whether it does must
    not depend on the mark of another node."""
    import loops
    seen = set()
    todo = [got]
    while todo:
        v = todo.pop()
        for a in all_atoms(v):
            rec, ce = c.I.havocs.get(a.id, (None, None))
            if ce is None or a.id in seen or ce.kind != 'arr':
                continue
            seen.add(a.id)
            ks = [x.single() for x in ij]
            f = c.I.lib.tobool(c.I._getitem_hook(c.I.lib.as_arr(ce.f), list(ij)))
            if any(x.id in c.I.havocs for x in all_atoms(f)):
                todo.append(f)
                continue
            if others(c, f, ce.mu, ij):
                c.require(False, rule, q, 'whether a node is marked depends on the marks of other nodes: %s' % show(f, 300))
                raise Stop()
            at, lits = {}, []
            for x in ks:
                for l in loops.eq_lits(f):
                    w = loops.pin(l, x)
                    if w is not None and not any(contains(w, y.id) for y in ks):
                        at[x.id] = w
                        lits.append(l)
                        break
            if len(at) != len(ks):
                continue
            own = [at[x.id] for x in ks]
            v = subst(loops.force(f, lits, True), at)
            v = subst(v, {as_r(idx(R.atom(ce.mu), *own)).single().id: False})
            for b in all_atoms(v):
                if b.op == 'idx' and b.args[0].single() is ce.mu:
                    c.require(False, rule, q, 'whether a node is marked depends on the mark of another node: %s' % show(v, 300))
                    raise Stop()


def marks_equal(c, got, old, want_e, near, s, seg, pt, u, v, w, ij, n, facts, q):
    """got == old or exists segment with d2 < u^2, allowing index-range limits
    in `got` that every node within umbra satisfies."""
    rule = 'marks'
    if isinstance(got, R):
        got = mk_cmp(got, '>') if not (got.single() is not None and got.single().boolean) else b_atom(got)
    if isinstance(got, B) and beq(got, b_or(old, want_e)):
        return c.require(True, rule, q, 'marked iff within umbra')
    parts = list(got.args) if isinstance(got, B) and got.kind == 'or' else [got]
    rest = [p for p in parts if not beq_any(p, old)]
    if opaque_part(got):
        for a in all_atoms(got):
            rec, ce = c.I.havocs.get(a.id, (None, None))
            if ce is not None and ce.kind == 'arr':
                i, j = ij
                at = lambda x: c.I.lib.tobool(c.I._getitem_hook(c.I.lib.as_arr(x), [i, j]))
                f = subst(at(ce.f), {as_r(idx(R.atom(ce.mu), i, j)).single().id: True})
                if not opaque_part(f) and ce.mu.id not in {x.id for x in all_atoms(f)}:
                    c.same(f, True, rule, q, 'a node once marked stays marked until the realization is registered', facts)
        foreign_marks(c, got, ij, q, rule)
        raise Unsupported('%s: marks not expressible: %s' % (q, show(got, 400)))
    if len(rest) == len(parts):
        return c.require(False, rule, q, 'earlier marks of the realization are kept: marks are %s' % show(got, 500))
    if len(rest) == 1 and isinstance(rest[0], B) and rest[0].kind == 'and':
        # conditions common to all segments
        ex = [x for x in rest[0].args if isinstance(x, B) and x.kind == 'exists']
        if len(ex) == 1:
            more = [x for x in rest[0].args if x is not ex[0]]
            N, b, body = ex[0].args
            rest = [B('exists', (N, b, b_and(body, *more)))]
    if len(rest) != 1 or not isinstance(rest[0], B) or rest[0].kind != 'exists':
        return c.require(False, rule, q, 'marked iff within umbra of a segment: marks are %s' % show(got, 800))
    e = rest[0]
    i, j = ij
    N, b, body = e.args
    c.same(N, n - num(1), 'all-segments', q, 'every segment of the path is inserted',
           facts.add(mk_cmp(n - num(2), '>=')))
    body = subst(body, {b.id: R.atom(s)})
    lits = list(body.args) if isinstance(body, B) and body.kind == 'and' else [body]
    core = [l for l in lits if contains_d2(l, c, near, ij)]
    limits = [l for l in lits if l not in core]
    if not core:
        return c.require(False, 'threshold', q, 'distance is not tested: %s' % show(body, 600))
    ax, ay, bx, by = seg
    cx, cy = pt
    f = facts.add(mk_cmp(n - R.atom(s) - num(1), '>'))
    if not c.inline:
        c.same(b_and(*core), near, 'threshold', q, 'marked iff the squared distance is below umbra squared', f)
    else:
        # coordinates along and across the segment (see C10)
        sg, t, ux, uy = sym('sg'), sym('t'), sym('ux'), sym('uy')
        L2, one = ux * ux + uy * uy, num(1)
        m = {bx.single().id: ax + ux, by.single().id: ay + uy,
             w['xmin'].single().id: ax + sg * ux - t * uy - j * v['deltax'],
             w['ymin'].single().id: ay + sg * uy + t * ux - i * v['deltay']}
        want = ite(mk_cmp(sg, '>'), ite(mk_cmp(one - sg, '>'), t * t * L2, ((sg - one) * (sg - one) + t * t) * L2),
                   (sg * sg + t * t) * L2)
        c.same(subst(b_and(*core), m), mk_cmp(u * u - want, '>'), 'threshold', q,
               'marked iff the squared distance is below umbra squared', Facts().add(mk_cmp(L2, '>')))
        px, py = sym('px'), sym('py')
        m = {bx.single().id: ax, by.single().id: ay, w['xmin'].single().id: ax + px - j * v['deltax'],
             w['ymin'].single().id: ay + py - i * v['deltay']}
        c.same(subst(b_and(*core), m), mk_cmp(u * u - px * px - py * py, '>'), 'threshold', q,
               'marked iff the squared distance to a zero-length segment is below umbra squared')
    # geometry: a point within umbra of the segment lies within umbra of its bounding box
    base = Facts().add(mk_cmp(u, '>'))
    for l in limits:
        ids = {a.id for a in all_atoms(l)}
        boxes = [base]
        for lo, hi, x, k, n0 in ((ax, bx, cx, j, w['ncols']), (ay, by, cy, i, w['nrows'])):
            if k.single().id not in ids:
                continue
            new = []
            for g in boxes:
                g = g.add(mk_cmp(n0 - k, '>'))
                for p, r, rel in ((lo, hi, '>='), (hi, lo, '>')):      # p is the larger end
                    new.append(g.add(mk_cmp(p - r, rel)).add(mk_cmp(x - r + u, '>')).add(mk_cmp(p + u - x, '>')))
            boxes = new
        for g in boxes:
            c.implied(l, g, 'limits', q, 'the index limits exclude no node within umbra: %s' % show(l, 300))


def beq_any(a, b):
    return isinstance(a, B) and isinstance(b, B) and beq(a, b)


def contains_d2(l, c, near, ij):
    if not c.inline:
        return any(a.op == 'd2' for a in all_atoms(l))
    # inlined: depends on both coordinates of the node
    i, j = ij
    return any({i.single().id, j.single().id} <= {a.id for a in all_atoms(x)} for x in lits_of(l))


def lits_of(l):
    out = []
    alg.literals(l, out)
    return out


RULES = {'C07': C07, 'C08': C08, 'C09': C09, 'C10': C10, 'C11': C11}
for _k in ('C07', 'C08', 'C11', 'C10'):
    RULES[_k].modes = 1

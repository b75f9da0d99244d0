"""What a run shows: probability map, capture zone map, impact curve, model
maps, summary table."""
import copy
from fractions import Fraction
from core import *
from values import walk_trace, StrV, ListV, ExtObj
from rules_log import ACRE, LOUD

VIS = 'oneka.visualize.'
PROB, DPLOT, IMPACT = VIS + 'create_probability_plot', VIS + 'create_deterministic_plot', VIS + 'create_impact_plot'
CZE = VIS + 'CaptureZoneError'
AQ = 'oneka.model.AquiferError'
STATS = 'oneka.utilities.summary_statistics'
DRAWN = ('contourf', 'contour', 'pcolormesh', 'pcolor', 'imshow', 'tricontourf', 'matshow')
MARKED = ('plot', 'fill', 'scatter', 'semilogy', 'semilogx', 'loglog', 'step', 'bar', 'axis', 'grid', 'xlabel', 'ylabel',
          'xlim', 'xticks', 'colorbar', 'fill_between', 'add_patch', 'add_collection', 'set_yscale', 'yscale', 'stairs')


def unbound(t):
    """A call of a method of a figure or axes object, without the object."""
    if t.kind == 'ext' and t.args and isinstance(t.args[0], ExtObj) and t.name.rsplit('.', 1)[0] == t.args[0].path:
        t = copy.copy(t)
        t.args = t.args[1:]
    return t


class Drawing:
    """One abstract run of a plotting function."""

    def __init__(self, c, q, empty=False, smooth=None):
        self.c, self.q = c, q
        I = c.I
        st = I.start()
        ref, v = c.W.field(st)
        if not empty:
            v['total_weight'] = pos('some_weight')
            I.setattr(ref, 'total_weight', v['total_weight'], st, None)
        self.v, self.ref = v, ref
        self.wells, self.obs = seqsym('wells', width=4), seqsym('obs', width=4)
        self.target = sym('target', integer=True, nonneg=True)
        self.spacing = pos('spacing')
        self.npc = len(st.pc)
        if q == IMPACT:
            args, kw = [self.spacing, ref], {}
        else:
            args, kw = [self.target, self.wells, self.obs, ref], {}
            if smooth is not None:
                args.append(smooth)
        self.r = c.call(q, args, kw, st=st)
        self.ev = [(unbound(t), cd, l) for t, cd, l in walk_trace(self.r.state.trace)] if self.r.state is not None else []

    def draws(self, *names):
        return [(t, cd, l) for t, cd, l in self.ev if t.kind in ('ext', 'callv', 'call') and t.name.rsplit('.', 1)[-1] in names]

    def ij(self):
        i, j = (fresh_atom(n, integer=True, nonneg=True) for n in 'ij')
        f = Facts().add(mk_cmp(self.v['nrows'] - R.atom(i), '>')).add(mk_cmp(self.v['ncols'] - R.atom(j), '>'))
        return R.atom(i), R.atom(j), f


def rank_of(I, v):
    r = I.lib.rank(v)
    return 1 if r is None and isinstance(v, (ListV, TupleV)) else r


def at(I, v, *ix):
    for i in ix:
        v = I.elem(v, i)
    return as_r(v)


def equal(got, want, f=None):
    """True / False / None (cannot tell)."""
    try:
        equiv(got, want, f or Facts())
        return True
    except Mismatch as m:
        if independent(got, want, f):
            return False
        return None if opaque_part(got) or vague(got, want) else False
    except (Unsupported, AttributeError, TypeError):
        return None


def refused(c, q):
    d = Drawing(c, q, empty=True)
    tw = d.v['total_weight']
    bad = [exc_name(exc_class(e, s)) for s, e in d.r.raises if not exc_is(exc_class(e, s), CZE)]
    c.require(not bad, 'empty', q, 'a field without weight is refused with CaptureZoneError (%s)' % bad)
    c.same(c.raise_cond(d.r, pc0=d.npc), b_not(mk_cmp(tw, '>')), 'empty', q,
           'exactly the fields without weight are refused')


def shown_field(c, d, Z, smooth, facts=()):
    """Z is the captured fraction, smoothed only on request."""
    I, q = c.I, d.q
    i, j, f = d.ij()
    if isinstance(Z, Gamma):
        s = {x.id for x in all_atoms(d.smooth)} if smooth else set()
        told = {x.id for x in all_atoms(Z.cond)} <= s
        for k, (cond, z) in enumerate(((Z.cond, Z.a), (b_not(Z.cond), Z.b))):
            fs = Facts()
            for x in ((mk_cmp(d.smooth, '>'),) if smooth else ()) + tuple(facts):
                fs = fs.add(x)
            if decide(cond, fs) is False:
                continue            # a branch not taken when asked
            if not told:
                raise Unsupported('%s: field shown: %s' % (q, show(Z, 200)))
            shown_field(c, d, z, smooth, tuple(facts) + (cond,))
        return
    want = idx(d.v['pgrid'], i, j) / d.v['total_weight']
    factor = num(1)
    if smooth:
        a = Z.single() if isinstance(Z, R) else None
        if a is None or not a.op or not a.op.endswith('gaussian_filter'):
            g = at(I, Z, i, j) if rank_of(I, Z) == 2 else None
            if g is not None and equal(g, want, f):
                c.require(False, 'smooth', q, 'the probabilities are smoothed when asked')
                return
            hs = [x for x in all_atoms(g if g is not None else Z) if x.op and x.op.endswith('gaussian_filter')]
            if g is None or len(hs) != 1:
                raise Unsupported('%s: smoothed field: %s' % (q, show(Z, 200)))
            a = hs[0]
            h = as_r(idx(R.atom(a), i, j))
            f2 = f.add(mk_cmp(h, '>=')).add(mk_cmp(num(1) - h, '>='))
            fac = as_r(g) / h
            if a.id not in {x.id for x in all_atoms(fac)} and not {x.id for x in all_atoms(i) + all_atoms(j)} & {x.id for x in all_atoms(fac)}:
                factor = fac            # smoothing is linear
            elif not c.same(g, h, 'probability', q, 'the value shown at a node is its smoothed fraction of the weight', f2):
                return
        Z, s = a.args[0], a.args[1]
        if isinstance(s, str):      # keywords follow the arguments, name before value
            kw = dict(zip(a.args[1::2], a.args[2::2]))
            if 'sigma' not in kw:
                raise Unsupported('%s: bandwidth of the smoothing' % q)
            s = kw['sigma']
        c.same(as_r(s), d.smooth, 'smooth', q, 'the probabilities are smoothed with the bandwidth asked')
    if rank_of(I, Z) != 2:
        raise Unsupported('%s: field shown: %s' % (q, show(Z, 200)))
    if isinstance(Z, R) and Z.single() is not None and (Z.single().op or '').endswith('gaussian_filter'):
        c.require(False, 'smooth', q, 'the probabilities are not smoothed unless asked')
        return
    c.same(as_r(at(I, Z, i, j)) * factor, want, 'probability', q, 'the value shown at a node is its captured fraction of the weight', f)


def own_figure(c, q):
    """Nothing is drawn into the figure of an earlier plot."""
    d = Drawing(c, q)
    last = lambda t: t.name.rsplit('.', 1)[-1]
    ev = [x for x in d.ev if x[0].kind in ('ext', 'callv')]
    first = [i for i, (t, cd, l) in enumerate(ev) if last(t) in DRAWN + MARKED]
    if not first:
        return
    new = [x for x in ev[:first[0]] if last(x[0]) in ('figure', 'subplots', 'subplot_mosaic')]
    if new:
        return c.same(b_or(*[b_and(*cd) for t, cd, l in new if not l]), True, 'figure', q, 'the plot starts a figure of its own')
    import rules_main
    e = rules_main.Entry(c.again(), typed=True)
    calls = [i for i, (t, cd, l) in enumerate(e.ev) if t.kind == 'call' and t.name == q]
    made = [i for i, (t, cd, l) in enumerate(e.ev) if t.kind == 'ext' and last(t) in ('figure', 'subplots', 'subplot_mosaic')]
    c.require(calls and any(i < min(calls) for i in made), 'figure', q, 'the plot starts a figure of its own')


def C24(c):
    """Probabilities and areas reported are those of the field."""
    I = c.I
    for q in (PROB, DPLOT, IMPACT):
        refused(c, q)
        own_figure(c, q)
    for smooth in (False, True):
        sm = pos('smooth') if smooth else num(0)
        d = Drawing(c, PROB, smooth=sm)
        d.smooth = sm
        c.require(d.r.state is not None and not d.r.raises, 'total', PROB, 'a field with weight is drawn')
        maps = d.draws('contourf', 'contour')
        if not d.draws('contourf'):
            if d.draws(*DRAWN):
                raise Unsupported('%s: probability map is not drawn by contourf' % PROB)
            c.require(False, 'drawn', PROB, 'the probability map is drawn')
            raise Stop()
        c.same(b_or(*[b_and(*cd) for t, cd, l in d.draws('contourf')]), True, 'drawn', PROB, 'the probability map is always drawn')
        for t, cd, l in maps:
            if len(t.args) < 3:
                raise Unsupported('%s: %s without coordinates' % (PROB, t.name))
            shown_field(c, d, t.args[2], smooth)
        for t, cd, l in d.draws('contourf'):
            lv = t.args[3] if len(t.args) > 3 else t.kwargs.get('levels')
            if lv is not None and isinstance(lv, VecV) and all(isinstance(x, R) and x.is_const() for x in lv.items):
                x = [v.value() for v in lv.items]
                c.require(x[0] <= 0 and x[-1] >= 1 and all(a < b for a, b in zip(x, x[1:])), 'levels', PROB,
                          'the colour scale covers probabilities 0 to 1: %s' % [float(v) for v in x])
    # areas
    d = Drawing(c, DPLOT)
    k = [fresh_atom('k', integer=True, nonneg=True) for _ in (0, 1)]
    i, j = R.atom(k[0]), R.atom(k[1])
    cell = d.v['deltax'] * d.v['deltay']
    want = mk_sum(d.v['nrows'], k[0], mk_sum(d.v['ncols'], k[1], ite(mk_cmp(idx(d.v['pgrid'], i, j), '>'), cell, num(0))))
    c.same(as_r(d.r.value), want, 'area', DPLOT, 'the area of a deterministic capture zone is the visited cells times the cell area')
    d = Drawing(c, IMPACT)
    v = d.r.value
    st = d.r.state
    if not isinstance(v, TupleV) or len(v.items) != 2:
        raise Unsupported('%s: returns %s' % (IMPACT, show(v, 100)))
    pr, area = [I.freeze(x, st) for x in v.items]
    n = d.v['nrows'] * d.v['ncols']
    Z = c.I.lib.lift(lambda x: x / d.v['total_weight'], d.v['pgrid'])
    srt = c.I.lib.sort_array(I, c.I.lib.ravel(I, Z, st), st)
    kk = R.atom(fresh_atom('k', integer=True, nonneg=True))
    f = Facts().add(mk_cmp(n - kk, '>'))
    c.same(I.length(pr), n, 'impact', IMPACT, 'the impact curve has one point per node')
    c.same(I.length(area), n, 'impact', IMPACT, 'the impact curve has one area per point')
    c.same(at(I, pr, kk), at(I, srt, n - num(1) - kk), 'impact', IMPACT,
           'the impact curve lists the captured fractions in descending order', f)
    c.same(at(I, area, kk), (kk + num(1)) * d.spacing * d.spacing, 'impact', IMPACT,
           'the area at a point counts the nodes up to it', f)
    # what is plotted is a run of that curve
    lines = [x for x in d.draws('plot', 'semilogy', 'semilogx', 'loglog', 'scatter', 'step') if len(x[0].args) >= 2]
    if not c.require(bool(lines), 'impact', IMPACT, 'the impact curve is drawn'):
        raise Stop()
    for t, cd, l in lines:
        x, y = t.args[0], t.args[1]
        nx = I.length(x)
        g = Facts().add(mk_cmp(nx - kk, '>'))
        px, py = at(I, x, kk), at(I, y, kk)
        pos_ = [a for a in all_atoms(px) if a.op == 'idx' and a.args[0].single() is not None and a.args[0].single().op == 'sort'
                and any(b.id == kk.single().id for b in all_atoms(a.args[1]))]
        if len(pos_) != 1:
            raise Unsupported('%s: plotted probabilities: %s' % (IMPACT, show(x, 200)))
        m = n - num(1) - pos_[0].args[1]              # index on the curve
        c.same(px, at(I, srt, n - num(1) - m), 'impact-plot', IMPACT, 'the curve is drawn over the captured fractions', g)
        w = (m + num(1)) * d.spacing * d.spacing / ACRE
        c.same_any(py, [alg.mk_floor(w), w], 'impact-plot', IMPACT, 'the curve is drawn with the acres of the same point', g)


def marks(c, d, what, xs, ys, n=None):
    """Some plot call draws markers at the given points (n None: one point)."""
    I, q = c.I, d.q
    k0 = R.atom(fresh_atom('k', integer=True, nonneg=True))
    unsure = []
    for t, cd, l in d.draws('plot', 'scatter'):
        if len(t.args) < 2:
            unsure.append(t)
            continue
        x, y = t.args[0], t.args[1]
        try:
            if n is None:
                if l:
                    continue
                if rank_of(I, x):
                    if not (I.length(x).is_const() and I.length(x).value() == 1):
                        continue
                    x, y = I.elem(x, num(0)), I.elem(y, num(0))
                r = [equal(as_r(x), xs(None)), equal(as_r(y), ys(None))]
            else:
                if l:
                    if len(l) != 1 or rank_of(I, x):
                        unsure.append(t)
                        continue
                    k = R.atom(l[0].k)
                    r = [equal(as_r(l[0].n), n)]
                else:
                    if not rank_of(I, x):
                        continue
                    k = k0
                    r = [equal(I.length(x), n), equal(I.length(y), n)]
                    x, y = I.elem(x, k), I.elem(y, k)
                f = Facts().add(mk_cmp(n - k, '>'))
                r += [equal(as_r(x), xs(k), f), equal(as_r(y), ys(k), f)]
        except Unsupported:
            unsure.append(t)
            continue
        if all(z is True for z in r) and (equal(b_and(*cd), True, Facts().add(mk_cmp(n - k, '>')) if n is not None else None)):
            return c.require(True, 'markers', q, '%s are marked where they are' % what)
        if None in r and False not in r:
            unsure.append(t)
    if unsure:
        raise Unsupported('%s: markers for %s: %s' % (q, what, [show(a, 100) for a in unsure[0].args[:2]]))
    return c.require(False, 'markers', q, '%s are marked where they are' % what)


def C25(c):
    """Maps have every value, cell and marker at its own place."""
    I = c.I
    for q in (PROB, DPLOT):
        d = Drawing(c, q, smooth=num(0) if q == PROB else None)
        d.smooth = None
        if not c.require(d.r.state is not None, 'total', q, 'a field with weight is drawn'):
            raise Stop()
        i, j, f = d.ij()
        v = d.v
        x, y = v['xmin'] + j * v['deltax'], v['ymin'] + i * v['deltay']
        if q == PROB:
            for t, cd, l in d.draws('contourf', 'contour'):
                grid(c, q, t, v['nrows'], v['ncols'], i, j, f, x, y, idx(v['pgrid'], i, j) / v['total_weight'])
        else:
            cells(c, d)
        marks(c, d, 'the wells', lambda k: idx(d.wells, k, num(0)), lambda k: idx(d.wells, k, num(1)), mk_len(d.wells))
        marks(c, d, 'the observations', lambda k: idx(d.obs, k, num(0)), lambda k: idx(d.obs, k, num(1)), mk_len(d.obs))
        marks(c, d, 'the target well', lambda k: idx(d.wells, d.target, num(0)), lambda k: idx(d.wells, d.target, num(1)))
    for name, meth in (('contour_head', 'compute_head'), ('contour_potential', 'compute_potential')):
        model_map(c, VIS + name, meth)


def grid(c, q, t, nrows, ncols, i, j, f, x, y, z, rule='place'):
    I = c.I
    if len(t.args) < 3:
        raise Unsupported('%s: %s without coordinates' % (q, t.name))
    X, Y, Z = t.args[:3]
    if rank_of(I, Z) != 2:
        raise Unsupported('%s: map values: %s' % (q, show(Z, 200)))
    rx, ry = rank_of(I, X), rank_of(I, Y)
    lib = I.lib
    sh = lib.shape_of(Z)
    c.same(sh[0], nrows, rule, q, 'map rows follow y')
    c.same(sh[1], ncols, rule, q, 'map columns follow x')
    gx = at(I, X, j) if rx == 1 else at(I, X, i, j)
    gy = at(I, Y, i) if ry == 1 else at(I, Y, i, j)
    if rx == 1:
        c.same(I.length(X), ncols, rule, q, 'one x per column')
    if ry == 1:
        c.same(I.length(Y), nrows, rule, q, 'one y per row')
    c.same(gx, x, rule, q, 'the x of a column is where its nodes are', f)
    c.same(gy, y, rule, q, 'the y of a row is where its nodes are', f)
    c.same(at(I, Z, i, j), z, rule, q, 'the value shown at a node is the value of that node', f)


def cells(c, d):
    """Exactly the visited cells are filled, each around its node."""
    I, q = c.I, d.q
    v = d.v
    fills = d.draws('fill')
    if not fills:
        if d.draws(*(DRAWN + ('fill_between', 'add_patch', 'add_collection', 'bar'))):
            raise Unsupported('%s: capture zone is not drawn by fill' % q)
        c.require(False, 'cells', q, 'the capture zone is drawn')
        return
    for t, cd, l in fills:
        ns = [as_r(x.n) for x in l]
        rows = [x for x in l if equal(as_r(x.n), v['nrows'])]
        cols = [x for x in l if equal(as_r(x.n), v['ncols'])]
        if len(l) != 2 or len(rows) != 1 or len(cols) != 1:
            raise Unsupported('%s: cells drawn over %s' % (q, [show(n) for n in ns]))
        i, j = R.atom(rows[0].k), R.atom(cols[0].k)
        f = Facts().add(mk_cmp(v['nrows'] - i, '>')).add(mk_cmp(v['ncols'] - j, '>'))
        c.same(b_and(*cd), mk_cmp(idx(v['pgrid'], i, j), '>'), 'cells', q, 'exactly the visited cells are filled', f)
        x, y = v['xmin'] + j * v['deltax'], v['ymin'] + i * v['deltay']
        px, py = [[as_r(e) for e in (s.items if isinstance(s, (TupleV, VecV)) else I.seq(s, d.r.state))]
                  for s in map(I_items(I, d), t.args[:2])]
        hx, hy = v['deltax'] / num(2), v['deltay'] / num(2)
        code = []
        for a, b in zip(px, py):
            sx = [s for s in (-1, 1) if r_eq(a, x + num(s) * hx)]
            sy = [s for s in (-1, 1) if r_eq(b, y + num(s) * hy)]
            code.append((sx[0], sy[0]) if sx and sy else None)
        if len(code) == 5 and code[0] == code[4]:
            code.pop()
        ok = len(px) == len(py) and len(code) == 4 and None not in code and len(set(code)) == 4 and all(
            (code[m][0] == code[m - 1][0]) != (code[m][1] == code[m - 1][1]) for m in range(4))
        c.require(ok, 'cells', q, 'a cell is the rectangle of the grid spacing around its node: x %s, y %s' % (
            [show(z, 80) for z in px], [show(z, 80) for z in py]))


def I_items(I, d):
    def f(s):
        s = I.freeze(s, d.r.state)
        if isinstance(s, (TupleV, VecV)):
            return s
        n = I.length(s)
        if not n.is_const():
            raise Unsupported('%s: polygon %s' % (d.q, show(s, 100)))
        return TupleV([I.elem(s, num(k)) for k in range(int(n.value()))])
    return f


def model_map(c, q, meth):
    try:
        model_map_at(c.again(), q, meth)
    except Unsupported:
        # no answer for every size: a map of 2 x 3 nodes, written out, can still refute
        model_map_at(c.again(), q, meth, (num(2), num(3)))
        raise


def model_map_at(c, q, meth, size=None):
    I = c.I
    fails = lambda x, y: b_atom(apply(meth + '_fails', x, y, boolean=True))

    def h(I, st, a):
        b = list(a.values())
        x, y = as_r(b[1]), as_r(b[2])
        I.raise_exc(st, I.make_exc(st, I.get(AQ), ['dry']), fails(x, y))
        I.assume(st, b_not(fails(x, y)))
        return apply(meth, x, y)
    for m in ('compute_head', 'compute_potential'):
        c.opaque('oneka.model.Model.' + m, h if m == meth else (lambda I, st, a, m=m: apply(m, as_r(list(a.values())[1]), as_r(list(a.values())[2]))))
    st = I.start()
    ref, v = c.W.model(st)
    b = [sym(n) for n in ('xlo', 'xhi', 'ylo', 'yhi')]
    nr, nc = size or (sym(n, integer=True, pos=True) for n in ('nrow', 'ncol'))
    for x in () if size else (nr, nc):
        I.assume(st, mk_cmp(x - num(1), '>'))
    r = c.call(q, [ref] + b + [nr, nc], {}, st=st)
    if not c.require(r.state is not None and not r.raises, 'total', q, 'dry points do not stop the map (%s)' % c.exc_names(r)):
        return
    ev = [unbound(t) for t, cd, l in walk_trace(r.state.trace) if t.kind == 'ext' and t.name.rsplit('.', 1)[-1] in ('contourf', 'contour')]
    if not c.require(bool(ev), 'drawn', q, 'the map is drawn'):
        return
    if size:
        nodes = [(num(i), num(j)) for i in range(int(nr.value())) for j in range(int(nc.value()))]
    else:
        nodes = [tuple(R.atom(fresh_atom(n, integer=True, nonneg=True)) for n in 'ij')]
    for t in ev:
        for i, j in nodes:
            f = Facts()
            for w in (nr - i, nc - j, nr - num(1), nc - num(1)):
                f = f.add(mk_cmp(w, '>'))
            x = b[0] + j * (b[1] - b[0]) / (nc - num(1))
            y = b[2] + i * (b[3] - b[2]) / (nr - num(1))
            z = ite(fails(x, y), apply('nan'), apply(meth, x, y))
            grid(c, q, t, nr, nc, i, j, f, x, y, z, 'model-map')


NAMES, FORMATS = ('A', 'B', 'C'), ('12.2f', '9.4e', '12.3f')
ROWS = ('cnt', 'min', 'med', 'max', 'avg', 'std')


def written(I, ev, buf, q):
    """Everything written to a text buffer, as a list of parts."""
    out = []

    def put(v):
        if isinstance(v, Gamma):
            raise Unsupported('%s: table text depends on %s' % (q, show(v.cond, 100)))
        if isinstance(v, str):
            out.append(v)
        elif isinstance(v, StrV):
            out.extend(v.parts)
        else:
            raise Unsupported('%s: table text %s' % (q, show(v, 100)))
    for t, cd, l in ev:
        mine = t.kind == 'ext' and t.name.startswith('io.StringIO.') and t.args and t.args[0] is buf
        if t.kind == 'print' and t.kwargs.get('file') is buf:
            for i, a in enumerate(t.args):
                put(' ') if i else None
                put(a if isinstance(a, (str, StrV)) else StrV((('fmt', a, '', ''),)))
            put(t.kwargs.get('end', '\n'))
        elif t.result is buf and t.kind == 'ext' and t.args:
            put(t.args[0])
        elif not mine or t.name.endswith(('.getvalue', '.seek', '.flush')):
            continue
        elif t.name.endswith('.write'):
            if l or b_and(*cd) is not True:
                raise Unsupported('%s: table text written in a loop or under a condition' % q)
            put(t.args[1])
        elif t.name.endswith('.writelines') and not l and b_and(*cd) is True:
            v = t.args[1]
            if isinstance(v, ListV):
                if not all(p[0] == 'item' and p[1] is True for p in v.parts):
                    raise Unsupported('%s: lines %s' % (q, show(v, 100)))
                v = TupleV([p[2] for p in v.parts])
            if not isinstance(v, (TupleV, VecV)):
                raise Unsupported('%s: lines %s' % (q, show(v, 100)))
            for x in v.items:
                put(x)
        else:
            raise Unsupported('%s: %s' % (q, t.name))
    return out


def lines_of(parts):
    rows, cur = [], []
    for p in parts:
        if isinstance(p, str):
            ls = p.split('\n')
            cur.append(ls[0])
            for x in ls[1:]:
                rows.append(cur)
                cur = [x]
        else:
            cur.append(p)
    if any(cur):
        rows.append(cur)
    return rows


def by_rank(I, name, col, st):
    """The statistic written with the sorted entries."""
    n, half = I.length(col), num(Fraction(1, 2))
    srt = fn2(I, 'numpy.sort')(col)

    def at(i):
        return as_r(I.freeze(I.getitem(srt, i, st, None), st))
    if name != 'med':
        return [at(num(0) if name == 'min' else n - num(1))]
    lo, hi, odd = mk_floor((n - num(1)) * half), mk_floor(n * half), mk_cmp(n - num(2) * mk_floor(n * half), '!=')
    return [(at(lo) + at(hi)) * half, ite(odd, at(hi), (at(hi - num(1)) + at(hi)) * half)]


def C29(c):
    """The summary table has the statistics of every variable in its column."""
    import lib2
    from rules_main import Entry, ON, threading
    I = c.I
    lib2.FINITE[0] = False
    vals = seqsym('values', width=3)
    st = I.start()
    r = c.call(STATS, [vals, TupleV(list(NAMES)), TupleV(list(FORMATS)), 'Title of the table'], {}, st=st)
    if not c.require(r.state is not None and not r.raises, 'total', STATS, 'a table is made (%s)' % c.exc_names(r)):
        raise Stop()
    buf = r.value
    ev = list(walk_trace(r.state.trace))
    if not isinstance(buf, ExtObj):
        raise Unsupported('%s: returns %s' % (STATS, show(buf, 100)))
    rows = lines_of(written(I, ev, buf, STATS))
    text = [''.join(p if isinstance(p, str) else chr(0) for p in x) for x in rows]
    c.require(any('Title of the table' in x for x in text), 'header', STATS, 'the table shows its title')
    heads = [x.split() for x in text if x.split() and set(x.split()) & set(NAMES)]
    c.require(heads == [list(NAMES)], 'header', STATS, 'the columns are headed by the variable names in order: %s' % heads)
    n = mk_len(vals)
    for name in ROWS:
        hit = [x for x, y in zip(rows, text) if y.strip().startswith(name + ':')]
        if not c.require(len(hit) == 1, 'row', STATS, 'the table has one row %r: %d' % (name, len(hit))):
            continue
        got = [p for p in hit[0] if not isinstance(p, str)]
        if not c.require(len(got) == 3, 'row', STATS, 'row %r has one value per variable: %d' % (name, len(got))):
            continue
        for j, p in enumerate(got):
            k = fresh_atom('k', integer=True, nonneg=True)
            col = lib2.nonmissing(I, alg.Arr((n,), (k,), idx(vals, R.atom(k), num(j))), st)
            f = {'cnt': lambda v: I.length(v), 'min': fn2(I, 'numpy.min'), 'med': fn2(I, 'numpy.median'), 'max': fn2(I, 'numpy.max'),
                 'avg': fn2(I, 'numpy.mean'), 'std': fn2(I, 'numpy.std')}[name]
            forms = [as_r(f(col))]
            if name in ('min', 'med', 'max') and vague(p[1], forms[0]):
                forms = by_rank(I, name, col, st) + forms
            c.same_any(as_r(p[1]), forms, 'statistic', STATS, 'row %r, variable %d' % (name, j + 1))
            c.require(isinstance(p[2], str) and not p[2].endswith('%'), 'format', STATS, 'row %r is printed unscaled: %s' % (name, p[2]))
            if name != 'cnt' and isinstance(p[2], str):
                want = FORMATS[j]
                c.require(p[2].endswith(want[-1]) and (p[2].split('.')[-1] == want.split('.')[-1]), 'format', STATS,
                          'row %r, variable %d is printed with its own format %s: %s' % (name, j + 1, want, p[2]))
    lib2.FINITE[0] = True
    c = c.again()
    e = Entry(c, typed=True)
    if not c.require(e.r.state is not None and not e.r.raises, 'total', ON, 'a valid run returns'):
        raise Stop()
    calls = [t for t, cd, l in e.ev if t.kind == 'call' and t.name == STATS]
    if not c.require(len(calls) >= 1, 'reported', ON, 'a run summarises its retained observations'):
        raise Stop()
    good = 0
    for t in calls:
        a = list(t.extra['frozen'].values())
        if isinstance(a[0], R) and r_eq(a[0], e.kept):
            names = [x for x in (a[1].items if isinstance(a[1], (TupleV, VecV, ListV)) else [])]
            if not names:
                raise Unsupported('%s: column names %s' % (ON, show(a[1], 100)))
            at_ = {'easting': 0, 'x': 0, 'northing': 1, 'y': 1, 'head': 2, 'level': 2, 'stdev': 3, 'std': 3}
            c.require(len(names) == 4 and len(set(names)) == 4 and all(at_.get(str(x).lower(), i) == i for i, x in enumerate(names)),
                      'reported', ON, 'the columns are named in the order of the observation tuple: %s' % names)
            good += 1
    if not c.require(good, 'reported', ON, 'the observations summarised are the retained ones: %s' % show(
            list(calls[0].extra['frozen'].values())[0], 200)):
        raise Stop()
    logged = False
    for t, cd, l in e.ev:
        if t.kind == 'log' and t.name in LOUD:
            x = t.args[1]
            vals = [p[1] for p in x.parts if not isinstance(p, str)] if isinstance(x, StrV) else [x]
            logged |= any(is_getvalue(v, e) for v in vals) and b_and(*cd) is True
    c.require(logged, 'reported', ON, 'the summary is written to the log')


def is_getvalue(v, e):
    if v is e.table:
        return True
    return any(t.result is v and t.name.endswith('getvalue') and t.args and t.args[0] is e.table for t, cd, l in e.ev
               if t.kind in ('ext', 'callv') and v is not None)


def fn2(I, name):
    import lib2
    return lambda v: lib2.TABLE[name](I, [v], {}, I.start(), None)


RULES = {'C24': C24, 'C25': C25, 'C29': C29}
for _r in RULES.values():
    _r.modes = 1

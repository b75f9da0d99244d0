"""Rules on a whole run: the realizations, their models and velocities, the
descriptors, observation filtering, validation and parameter threading."""
from core import *
from values import walk_trace, LoopNode, ListV, ExtObj

STO = 'oneka.stochastic.create_stochastic_capturezone'
DET = 'oneka.deterministic.create_deterministic_capturezone'
VAR = 'oneka.stochastic.generate_random_variate'
MEAN = 'oneka.stochastic.compute_variate_mean'
ISD = 'oneka.stochastic.isdistribution'
CZ = 'oneka.capturezone.compute_capturezone'
MODEL = 'oneka.model.Model'
AQ = 'oneka.model.AquiferError'
PF = 'oneka.probabilityfield.ProbabilityField'
FIELD = ('rasterize', 'register', 'reset', 'insert', 'expand')
ATTRS = ('base', 'conductivity', 'porosity', 'thickness', 'wells', 'xo', 'yo', 'coef')


def bound_names(f):
    a = f.node.args
    return [x.arg for x in a.posonlyargs + a.args]


class Run:
    """One abstract run of a driver: every call of compute_capturezone with the
    velocity function evaluated at an arbitrary point, every model snapshot."""

    def __init__(self, c, which, nreal=None, fit_fails=False):
        self.c, self.which = c, which
        I = c.I
        self.target = sym('target', integer=True, nonneg=True)
        self.npaths, self.D = sym('npaths', integer=True, pos=True), sym('duration')
        self.nreal = nreal if nreal is not None else sym('nreal', integer=True, pos=True)
        self.base = sym('base')
        self.cd, self.pd, self.td = sym('c_dist'), sym('p_dist'), sym('t_dist')
        self.wells, self.obs = seqsym('wells', width=4), seqsym('obs', width=4)
        self.spacing, self.umbra = pos('spacing'), pos('umbra')
        self.conf = sym('confined', boolean=True)
        self.tol, self.maxstep = pos('tol'), pos('maxstep')
        self.qx, self.qy, self.px, self.py = [sym(n) for n in ('qx', 'qy', 'px', 'py')]

        def draw(I, st, a):
            v = I.freeze(next(iter(a.values())), st)
            return apply('draw', R.const(I.uid()), *([R.atom(k) for k in I.loopk] + [v]))
        c.opaque(VAR, draw)
        c.opaque(MEAN, lambda I, st, a: apply('mean', I.freeze(next(iter(a.values())), st)))

        def snap(I, st, ref):
            return {k: I.freeze(I.getattr(ref, k, st, None), st) for k in ATTRS}

        def mat(name, uid, I, shape):
            at, _ = get_app(name, (uid,) + tuple(R.atom(k) for k in I.loopk))
            at.ndim, at.shape = 2, shape
            return R.atom(at)

        def construct(I, st, a):
            u = R.const(I.uid())
            kw = snap(I, st, a['self'])
            b = list(a.values())
            kw.update(obs_=I.freeze(b[1], st), fx_=b[2], fy_=b[3])
            r = mat('WA', u, I, (I.length(b[1], st), num(6))), mat('Wb', u, I, (I.length(b[1], st), num(1)))
            I.event(st, 'fit', 'construct', [r[0], r[1]], kw, None)
            return TupleV(list(r))
        c.opaque(MODEL + '.construct_fit', construct)

        def fit(I, st, a):
            u = R.const(I.uid())
            b = [I.freeze(x, st) for x in a.values()]
            r = mat('ev', u, I, (num(6), num(1))), mat('cov', u, I, (num(6), num(6)))
            I.event(st, 'fit', 'solve', [r[0], r[1]], dict(WA=b[-2], Wb=b[-1]), None)
            if fit_fails:
                fails = b_atom(apply('fit_fails', u, *[R.atom(k) for k in I.loopk], boolean=True))
                I.raise_exc(st, I.make_exc(st, ExtV('numpy.linalg.LinAlgError'), ['singular']), fails)
                I.assume(st, b_not(fails))
            return TupleV(list(r))
        c.opaque(MODEL + '.compute_fit', fit)

        def velocity(confined):
            def h(I, st, a):
                u = R.const(I.uid())
                kw = snap(I, st, a['self'])
                b = list(a.values())
                ks = tuple(R.atom(k) for k in I.loopk)
                kw.update(x_=b[1], y_=b[2])
                fails = b_atom(apply('V_fails', u, *ks, boolean=True)) if not confined else False
                I.event(st, 'velocity', 'confined' if confined else 'unconfined', [u], kw, None)
                if fails is not False:
                    I.raise_exc(st, I.make_exc(st, I.get(AQ), ['dry']), fails)
                    I.assume(st, b_not(fails))
                return TupleV([apply('V%d' % i, u, *ks) for i in (0, 1)])
            return h
        c.opaque(MODEL + '.compute_velocity', velocity(False))
        c.opaque(MODEL + '.compute_velocity_confined', velocity(True))

        def cz(I, st, a):
            f = a['feval']
            s2 = st.copy()
            n0, n1 = len(s2.trace), len(s2.pc)
            old, I.sink = I.sink, []
            try:
                # asked before, at any other point: what that leaves behind
                # must not change the answer
                I.call(f, [I.new_ref(s2, ArrC(VecV([self.px, self.py])))], {}, s2, None)
                del s2.trace[n0:]
                s2.pc = s2.pc[:n1]
                I.sink = []
                at = I.new_ref(s2, ArrC(VecV([self.qx, self.qy])))
                v = I.call(f, [at], {}, s2, None)
                raised = I.sink
                self.kept = I.freeze(at, s2)
            finally:
                I.sink = old
            st.trace += s2.trace[n0:]
            fz = I.freeze(v, s2)
            kw = dict(a)
            kw['fx_'], kw['fy_'] = I.elem(fz, num(0), s2), I.elem(fz, num(1), s2)
            kw['raise_'] = b_or(*[b_and(*s.pc[n1:]) for s, e in raised]) if raised else False
            kw['other_'] = bool([1 for s, e in raised if not exc_is(exc_class(e, s), AQ)])
            st.heap.update(s2.heap)
            I.event(st, 'cz', 'compute_capturezone', [], kw, None)
            return None
        f = c.fn(CZ)
        I.opaque[f.qual] = lambda I, st, a, node: cz(I, st, a)
        for m in FIELD:
            try:
                c.opaque(PF + '.' + m)
            except Anchor:
                pass
        st = I.start()
        args = dict(target=self.target, npaths=self.npaths, duration=self.D, nrealizations=self.nreal, base=self.base,
                    c_dist=self.cd, p_dist=self.pd, t_dist=self.td, stochastic_wells=self.wells, observations=self.obs,
                    spacing=self.spacing, umbra=self.umbra, confined=self.conf, tol=self.tol, maxstep=self.maxstep)
        q = STO if which == 'stochastic' else DET
        self.q = q
        if which != 'stochastic':
            del args['nrealizations']
        self.r = r = c.call(q, [], args, st=st)
        if not c.require(r.state is not None, 'returns', q, 'the driver returns'):
            raise Stop()
        c.require(not r.raises or fit_fails, 'total', q, 'raises %s' % c.exc_names(r))
        self.ev = list(walk_trace(r.state.trace))
        cz_ = [x for x in self.ev if x[0].kind == 'cz']
        if not c.require(len(cz_) == 1, 'one-trace-call', q, 'capture zones are computed at one place (%d)' % len(cz_)):
            raise Stop()
        self.cz, self.conds, self.loops = cz_[0]

    def always(self):
        """Is the capture zone computed on every pass of the loops?"""
        f = self.facts()
        for l in self.loops:
            k = R.atom(l.k)
            f = f.add(mk_cmp(k, '>=')).add(mk_cmp(as_r(l.n) - k, '>'))
        return all(x is True or alg.decide(x, f) is True for x in self.conds)

    def velocities(self):
        out = {}
        for e, conds, loops in self.ev:
            if e.kind == 'velocity':
                out[e.args[0].value()] = (e, conds)
        return out

    def target_well(self, i):
        return idx(self.wells, self.target, num(i))

    def model_events(self):
        """The velocity evaluations the velocity function depends on."""
        vs = self.velocities()
        v = VecV([as_r(self.cz.kwargs['fx_']), as_r(self.cz.kwargs['fy_'])])
        ids = set()
        for a in all_atoms(v):
            if a.op in ('V0', 'V1'):
                ids.add(a.args[0].value())
        return [vs[i] for i in sorted(ids) if i in vs], ids

    def facts(self):
        return Facts().add(mk_cmp(self.nreal, '>')) if not self.nreal.is_const() else Facts()


def C15(c):
    """The velocity driving the traces is minus the seepage velocity of the
    realization's own model, confined formula iff confined."""
    for which in ('stochastic', 'deterministic'):
        run = Run(c, which)
        q = run.q
        kw = run.cz.kwargs
        evs, ids = run.model_events()
        kinds = {}
        for e, conds in evs:
            kinds.setdefault(e.name, []).append(e)
        neg = {}
        cf = b_atom(run.conf)
        for name, val in (('confined', True), ('unconfined', False)):
            f = Facts().add(cf if val else b_not(cf)).add(b_not(mk_cmp(run.qx - run.px, '==')))
            for comp, key in ((0, 'fx_'), (1, 'fy_')):
                got, und = alg.resolve(as_r(kw[key]), f)
                a = (-got).single() if isinstance(got, R) else None
                ok = a is not None and a.op == 'V%d' % comp and any(
                    e.args[0].value() == a.args[0].value() and e.name == name for e, _ in evs)
                c.require(ok, 'minus-velocity', q, '%s: with confined = %s component %d of the velocity function is '
                          'minus the %s velocity of the model: %s' % (which, val, comp, name, show(got, 300)))
                if ok:
                    e = [e for e, _ in evs if e.args[0].value() == a.args[0].value()][0]
                    c.same(e.kwargs['x_'], run.qx, 'point', q, '%s: velocity is taken at the point asked (x)' % which)
                    c.same(e.kwargs['y_'], run.qy, 'point', q, '%s: velocity is taken at the point asked (y)' % which)
                    neg[name] = e
        fl = [a for a in (all_atoms(kw['raise_']) if isinstance(kw['raise_'], B) else []) if a.op == 'V_fails']
        want = b_and(b_not(cf), b_or(*[b_atom(R.atom(a)) for a in fl])) if fl else False
        c.same(kw['raise_'], want, 'dry', q, '%s: a dry point is an error of the velocity function, nothing else is' % which,
               Facts().add(b_not(mk_cmp(run.qx - run.px, '=='))))
        c.require(veq(run.kept, VecV([run.qx, run.qy])), 'point', q, '%s: the point asked is left as it was' % which)
        c.require(not kw['other_'], 'dry', q, '%s: no error is translated' % which)
        if 'unconfined' in neg:
            c.require(len(fl) == 1, 'dry', q, '%s: the aquifer error reaches the tracer' % which)
        # the model is the one of this realization (not a stale or shared one)
        for name, e in neg.items():
            fits = [x for x, _, _ in run.ev if x.kind == 'fit' and x.name == 'construct']
            if len(fits) == 1:
                for k in ('base', 'conductivity', 'porosity', 'thickness', 'wells'):
                    c.require(veq(e.kwargs[k], fits[0].kwargs[k]) or same_value(c, e.kwargs[k], fits[0].kwargs[k]), 'own-model', q,
                              '%s: the %s velocity uses the model that was fitted in the same realization (%s)' % (which, name, k))


def same_value(c, a, b):
    try:
        equiv(a, b, Facts())
        return True
    except Mismatch:
        return False


def settled(a, b, f=None):
    try:
        return bool(alg.equiv(a, b, f) or 1)
    except (Mismatch, Unsupported):
        return False


def permuted(I, run, wells, value):
    """The model's wells are the given wells in some order: every symmetric
    function of them has the same value."""
    n = mk_len(run.wells)

    def total(seq, row):
        k = fresh_atom('w', integer=True, nonneg=True)
        return mk_sum(I.length(seq), k, apply('any_of_a_well', TupleV(row(k))))

    def given(k):
        w = [idx(run.wells, R.atom(k), num(i)) for i in range(4)]
        return w[:3] + [as_r(value(w[3]))]

    def made(k):
        r = I.elem(wells, R.atom(k))
        return [as_r(I.elem(r, num(i))) for i in range(4)]

    def backwards(k):
        r = I.elem(wells, n - num(1) - R.atom(k))
        return [as_r(I.elem(r, num(i))) for i in range(4)]
    try:
        want = total(run.wells, given)
        return settled(I.length(wells), n) and (settled(total(wells, made), want) or settled(total(wells, backwards), want))
    except Unsupported:
        return False


def row_check(c, run, wells, spec, rule, value=None):
    """The model's wells are the given wells, in order, with discharges spec(k)."""
    I, q = c.I, run.q
    n = mk_len(run.wells)
    if value is not None and permuted(I, run, wells, value):
        return c.require(True, rule, q, 'the wells of the model are the given wells')
    c.same(I.length(wells), n, rule, q, 'every well is in the model')
    if alg.SIZES:
        for k in range(int(n.value())):
            row = I.elem(wells, num(k))
            for i in range(3):
                c.same(I.elem(row, num(i)), idx(run.wells, num(k), num(i)), rule, q, 'wells keep their position and radius (%d)' % i)
            spec(I.elem(row, num(3)), idx(run.wells, num(k), num(3)), k, None)
        return
    k = fresh_atom('w', integer=True, nonneg=True)
    f = Facts().add(mk_cmp(n - R.atom(k), '>'))
    row = I.elem(wells, R.atom(k))
    for i in range(3):
        c.same(I.elem(row, num(i)), idx(run.wells, R.atom(k), num(i)), rule, q,
               'wells keep their position and radius (%d)' % i, f)
    spec(I.elem(row, num(3)), idx(run.wells, R.atom(k), num(3)), k, f)


def common(c, run, draw, value=None):
    """Obligations shared by both drivers; draw(value, descriptor, what, k)
    states how a value comes from its descriptor."""
    q, kw = run.q, run.cz.kwargs
    I = c.I
    for k, w in (('npaths', run.npaths), ('duration', run.D), ('umbra', run.umbra), ('tol', run.tol),
                 ('maxstep', run.maxstep)):
        c.same(kw[k], w, 'threading', q, 'traces use the %s of the run' % k)
    for k, i in (('xtarget', 0), ('ytarget', 1), ('rtarget', 2)):
        c.same(kw[k], run.target_well(i), 'target', q, 'traces start at the target well (%s)' % k)
    # the field
    p = kw['pfield']
    ok = isinstance(p, Ref) and isinstance(run.r.state.heap.get(p.id), ObjC)
    if c.require(ok and isinstance(run.r.value, Ref) and run.r.value.id == p.id, 'own-field', q,
                 'the field that is marked is the field returned'):
        g = {k: I.freeze(I.getattr(p, k, run.r.state, None), run.r.state) for k in ('deltax', 'deltay')}
        c.same(g['deltax'], run.spacing, 'spacing', q, 'the field has the requested spacing')
        c.same(g['deltay'], run.spacing, 'spacing', q, 'the field has the requested spacing')
        c.same(I.getattr(p, 'total_weight', run.r.state, None), num(0), 'own-field', q, 'the field starts without weight')
        mk = [x for x in run.ev if x[0].kind == 'call' and x[0].name in FIELD]
        c.require(not mk, 'own-field', q, 'only capture zones touch the field (%s)' % [x[0].name for x in mk])
    # the weight
    w = as_r(kw['weight'])
    c.require(w.is_const() and w.value() > 0, 'weight', q, 'every realization has the same positive weight: %s' % show(w, 100))
    # the model
    evs, ids = run.model_events()
    if not c.require(bool(evs), 'model', q, 'traces follow a model velocity'):
        return None
    for e, _ in evs:
        c.same(e.kwargs['base'], run.base, 'model', q, 'the model has the given base')
        for k, d in (('conductivity', run.cd), ('porosity', run.pd), ('thickness', run.td)):
            draw(e.kwargs[k], d, k, None, None)
        row_check(c, run, e.kwargs['wells'], lambda v, d, k, f: draw(v, d, 'discharge', k, f), 'wells', value)
        for k, i in (('xo', 0), ('yo', 1)):
            c.same(e.kwargs[k], run.target_well(i), 'origin', q, 'regional flow is expanded about the target well (%s)' % k)
    # the fit
    solves = [x[0] for x in run.ev if x[0].kind == 'fit' and x[0].name == 'solve']
    cons = {x[0].args[0].single().id: x[0] for x in run.ev if x[0].kind == 'fit' and x[0].name == 'construct'}
    for s in solves:
        a = s.kwargs['WA'].single() if isinstance(s.kwargs['WA'], R) else None
        b = s.kwargs['Wb'].single() if isinstance(s.kwargs['Wb'], R) else None
        e = cons.get(a.id) if a is not None else None
        if not c.require(e is not None and b is e.args[1].single(), 'fit', q, 'the fitted system is the one constructed'):
            continue
        c.same(e.kwargs['obs_'], run.obs, 'fit', q, 'all observations are fitted')
        for k, i in (('fx_', 0), ('fy_', 1)):
            c.same(e.kwargs[k], run.target_well(i), 'fit', q, 'the fit is about the target well')
        c.same(e.kwargs['base'], run.base, 'fit', q, 'the fitted model has the given base')
        for m, _ in evs:
            for k in ('conductivity', 'porosity', 'thickness', 'wells'):
                c.require(veq(e.kwargs[k], m.kwargs[k]) or same_value(c, e.kwargs[k], m.kwargs[k]), 'fit', q,
                          'the fit is made with the aquifer and wells of the realization (%s)' % k)
    return evs, solves


def C16(c):
    """The deterministic run uses the mean of every distribution and no chance."""
    run = Run(c, 'deterministic')
    q = run.q
    c.require(not run.loops and run.always(), 'once', q, 'one capture zone is computed, always')
    rng = [x[0] for x in run.ev if x[0].kind == 'rng']
    c.require(not rng, 'no-chance', q, 'no random number is drawn: %s' % [e.name for e in rng])

    def draw(v, d, what, k, f):
        c.same(v, apply('mean', d), 'mean', q, 'the %s is the mean of its distribution' % what, f)
    got = common(c, run, draw, lambda d: apply('mean', d))
    if got is None:
        return
    evs, solves = got
    for e, _ in evs:
        at = [a for a in all_atoms(VecV([as_r(c.I.elem(e.kwargs['coef'], num(i))) for i in range(6)])) if a.op == 'ev']
        c.require(len({a.id for a in at}) == 1 and any(s.args[0].single() is at[0] for s in solves), 'coef', q,
                  'the regional coefficients come from one fit')
        if at:
            for i in range(6):
                c.same(c.I.elem(e.kwargs['coef'], num(i)), idx(R.atom(at[0]), num(i), num(0)), 'coef', q,
                       'regional coefficient %d is the estimate' % i)
    fit_failure(c, 'deterministic')


def C17(c):
    """Exactly nrealizations independent realizations, each with fresh draws of
    everything uncertain."""
    run = Run(c, 'stochastic')
    q = run.q
    if not c.require(len(run.loops) == 1 and run.always(), 'count', q,
                     'capture zones are computed once per realization'):
        return
    loop = run.loops[0]
    c.same(loop.n, run.nreal, 'count', q, 'there are exactly nrealizations realizations', run.facts())
    used, own = {}, {}

    def draw(v, d, what, k, f):
        v = as_r(v)
        v = alg.resolve(v, f)[0] if f is not None else v
        a = v.single()
        if not c.require(a is not None and a.op == 'draw', 'fresh', q, 'the %s is drawn from its distribution: %s' % (
                what, show(v, 300))):
            return
        c.same(a.args[-1], d, 'fresh', q, 'the %s is drawn from its own descriptor' % what, f)
        ids = {b.id for x in a.args[1:-1] for b in all_atoms(x)}
        c.require(loop.k.id in ids, 'fresh', q, 'the %s is drawn anew in every realization' % what)
        if isinstance(k, int):
            own.setdefault(show(TupleV(a.args[:-1])), set()).add(k)
        elif k is not None:
            c.require(k.id in ids, 'fresh', q, 'every well has its own draw')
        key = (a.args[0].value(), what)
        used.setdefault(a.args[0].value(), set()).add(what)
    got = common(c, run, draw)
    if got is None:
        return
    evs, solves = got
    for ks in own.values():
        c.require(len(ks) == 1, 'fresh', q, 'every well has its own draw')
    for u, w in used.items():
        c.require(len(w) == 1, 'independent', q, 'one draw serves %s' % ' and '.join(sorted(w)))
    # regional coefficients
    rng = [x for x in run.ev if x[0].kind == 'rng']
    for e, conds, loops in rng:
        if e.name in ('seed', 'set_state'):
            c.require(False, 'unseeded', q, 'the generator is seeded')
        if e.name.startswith('create:'):
            fixed = [x for x in list(e.args) + list(e.kwargs.values()) if not entropy(x)]
            c.require(not fixed, 'unseeded', q, 'the generator is created with a fixed seed: %s' % [show(x, 50) for x in fixed])
    for e, _ in evs:
        coef = e.kwargs['coef']
        cs = [as_r(c.I.elem(coef, num(i))) for i in range(6)]
        at = [a for x in cs for a in all_atoms(x) if a.op.startswith('rng:') and not a.op.endswith('[]')]
        ids = {a.id for a in at}
        if not c.require(len(ids) == 1 and at[0].op == 'rng:multivariate_normal', 'coef-draw', q,
                         'the regional coefficients are one multivariate normal draw: %s' % show(VecV(cs), 400)):
            continue
        a = at[0]
        for i in range(6):
            c.same(cs[i], idx(R.atom(a), num(i)), 'coef-draw', q, 'coefficient %d is component %d of the draw' % (i, i))
        c.require(loop.k.id in {b.id for x in a.args for b in all_atoms(x)}, 'coef-draw', q,
                  'the coefficients are drawn anew in every realization')
        mv = [x for x in rng if isinstance(x[0].result, R) and x[0].result.single() is not None
              and x[0].result.single().args[0].value() == a.args[0].value()]
        if not c.require(len(mv) == 1, 'coef-draw', q, 'the draw is made once'):
            continue
        m = mv[0][0]
        params = [x for x in m.args if not (isinstance(x, ExtObj))]
        kw = dict(m.kwargs)
        mean = kw.pop('mean', None) if not params else params[0]
        cov = kw.pop('cov', None) if len(params) < 2 else params[1]
        kw.pop('check_valid', None), kw.pop('tol', None), kw.pop('method', None)
        c.require(len(params) <= 2 and not kw, 'coef-draw', q, 'one vector is drawn')
        src = [s for s in solves if isinstance(cov, R) and cov.single() is s.args[1].single()]
        if c.require(len(src) == 1, 'coef-cov', q, 'the draw has the covariance of the fit of this realization: %s' % show(cov, 200)):
            for i in range(6):
                c.same(c.I.elem(mean, num(i)), idx(src[0].args[0], num(i), num(0)), 'coef-mean', q,
                       'the draw is centred on the estimate of this realization (%d)' % i)
    fit_failure(c, 'stochastic')
    # means play no part
    c.require(len(used) >= 4, 'fresh', q, 'aquifer parameters and wells are drawn separately')


def fit_failure(c, which):
    """A failed fit ends the run with that error, never with fewer realizations."""
    run = Run(c, which, fit_fails=True)
    q = run.q
    us = {}
    for st, e in run.r.raises:
        for x in st.pc:
            if isinstance(x, B):
                for a in all_atoms(x):
                    if a.op == 'fit_fails':
                        us[a.args[0].value()] = a.args[0]
    if not c.require(len(us) == 1 and all(exc_name(exc_class(e, st)) == 'LinAlgError' for st, e in run.r.raises),
                     'fit-failure', q, 'a failed fit is an error of the run (%s)' % c.exc_names(run.r)):
        return
    u = list(us.values())[0]
    want = existsk(run.nreal, lambda k: b_atom(apply('fit_fails', u, k, boolean=True))) if which == 'stochastic' else \
        b_atom(apply('fit_fails', u, boolean=True))
    c.same(c.raise_cond(run.r), want, 'fit-failure', q, 'the run fails exactly when a fit fails', run.facts())


def entropy(x):
    if x is None or isinstance(x, ExtObj):
        return True
    if isinstance(x, R):
        return any(a.op.startswith(('rng:', 'ext:', 'time')) for a in all_atoms(x))
    return False


TYPES = ('int', 'float', 'bool', 'str', 'tuple', 'list', 'dict', 'set', 'ndarray', 'NoneType')


def descriptors(I, st):
    """(label, value, kind, components) of every admissible descriptor shape."""
    a, b, d = sym('a'), sym('b'), sym('d')
    yield 'number', a, 1, (a,)
    for nm, mk in (('tuple', lambda v: TupleV(v)), ('list', lambda v: I.new_ref(st, ListC([('item', True, x) for x in v])))):
        yield 'pair (%s)' % nm, mk([a, b]), 2, (a, b)
        yield 'triple (%s)' % nm, mk([a, b, d]), 3, (a, b, d)


def C18(c):
    """Validation, sampling and averaging agree on what a descriptor means."""
    I = c.I
    lb, ub = sym('lb'), sym('ub')
    DE = 'oneka.stochastic.DistributionError'

    def each():
        st = I.start()
        for label, v, n, cs in descriptors(I, st):
            for t in ('int', 'float') if n == 1 else (None,):
                s = st.copy()
                for nm in TYPES if t else ():
                    b = b_atom(apply('isinstance', cs[0], nm, boolean=True))
                    I.assume(s, b if nm == t else b_not(b))
                yield s, label, v, n, cs
    for st, label, v, n, cs in each():
        chain = [cs[0] - lb] + [cs[i + 1] - cs[i] for i in range(n - 1)] + [ub - cs[-1]]
        r = c.call(ISD, [v, lb, ub], st=st)
        c.require(not r.raises and r.state is not None, 'valid', ISD, '%s: validation raises %s' % (label, c.exc_names(r)))
        if r.state is not None:
            c.same(r.value, b_and(*[mk_cmp(x, '>=') for x in chain]), 'valid', ISD,
                   'a %s is valid iff its components ascend between the bounds' % label)
    for st, label, v, n, cs in each():
        want = sum(cs, num(0)) / num(n)
        r = c.call(MEAN, [v], st=st)
        c.require(not r.raises, 'mean', MEAN, '%s: raises %s' % (label, c.exc_names(r)))
        if r.state is not None:
            c.same(r.value, want, 'mean', MEAN, 'the mean of a %s is the mean of its distribution' % label)
    for st, label, v, n, cs in each():
        f = Facts()
        for i in range(n - 1):
            f = f.add(mk_cmp(cs[i + 1] - cs[i], '>='))
        r = c.call(VAR, [v], st=st)
        c.implied(b_not(c.raise_cond(r)), f, 'sample', VAR, '%s: sampling a valid descriptor raises nothing (%s)' % (
            label, c.exc_names(r)))
        if r.state is None:
            continue
        ev = {}
        seeded = []
        for e, conds, loops in walk_trace(r.state.trace):
            if e.kind == 'rng' and isinstance(e.result, R):
                ev[e.result.single().id] = (e, conds)
            if e.kind == 'rng' and (e.name in ('seed', 'set_state') or e.name.startswith('create:') and not all(
                    entropy(x) for x in list(e.args) + list(e.kwargs.values()))):
                seeded.append(e.name)
        c.require(not seeded, 'sample', VAR, '%s: the generator is not seeded (%s)' % (label, seeded))
        if n == 1:
            c.same(r.value, cs[0], 'sample', VAR, 'a number is itself', f)
            continue
        spread = mk_cmp(cs[-1] - cs[0], '>')
        for hyp, name in ((True, 'spread'), (False, 'degenerate')):
            g = f.add(spread) if hyp else f.add(mk_cmp(cs[0] - cs[-1], '>='))
            v2 = r.value
            v2, und = alg.resolve(v2, g) if isinstance(v2, (R, Gamma)) else (v2, None)
            sample(c, v2, cs, n, ev, g, hyp, label)
    # anything else is rejected
    st0 = I.start()
    x = sym('x')
    for label, mk in (('empty tuple', TupleV([])), ('single', TupleV([x])), ('quadruple', TupleV([x, x, x, x])),
                      ('empty list', I.new_ref(st0, ListC([]))), ('text', 'abc'), ('None', None)):
        st = st0.copy()
        r = c.call(ISD, [mk, lb, ub], st=st)
        c.require(r.state is not None and not r.raises and r.value is False, 'reject', ISD, 'a %s is no descriptor: %s' % (
            label, show(r.value, 100) if r.state is not None else c.exc_names(r)))
        if label in ('text', 'None'):
            continue
        for q in (VAR, MEAN):
            r = c.call(q, [mk], st=st0.copy())
            c.require(c.raise_cond(r, lambda e: exc_is(e, DE)) is True, 'reject', q, 'a %s raises the distribution error' % label)


def sample(c, v, cs, n, ev, facts, spread, label):
    """The value drawn for a pair or triple is uniform/triangular on it."""
    what = 'a %s is sampled from the %s distribution on it' % (label, 'uniform' if n == 2 else 'triangular')
    if not spread:
        # no width: the one admissible value (or a draw over that width, where
        # the generator allows it)
        if isinstance(v, R) and v.single() is not None and v.single().id in ev and n == 2:
            e, conds = ev[v.single().id]
            for a, w in zip(params(e, ('low', 'high')), cs):
                c.same(a, w, 'sample', VAR, what, facts)
            return
        rn = [a for a in all_atoms(v) if a.op.startswith('rng:')] if isinstance(v, R) else []
        if rn and n == 2:
            c.same(subst(v, {a.id: sym('unit') for a in rn}), cs[0], 'sample', VAR, what, facts)
            return
        c.same(v, cs[1] if n == 3 else cs[0], 'sample', VAR, what + ' (no width)', facts)
        return
    a = v.single() if isinstance(v, R) else None
    if a is not None and a.id in ev:
        e, conds = ev[a.id]
        names = {'uniform': ('low', 'high'), 'triangular': ('left', 'mode', 'right')}.get(e.name)
        if not c.require(names is not None and len(names) == n, 'sample', VAR, '%s: %s' % (what, e.name)):
            return
        for got, w in zip(params(e, names), cs):
            c.same(got, w, 'sample', VAR, what, facts)
        return
    rn = [a for a in all_atoms(v) if a.op in ('rng:random', 'rng:rand', 'rng:random_sample', 'rng:uniform')] \
        if isinstance(v, R) else []
    if len(rn) == 1 and n == 2:
        u = R.atom(rn[0])
        up = cs[0] + (cs[1] - cs[0]) * u
        dn = cs[1] - (cs[1] - cs[0]) * u
        e, conds = ev[rn[0].id]
        unit = e.name != 'uniform' or [show(x) for x in params(e, ('low', 'high'))] in (['0', '1'], ['None', 'None'])
        if c.require(unit, 'sample', VAR, what):
            c.same(v, dn if r_eq(v, dn) else up, 'sample', VAR, what, facts)
        return
    if isinstance(v, R) and any(a.op.startswith('rng:') for a in all_atoms(v)) and n == 3 and len(rn) > 0:
        raise Unsupported('%s: %s: sampled by another construction: %s' % (VAR, what, show(v, 200)))
    c.require(False, 'sample', VAR, '%s: %s' % (what, show(v, 200)))


def params(e, names):
    args = [x for x in e.args if not isinstance(x, ExtObj)]
    kw = dict(e.kwargs)
    return [args[i] if i < len(args) else kw.get(nm) for i, nm in enumerate(names)]


FO = 'oneka.utilities.filter_obs'


def filtered(I, v):
    """A list as (n, k, cond, element): elements k < n for which cond."""
    if isinstance(v, R):
        k = fresh_atom('k', integer=True, nonneg=True)
        return I.length(v), k, True, I.elem(v, R.atom(k))
    if isinstance(v, ListV) and len(v.parts) == 1 and v.parts[0][0] == 'sym':
        return filtered(I, v.parts[0][1])
    if isinstance(v, ListV) and len(v.parts) == 1 and v.parts[0][0] == 'comp':
        _, n, k, cond, body = v.parts[0]
        if isinstance(body, ListV) and len(body.parts) == 1 and body.parts[0][0] == 'item':
            return n, k, b_and(cond, body.parts[0][1]), body.parts[0][2]
        if isinstance(body, TupleV) and len(body.items) == 1:
            return n, k, cond, body.items[0]
    raise Unsupported('list is not a filtered sequence: %s' % show(v, 300))


def group_of(v):
    """A selection of observations as a sequence of its own."""
    a, new = get_app('group', (v,))
    a.meta = {'cols': 4, 'width': None}
    return R.atom(a)


alg.REBUILD['group'] = lambda a, args: group_of(args[0])


def by_emptiness(c, judge):
    """judge(c, case), case None: any input.  If that cannot be settled: there are
    observations and wells ('both'), or observations alone ('obs'), or none."""
    try:
        return judge(c, None)
    except Unsupported as e:
        if c.viol:
            raise
        try:
            judge(c.again(), 'both')
            judge(c.again(), 'obs')
            d = c.again()
            st = d.I.start()
            r = d.call(FO, [d.I.new_ref(st, ListC([])), seqsym('wells', width=4), pos('buffer')], st=st)
            if r.state is None or r.raises or r.value is None:
                raise e
            c.require(not d.I.seq(r.value, r.state), 'all-examined' if c.prop == 'C19' else 'rest', FO, 'no observation is made up')
        except (Unsupported, Stop) as e2:
            if c.viol:
                raise
            raise e


class Filter:
    def __init__(self, c, groups=False, case=None):
        I = c.I
        self.c, self.grouped = c, groups
        I.recs.clear()
        self.obs, self.wells, self.buffer = seqsym('obs', width=4), seqsym('wells', width=4), pos('buffer')
        self.named = {}
        I.naming = self.name
        st = I.start()
        wells = self.wells
        self.nowells = case == 'obs'
        if case is not None:
            I.weigh = True
            I.assume(st, mk_cmp(mk_len(self.obs) - num(1), '>='))
            if case == 'both':
                I.assume(st, mk_cmp(mk_len(self.wells) - num(1), '>='))
            else:
                wells = I.new_ref(st, ListC([]))
        try:
            self.r = r = c.call(FO, [self.obs, wells, self.buffer], st=st)
        finally:
            I.naming = None
        if not c.require(r.state is not None and not r.raises, 'total', FO, 'filtering raises nothing: %s' % c.exc_names(r)):
            raise Stop()
        v = I.freeze(r.value, r.state)
        self.value = v
        cells = {}
        for rec in I.recs:
            for t in rec.locs.values():
                for ce in t.cells:
                    if ce.mu is not None:
                        cells[ce.mu.id] = (rec, ce)
        if isinstance(v, ListV) and len(v.parts) == 1 and v.parts[0][0] == 'sym':
            v = v.parts[0][1]
        a = v.single() if isinstance(v, R) else None
        at = I.havocs.get(a.id) or cells.get(a.id) if a is not None else None
        if at is None or at[1].kind != 'list':
            self.untouched(v)
            if not all_atoms(v) if v is not None else True:
                c.require(False, 'all-examined' if c.prop == 'C19' else 'rest', FO,
                          'what is retained depends on the observations: it is always %s' % show(v, 100))
                raise Stop()
            raise Unsupported('%s: merging is not a single loop over a work list: %s' % (FO, show(v, 300)))
        self.rec, self.out = at
        self.cells = [ce for rec, ce in cells.values() if rec is self.rec and ce is not self.out]
        c.plain |= {ce.mu.id for ce in self.cells} | {self.out.mu.id}
        # the observations merging starts from
        vals = [x for ce in self.cells + [self.out] for x in (ce.v0, ce.f)]
        ids = set()
        for x in vals + [e[3] for e in self.rec.exits] + [self.rec.n]:
            if isinstance(x, (R, B, TupleV, VecV, ListV, Arr, Gamma)):
                ids |= {a.id for a in all_atoms(x)}
        self.ids = ids
        self.kept = [a for a in self.named if a in ids]
        self.S = self.named[self.kept[0]][0] if len(self.kept) == 1 else self.obs

    def name(self, v, depth):
        """Selected observations go by a name, and are defined by it."""
        if len(v.parts) != 1 or v.parts[0][0] != 'comp' or depth > 1:
            return None
        try:
            n, k, cond, e = filtered(None, v)
        except Unsupported:
            return None
        if depth and (cond is True or not self.grouped):
            return None
        if isinstance(e, TupleV) and (depth or not contains(e, self.obs.single().id)):
            return None
        if not isinstance(e, (R, TupleV)) or isinstance(e, R) and not (
                e.single() is not None and e.single().op == 'idx' and len(e.single().args) == 2 and
                self.rows(e.single().args[0], depth)):
            return None
        if depth:
            return group_of(v)
        for a, (w, d) in self.named.items():
            if veq(d, v):
                return w
        r = seqsym('kept%d' % len(self.named), 4)
        self.named[r.single().id] = (r, v)
        return r

    def rows(self, s, depth):
        """s is a sequence of observations."""
        a = s.single() if isinstance(s, R) else None
        return a is not None and (a is self.obs.single() or not depth and contains(s, self.obs.single().id) or depth and (
            a.id in self.named or a.op == 'group' or a.meta == 'mu'))

    def untouched(self, v):
        """Every observation gives a row, whatever the other ones."""
        if self.c.prop != 'C20' or not isinstance(v, ListV) or len(v.parts) != 1 or v.parts[0][0] != 'comp':
            return
        _, n, k, cond, body = v.parts[0]
        s = n.single().args[0] if isinstance(n, R) and n.single() is not None and n.single().op == 'len' else None
        if s is None or not (s.single() is self.obs.single() or s.single().id in self.named) or not isinstance(body, ListV):
            return
        some = b_and(cond, b_or(*[p[1] for p in body.parts if p[0] == 'item']))
        try:
            equiv(some, True, Facts().add(mk_cmp(n - R.atom(k), '>')))
        except (Mismatch, Unsupported):
            return
        self.c.require(False, 'rest', FO, 'every observation gives a row of its own, also those near an earlier one')
        raise Stop()

    def unname(self, v):
        """v, the groups written out."""
        for _ in range(4):
            m = {a.id: a.args[0] for a in (all_atoms(v) if not isinstance(v, bool) else ()) if a.op == 'group'}
            if not m:
                break
            v = subst(v, m)
        return v

    def definition(self, c):
        """What merging starts from, as a selection of the observations."""
        if len(self.kept) == 1:
            return filtered(c.I, self.named[self.kept[0]][1])
        if not self.kept:
            if self.wells.single().id in self.ids and not self.nowells:
                raise Unsupported('%s: the selection of observations is interwoven with merging' % FO)
            return filtered(c.I, self.obs)
        raise Unsupported('%s: %d selections of the observations' % (FO, len(self.kept)))


def hypot(a, b):
    return mk_sqrt(a * a + b * b)


def patterns(c, wells, merge):
    """The filter run on a handful of observations, for every pattern of
    distances: which are near a well, which are close to each other."""
    import itertools
    from types import SimpleNamespace
    I = c.I
    obs, well, buffer = seqsym('obs', width=4), seqsym('wells', width=4), pos('buffer')
    n = alg.SIZES['*']
    m = n if wells else 0

    def far(a, i, b, j):
        return hypot(idx(a, num(i), num(0)) - idx(b, num(j), num(0)), idx(a, num(i), num(1)) - idx(b, num(j), num(1)))
    pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
    spots = [(i, w) for i in range(n) for w in range(m)]
    sure = [mk_cmp(idx(obs, num(i), num(3)), '>') for i in range(n)]
    for near in itertools.product((False, True), repeat=len(spots)):
        for close in itertools.product((False, True), repeat=len(pairs) if merge else 0):
            near_ = dict(zip(spots, near))
            close_ = dict(zip(pairs, close))
            I.recs.clear()
            I.weigh = True
            st = I.start()
            lits = list(sure)
            for (i, w), b in near_.items():
                l = mk_cmp(buffer - far(obs, i, well, w), '>=')
                lits.append(l if b else b_not(l))
            for i, j in pairs:
                l = mk_cmp(num(1) - far(obs, i, obs, j), '>')
                lits.append(l if close_.get((i, j)) else b_not(l))
            facts = Facts()
            for l in lits:
                I.assume(st, l)
                facts = facts.add(l)
            r = c.call(FO, [obs, well if m else I.new_ref(st, ListC([])), buffer], st=st)
            if not c.require(r.state is not None and not r.raises, 'total', FO, 'filtering raises nothing: %s' % c.exc_names(r)):
                raise Stop()
            v = I.freeze(r.value, r.state)
            items = small.explode(v) if isinstance(v, ListV) else [(True, x) for x in v.items] if isinstance(v, (TupleV, VecV)) else None
            if items is None:
                raise Unsupported('%s: result on %d observations: %s' % (FO, n, show(v, 200)))
            left = [i for i in range(n) if not any(near_.get((i, w)) for w in range(m))]
            want, groups = [], []
            while left:
                i = left[0]
                g = [i] + [j for j in left[1:] if close_.get((i, j))]
                left = [j for j in left if j not in g]
                row = [idx(obs, num(i), num(k)) for k in range(4)]
                if len(g) > 1:
                    inv = [num(1) / (idx(obs, num(k), num(3)) * idx(obs, num(k), num(3))) for k in g]
                    den = sum(inv[1:], inv[0])
                    tot = [idx(obs, num(k), num(2)) * w for k, w in zip(g, inv)]
                    row[2:] = [sum(tot[1:], tot[0]) / den, mk_sqrt(num(1) / den)]
                want.append(row)
                groups.append(g)
            what = 'of %d observations, near wells %s, close pairs %s' % (
                n, [k for k, b in near_.items() if b], [k for k, b in close_.items() if b])
            yield SimpleNamespace(r=r, v=v, items=items, want=want, groups=groups, facts=facts, what=what, near=near_, n=n, m=m,
                                  obs=obs, wells=well)


def few(c, wells, merge):
    """What the filter retains of a handful of observations."""
    I = c.I
    for p in patterns(c, wells, merge):
        items, want = p.items, p.want
        if any(cd is not True for cd, _ in items):
            cnt = sum([ite(cd, num(1), num(0)) for cd, _ in items], num(0))
            c.same(cnt, num(len(want)), 'rest' if merge else 'dropped-iff-near', FO, 'observations retained ' + p.what, p.facts)
            if c.viol:
                return
            raise Unsupported('%s: result on %d observations: %s' % (FO, p.n, show(p.v, 200)))
        if not c.require(len(items) == len(want), 'rest' if merge else 'dropped-iff-near', FO,
                         'observations retained %s: %d, required %d' % (p.what, len(items), len(want))):
            return
        for (_, x), row in zip(items, want):
            for k in range(4):
                c.same(as_r(I.elem(I.freeze(x, p.r.state), num(k))), row[k], 'mean' if merge else 'unchanged', FO,
                       'entry %d of an observation retained, %s' % (k, p.what), p.facts)
            if c.viol:
                return


def C19(c):
    """Exactly the observations farther than buffer from every well are kept,
    unchanged and in order."""
    if alg.SIZES:
        return few(c, True, False)
    by_emptiness(c, dropped)


def dropped(c, case):
    I = c.I
    fl = Filter(c, case=case)
    n, k, cond, e = fl.definition(c)
    K = R.atom(k)
    c.same(n, mk_len(fl.obs), 'all-examined', FO, 'every observation is examined')
    f = Facts().add(mk_cmp(mk_len(fl.obs) - K, '>'))

    def d(w):
        return hypot(idx(fl.obs, K, num(0)) - idx(fl.wells, w, num(0)), idx(fl.obs, K, num(1)) - idx(fl.wells, w, num(1)))
    m = num(0) if fl.nowells else mk_len(fl.wells)
    near = existsk(m, lambda w: mk_cmp(fl.buffer - d(w), '>='))
    near2 = existsk(m, lambda w: mk_cmp(fl.buffer * fl.buffer - d(w) * d(w), '>='))
    c.same_any(cond, [b_not(near2), b_not(near)], 'dropped-iff-near', FO,
               'an observation is dropped iff some well is within the buffer distance', f)
    if not (isinstance(e, R) and r_eq(e, idx(fl.obs, K))):
        for i in range(4):
            c.same(I.elem(e, num(i)), idx(fl.obs, K, num(i)), 'unchanged', FO, 'kept observations are unchanged (%d)' % i, f)
    else:
        c.require(True, 'unchanged', FO, 'kept observations are unchanged')


class ListView:
    """Remaining observations held in a list (of rows, or of their numbers)."""

    def __init__(self, c, fl, cell):
        self.c, self.cell, self.fl = c, cell, fl
        self.W = R.atom(cell.mu)
        self.n = mk_len(self.W)
        n, k, cond, e = filtered(c.I, cell.v0)
        self.rows = not (isinstance(e, R) and not isinstance(e, TupleV) and alg.is_int(e))
        if self.rows:
            cell.mu.meta = cell.mu.meta if isinstance(cell.mu.meta, dict) else 'mu'
            if len(fl.kept) == 1 and not (cond is True and veq(n, mk_len(fl.S)) and isinstance(e, R) and r_eq(e, idx(fl.S, R.atom(k)))):
                # not the observations as they were kept
                ops = {a.op for a in all_atoms(cell.v0)}
                c.require(not ops & {'set', 'sorted'}, 'start', FO,
                          'merging starts with the observations kept, each of them, in their order: %s' % show(cell.v0, 200))
                raise Unsupported('%s: merging starts with %s' % (FO, show(cell.v0, 200)))
        else:
            c.require(cond is True and veq(e, R.atom(k)) and veq(n, mk_len(fl.S)), 'start', FO,
                      'merging starts with every observation: %s' % show(cell.v0, 200))

    def at(self, j, i):
        return idx(self.W, j, num(i)) if self.rows else idx(self.fl.S, idx(self.W, j), num(i))

    def end(self):
        stops = [e for e in self.fl.rec.exits if e[0] != 'raise']
        if len(stops) != 1:
            raise Unsupported('%s: %d ends of the merging loop' % (FO, len(stops)))
        self.c.same(stops[0][3], mk_cmp(num(0) - self.n, '>='), 'end', FO, 'merging ends when every observation is handled')

    def rest(self):
        m, k, cond, e = filtered(self.c.I, self.fl.unname(self.cell.f))
        if self.rows:
            return m, k, cond, lambda i: self.c.I.elem(e, num(i))
        return m, k, cond, lambda i: idx(self.fl.S, e, num(i))


class StepView:
    """Remaining observations: those from a running index on."""

    def __init__(self, c, fl, cell):
        self.c, self.cell, self.fl = c, cell, fl
        self.i = R.atom(cell.mu)
        self.n = mk_len(fl.S) - self.i
        c.same(cell.v0, num(0), 'start', FO, 'merging starts with the first observation')

    def at(self, j, i):
        return idx(self.fl.S, self.i + j, num(i))

    end = ListView.end

    def rest(self):
        d = as_r(self.cell.f) - self.i
        self.c.require(veq(d, num(1)), 'rest', FO, 'an observation a metre or more from the first of a group is skipped '
                       'or one nearby is left out, wherever it stands in the list: the list is advanced by %s' % show(d, 200))
        raise Stop()


def view(c, fl):
    lists = [ce for ce in fl.cells if ce.kind == 'list']
    if len(lists) > 1:
        # the one whose end ends the merging
        ends = [ce for ce in lists if any(e[0] != 'raise' and not isinstance(e[3], bool) and contains(e[3], ce.mu.id) for e in fl.rec.exits)]
        lists = ends if len(ends) == 1 else lists
    if len(lists) == 1:
        return ListView(c, fl, lists[0])
    steps = [ce for ce in fl.cells if ce.kind == 'num' and ce.integer]
    if not lists and len(steps) == 1 and not any(ce.kind in ('arr', 'any') for ce in fl.cells):
        return StepView(c, fl, steps[0])
    raise Unsupported('%s: %d work lists' % (FO, len(lists)))


def group(fl, vw, d, n, near, f):
    """Is a named selection the observations near the first one: the later ones
    (True), or with the first itself (False)?  None: neither."""
    m, k, cond, e = filtered(None, d)
    K = R.atom(k)
    try:
        for shift, form in ((num(1), True), (num(0), False)):
            try:
                equiv(as_r(m), n - shift, f)
            except Mismatch:
                continue
            g = f.add(mk_cmp(n - shift - K, '>'))
            for want in (near(K + shift),) if form else (near(K), b_or(mk_cmp(K, '=='), near(K))):
                try:
                    equiv(cond, want, g)
                    for i in range(4):
                        equiv(vw.fl.c.I.elem(e, num(i)), vw.at(K + shift, i), g)
                    return form
                except Mismatch:
                    pass
    except Unsupported:
        pass
    return None


def sq(x):
    return x * x


def C20(c):
    """Observations closer than one metre are replaced by their weighted mean."""
    if alg.SIZES:
        return few(c, False, True)
    by_emptiness(c, merged)


def merged(c, case):
    try:
        merging(c, Filter(c, True, case))
    except Unsupported as e:
        if c.viol:
            raise
        # without names for the groups
        try:
            merging(c, Filter(c, case=case))
        except Unsupported:
            chained(c)
            raise e


def chained(c):
    """A group must not grow by what it already took in: neither by the distance
    to any member, nor by the distance to a running position."""
    for rec in list(c.I.recs) + [x[0] for x in c.I.havocs.values() if x[0] is not None]:
        cells = {ce.mu.id: ce for t in rec.locs.values() for ce in t.cells if ce.mu is not None}
        moving = {i for i, ce in cells.items() if ce.kind == 'num' and isinstance(ce.f, R) and any(
            a.op == 'idx' for a in all_atoms(ce.f)) and i in {a.id for a in all_atoms(ce.f)}}
        for ce in cells.values():
            ps = ce.f.parts if ce.kind == 'list' and isinstance(ce.f, ListV) else ()
            if len(ps) != 2 or ps[0][0] != 'sym' or ps[1][0] != 'item' or not isinstance(ps[1][1], B) or not isinstance(ps[0][1], R) \
                    or ps[0][1].single() is not ce.mu:
                continue
            item = ps[1][2].single() if isinstance(ps[1][2], R) else None
            if item is None or item.op != 'idx' or len(item.args) != 2:
                continue
            cond = ps[1][1]
            for l in (cond.args if cond.kind == 'and' else (cond,)):
                ids = {a.id for a in all_atoms(l)}
                src = item.args[0].single()
                if src is None or src.id not in ids:
                    continue
                own = {tuple(x.args[1:2]) for x in all_atoms(l) if x.op == 'idx' and len(x.args) == 3 and x.args[0].single() is ce.mu}
                met = [w for w in own if not r_eq(w[0], num(0)) and l.kind != 'exists' and subst(l, {
                    idx(R.atom(src), item.args[1], num(i)).single().id: idx(R.atom(ce.mu), w[0], num(i)) for i in (0, 1)}) is True]
                c.require(not (l.kind == 'exists' and own or met), 'group', FO,
                          'an observation joins a group by its distance to the first observation of it, not to any member: %s' % show(l, 300))
                c.require(not (l.kind != 'exists' and moving & ids), 'group', FO,
                          'an observation joins a group by its distance to the first observation of it, not to what the group '
                          'became: %s' % show(l, 300))


def merging(c, fl):
    I = c.I
    vw = view(c, fl)
    n, at = vw.n, vw.at
    f = Facts().add(mk_cmp(n - num(1), '>='))
    v0 = fl.out.v0
    c.require(isinstance(v0, (ListV, TupleV)) and len(v0.parts if isinstance(v0, ListV) else v0.items) == 0, 'start', FO,
              'merging starts without retained observations')
    vw.end()

    def dist(j):
        return hypot(at(num(0), 0) - at(j, 0), at(num(0), 1) - at(j, 1))

    def near(j):
        return mk_cmp(num(1) - dist(j), '>')

    def gather(term):
        """term(0) plus the terms of the later near ones, in two forms."""
        a = term(num(0)) + sumk(mk_max(num(0), n - num(1)), lambda j: ite(near(j + num(1)), term(j + num(1)), num(0)))
        b = sumk(n, lambda j: ite(near(j), term(j), num(0)))
        return [b, a]
    many = [mk_cmp(g - num(2), '>=') for g in gather(lambda j: num(1))]
    many.append(existsk(mk_max(num(0), n - num(1)), lambda j: near(j + num(1))))
    many = many[::-1]
    wz = gather(lambda j: at(j, 2) / (at(j, 3) * at(j, 3)))
    ws = gather(lambda j: num(1) / (at(j, 3) * at(j, 3)))
    # what one round appends
    parts = list(fl.out.f.parts) if isinstance(fl.out.f, ListV) else []
    if not (parts and parts[0][0] == 'sym' and isinstance(parts[0][1], R) and parts[0][1].single() is fl.out.mu):
        raise Unsupported('%s: retained observations are not appended: %s' % (FO, show(fl.out.f, 300)))
    rows = parts[1:]
    if any(p[0] != 'item' for p in rows):
        raise Unsupported('%s: retained observations are not single rows' % FO)
    c.same(b_or(*[p[1] for p in rows]), True, 'one-row', FO, 'every group gives a row', f)
    for i in range(len(rows)):
        for j in range(i):
            c.same(b_and(rows[i][1], rows[j][1]), False, 'one-row', FO, 'every group gives one row', f)
    groups = []
    fg = f
    named = {a.id: a for p in rows for v in p[1:] if not isinstance(v, bool) for a in all_atoms(v) if a.op == 'group'}
    for a in named.values():
        later = group(fl, vw, fl.unname(a.args[0]), n, near, f)
        if later is not None:
            w = R.atom(a)
            groups.append((w, later))
            if not later:
                fg = fg.add(mk_cmp(mk_len(w) - num(1), '>='))
    for i in range(4):
        got = None
        for p in reversed(rows):
            x = as_r(I.elem(p[2], num(i)))
            got = x if got is None else ite(p[1], x, got)
        known = {w.single().id for w, _ in groups}
        if any(x.op == 'group' and x.id not in known for x in all_atoms(got)):
            got = fl.unname(got)
        for w, later in groups:
            if not later:
                got = subst(got, {x.id: at(num(0), int(x.args[2].value())) for x in all_atoms(got) if x.op == 'idx' and
                                  len(x.args) == 3 and x.args[0].single() is w.single() and veq(x.args[1], num(0)) and
                                  x.args[2].is_const()})
        ways = [(m, wz[z] / ws[z], mk_sqrt(num(1) / ws[z])) for m in many for z in range(2)]
        for w, later in groups:
            if not contains(got, w.single().id):
                continue
            sz, ss = [sumk(mk_len(w), lambda j: t(w, j)) for t in (lambda w, j: idx(w, j, num(2)) / sq(idx(w, j, num(3))),
                                                                   lambda w, j: num(1) / sq(idx(w, j, num(3))))]
            if later:
                sz, ss = sz + at(num(0), 2) / sq(at(num(0), 3)), ss + num(1) / sq(at(num(0), 3))
            ways.append((mk_cmp(mk_len(w) - num(1 if later else 2), '>='), sz / ss, mk_sqrt(num(1) / ss)))
        wants = []
        for m, z, sd in ways:
            wants.append(ite(m, [at(num(0), 0), at(num(0), 1), z, sd][i], at(num(0), i)))
        c.same_any(got, wants, 'merged-row', FO, 'component %d: position of the first, inverse-variance weighted mean, '
                   'standard deviation of that mean; a lone observation is unchanged' % i, fg)
    # what is left
    m, k, cond, e = vw.rest()
    K = R.atom(k)
    k0 = fresh_atom('j', integer=True, nonneg=True)
    m = as_r(m)
    try:
        equiv(m, n, f)
        shift = num(0)
    except Mismatch:
        c.same(m, n - num(1), 'rest', FO, 'the remaining observations stay in order', f)
        shift = num(1)
    g = f.add(mk_cmp(m - K, '>'))
    want = b_not(near(K + shift))
    c.same_any(cond, [b_and(mk_cmp(K + shift - num(1), '>='), want), want], 'rest', FO,
               'observations a metre or more away stay for later rounds', g)
    for i in range(4):
        c.same(e(i), at(K + shift, i), 'rest', FO, 'the remaining observations are unchanged', g)


RULES = {'C15': C15, 'C16': C16, 'C17': C17, 'C18': C18, 'C19': C19, 'C20': C20}
for _r in RULES.values():
    _r.modes = 1

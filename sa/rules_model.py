"""Groundwater-model rules (potential, discharge, head, velocity, fit)."""
from core import *

M = 'oneka.model.Model.'


def wellsum(v, x, y):
    """sum_k q_k ln((x-x_k)^2+(y-y_k)^2) / 4 pi"""
    w = v['wells']

    def f(k):
        dx, dy = x - idx(w, k, num(0)), y - idx(w, k, num(1))
        return idx(w, k, num(3)) * alg.mk_log(dx * dx + dy * dy)
    return sumk(mk_len(w), f) / (num(4) * PI())


def regional(v, x, y):
    c = v['coef'].items
    dx, dy = x - v['xo'], y - v['yo']
    return c[0] * dx * dx + c[1] * dy * dy + c[2] * dx * dy + c[3] * dx + c[4] * dy + c[5]


def no_raise(c, r, rule, q, what):
    c.require(c.raise_cond(r) is False and r.state is not None, rule, q,
              '%s: %s can be raised' % (what, ', '.join(c.exc_names(r)) or 'an exception'))


def C01(c):
    x, y = sym('x'), sym('y')
    st = c.I.start()
    m, v = c.W.model(st)
    q = M + 'compute_potential'
    c.fn(q)
    r = c.method(m, 'compute_potential', [x, y], st)
    no_raise(c, r, 'potential-total', q, 'the potential is defined everywhere off the wells')
    if r.state is None:
        return
    c.same(c.I.freeze(r.value, r.state), regional(v, x, y) + wellsum(v, x, y), 'potential-form', q,
           'potential = quadratic about the origin + sum q ln(r^2)/4pi')
    q = M + 'compute_potential_wells_only'
    c.fn(q)
    st = c.I.start()
    m, v = c.W.model(st)
    r = c.method(m, 'compute_potential_wells_only', [x, y], st)
    no_raise(c, r, 'wells-total', q, 'the well potential is defined everywhere off the wells')
    if r.state is not None:
        c.same(c.I.freeze(r.value, r.state), wellsum(v, x, y), 'wells-form', q,
               'well potential = sum q ln(r^2)/4pi')
    # a model built without coefficients has no regional flow
    st = c.I.start()
    w = seqsym('dwells', width=4)
    r = c.I.run(c.I.get('oneka.model.Model'), [sym('db'), sym('dK', pos=True), sym('dn', pos=True),
                                               sym('dT', pos=True), w], {}, st)
    no_raise(c, r, 'coef-default', M + '__init__', 'a model can be built without coefficients')
    if r.state is not None:
        r = c.method(r.value, 'compute_potential', [x, y], r.state)
        no_raise(c, r, 'coef-default', M + '__init__', 'the potential of a model without a regional flow is defined')
        if r.state is not None:
            c.same(c.I.freeze(r.value, r.state), wellsum(dict(wells=w), x, y), 'coef-default', M + '__init__',
                   'a model built without coefficients has no regional flow')
    # coefficients keep their order and value however they are supplied (vector or column)
    q = M + '__init__'
    for nm, shape in (('flat', None), ('column', (num(6), num(1)))):
        st = c.I.start()
        if shape:
            cf = c.I.new_ref(st, ArrC(sym('ccol', ndim=2, shape=shape)))
            want = [idx(sym('ccol'), num(i), num(0)) for i in range(6)]
        else:
            want = [sym('c%d' % i) for i in range(6)]
            cf = c.I.new_ref(st, ArrC(VecV(want)))
        m, v = c.W.model(st)
        c.I.setattr(m, 'coef', cf, st, None)
        v['coef'] = VecV(want)
        r = c.method(m, 'compute_potential', [x, y], st)
        if r.state is not None:
            c.same(c.I.freeze(r.value, r.state), regional(v, x, y) + wellsum(v, x, y), 'coef-' + nm,
                   M + 'compute_potential', 'coefficients assigned as a %s array' % nm)


def C02(c):
    x, y = sym('x'), sym('y')
    st = c.I.start()
    m, v = c.W.model(st)
    c.unit(M + 'compute_potential')
    r = c.method(m, 'compute_potential', [x, y], st)
    if r.state is None:
        return c.require(False, 'potential-total', M + 'compute_potential', 'potential never returns')
    P = c.I.freeze(r.value, r.state)
    q = M + 'compute_discharge'
    c.fn(q)
    st = c.I.start()
    m, v = c.W.model(st)
    r = c.method(m, 'compute_discharge', [x, y], st)
    no_raise(c, r, 'discharge-total', q, 'the discharge is defined everywhere off the wells')
    if r.state is None:
        return
    Q = c.I.freeze(r.value, r.state)
    c.same(Q, TupleV([-diff(P, x.single()), -diff(P, y.single())]), 'discharge-is-minus-gradient', q,
           'discharge = minus the gradient of the potential')


def potential(c, v, x, y):
    """The potential seen by its callers: uninterpreted, or inlined."""
    q = M + 'compute_potential'
    if not c.inline:
        c.opaque(q, lambda I, st, a: apply('Phi', as_r(I.freeze(a['x'], st)), as_r(I.freeze(a['y'], st))))
        return apply('Phi', x, y)
    st = c.I.start()
    m, _ = c.W.model(st)
    r = c.method(m, 'compute_potential', [x, y], st)
    return c.I.freeze(r.value, r.state)


def C03(c):
    x, y = sym('x'), sym('y')
    P = potential(c, None, x, y)
    q = M + 'compute_head'
    c.fn(q)
    st = c.I.start()
    m, v = c.W.model(st)
    r = c.method(m, 'compute_head', [x, y], st)
    K, T = v['conductivity'], v['thickness']
    half = num(1) / num(2)
    aq = c.raise_cond(r, lambda e: exc_is(e, 'oneka.model.AquiferError'))
    other = c.raise_cond(r, lambda e: not exc_is(e, 'oneka.model.AquiferError'))
    c.same(aq, b_not(mk_cmp(P, '>')), 'dry-raises', q, 'AquiferError exactly when the potential is not positive')
    c.require(other is False, 'no-other-error', q, 'errors other than AquiferError: %s' % c.exc_names(r))
    if not c.require(r.state is not None, 'head-returns', q, 'head is never returned'):
        return
    f = Facts().add(mk_cmp(P, '>'))
    want = ite(mk_cmp(half * K * T * T - P, '>'), alg.mk_sqrt(num(2) * P / K), P / (K * T) + half * T)
    h = c.I.freeze(r.value, r.state)
    c.same(h, want, 'head-inverse', q, 'head = sqrt(2 Phi/K) below the confining level, Phi/(K T)+T/2 above', f)
    # the switch is at head == thickness and the branches join
    c.same(subst(want, {P.single().id: half * K * T * T}) if P.single() is not None else T, T, 'head-join', q,
           'at the switch the head equals the thickness')


def C04(c):
    x, y = sym('x'), sym('y')
    I = c.I
    if not c.inline:
        Q = [apply('Qx', x, y), apply('Qy', x, y)]
        h = apply('h', x, y, nonneg=False)
        hf = b_atom(apply('head_fails', x, y, boolean=True))

        def disch(I, st, a):
            p = (as_r(I.freeze(a['x'], st)), as_r(I.freeze(a['y'], st)))
            return I.new_ref(st, ListC([('item', True, apply('Qx', *p)), ('item', True, apply('Qy', *p))]))

        def head(I, st, a):
            p = (as_r(I.freeze(a['x'], st)), as_r(I.freeze(a['y'], st)))
            f = b_atom(apply('head_fails', *p, boolean=True))
            I.raise_exc(st, I.make_exc(st, I.get('oneka.model.AquiferError'), ['dry']), f)
            I.assume(st, b_not(f))
            return apply('h', *p)
        c.opaque(M + 'compute_discharge', disch)
        c.opaque(M + 'compute_head', head)
    else:
        st = I.start()
        m, v = c.W.model(st)
        r = c.method(m, 'compute_discharge', [x, y], st)
        Q = list(I.freeze(r.value, r.state).items)
        st = I.start()
        m, v = c.W.model(st)
        r = c.method(m, 'compute_head', [x, y], st)
        h = I.freeze(r.value, r.state)
        hf = c.raise_cond(r)
    q = M + 'compute_velocity'
    c.fn(q)
    st = I.start()
    m, v = c.W.model(st)
    n, T = v['porosity'], v['thickness']
    r = c.method(m, 'compute_velocity', [x, y], st)
    aq = c.raise_cond(r, lambda e: exc_is(e, 'oneka.model.AquiferError'))
    dry = b_or(hf, b_not(mk_cmp(h, '>')))
    other = c.raise_cond(r, lambda e: not exc_is(e, 'oneka.model.AquiferError'))
    c.same(aq, dry, 'dry-raises', q, 'AquiferError exactly when the head fails or is not positive')
    c.require(other is False, 'no-other-error', q, 'errors other than AquiferError: %s' % c.exc_names(r))
    if c.require(r.state is not None, 'velocity-returns', q, 'velocity is never returned'):
        f = Facts().add(b_not(dry)) if not c.inline else Facts().add(b_not(hf))
        f = f.add(mk_cmp(h, '>'))
        d = n * alg.mk_min(h, T)
        c.same(seq2(c, r), TupleV([Q[0] / d, Q[1] / d]), 'velocity-form', q,
               'velocity = discharge/(porosity*min(head, thickness))', f)
    q = M + 'compute_velocity_confined'
    c.fn(q)
    st = I.start()
    m, v = c.W.model(st)
    r = c.method(m, 'compute_velocity_confined', [x, y], st)
    no_raise(c, r, 'confined-total', q, 'the confined velocity needs no head')
    if r.state is not None:
        d = n * T
        c.same(seq2(c, r), TupleV([Q[0] / d, Q[1] / d]), 'confined-form', q,
               'confined velocity = discharge/(porosity*thickness)')


def seq2(c, r):
    v = c.I.freeze(r.value, r.state)
    if isinstance(v, Arr):
        v = VecV([c.I.elem(v, num(i)) for i in range(2)])
    return v


def obs_sym(name='obs'):
    return seqsym(name, width=4)


def fit_spec(v, obs, xo, yo):
    """(WA, Wb, bad) of the weighted least-squares problem, as element-wise arrays."""
    base, K, T = v['base'], v['conductivity'], v['thickness']
    half = num(1) / num(2)
    n = mk_len(obs)

    def row(i):
        x, y, z, s = [idx(obs, i, num(j)) for j in range(4)]
        h = z - base
        conf = mk_cmp(h - T, '>=')
        ev = ite(conf, K * T * (h - half * T), half * K * (h * h + s * s))
        sd = ite(conf, K * T * s, K * h * s)
        dx, dy = x - xo, y - yo
        basis = [dx * dx, dy * dy, dx * dy, dx, dy, num(1)]
        return [b / sd for b in basis], (ev - wellsum(v, x, y)) / sd, b_and(b_not(conf), b_not(mk_cmp(h, '>')))
    i = fresh_atom('i', integer=True, nonneg=True)
    A, b, bad = row(R.atom(i))
    return n, i, A, b, bad


def C05(c):
    I = c.I
    q = M + 'construct_fit'
    c.fn(q)
    obs, xo, yo = obs_sym(), sym('fxo'), sym('fyo')
    st = I.start()
    m, v = c.W.model(st)
    # the fit must not depend on the model's previous regional flow
    r = c.method(m, 'construct_fit', [obs, xo, yo], st)
    n, i, A, b, bad = fit_spec(v, obs, xo, yo)
    rg = c.raise_cond(r, lambda e: exc_is(e, 'oneka.model.RangeError'))
    other = c.raise_cond(r, lambda e: not exc_is(e, 'oneka.model.RangeError'))
    k = fresh_atom('k', integer=True, nonneg=True)
    c.same(rg, mk_exists(n, k, subst(bad, {i.id: R.atom(k)})), 'below-base', q,
           'RangeError exactly when an observed head is at or below the aquifer base')
    c.require(other is False, 'no-other-error', q, 'errors other than RangeError: %s' % c.exc_names(r))
    if not c.require(r.state is not None, 'fit-returns', q, 'the fit arrays are never returned'):
        return
    pair = I.freeze(r.value, r.state)
    if not c.require(isinstance(pair, TupleV) and len(pair.items) == 2, 'fit-pair', q, 'a pair (WA, Wb) is returned'):
        return
    fi = Facts().add(mk_cmp(n - R.atom(i), '>')).add(b_not(bad))
    for j in range(6):
        c.same(elem2(c, pair.items[0], R.atom(i), num(j)), A[j], 'design-row', q,
               'row of the weighted design matrix, column %d' % j, fi)
    c.same(elem2(c, pair.items[1], R.atom(i), num(0)), b, 'response', q, 'weighted response', fi)
    for a, nc in ((pair.items[0], 6), (pair.items[1], 1)):
        sh = c.I.lib.as_arr(a).shape if isinstance(a, (Arr, R)) else None
        ok = sh is not None and veq(sh[0], n) and (len(sh) == 1 or veq(sh[1], num(nc)))
        c.require(ok, 'fit-shape', q, 'one row per observation')


def elem2(c, a, i, j):
    sh = c.I.lib.as_arr(a).shape
    if len(sh) == 1:
        return c.I.elem(a, i)
    return c.I.elem(c.I.elem(a, i), j)


def C06(c):
    I = c.I
    lib = I.lib
    n = sym('nobs', integer=True, pos=True)
    xo, yo = sym('fxo'), sym('fyo')
    obs = obs_sym()
    q = M + 'fit_regional_flow'
    c.fn(q)
    st = I.start()
    if not c.inline:
        A = sym('WA', ndim=2, shape=(n, num(6)))
        b = sym('Wb', ndim=2, shape=(n, num(1)))

        def cf(I, st, a):
            return TupleV([I.new_ref(st, ArrC(A)), I.new_ref(st, ArrC(b))])
        f = c.opaque(M + 'construct_fit', cf)
        m, v = c.W.model(st)
    else:
        m, v = c.W.model(st)
        r0 = c.method(m, 'construct_fit', [obs, xo, yo], st)
        if r0.state is None:
            return c.require(False, 'fit-returns', q, 'construct_fit never returns')
        A, b = [I.freeze(x, r0.state) for x in I.freeze(r0.value, r0.state).items]
        st = I.start()
        m, v = c.W.model(st)
    r = c.method(m, 'fit_regional_flow', [obs, xo, yo], st)
    if not c.require(r.state is not None, 'fit-returns', q, 'the fit never returns'):
        return
    out = I.freeze(r.value, r.state)
    if not c.require(isinstance(out, TupleV) and len(out.items) == 2, 'fit-pair', q,
                     'a pair (estimate, covariance) is returned'):
        return
    la, lb = lib.mat_leaf(I, A, st), lib.mat_leaf(I, b, st)
    At = lib.mk_T(la)
    ata = lib.mk_mm([At, la])
    cov = lib.mk_inv(ata)
    est = lib.mk_mm([cov, At, lb])
    c.same(vec6(c, out.items[0], r.state), vec6(c, est, r.state), 'wls-estimate', M + 'compute_fit',
           'estimate = (A^T A)^-1 A^T b of the weighted system')
    c.same(out.items[1], cov, 'wls-covariance', M + 'compute_fit', 'covariance = (A^T A)^-1 of the weighted system')
    s = r.state
    c.same(I.freeze(I.getattr(m, 'xo', s, None), s), xo, 'origin-set', q, 'the model origin is the fit origin (x)')
    c.same(I.freeze(I.getattr(m, 'yo', s, None), s), yo, 'origin-set', q, 'the model origin is the fit origin (y)')
    c.same(vec6(c, I.freeze(I.getattr(m, 'coef', s, None), s), s), vec6(c, est, s), 'coef-set', q,
           'the model coefficients are the estimate')
    for k in ('base', 'conductivity', 'porosity', 'thickness'):
        c.same(I.freeze(I.getattr(m, k, s, None), s), v[k], 'model-kept', q, 'fitting leaves the %s unchanged' % k)
    if not c.inline:
        calls = [e for e, cs, ls in walk_trace(s.trace) if e.kind == 'call' and e.name == 'construct_fit']
        c.require(len(calls) == 1, 'one-system', q, 'the observation equations are assembled once per fit')
        for e in calls:
            c.same(e.kwargs['obs'], obs, 'fit-obs', q, 'all observations are used')
            c.same(e.kwargs['xo'], xo, 'fit-origin', q, 'equations about the fit origin (x)')
            c.same(e.kwargs['yo'], yo, 'fit-origin', q, 'equations about the fit origin (y)')
    # a singular system must surface
    la_err = c.raise_cond(r, lambda e: exc_is(e, 'numpy.linalg.LinAlgError') or exc_is(e, 'LinAlgError'))
    c.require(la_err is not False, 'singular-surfaces', q, 'a linear-algebra failure is reported to the caller')
    # ... whichever step fails: no normal return is possible under a failed step
    bad = [a for a in all_atoms(la_err) if a.op.startswith('linalg_fails')] if la_err is not False else []
    pcs = b_and(*s.pc) if s.pc else True
    seen = [a for a in all_atoms(TupleV([out])) if False]
    for a in bad:
        t = subst(pcs, {a.id: num(1)}) if pcs is not True else True
        c.require(t is False, 'singular-surfaces', q, 'a failed %s still returns a result' % a.op)


def vec6(c, v, st):
    return VecV([comp6(c, v, i) for i in range(6)])


def comp6(c, v, i):
    if isinstance(v, (VecV, TupleV)):
        return v.items[i] if not isinstance(v.items[i], (VecV, TupleV)) else v.items[i].items[0]
    a = c.I.lib.as_arr(v)
    x = c.I.elem(v, num(i))
    return c.I.elem(x, num(0)) if len(a.shape) == 2 else x


def with_history(rule, names):
    def run(c):
        from rules_misc import model_history
        rule(c)
        model_history(c, names)
    run.__doc__ = rule.__doc__
    run.__name__ = rule.__name__
    run.modes = getattr(rule, 'modes', 2)
    return run


RULES = {'C01': with_history(C01, ('compute_potential', 'compute_potential_wells_only')),
         'C02': with_history(C02, ('compute_discharge',)), 'C03': with_history(C03, ('compute_head',)),
         'C04': with_history(C04, ('compute_velocity', 'compute_velocity_confined')), 'C05': C05, 'C06': C06}

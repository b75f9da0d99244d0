"""Backtrace rules: seeding of a capture zone, the Dormand-Prince step, step
control, failure discipline, the velocity that drives the trace."""
import copy
import re
from core import *
from values import walk_trace, LoopNode, ListV
import interp

BT = 'oneka.capturezone.compute_backtrace'
CZ = 'oneka.capturezone.compute_capturezone'
PF = 'oneka.probabilityfield.ProbabilityField'
AQ = 'oneka.model.AquiferError'


def aquifer_error(I, st):
    return I.make_exc(st, I.get(AQ), ['no head'])


def outer_atoms(v, pred):
    """Atoms satisfying pred that are not nested in another such atom."""
    ats = [a for a in all_atoms(v) if pred(a)]
    inner = set()
    for a in ats:
        for x in a.args:
            inner |= {b.id for b in all_atoms(x)}
    return [a for a in ats if a.id not in inner]


class Trace:
    """The integration loop of compute_backtrace and the roles of its state,
    recognised by what they hold, not by name."""

    def __init__(self, c, fails=None, finite=False):
        self.c = c
        I = c.I
        lib2.FINITE[0] = finite
        alg.NONFINITE[0] = not finite
        self.xs, self.ys, self.D = sym('xs'), sym('ys'), sym('D')
        self.tol, self.ms = pos('tol'), pos('maxstep')
        st = I.start()
        I.allow_alias = True
        f = fapp(c, 'V', 2, fails)
        self.r = r = c.call(BT, [self.xs, self.ys, self.D, self.tol, self.ms, f], st=st)
        self.rec = None
        if r.state is None:
            c.require(False, 'returns', BT, 'a trace is returned')
            raise Stop()
        self.value = I.freeze(r.value, r.state)
        ids = {a.id for a in all_atoms(self.value)}
        cand = []
        for rec in I.recs:
            for loc, t in rec.locs.items():
                for ce in t.cells:
                    if ce.mu is not None and ce.kind == 'list' and ce.mu.id in ids:
                        cand.append((rec, ce))
        if not cand and c.prop == 'C14' and isinstance(self.value, (ListV, TupleV)) and all(
                a.meta != 'mu' and a.id not in I.havocs for a in all_atoms(self.value)) and (
                isinstance(self.value, TupleV) or all(p[0] == 'item' for p in self.value.parts)):
            c.require(False, 'stop', BT, 'the path is traced until the duration is reached: it is always %s' % show(self.value, 300))
            raise Stop()
        if len(cand) != 1:
            raise Unsupported('%s: no single integration loop found' % BT)
        self.rec, self.path = cand[0]
        self.cells = {}
        for t in self.rec.locs.values():
            for ce in t.cells:
                if ce.mu is not None:
                    self.cells[ce.mu.id] = ce
        c.plain |= set(self.cells)
        # the point appended and the condition of acceptance
        f = self.path.f
        items = f.items if isinstance(f, TupleV) else None
        parts = [p for p in f.parts] if isinstance(f, ListV) else None
        if parts is None or not (parts[0][0] == 'sym' and isinstance(parts[0][1], R)
                                 and parts[0][1].single() is self.path.mu):
            raise Unsupported('%s: the path is not extended at its end' % BT)
        if len(parts) != 2 or parts[1][0] != 'item':
            raise Unsupported('%s: not one vertex per step: %s' % (BT, show(f, 300)))
        self.A = parts[1][1]
        p = parts[1][2]
        self.XN = [as_r(subst_cond(I.elem(p, num(i)), self.A, True)) for i in (0, 1)]
        self.stops = [e for e in self.rec.exits if e[0] != 'raise' and not (
            isinstance(e[3], B) and any((a.op or '').startswith(('isfinite', 'isnan', 'isinf', 'V_'))
                                        for a in all_atoms(e[3])))]

    def last_steps(self):
        """Conditions of leaving the loop right after an accepted step."""
        return [e[3] for e in self.rec.exits if e[0] != 'raise' and e not in self.stops and isinstance(e[3], B)
                and alg.decide(self.A, Facts().add(e[3])) is True]

    def sided(self):
        """The four cases: direction of the trace, last step clamped or not.
        Yields (label, facts, clamped)."""
        T, H = self.tmu(), self.dtmu()
        for s in (1, -1):
            k = num(s)
            f = Facts().add(mk_cmp(k * self.D, '>')).add(mk_cmp(k * T, '>=')).add(mk_cmp(k * (self.D - T), '>'))
            f = f.add(mk_cmp(k * H, '>'))
            over = k * (T + H - self.D)
            nm = 'backward' if s > 0 else 'forward'
            yield nm, f.add(mk_cmp(-over, '>')), False
            yield nm + ' last step', f.add(mk_cmp(over, '>')), True

    def accepted(self, f):
        """Value of a next-state f when the step is accepted."""
        return subst_cond(f, self.A, True)

    def rejected(self, f):
        return subst_cond(f, self.A, False)

    def tmu(self):
        """Elapsed time: the scalar the stop condition depends on."""
        if not hasattr(self, '_t'):
            d = self.D.single().id

            def told(v):
                return [x for x in all_atoms(v) if x.id == d]
            if len(self.stops) > 1 and self.c.prop == 'C14':
                # the others are judged by other_ends
                ends = [(len({a.id for a in all_atoms(e[3])} & set(self.cells)), e) for e in self.stops
                        if isinstance(e[3], B) and told(e[3])]
                least = [e for n, e in ends if n == min(n for n, _ in ends)]
                self.stops = least if len(least) == 1 else self.stops
            if len(self.stops) != 1:
                raise Unsupported('%s: %d normal ends of the loop' % (BT, len(self.stops)))
            ids = {a.id for a in all_atoms(self.stops[0][3])} & set(self.cells)
            if not ids and (self.c.prop == 'C14'):
                self.c.require(False, 'stop', BT, 'tracing ends when the duration is reached: the end does not depend on what a step changes: %s'
                               % show(self.stops[0][3], 300))
                raise Stop()
            if len(ids) > 1 and self.c.prop == 'C14':
                lits = []
                alg.literals(self.stops[0][3], lits)
                ids = {a.id for l in lits if told(l) for a in all_atoms(l)} & set(self.cells)
            if len(ids) != 1:
                raise Unsupported('%s: stop condition depends on %d state variables' % (BT, len(ids)))
            self._t = R.atom(ATOMS[ids.pop()])
            self.signed()
        return self._t

    def signed(self):
        """State variables that hold the time left, or times without their
        sign, are written by the signed elapsed time."""
        D, T = self.D, self._t
        way = ite(mk_cmp(D, '>'), num(1), num(-1))
        sides = [Facts().add(mk_cmp(num(s) * D, '>')) for s in (1, -1)]

        def like(x, w, fs=sides):
            return isinstance(x, R) and all(eq_in(x, w, f) for f in fs)
        v0 = self.tcell().v0
        if not isinstance(v0, R):
            return
        if r_eq(v0, D):
            self.rewrite(T, lambda t: D - t, lambda x: D - x)
        elif like(v0, way * D):
            self.rewrite(T, lambda t: way * (D - t), lambda x: D - way * x)
            self.unsigned(way)
        elif r_eq(v0, num(0)):
            h = self.first_step()
            if h is not None and isinstance(h, R) and decide_in(mk_cmp(h, '>'), sides[1]) is True:
                self.rewrite(T, lambda t: way * t, lambda x: way * x)
                self.unsigned(way)

    def first_step(self):
        ids = ({a.id for a in all_atoms(as_r(self.accepted(self.tcell().f)))} & set(self.cells)) - {self._t.single().id}
        return self.cells[next(iter(ids))].v0 if len(ids) == 1 else None

    def unsigned(self, way):
        """The trial step, if held without its sign, too."""
        h = self.first_step()
        if isinstance(h, R) and decide_in(mk_cmp(h, '>'), Facts().add(mk_cmp(-self.D, '>'))) is True:
            self.rewrite(self.dtmu(), lambda t: way * t, lambda x: way * x)
            del self._h, self._dt

    def rewrite(self, x, new, old):
        """State variable x is new(y) of a variable y that x is old() of."""
        y = fresh_atom('y', integer=False)
        y.meta = 'mu'
        aid = x.single().id
        m = {aid: new(R.atom(y))}

        def go(v):
            return subst(v, m) if isinstance(v, (R, B, TupleV, VecV, ListV, Gamma, Arr)) else v
        self.mended = getattr(self, 'mended', []) + [go]
        self.A, self.XN, self.value = go(self.A), [go(v) for v in self.XN], go(self.value)
        self.stops = [tuple(e[:3]) + (go(e[3]),) + tuple(e[4:]) for e in self.stops]
        for i, ce in list(self.cells.items()):
            ce = copy.copy(ce)
            ce.f, ce.v0 = go(ce.f), go(ce.v0)
            if i == self.path.mu.id:
                self.path = ce
            if i == aid:
                del self.cells[i]
                ce.f, ce.v0, ce.mu = old(as_r(ce.f)), old(as_r(ce.v0)), y
                i = y.id
            self.cells[i] = ce
        self.c.plain.add(y.id)
        if self._t.single().id == aid:
            self._t = R.atom(y)

    def mend(self, v):
        """v in terms of the signed elapsed time."""
        self.tmu()
        for go in getattr(self, 'mended', ()):
            v = go(v)
        return v

    def tcell(self):
        return self.cells[self.tmu().single().id]

    def h_raw(self):
        if not hasattr(self, '_h'):
            self._h = as_r(self.accepted(self.tcell().f)) - self.tmu()
        return self._h

    def dtmu(self):
        """The trial step: what the advance of time depends on besides time."""
        if not hasattr(self, '_dt'):
            ids = ({a.id for a in all_atoms(self.h_raw())} & set(self.cells)) - {self.tmu().single().id}
            if not ids and self.c.prop == 'C14':
                self.c.require(False, 'clamp', BT, 'time advances by the trial step: it advances by %s' % show(self.h_raw(), 300))
                raise Stop()
            if len(ids) != 1:
                self.uniform()
                raise Unsupported('%s: the advance in time depends on %d state variables: %s' % (
                    BT, len(ids), show(self.h_raw(), 300)))
            self._dt = R.atom(ATOMS[ids.pop()])
        return self._dt

    def uniform(self):
        """Where the velocity is (u, w) everywhere, two accepted steps from the
        start move by the velocity times the time they advance."""
        if self.c.prop != 'C14':
            return
        u = (sym('u'), sym('w'))

        def flat(x):
            m = {a.id: u[int(a.op[1])] for a in all_atoms(x) if a.op in ('V0', 'V1')}
            return subst(x, m) if m else x
        t = self.tmu().single().id
        if not all(isinstance(ce.f, R) and isinstance(ce.v0, R) for i, ce in self.cells.items() if i != self.path.mu.id):
            return
        cells = {i: ce for i, ce in self.cells.items() if i != self.path.mu.id}
        nxt = {i: flat(self.accepted(ce.f)) for i, ce in cells.items()}
        now = {i: flat(ce.v0) for i, ce in cells.items()}
        XN = [flat(x) for x in self.XN]
        at, when = (self.xs, self.ys), now[t]
        f = Facts().add(mk_cmp(self.D, '>'))
        for n in range(2):
            if isinstance(self.A, B):
                f = f.add(subst(flat(self.A), now))
            new = [subst(x, now) for x in XN]
            now = {i: subst(x, now) for i, x in nxt.items()}
            for i in (0, 1):
                self.c.same(new[i] - at[i], u[i] * (now[t] - when), 'advance', BT,
                            'in a uniform velocity step %d moves by velocity times time' % (n + 1), f)
            at, when = new, now[t]

    def solve_h(self, f):
        """(substitution making the advance in time the symbol h, h)."""
        h, und = alg.resolve(self.h_raw(), f)
        if und is not None:
            raise Unsupported('%s: advance in time undecided: %s' % (BT, show(h, 200)))
        hs = sym('h')
        for x in (self.dtmu(), self.D):
            a = x.single()
            if a.id in {b.id for b in all_atoms(h)}:
                d = diff(h, a)
                if d.is_const() and d.num:
                    rest = h - d * x
                    if a.id not in {b.id for b in all_atoms(rest)}:
                        return {a.id: (hs - rest) / d}, hs, h
        raise Unsupported('%s: advance in time not solvable: %s' % (BT, show(h, 200)))

    def step(self, f):
        """Stages of one step under facts f: every velocity evaluation replaced
        by a symbol.  Returns a Step."""
        return Step(self, f)


def eq_in(a, b, f):
    try:
        equiv(a, b, f)
        return True
    except (Mismatch, Unsupported):
        return False


def decide_in(b, f):
    """True if b holds under f."""
    try:
        equiv(b, True, f)
        return True
    except (Mismatch, Unsupported):
        return False


def subst_cond(v, cond, val):
    """Value of v given that the condition is val."""
    if isinstance(cond, bool):
        return v
    lits = [cond if val else b_not(cond)]
    if val and cond.kind == 'and':
        lits = list(cond.args)
    elif not val and cond.kind == 'or':
        lits = [b_not(x) for x in cond.args]

    def go(x):
        m = {}
        for a in outer_atoms(x, lambda a: a.op == 'ite'):
            k = a.args[0]
            if beq(k, cond):
                m[a.id] = a.args[1] if val else a.args[2]
            elif beq(k, b_not(cond)):
                m[a.id] = a.args[2] if val else a.args[1]
            else:
                r = interp_restrict(k, lits)
                if r is True:
                    m[a.id] = a.args[1]
                elif r is False:
                    m[a.id] = a.args[2]
        return subst(x, m) if m else x
    for _ in range(6):
        w = go(v)
        if w is v or veq(w, v):
            break
        v = w
    # one of several parts of the condition settles it either way
    parts = cond.args if cond.kind == ('or' if val else 'and') else ()
    for i, l in enumerate(parts):
        if any(beq(a.args[0], l) or beq(a.args[0], b_not(l)) for a in outer_atoms(v, lambda a: a.op == 'ite')):
            rest = (b_or if val else b_and)(*(parts[:i] + parts[i + 1:]))
            w1 = subst_cond(subst_cond(v, l, not val), rest, val)
            w2 = subst_cond(v, l, val)
            if veq(w1, w2):
                return w1
    return v


def b_replace(b, l, w):
    """b with the literal l written as w."""
    if not isinstance(b, B):
        return b
    if beq(b, l):
        return w
    if b.kind == 'not':
        return b_not(b_replace(b.args[0], l, w))
    if b.kind in ('and', 'or'):
        return (b_and if b.kind == 'and' else b_or)(*[b_replace(x, l, w) for x in b.args])
    return b


def interp_restrict(k, lits):
    from values import restrict
    return restrict(k, lits)


class Step:
    def __init__(self, tr, f):
        self.tr = tr
        c = tr.c
        m, hs, h = tr.solve_h(f)
        self.h, self.hval, self.f = hs, h, f
        self.m = m

        def fix(v):
            v, und = alg.resolve(v, f)
            return subst(v, m)
        X = tr.position()
        self.X = X
        K = tr.slope()
        self.K = K
        stages = []                     # (symbols, point)
        if K is not None:
            stages.append(([R.atom(k) for k in K], None))
        pack = [tr.XN[0], tr.XN[1]]
        if isinstance(tr.A, B):
            pack.append(tr.A)
        slope_next = [tr.accepted(tr.cells[k.id].f) for k in K] if K is not None else []
        dtn = tr.cells[tr.dtmu().single().id].f
        whole = TupleV([fix(x) for x in (tr.XN[0], tr.XN[1])])
        acc = fix(tr.A)
        slope_next = [fix(x) for x in slope_next]
        dtn = fix(dtn)
        everything = [whole, acc, TupleV(slope_next), dtn]
        for _ in range(40):
            vs = [a for a in all_atoms(TupleV([x for x in everything if not isinstance(x, bool)]))
                  if a.op in ('V0', 'V1')]
            vs = [a for a in vs if not any(b.op in ('V0', 'V1') for x in a.args for b in all_atoms(x))]
            if not vs:
                break
            p = vs[0].args[0]
            n = len(stages)
            s = [sym('k%d_%d' % (n, i)) for i in (0, 1)]
            stages.append((s, [as_r(x) for x in p.items]))
            mm = {}
            for i in (0, 1):
                at, _ = get_app('V%d' % i, (p,))
                mm[at.id] = s[i]
            everything = [x if isinstance(x, bool) else subst(x, mm) for x in everything]
        self.stages = stages
        self.XN = list(everything[0].items)
        self.A = everything[1]
        self.slope_next = list(everything[2].items)
        self.dtn = everything[3]

    def coefs(self, comps, what):
        """Rational weights w with comps[i] = base_i + h sum_j w_j k_j[i]."""
        out = []
        for j, (s, _) in enumerate(self.stages):
            w = []
            for i in (0, 1):
                d = diff(comps[i], s[i].single()) / self.h
                if not d.is_const():
                    raise NotLinear('%s: weight of slope %d is %s' % (what, j + 1, show(d, 200)))
                w.append(d.value())
            if w[0] != w[1]:
                raise NotLinear('%s: weights of slope %d differ between x and y (%s, %s)' % (what, j + 1, w[0], w[1]))
            out.append(w[0])
        rest = []
        for i in (0, 1):
            r = comps[i]
            for j, (s, _) in enumerate(self.stages):
                r = r - self.h * num_(out[j]) * s[i]
            rest.append(r)
        return out, rest


class NotLinear(Exception):
    pass


def num_(q):
    return R.const(q)


def _position(tr):
    """State holding the current point: what takes the accepted point."""
    if not hasattr(tr, '_pos'):
        out = []
        for i in (0, 1):
            got = [ce.mu for ce in tr.cells.values() if isinstance(ce.f, R)
                   and r_eq(as_r(tr.accepted(ce.f)), as_r(tr.accepted(tr.XN[i]))) and ce.kind == 'num']
            if len(got) > 1:
                got = [m for m in got if m.id in {a.id for a in all_atoms(tr.XN[i])}]
            if len(got) != 1:
                tr.uniform()
                raise Unsupported('%s: %d state variables hold the current point' % (BT, len(got)))
            out.append(R.atom(got[0]))
        tr._pos = out
    return tr._pos


def _slope(tr):
    """Carried slope (first same as last), or None: the remaining state that
    the new point depends on."""
    if not hasattr(tr, '_slope'):
        known = {x.single().id for x in tr.position()} | {tr.tmu().single().id, tr.dtmu().single().id}
        ids = sorted(({a.id for a in all_atoms(TupleV(tr.XN))} & set(tr.cells)) - known)
        if not ids:
            tr._slope = None
        elif len(ids) == 2:
            # x component: the one XN[0] is linear in outside of velocity calls
            a, b = [ATOMS[i] for i in ids]
            v0 = {ce.mu.id: ce.v0 for ce in tr.cells.values()}

            def comp(m):
                s = v0[m.id].single() if isinstance(v0[m.id], R) else None
                if s is not None and s.op in ('V0', 'V1'):
                    return int(s.op[1])
                s = as_r(tr.accepted(tr.cells[m.id].f)).single()
                return int(s.op[1]) if s is not None and s.op in ('V0', 'V1') else None
            ca, cb = comp(a), comp(b)
            if {ca, cb} != {0, 1}:
                raise Unsupported('%s: carried slope not recognised' % BT)
            tr._slope = [a, b] if ca == 0 else [b, a]
        else:
            raise Unsupported('%s: %d unexplained state variables' % (BT, len(ids)))
    return tr._slope


Trace.position = _position
Trace.slope = _slope


# -- rooted trees ------------------------------------------------------------
def trees(n, memo={}):
    """Rooted trees with n nodes, as sorted tuples of subtrees."""
    if n == 1:
        return [()]
    if n in memo:
        return memo[n]
    out = set()

    def parts(total, maxtree):
        if total == 0:
            yield ()
            return
        for k in range(1, total + 1):
            for t in trees(k):
                if maxtree is None or (size(t), t) <= maxtree:
                    for rest in parts(total - k, (size(t), t)):
                        yield (t,) + rest
    for p in parts(n - 1, None):
        out.add(tuple(sorted(p, key=lambda t: (size(t), t))))
    memo[n] = sorted(out)
    return memo[n]


def size(t):
    return 1 + sum(size(s) for s in t)


def gamma(t):
    r = size(t)
    for s in t:
        r *= gamma(s)
    return r


def phi(t, a, m):
    """Elementary weights of a tree at every stage (a: rows of the tableau)."""
    from fractions import Fraction
    out = [Fraction(1)] * m
    for s in t:
        p = phi(s, a, m)
        for i in range(m):
            out[i] = out[i] * sum((a[i][j] * p[j] for j in range(m)), Fraction(0))
    return out


def C13(c):
    """Each step is a consistent fifth-order Runge-Kutta step with an embedded
    error estimate: order conditions of the tableau read from the code."""
    tr = Trace(c, aquifer_error)
    for label, f, clamped in tr.sided():
        s = tr.step(f)
        m = len(s.stages)
        a = []
        for j, (_, p) in enumerate(s.stages):
            if p is None:
                a.append([0] * m)
                continue
            try:
                w, rest = s.coefs(p, 'stage %d' % (j + 1))
            except NotLinear as e:
                c.require(False, 'stage-form', BT, '%s: %s' % (label, e))
                raise Stop()
            for i in (0, 1):
                c.same(rest[i], s.X[i], 'stage-base', BT, '%s: stage %d starts from the current point' % (label, j + 1))
            a.append(w)
        try:
            b, rest = s.coefs(s.XN, 'new point')
        except NotLinear as e:
            c.require(False, 'step-form', BT, '%s: %s' % (label, e))
            raise Stop()
        for i in (0, 1):
            c.same(rest[i], s.X[i], 'step-base', BT, '%s: the step starts from the current point' % label)
        for n in range(1, 6):
            for t in trees(n):
                p = phi(t, a, m)
                v = sum((b[j] * p[j] for j in range(m)), Fraction(0))
                c.require(v == Fraction(1, gamma(t)), 'order-%d' % n, BT,
                          '%s: the order-%d condition of tree %s is %s, not 1/%d' % (label, n, t, v, gamma(t)))
        # carried slope
        if s.K is not None:
            last = [j for j, (sy, p) in enumerate(s.stages) if p is not None and r_eq(p[0], s.XN[0]) and r_eq(p[1], s.XN[1])]
            for i in (0, 1):
                ok = any(r_eq(as_r(s.slope_next[i]), s.stages[j][0][i]) for j in last)
                c.require(ok, 'slope-carried', BT, '%s: the next step starts from the velocity at the new point, not %s' % (
                    label, show(s.slope_next[i], 200)))
            for k in tr.slope():
                c.same(tr.rejected(tr.cells[k.id].f), R.atom(k), 'slope-carried', BT,
                       '%s: a step tried again starts from the same slope' % label, f)
        # error estimate: difference of two embedded solutions
        est = error_estimate(tr, s)
        if est is None:
            c.require(False, 'estimate-used', BT, '%s: acceptance compares no error estimate with tol: %s' % (
                label, show(s.A, 600)))
            raise Stop()
        M, comps, scales = est
        try:
            e, rest = s.coefs(comps, 'error estimate')
        except NotLinear as x:
            c.require(False, 'estimate-form', BT, '%s: %s' % (label, x))
            raise Stop()
        c.same(TupleV(rest), TupleV([num(0), num(0)]), 'estimate-form', BT,
               '%s: the estimate combines slopes only' % label)
        for n in range(1, 5):
            for t in trees(n):
                p = phi(t, a, m)
                v = sum((e[j] * p[j] for j in range(m)), Fraction(0))
                c.require(v == 0, 'embedded-%d' % n, BT,
                          '%s: the error estimate is not of order five: tree %s gives %s' % (label, t, v))
        five = [sum((e[j] * q for j, q in enumerate(phi(t, a, m))), Fraction(0)) for t in trees(5)]
        c.require(any(five), 'estimate-nonzero', BT, '%s: the error estimate measures something' % label)
    # start
    if tr.slope() is not None:
        V0 = [R.atom(get_app('V%d' % i, (VecV([tr.xs, tr.ys]),))[0]) for i in (0, 1)]
        for i, k in enumerate(tr.slope()):
            c.same(tr.cells[k.id].v0, V0[i], 'first-slope', BT, 'the first slope is the velocity at the start')


def error_estimate(tr, s):
    """(M, [E0, E1], ...): the acceptance condition bounds M = max(|E0|, |E1|)
    by tol.  None if no literal of it mentions tol."""
    lits = []
    alg.literals(s.A, lits)
    tid = tr.tol.single().id
    for l in lits:
        if l.kind != 'cmp' or tid not in {a.id for a in all_atoms(l)}:
            continue
        p = R(dict(l.args[0]))
        d = diff(p, tr.tol.single())
        if not d.is_const() or not d.num:
            continue
        M = tr.tol - p / d                   # p/d = tol - M
        ab = outer_atoms(M, lambda a: a.op == 'abs')
        mx = [a for a in outer_atoms(M, lambda a: a.op == 'max')]
        if len(mx) != 1:
            return None
        k = diff(M, mx[0])
        if not k.is_const() or len(mx[0].args) != 2:
            return None
        comps = []
        for x in mx[0].args:
            y = x * k
            at = outer_atoms(y, lambda a: a.op == 'abs')
            if len(at) != 1:
                return None
            d1 = diff(y, at[0])
            if not d1.is_const() or not r_eq(y, d1 * R.atom(at[0])) or d1.value() <= 0:
                return None
            comps.append(as_r(at[0].args[0]) * d1)
        # component i uses the i-th components of the slopes
        ids0 = {sy[0].single().id for sy, _ in s.stages}
        if not ({a.id for a in all_atoms(comps[0])} & ids0):
            comps.reverse()
        # the sign of a component is lost by abs: align with the other
        for sy, _ in s.stages:
            d0, d1 = diff(comps[0], sy[0].single()), diff(comps[1], sy[1].single())
            if d0.num and d1.num:
                if not r_eq(d0, d1) and r_eq(d0, -d1):
                    comps[1] = -comps[1]
                break
        return M, comps, None
    return None


def INFINITE(v):
    w = alg.INF().single()
    return any(a.id == w.id for a in all_atoms(v))


def other_ends(c, tr):
    """No end of the loop for how many vertices or steps there are already."""
    # state that counts steps, or the path itself
    count = {tr.path.mu.id}
    for i, ce in tr.cells.items():
        if i != tr.tmu().single().id and isinstance(ce.f, R) and isinstance(ce.v0, R) and ce.v0.is_const():
            d = [as_r(subst_cond(ce.f, tr.A, b)) - R.atom(ATOMS[i]) for b in (True, False)]
            if all(x.is_const() for x in d) and any(x.value() for x in d):
                count.add(i)
    c.require(tr.rec.n is None or INFINITE(tr.rec.n), 'stop', BT,
              'tracing ends only when the duration is reached: not after %s steps' % show(tr.rec.n, 100))
    cases = list(tr.sided())
    for e in tr.rec.exits:
        if e in tr.stops or not isinstance(e[3], B):
            continue
        x = tr.mend(e[3])
        lits = []
        alg.literals(x, lits)
        for l in lits:
            a = l.args[0].single() if l.kind != 'cmp' and isinstance(l.args[0], R) else None
            if a is not None and (a.op or '').startswith(('isfinite', 'isnan', 'isinf', 'V_')):
                # every velocity is there and a number
                x = b_replace(x, l, a.op == 'isfinite')
            elif l.kind == 'cmp' and INFINITE(l):
                w = alg.INF().single().id
                up = {q > 0 for mono, q in dict(l.args[0]).items() if any(i == w for i, n in mono)}
                if len(up) == 1:
                    x = b_replace(x, l, l.args[1] != '==' and True in up)
        for label, f, clamped in cases:
            r = alg.resolve(x, f)[0]
            if alg.decide(r, f) is False or clamped and alg.decide(alg.resolve(tr.A, f)[0], f.add(r)) is True:
                continue
            odd = [a for a in all_atoms(r) if not a.meta and a.op not in (None, 'sym', 'V0', 'V1', 'abs', 'max', 'min', 'sqrt', 'ite', 'sign', 'pow', 'len', 'idx')]
            if odd or INFINITE(r):
                                raise Unsupported('%s: another end of the loop, when %s' % (BT, show(r, 200)))
            c.require(False, 'stop', BT, '%s: tracing ends only when the duration is reached, not when %s' % (
                label, show(r, 300)))


def C14(c):
    """Time runs from 0 to exactly the duration; a step is accepted iff its
    error and length are small enough; acceptance moves time, point and path
    together; the next trial step follows the control formula."""
    tr = Trace(c, aquifer_error)
    I = c.I
    c.require(not tr.rec.alias, 'path-kept', BT, 'a vertex once recorded is not changed by later steps')
    T, H, D = tr.tmu(), tr.dtmu(), tr.D
    # start
    c.same(tr.tcell().v0, num(0), 'start-time', BT, 'time starts at zero')
    v = tr.path.v0
    v = v if isinstance(v, (TupleV, ListV)) else None
    ok = isinstance(v, TupleV) and len(v.items) == 1 or isinstance(v, ListV) and len(v.parts) == 1 and \
        v.parts[0][0] == 'item' and v.parts[0][1] is True
    if c.require(ok, 'start-path', BT, 'the path starts with one vertex'):
        p = v.items[0] if isinstance(v, TupleV) else v.parts[0][2]
        for i, w in ((0, tr.xs), (1, tr.ys)):
            c.same(I.elem(p, num(i)), w, 'start-path', BT, 'the first vertex is the starting point')
    for i, w in ((0, tr.xs), (1, tr.ys)):
        c.same(tr.cells[tr.position()[i].single().id].v0, w, 'start-point', BT, 'integration starts at the starting point')
    h0 = tr.cells[H.single().id].v0
    for s in (1, -1):
        c.implied(mk_cmp(num(s) * as_r(h0), '>'), Facts().add(mk_cmp(num(s) * D, '>')), 'start-direction', BT,
                  'the first trial step points along the duration')
    # end
    other_ends(c, tr)
    stop = tr.stops[0][3]
    for s in (1, -1):
        f = Facts().add(mk_cmp(num(s) * D, '>')).add(mk_cmp(num(s) * T, '>=')).add(mk_cmp(num(s) * (D - T), '>='))
        c.same(stop, mk_cmp(num(s) * (T - D), '>='), 'stop', BT, 'tracing ends exactly when the duration is reached', f)
    c.same(subst(stop, {T.single().id: num(0), D.single().id: num(0)}), True, 'stop', BT, 'no time, no steps')
    for label, f, clamped in tr.sided():
        h, und = alg.resolve(tr.h_raw(), f)
        want = D - T if clamped else H
        if not c.same(h, want, 'clamp', BT, '%s: time advances by %s' % (
                label, 'what is left' if clamped else 'the trial step'), f):
            raise Stop()
    for label, f, clamped in tr.sided():
        s = tr.step(f)
        # literals of acceptance, with the error and the length named
        est = error_estimate(tr, s)
        if est is None:
            c.require(False, 'accept', BT, '%s: the error estimate is compared with tol: %s' % (label, show(s.A, 500)))
            raise Stop()
        E = pos_sym('err')
        f = s.f = s.f.add(mk_cmp((num(-1) if 'forward' in label else num(1)) * s.h, '>'))
        ds2 = sum(((s.XN[i] - s.X[i]) * (s.XN[i] - s.X[i]) for i in (0, 1)), num(0))
        L = pos_sym('len')
        mx = outer_atoms(est[0], lambda a: a.op == 'max')[0]
        m = {mx.id: E / diff(est[0], mx)}
        sg = num(-1) if 'forward' in label else num(1)
        acc0, dtn0 = alg.resolve(s.A, f)[0], alg.resolve(s.dtn, f)[0]
        for a in all_atoms(TupleV([x for x in (acc0, dtn0) if not isinstance(x, bool)])):
            if a.op == 'sqrt':
                q = a.args[0] / ds2
                if q.is_const():
                    m[a.id] = L * mk_sqrt(q)
                elif (q * s.h * s.h).is_const():
                    m[a.id] = L * mk_sqrt(q * s.h * s.h) / (sg * s.h)
        alg_l = []
        alg.literals(acc0, alg_l)
        ms = tr.ms.single()
        for l in alg_l:
            if l.kind == 'cmp' and ms.id in {a.id for a in all_atoms(l)} and l.args[1] != '==':
                p = R(dict(l.args[0]))
                k2 = diff(diff(p, ms), ms) / num(2)
                q = (k2 * tr.ms * tr.ms - p) / ds2 if k2.num else None
                if q is None or not (k2.is_const() and q.num):
                    continue
                if not q.is_const():
                    continue
                # a square compared with maxstep squared
                r = q / k2
                if r.value() > 0:
                    acc0 = b_replace(acc0, l, mk_cmp(k2 * (tr.ms - L * mk_sqrt(r)), l.args[1]))
        acc = subst(acc0, m)
        c.same(acc, b_and(mk_cmp(tr.tol - E, '>'), mk_cmp(tr.ms - L, '>')), 'accept', BT,
               '%s: a step is accepted iff its error is below tol and its length below maxstep' % label,
               skip_boundary=True)
        # next trial step
        eps = [a for a in all_atoms(s.dtn) if a.name == 'eps' or a.op == 'eps']
        dtn = subst(dtn0, m)
        for hyp in (True, False):
            v = subst_cond(dtn, acc, hyp)
            fx = Facts().add(mk_cmp(E, '>')).add(mk_cmp(L, '>'))
            fx = fx.add(acc if hyp else b_not(acc))
            g = subst(v, {a.id: num(0) for a in eps}) if eps else v
            if eps and hyp:
                # without an error, or without a movement, too
                z = {E.single().id: sym('err0', nonneg=True), L.single().id: sym('len0', nonneg=True)}
                z.update({a.id: pos_sym('eps0') for a in eps})
                gz = subst(subst_cond(dtn, acc, True), z)
                c.implied(mk_cmp(sg * gz, '>'), f, 'control', BT, '%s: the next trial step keeps the direction of this one' % label)
            spec = num_(Fraction(9, 10)) * s.h * mk_min(mk_pow(tr.tol / E, num_(Fraction(1, 5))), tr.ms / L, num(10))
            c.same(g, spec, 'control', BT, '%s: next trial step is 0.9 min((tol/err)^(1/5), maxstep/length, 10) times this one'
                   % label, fx)
        # updates
        for i in (0, 1):
            ce = tr.cells[s.X[i].single().id]
            c.same(tr.accepted(ce.f), tr.XN[i], 'accepted-together', BT, '%s: the accepted point becomes the current point' % label)
            c.same(tr.rejected(ce.f), s.X[i], 'rejected-kept', BT, '%s: a rejected step keeps the point' % label, f)
        c.same(tr.rejected(tr.tcell().f), T, 'rejected-kept', BT, '%s: a rejected step keeps the time' % label, f)
        if s.K is not None:
            for k in s.K:
                c.same(tr.rejected(tr.cells[k.id].f), R.atom(k), 'rejected-kept', BT,
                       '%s: a rejected step keeps the slope' % label, f)


def pos_sym(n):
    return sym(n, pos=True)


def builtin_error(name):
    def f(I, st):
        return I.make_exc(st, ExtV(name if '.' in name else 'builtins.' + name), ['x'])
    return f


FAILURES = [('aquifer error', aquifer_error), ('linear algebra error', builtin_error('numpy.linalg.LinAlgError')),
            ('zero division', builtin_error('ZeroDivisionError')), ('floating-point error', builtin_error('FloatingPointError')),
            ('value error', builtin_error('ValueError')), ('runtime error', builtin_error('RuntimeError')),
            ('type error', builtin_error('TypeError'))]


def C31(c):
    """A velocity that fails, or is not a number, ends one trace early: the
    vertices so far are returned, one warning is logged, nothing escapes."""
    I = c.I
    for name, mk in FAILURES:
        I.recs.clear()
        tr = Trace(c, mk)
        c.require(not tr.r.raises, 'contained', BT, 'a %s in the velocity ends the trace only (%s escapes)' % (
            name, c.exc_names(tr.r)))
        fails0 = b_atom(apply('V_fails', VecV([tr.xs, tr.ys]), boolean=True))
        # what is returned
        stop = tr.stops[0][3]
        # tests for a velocity at the start that is not a number
        odd = [b_atom(R.atom(a)) if a.op != 'isfinite' else b_not(b_atom(R.atom(a))) for a in all_atoms(tr.value)
               if a.op in ('isfinite', 'isnan', 'isinf') and not any(b.meta == 'mu' for b in all_atoms(R.atom(a)))]
        fine = Facts()
        for x in odd:
            fine = fine.add(b_not(x))
        for f, want in ((Facts().add(fails0), 'start'), (fine.add(b_not(fails0)).add(stop), 'path'),
                        (fine.add(b_not(fails0)).add(b_not(stop)), 'path')) + tuple(
                            (Facts().add(b_not(fails0)).add(x), 'either') for x in odd):
            for got, when in live_cases(tr.value, f):
                if want != 'start' and len(got) == 2 and got[1][0] == 'item' and part_mu(got[0]) == tr.path.mu.id and veq(
                        got[1][2], tr.path.f.parts[1][2]) and any(
                            alg.decide(e, f.add(b_and(*when))) is True for e in tr.last_steps()):
                    # left right after the step that reached the duration
                    got = got[:1]
                ok = len(got) == 1 and (want != 'start' and part_mu(got[0]) == tr.path.mu.id or
                                        want != 'path' and is_start(I, got[0], tr))
                if not ok and opaque_part(TupleV([p[-1] for p in got])) and not any(part_mu(p) or is_start(I, p, tr) for p in got):
                    raise Unsupported('%s: returned path not expressible: %s' % (BT, show(tr.value, 300)))
                c.require(ok, 'partial-path', BT, 'after a %s the path so far is returned: %s' % (name, show(tr.value, 300)))
        # warnings: in no normal run, exactly one in each failing run
        ev = [(e, conds, loops) for e, conds, loops in walk_trace(tr.r.state.trace)
              if e.kind == 'log' and e.name in ('warning', 'warn', 'error', 'exception', 'critical')]
        W = [b_and(*conds) for e, conds, loops in ev if not loops]
        inloop = [x for x in ev if x[2]]
        normal = b_and(b_not(fails0), b_or(stop, *tr.last_steps()))
        ends = [e[3] for e in tr.rec.exits if e[0] != 'raise' and isinstance(e[3], B)]
        if inloop and all(any(alg.decide(x, Facts().add(b_and(*conds))) is True for x in ends) for e, conds, loops in inloop):
            # given where the loop is left
            W += [b_and(*conds) for e, conds, loops in inloop]
            inloop = []
        if c.require(not inloop and len(W) >= 1, 'warned', BT, 'a %s is reported by one warning' % name):
            c.same(b_or(*W), b_not(normal), 'warned', BT,
                   'a warning is logged exactly when the trace ended early (%s)' % name, fine)
            for x in odd:
                c.implied(b_or(*W), Facts().add(b_not(fails0)).add(x), 'warned', BT,
                          'a velocity at the start that is not a number is reported (%s)' % name)
            for i in range(len(W)):
                for j in range(i):
                    c.same(b_and(W[i], W[j]), False, 'warned-once', BT, 'one warning per trace')
        from rules_log import records
        for r in records(ev):
            for i, v in enumerate(r.values):
                if not re.search(r'(^|\W)(t|time) *[=:]? *$', r.labels[i]):
                    continue
                for s in (1, -1):
                    c.same(tr.mend(as_r(v)), ite(fails0, num(0), tr.tmu()), 'time-told', BT,
                           'the time in the warning is the time reached (%s)' % name,
                           fine.add(mk_cmp(num(s) * tr.D, '>')).add(tr.mend(r.cond)))
    # what must not be swallowed
    for name in ('KeyboardInterrupt', 'SystemExit'):
        I.recs.clear()
        tr = Trace(c, builtin_error(name))
        rc = c.raise_cond(tr.r, lambda e: exc_is(e, 'builtins.' + name) or exc_name(e) == name)
        fails0 = b_atom(apply('V_fails', VecV([tr.xs, tr.ys]), boolean=True))
        c.implied(b_or(b_not(fails0), rc), None, 'interrupt', BT, '%s is not swallowed at the start' % name)
        n = sum(1 for s, e in tr.r.raises)
        c.require(n >= 2, 'interrupt', BT, '%s is not swallowed while stepping' % name)
    # velocities that are not numbers: some exit of the loop tests the step for it
    I.recs.clear()
    tr = Trace(c, None)
    by = {'isfinite': set(), 'isnan': set(), 'isinf': set()}
    for kind, s, v, cond in tr.rec.exits:
        if isinstance(cond, B):
            for a in all_atoms(cond):
                if a.op in by:
                    by[a.op] |= {b.id for x in a.args for b in all_atoms(x)}
    tested = by['isfinite'] | (by['isnan'] & by['isinf'])
    need = [a for a in all_atoms(TupleV(tr.XN)) if a.op in ('V0', 'V1')]
    if isinstance(tr.A, B):
        need += [a for a in all_atoms(tr.A) if a.op in ('V0', 'V1')]
    miss = [a for a in need if a.id not in tested]
    c.require(not miss, 'non-finite', BT, 'a velocity that is not finite ends the trace (%d of %d evaluations untested)' % (
        len(miss), len(need)))
    for kind, s, v, cond in tr.rec.exits:
        if not isinstance(cond, B):
            continue
        tests = [x for x in all_atoms(cond) if x.op in ('isfinite', 'isnan', 'isinf')]
        if not tests or kind != 'raise' and alg.decide(tr.A, Facts().add(cond)) is True:
            continue
        run = Facts().add(b_not(tr.stops[0][3]))
        good = run
        for x in tests:
            good = good.add(b_atom(R.atom(x)) if x.op == 'isfinite' else b_not(b_atom(R.atom(x))))
        c.require(alg.decide(cond, good) is not True, 'non-finite', BT, 'finite velocities do not end the trace')
        for x in tests:
            bad = run.add(b_not(b_atom(R.atom(x))) if x.op == 'isfinite' else b_atom(R.atom(x)))
            c.require(alg.decide(cond, bad) is not False, 'non-finite', BT, 'a velocity that is not finite ends the trace')
    c.require(not tr.r.raises, 'non-finite', BT, 'a velocity that is not finite raises nothing (%s)' % c.exc_names(tr.r))


def live_cases(v, f, when=()):
    """(live_parts, conditions) in each case the facts leave open."""
    if isinstance(v, Gamma):
        t = alg.decide(v.cond, f)
        out = []
        if t is not False:
            out += live_cases(v.a, f.add(v.cond), when + (() if t else (v.cond,)))
        if t is not True:
            out += live_cases(v.b, f.add(b_not(v.cond)), when + (() if t is False else (b_not(v.cond),)))
        return out
    if isinstance(v, ListV):
        for p in v.parts:
            cond = p[1] if p[0] == 'item' else p[3] if p[0] == 'comp' else True
            if not isinstance(cond, bool) and alg.decide(cond, f) is None:
                if p[0] == 'comp' and p[2].id in {a.id for a in all_atoms(cond)}:
                    break
                return [x for q in (cond, b_not(cond)) if alg.decide(cond, f.add(q)) is not None
                        and not any(alg.decide(w, Facts().add(q)) is False for w in when)
                        for x in live_cases(v, f.add(q), when + (q,))]
    return [(live_parts(v, f), when)]


def live_parts(v, f):
    """Parts of a list value that exist under the facts."""
    if isinstance(v, Gamma):
        t = alg.decide(v.cond, f)
        if t is None:
            raise Unsupported('returned path depends on %s' % show(v.cond, 200))
        return live_parts(v.a if t else v.b, f)
    if isinstance(v, TupleV):
        return [('item', True, x) for x in v.items]
    if not isinstance(v, ListV):
        return [('sym', v)]
    out = []
    for p in v.parts:
        cond = p[1] if p[0] == 'item' else p[3] if p[0] == 'comp' else True
        t = alg.decide(cond, f)
        if t is None:
            raise Unsupported('returned path depends on %s' % show(cond, 200))
        if t:
            out.append(p)
    return out


def part_mu(p):
    """Atom id of the list this part copies whole."""
    if p[0] == 'sym' and isinstance(p[1], R) and p[1].single() is not None:
        return p[1].single().id
    if p[0] == 'comp':
        n, k, body = p[1], p[2], p[4]
        if isinstance(body, ListV) and len(body.parts) == 1 and body.parts[0][0] == 'item' and body.parts[0][1] is True:
            x = body.parts[0][2]
            a = x.single() if isinstance(x, R) else None
            if a is not None and a.op == 'idx' and len(a.args) == 2 and isinstance(a.args[0], R) and r_eq(
                    as_r(a.args[1]), R.atom(k)) and r_eq(n, mk_len(a.args[0])):
                return a.args[0].single().id
    return None


def is_start(I, p, tr):
    if p[0] != 'item':
        return False
    try:
        return all(r_eq(as_r(I.elem(p[2], num(i))), w) for i, w in ((0, tr.xs), (1, tr.ys)))
    except Exception:
        return False


# -- seeding -----------------------------------------------------------------
def C12(c):
    """npaths seeds evenly around the well, one trace each, every trace
    rasterised whole on the field, one registration with the weight."""
    I = c.I
    xt, yt, rt, D, u, w, tol, ms, fe = [sym(n) for n in 'xt yt rt D u w tol ms fe'.split()]
    n = sym('npaths', integer=True, pos=True)

    def bt(I, st, a):
        xs = {k: I.freeze(v, st) for k, v in a.items()}
        r = apply('path', as_r(xs['xs']), as_r(xs['ys']))
        r.single().meta = {'cols': 2}
        return r
    c.opaque(BT, bt)
    for m in ('rasterize', 'register', 'reset', 'insert', 'expand'):
        try:
            c.opaque(PF + '.' + m)
        except Anchor:
            if m in ('rasterize', 'register'):
                raise
    st = I.start()
    p, v = c.W.field(st)
    before = {k: I.freeze(I.getattr(p, k, st, None), st) for k in ('pgrid', 'rgrid', 'total_weight')}
    r = c.call(CZ, [xt, yt, rt, n, D, p, u, w, tol, ms, fe], st=st)
    c.require(c.raise_cond(r) is False, 'total', CZ, 'raises %s' % c.exc_names(r))
    if not c.require(r.state is not None, 'total', CZ, 'returns'):
        return
    ev = [x for x in walk_trace(r.state.trace) if x[0].kind == 'call']
    by = {}
    for e, conds, loops in ev:
        by.setdefault(e.name, []).append((e, conds, loops))
    for nm in ('reset', 'insert', 'expand'):
        c.require(nm not in by, 'only-rasterize-register', CZ, 'the field is not touched by %s' % nm)
    for k in before:
        c.same(I.freeze(I.getattr(p, k, r.state, None), r.state), before[k], 'only-rasterize-register', CZ,
               'the field changes only by rasterising and registering (%s)' % k)

    def once_per_path(nm):
        es = by.get(nm, [])
        ok = len(es) == 1 and len(es[0][2]) == 1 and not any(x is not True for x in es[0][1])
        if not c.require(ok, 'one-per-seed', CZ, '%s runs once, unconditionally, for every seed (%d sites)' % (nm, len(es))):
            return None
        e, conds, loops = es[0]
        c.same(loops[0].n, n, 'seed-count', CZ, 'there are exactly npaths calls of %s' % nm)
        return e, R.atom(loops[0].k)
    two_pi = num(2) * alg.PI()

    def seed(k):
        th = two_pi * k / n
        rr = rt + num(1)
        return rr * lib2_cos(th) + xt, rr * lib2_sin(th) + yt
    b = once_per_path('compute_backtrace')
    if b:
        e, k = b
        sx, sy = seed(k)
        for nm, want in (('xs', sx), ('ys', sy), ('duration', D), ('tol', tol), ('maxstep', ms), ('feval', fe)):
            c.same(e.kwargs[nm], want, 'seed-' + nm, CZ, 'trace k starts at angle 2 pi k/npaths, one metre off the well, '
                   'with the run parameters (%s)' % nm)
    b = once_per_path('rasterize')
    if b:
        e, k = b
        path = apply('path', *seed(k))
        path.single().meta = {'cols': 2}
        c.require(isinstance(e.kwargs['self'], Ref) and e.kwargs['self'].id == p.id, 'own-field', CZ, 'the given field is marked')
        c.same(e.kwargs['umbra'], u, 'umbra', CZ, 'paths are rasterised with the umbra')
        args = [x for x in e.kwargs if x not in ('self', 'umbra')]
        s = fresh_atom('s', integer=True, nonneg=True)
        for nm, i in zip(args, (0, 1)):
            got = e.kwargs[nm]
            c.same(c.I.length(got), mk_len(path), 'whole-path', CZ, 'every vertex of the path is rasterised')
            c.same(c.I.elem(got, R.atom(s)), idx(path, R.atom(s), num(i)), 'whole-path', CZ,
                   'the path of seed k is rasterised in order (%s)' % nm)
    es = by.get('register', [])
    ok = len(es) == 1 and not es[0][2] and not any(x is not True for x in es[0][1])
    if c.require(ok, 'register-once', CZ, 'the realization is registered exactly once, after its paths'):
        e = es[0][0]
        c.require(isinstance(e.kwargs['self'], Ref) and e.kwargs['self'].id == p.id, 'own-field', CZ, 'the given field is registered')
        c.same(e.kwargs['weight'], w, 'register-weight', CZ, 'with the weight of the realization')
        order = [x[0].name for x in ev]
        c.require('rasterize' in order and order.index('register') > max(i for i, x in enumerate(order) if x == 'rasterize'),
                  'register-last', CZ, 'registration follows the last path')


def lib2_cos(x):
    return R.atom(get_app('cos', (x,))[0])


def lib2_sin(x):
    return R.atom(get_app('sin', (x,))[0])


RULES = {'C12': C12, 'C13': C13, 'C14': C14, 'C31': C31}
for _r in RULES.values():
    _r.modes = 1

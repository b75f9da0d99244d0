"""Loop summaries: the body is interpreted once on symbolic loop-carried
values; the resulting recurrences are solved in closed form.  What has no
closed form is left as a named recurrence record for the rules to inspect."""
from values import *
import alg
from interp import eta


class Cell:
    def __init__(self, mu, kind, v0):
        self.mu, self.kind, self.v0 = mu, kind, v0
        self.f = None
        self.integer = False


class Rec:
    """An unsolved (or solved) loop: everything a rule may want to know."""

    def __init__(self):
        self.locs = {}          # loc -> (init, template, next value)
        self.exits = []         # (kind, cond, state, value)
        self.cont = None        # condition of completing an iteration
        self.trace = []
        self.where = None
        self.node = None
        self.unsolved = []


def loc_value(st, loc):
    if loc[0] == 'v':
        return st.frames.get(loc[1], {}).get(loc[2], UNDEF)
    if loc[0] == 'f':
        o = st.heap.get(loc[1])
        return o.fields.get(loc[2], UNDEF)
    return st.heap.get(loc[1])


def loc_exists(st, loc):
    if loc[0] == 'v':
        return loc[1] in st.frames
    return loc[1] in st.heap


def loc_set(st, loc, v):
    if loc[0] == 'v':
        st.frames[loc[1]][loc[2]] = v
    elif loc[0] == 'f':
        o = st.heap[loc[1]].copy()
        o.fields[loc[2]] = v
        st.heap[loc[1]] = o
    else:
        st.heap[loc[1]] = v


class Template:
    """A symbolic value of the same shape as the initial one."""

    def __init__(self, I, name, v0, st, nonint):
        self.cells = []
        self.I = I
        self.name = name
        self.nonint = nonint
        self.form = 'plain'
        self.v0 = v0
        if isinstance(v0, (ListC, ArrC, DictC, ObjC)):
            self.form = 'heap'
            self.val = self.heap(v0, st)
        elif isinstance(v0, Ref) and isinstance(st.heap.get(v0.id), (ListC, ArrC)):
            self.form = 'ref'
            self.val = self.heap(st.heap[v0.id], st)
        else:
            self.val = self.build(undef_free_(v0), st)

    def cell(self, kind, v0, **kw):
        a = fresh_atom('μ:' + self.name, **kw)
        a.meta = 'mu'
        c = Cell(a, kind, v0)
        c.integer = a.integer
        self.cells.append(c)
        return a

    def build(self, v0, st):
        if v0 is UNDEF:
            self.cells.append(Cell(None, 'undef', UNDEF))
            return UNDEF
        if isinstance(v0, (bool, B)) or (isinstance(v0, R) and v0.single() is not None and v0.single().boolean):
            return b_atom(R.atom(self.cell('bool', v0, boolean=True)))
        if isinstance(v0, R):
            a = v0.single()
            if a is not None and a.ndim:
                m = self.cell('arr', v0, ndim=a.ndim, shape=a.shape, boolean=a.boolean)
                return R.atom(m)
            integer = alg.is_int(v0) and self.name not in self.nonint
            return R.atom(self.cell('num', v0, integer=integer))
        if isinstance(v0, VecV):
            return VecV([self.build(x, st) for x in v0.items])
        if isinstance(v0, TupleV):
            return TupleV([self.build(self.I.deref(x, st), st) for x in v0.items])
        if isinstance(v0, Arr):
            m = self.cell('arr', v0, ndim=len(v0.ks), shape=v0.shape,
                          boolean=isinstance(v0.body, (bool, B)))
            return R.atom(m)
        if isinstance(v0, ListV):
            m = self.cell('list', v0)
            return ListV([('sym', R.atom(m))])
        if isinstance(v0, Gamma):
            return R.atom(self.cell('any', v0))
        return R.atom(self.cell('any', v0))

    def heap(self, o, st):
        if isinstance(o, ListC):
            v0 = ListV(self.I.freeze_part(p, st, ()) for p in o.parts)
            m = self.cell('list', v0)
            w = self.width(v0)
            if w is not None:
                alg.ROWS[m.id] = w
            return ListV([('sym', R.atom(m))])
        if isinstance(o, ArrC):
            v = o.val
            if isinstance(v, VecV):
                return self.build(v, st)
            v = self.I.lib.as_arr(v)
            m = self.cell('arr', v, ndim=len(v.ks), shape=v.shape,
                          boolean=isinstance(v.body, (bool, B)))
            return R.atom(m)
        if isinstance(o, DictC):
            return DictT([k for k, _ in o.items], [self.build(self.I.deref(v, st), st) for _, v in o.items])
        raise Unsupported('loop over changing object')

    def width(self, v):
        """Columns of the rows of a list."""
        if not (isinstance(v, ListV) and v.parts):
            return None
        try:
            return self.I.lib.width_of(self.I.elem(v, fresh('k', integer=True, nonneg=True)))
        except Unsupported:
            return None

    def install(self, st, loc):
        v = self.val
        if self.form == 'heap':
            loc_set(st, loc, self.to_obj(v))
        elif self.form == 'ref':
            loc_set(st, loc, self.I.new_ref(st, self.to_obj(v)))
        else:
            loc_set(st, loc, self.I.wrap(v, st))

    def to_obj(self, v):
        if isinstance(v, DictT):
            return DictC(list(zip(v.keys, v.vals)))
        if isinstance(v, ListV):
            return ListC(v.parts)
        if isinstance(v, TupleV):
            return ListC([('item', True, x) for x in v.items])
        return ArrC(v)

    def end_value(self, st, loc):
        v = loc_value(st, loc)
        if self.form == 'plain':
            return self.I.freeze(v, st)
        if self.form == 'ref':
            v = undef_free_(v)
            if isinstance(v, Gamma):
                return self.gamma_list(v, st)
            if not isinstance(v, Ref):
                return self.I.freeze(v, st)
            v = st.heap.get(v.id)
        if isinstance(v, ListC):
            return ListV([self.I.freeze_part(p, st, ()) for p in v.parts])
        if isinstance(v, ArrC):
            return self.I.freeze(v.val, st)
        if isinstance(v, DictC):
            return DictT([k for k, _ in v.items], [self.I.freeze(x, st) for _, x in v.items])
        raise Unsupported('loop-carried object changed kind')

    def gamma_list(self, v, st):
        a = self.gamma_list(v.a, st) if isinstance(v.a, Gamma) else self.one(v.a, st)
        b = self.gamma_list(v.b, st) if isinstance(v.b, Gamma) else self.one(v.b, st)
        if isinstance(a, ListV) and isinstance(b, ListV):
            return ListV(self.I.merge_obj(v.cond, ListC(a.parts), ListC(b.parts)).parts)
        return ite(v.cond, a, b)

    def one(self, v, st):
        o = st.heap.get(v.id) if isinstance(v, Ref) else None
        if isinstance(o, ListC):
            return ListV([self.I.freeze_part(p, st, ()) for p in o.parts])
        return self.I.freeze(v, st)

    def match(self, end):
        """Distribute the end value over the cells."""
        it = iter(self.cells)
        self._match(self.val, end, it)

    def _match(self, t, e, it):
        if isinstance(t, DictT):
            if not isinstance(e, DictT) or len(t.keys) != len(e.keys) or not all(
                    veq(a, b) for a, b in zip(t.keys, e.keys)):
                raise Unsupported('dictionary keys change in a loop')
            for x, y in zip(t.vals, e.vals):
                self._match(x, y, it)
            return
        if isinstance(t, (VecV, TupleV)):
            if isinstance(e, Gamma):
                e2 = self.spread(e, len(t.items))
                for x, y in zip(t.items, e2):
                    self._match(x, y, it)
                return
            if isinstance(e, R):
                e = TupleV([self.I.elem(e, R.const(i)) for i in range(len(t.items))])
            if isinstance(e, Arr):
                e = VecV([self.I.elem(e, R.const(i)) for i in range(len(t.items))])
            if not isinstance(e, (VecV, TupleV)) or len(e.items) != len(t.items):
                raise Unsupported('loop-carried vector changes length')
            for x, y in zip(t.items, e.items):
                self._match(x, y, it)
            return
        c = next(it)
        c.f = e
        if c.mu is not None and c.mu.id in alg.ROWS and self.width(e) not in (None, alg.ROWS[c.mu.id]):
            raise Unsupported('rows of another width in a loop')

    def spread(self, g, n):
        def comps(x):
            if isinstance(x, Gamma):
                a, b = comps(x.a), comps(x.b)
                return [self.I.merge_vals(x.cond, p, q) for p, q in zip(a, b)]
            if isinstance(x, (VecV, TupleV)) and len(x.items) == n:
                return list(x.items)
            if isinstance(x, (R, Arr)):
                return [self.I.elem(x, R.const(i)) for i in range(n)]
            raise Unsupported('loop-carried vector changes shape')
        return comps(g)

    def store(self, st, loc, sub):
        """Write the closed value into st."""
        v = self.val
        if v is UNDEF:
            loc_set(st, loc, self.I.wrap(sub(None, self.cells[0]), st))
            return
        if isinstance(v, DictT):
            loc_set(st, loc, DictC([(k, sub(x)) for k, x in zip(v.keys, v.vals)]))
            return
        v = sub(v)
        if self.form == 'plain':
            if isinstance(v, ListV):
                v = self.I.new_ref(st, ListC(v.parts))
            loc_set(st, loc, self.I.wrap(v, st))
        elif self.form == 'heap':
            loc_set(st, loc, self.to_obj(v))
        else:
            loc_set(st, loc, self.I.new_ref(st, self.to_obj(v)))


class DictT:
    def __init__(self, keys, vals):
        self.keys, self.vals = keys, vals


def undef_free_(v):
    while isinstance(v, Gamma) and (v.a is UNDEF or v.b is UNDEF):
        v = v.b if v.a is UNDEF else v.a
    return v


# --------------------------------------------------------------------------
def mk_first(n, k, cond):
    """Smallest k < n with cond (n None: unbounded)."""
    if cond is True or not contains(cond, k.id):
        return R.const(0)
    n = n if n is not None else INF()
    b, c = close_binder(k, cond)
    for a in alg.by_op('first', 2)[2]:
        if veq(a.args[0], n) and veq(a.args[1], subst(c, {b.id: R.atom(a.meta)})):
            return R.atom(a)
    a = Atom('first', (n, c))
    alg.add_app('first', 2, a)
    a.meta = b
    a.integer = a.nonneg = True
    return R.atom(a)


def _rb_first(a, args):
    k2 = fresh_atom('k', integer=True, nonneg=True)
    return mk_first(args[0], k2, subst(args[1], {a.meta.id: R.atom(k2)}))


alg.REBUILD['first'] = _rb_first


def mk_big(op, n, k, body):
    """max/min over k<n of body, as an atom."""
    b, c = close_binder(k, body)
    for a in alg.by_op(op, 2)[2]:
        if veq(a.args[0], n) and veq(a.args[1], subst(c, {b.id: R.atom(a.meta)})):
            return R.atom(a)
    a = Atom(op, (n, c))
    alg.add_app(op, 2, a)
    a.meta = b
    return R.atom(a)


def _rb_big(a, args):
    k2 = fresh_atom('k', integer=True, nonneg=True)
    return mk_big(a.op, args[0], k2, subst(args[1], {a.meta.id: R.atom(k2)}))


alg.REBUILD['bigmax'] = _rb_big
alg.REBUILD['bigmin'] = _rb_big
for _op in ('selmin', 'selmax', 'selmedian'):
    alg.REBUILD[_op] = _rb_big


def strip(f, m):
    """f - m with m removed through gates, or None."""
    d = f - R.atom(m)
    if not contains(d, m.id):
        return d
    for aid in sorted(f.atoms()):
        a = ATOMS[aid]
        if a.op == 'ite' and m.id in alg.atom_closure(a):
            if contains(a.args[0], m.id):
                return None
            x = strip(subst(f, {a.id: a.args[1]}), m)
            if x is None:
                return None
            y = strip(subst(f, {a.id: a.args[2]}), m)
            if y is None:
                return None
            return ite(a.args[0], x, y)
    return None


def pin(c, k):
    """k0 if c implies k == k0."""
    if isinstance(c, B) and c.kind == 'or':
        ks = [pin(x, k) for x in c.args]
        return ks[0] if all(x is not None and veq(x, ks[0]) for x in ks) else None
    lits = c.args if isinstance(c, B) and c.kind == 'and' else (c,)
    for l in lits:
        if isinstance(l, B) and l.kind == 'cmp' and l.args[1] == '==':
            p = dict(l.args[0])
            co = p.get(((k.id, 1),))
            if co is None:
                continue
            rest = {m: -v / co for m, v in p.items() if m != ((k.id, 1),)}
            r = R(rest)
            if contains(r, k.id) or not alg.is_int(r):
                continue
            return r
    return None


def cond_value(f, m):
    """f as (cond, value) with f = value if cond else m, m-free; or None."""
    if isinstance(f, R):
        a = f.single()
        if a is None or a.op != 'ite':
            return None
        c, x, y = a.args
        if isinstance(y, R) and y.single() is m and not contains(x, m.id) and not contains(c, m.id):
            return c, x
        if isinstance(x, R) and x.single() is m and not contains(y, m.id) and not contains(c, m.id):
            return b_not(c), y
        if contains(c, m.id):
            return None
        if not contains(x, m.id):
            r = cond_value(y, m)
            if r:
                return b_or(c, r[0]), ite(c, x, r[1])
        if not contains(y, m.id):
            r = cond_value(x, m)
            if r:
                return b_or(b_not(c), r[0]), ite(c, r[1], y)
        rx, ry = cond_value(x, m), cond_value(y, m)
        if rx and ry:
            if beq(rx[0], ry[0]):
                return rx[0], ite(c, rx[1], ry[1])
            return b_or(b_and(c, rx[0]), b_and(b_not(c), ry[0])), ite(c, rx[1], ry[1])
        if rx and isinstance(y, R) and y.single() is m:
            return b_and(c, rx[0]), rx[1]
        if ry and isinstance(x, R) and x.single() is m:
            return b_and(b_not(c), ry[0]), ry[1]
        return None
    if isinstance(f, Gamma):
        isx = isinstance(f.a, R) and f.a.single() is m
        isy = isinstance(f.b, R) and f.b.single() is m
        if isy and not contains(f.a, m.id):
            return f.cond, f.a
        if isx and not contains(f.b, m.id):
            return b_not(f.cond), f.b
    return None


def solve_scalar(v0, m, f, k):
    """Value at the start of iteration k of  x := f(x, k), x(0) = v0."""
    kr = R.atom(k)
    k2 = fresh_atom('k', integer=True, nonneg=True)
    to2 = {k.id: R.atom(k2)}
    if m is None or not contains(f, m.id):
        prev = subst(f, {k.id: kr - R.const(1)})
        if v0 is UNDEF:
            return prev
        if not contains(f, k.id) and veq(f, v0):
            return v0
        return carry(k, v0, prev)
    if isinstance(f, R) and f.single() is m:
        return v0
    if isinstance(f, B) and f.kind == 'atom' and f.args[0].single() is m:
        return v0
    if isinstance(f, (B, bool)) and isinstance(v0, (B, bool, R)):
        v0b = v0 if isinstance(v0, (B, bool)) else (b_atom(v0) if not v0.is_const() else v0.value() != 0)
        p = subst(f, {m.id: True})
        q = subst(f, {m.id: False})
        if p is True:
            return b_or(v0b, mk_exists(kr, k2, subst(q, to2)))
        if q is False:
            return b_and(v0b, b_not(mk_exists(kr, k2, b_not(subst(p, to2)))))
        # true when q, false when not p, else unchanged; q implies p
        if v0b is False and isinstance(b_and(p, b_not(q)), bool):
            return None
        return None
    if isinstance(f, R) and isinstance(v0, (R, B, bool)):
        cv = cond_value(f, m)
        if cv is not None:
            c, val = cv
            k0 = pin(c, k)
            if k0 is not None:
                s = {k.id: k0}
                return merge(b_and(mk_cmp(k0, '>='), mk_cmp(kr - k0, '>'), subst(c, s)),
                             subst(val, s), v0)
            if not contains(val, k.id):
                return merge(mk_exists(kr, k2, subst(c, to2)), val, v0)
        d = strip(f, m)
        if d is not None:
            return as_r(v0) + mk_sum(kr, k2, subst(d, to2))
        a = f.single()
        if a is not None and a.op in ('max', 'min'):
            rest = [x for x in a.args if not (x.single() is m)]
            if len(rest) == len(a.args) - 1 and not any(contains(x, m.id) for x in rest):
                mk = mk_max if a.op == 'max' else mk_min
                e = mk(*rest)
                return mk(as_r(v0), mk_big('big' + a.op, kr, k2, subst(e, to2)))
        return None
    cv = cond_value(f, m)
    if cv is not None:
        c, val = cv
        k0 = pin(c, k)
        if k0 is not None:
            s = {k.id: k0}
            return merge(b_and(mk_cmp(k0, '>='), mk_cmp(kr - k0, '>'), subst(c, s)), subst(val, s), v0)
        if not contains(val, k.id):
            return merge(mk_exists(kr, k2, subst(c, to2)), val, v0)
    return None


def carry(k, v0, prev):
    """v0 the first time, then what the time before left."""
    if v0 is not UNDEF and prev is not UNDEF and prev is not None:
        try:
            if veq(subst_safe(prev, {k.id: R.const(0)}), v0):
                return prev
        except Unsupported:
            pass
    return merge(mk_cmp(R.atom(k), '=='), v0, prev)


def merge(c, a, b):
    if a is UNDEF or b is UNDEF:
        return Gamma(c, a, b) if not isinstance(c, bool) else (a if c else b)
    return ite(c, a, b)


def force(v, lits, val):
    """v with the conjunction of literals `lits` fixed to val."""
    if isinstance(v, bool) or v is None or not lits:
        return v
    if isinstance(v, B):
        if v.kind == 'and':
            if val is False and len(lits) > 1:
                if all(any(beq(x, l) for x in v.args) for l in lits):
                    return False
            return b_and(*[force(x, lits, val) for x in v.args])
        if v.kind == 'or':
            return b_or(*[force(x, lits, val) for x in v.args])
        if val is True or len(lits) == 1:
            for l in lits:
                if beq(v, l):
                    return val
                n = b_not(l)
                if isinstance(n, B) and beq(v, n):
                    return not val
        if v.kind == 'not':
            return b_not(force(v.args[0], lits, val))
        return v
    if isinstance(v, R):
        a = v.single()
        if a is not None and a.op == 'ite':
            return ite(force(a.args[0], lits, val), force(a.args[1], lits, val), force(a.args[2], lits, val))
        its = [a for a in alg.all_atoms(v) if a.op == 'ite']
        if its:
            m = {}
            for a in its:
                if a.id in v.atoms():
                    x = force(R.atom(a), lits, val)
                    if not (isinstance(x, R) and x.single() is a):
                        m[a.id] = x
            return subst(v, m)
    return v


def shannon(v, t):
    """Boolean v as a function of the literal t."""
    if not isinstance(v, B):
        return v
    v1, v0 = force(v, [t], True), force(v, [t], False)
    return b_or(b_and(t, v1), b_and(b_not(t), v0)) if v0 is not False else b_and(t, v1)


def align(v, ks, mu, t):
    """Rewrite reads mu[e...] at the written position: split on e = ks."""
    ts = b_atom(R.atom(t)) if t.boolean else None
    for _ in range(4):
        others = [a for a in alg.all_atoms(v) if a.op == 'idx' and a.args[0].single() is mu and len(a.args) == 1 + len(ks)]
        if not others:
            break
        a = others[0]
        P = [mk_cmp(e - R.atom(x), '==') for e, x in zip(a.args[1:], ks) if not r_eq(e, R.atom(x))]
        if any(p is False for p in P):
            return v
        P = [p for p in P if p is not True]
        vp = force(subst(v, {a.id: R.atom(t)}), P, True)
        vn = force(v, P, False)
        if ts is not None:
            vp, vn = shannon(vp, ts), shannon(vn, ts)
        if contains(vn, a.id):
            return v
        v = ite(b_and(*P), vp, vn)
        if ts is not None:
            v = shannon(v, ts)
    return v


def pointwise(I, pend, closed, k):
    """Arrays updated together, each position in one iteration of its own and
    from values at that position: the first largest such group, closed."""
    cells = [c for c in pend if c.mu is not None and c.kind == 'arr' and c.f is not UNDEF]
    kr = R.atom(k)
    for c in cells:
        group, need = [], [c]
        while need:
            d = need.pop()
            if any(d is g for g in group):
                continue
            group.append(d)
            f = subst(d.f, closed) if closed else d.f
            need += [e for e in pend if e.mu is not None and e is not d and contains(f, e.mu.id)]
        if not all(any(g is x for x in cells) for g in group):
            continue
        rank = {g.mu.ndim for g in group}
        if len(rank) != 1:
            continue
        ks = [fresh_atom('i', integer=True, nonneg=True) for _ in range(rank.pop())]
        kv = [R.atom(x) for x in ks]
        old = {g.mu.id: I._getitem_hook(I.lib.as_arr(g.v0), kv) for g in group}
        tmp = {g.mu.id: fresh_atom('t', boolean=g.mu.boolean) for g in group}
        out = {}
        k00 = None
        for g in group:
            body = I._getitem_hook(I.lib.as_arr(subst(g.f, closed) if closed else g.f), kv)
            r = own_step(body, g, group, tmp, k, ks)
            if r is None:
                break
            k0, conds, new = r
            if k00 is None:
                k00 = k0
            if not (veq(k0, k00) and alg.is_int(k0)):
                break
            new = subst(subst(new, {k.id: k0}), {tmp[i].id: old[i] for i in tmp})
            conds = [subst(x, {k.id: k0}) for x in conds]
            o = old[g.mu.id]
            if isinstance(o, (bool, B)) or isinstance(new, (bool, B)):
                o, new = I.lib.tobool(o), I.lib.tobool(new)
            inside = b_and(mk_cmp(k0, '>='), mk_cmp(kr - k0, '>'), *conds)
            out[g.mu.id] = eta(Arr(I.lib.as_arr(g.v0).shape, ks, ite(inside, new, o)))
        else:
            return out
    return {}


def eq_lits(v):
    """Equality literals of v."""
    seen = []

    def go(v):
        if isinstance(v, B):
            if v.kind == 'cmp':
                if v.args[1] == '==' and not any(beq(v, x) for x in seen):
                    seen.append(v)
            elif v.kind in ('and', 'or', 'not', 'atom'):
                for x in v.args:
                    go(x)
        elif isinstance(v, R):
            for i in sorted(v.atoms()):
                a = ATOMS[i]
                if a.op == 'ite':
                    for x in a.args:
                        go(x)
    go(v)
    return seen


def is_atom(v, t):
    if isinstance(v, R):
        return v.single() is t
    if isinstance(v, B):
        if v.kind == 'atom' and v.args[0].single() is t:
            return True
        ts = b_atom(R.atom(t))
        return always(force(v, [ts], True), True) and always(force(v, [ts], False), False)
    return False


def a_lit(v):
    while isinstance(v, B) and v.kind in ('and', 'or', 'not'):
        v = v.args[0]
    return v


def always(v, val, depth=8):
    """The boolean v is val whatever its literals (a few splits)."""
    if isinstance(v, bool):
        return v is val
    if not isinstance(v, B) or not depth:
        return False
    l = a_lit(v)
    return always(force(v, [l], True), val, depth - 1) and always(force(v, [l], False), val, depth - 1)


def own_step(body, g, group, tmp, k, ks):
    """One iteration writes positions W(k) only: (k0, conditions, new value)
    such that position ks is written in iteration k0 when the conditions hold
    there, its new value depending on values at ks only."""
    kv = [R.atom(x) for x in ks]
    t = tmp[g.mu.id]
    axes = {}
    for l in eq_lits(body):
        for q, x in enumerate(ks):
            w = pin(l, x)
            if w is not None and not any(contains(w, y.id) for y in ks):
                axes.setdefault(q, [])
                if not any(veq(w, z) for z, _ in axes[q]):
                    axes[q].append((w, l))
    import itertools
    tries = 0
    for n in range(len(axes), 0, -1):
        for sub in itertools.combinations(sorted(axes), n):
            for pick in itertools.product(*[axes[q] for q in sub]):
                tries += 1
                if tries > 40:
                    return None
                k0 = next((r for r in (pin(l, k) for _, l in pick) if r is not None and not contains(r, k.id)), None)
                if k0 is None:
                    continue
                at = {ks[q].id: w for q, (w, _) in zip(sub, pick)}
                lits = [l for _, l in pick]

                def own(v, where):
                    """reads at the position itself become t."""
                    for d in group:
                        v = subst(v, {idx(R.atom(d.mu), *[subst(x, where) for x in kv]).single().id: R.atom(tmp[d.mu.id])})
                    return v
                # elsewhere unchanged
                ok = True
                for case in itertools.product((True, False), repeat=len(lits)):
                    if all(case):
                        continue
                    where = {ks[q].id: w for q, (w, _), y in zip(sub, pick, case) if y}
                    v = body
                    for l, y in zip(lits, case):
                        v = force(v, [l], y)
                    v = subst(v, where)
                    for l, y in zip(lits, case):
                        if not y:
                            v = force(v, [subst(l, where)], False)
                    if not is_atom(own(v, where), t):
                        ok = False
                        break
                if not ok:
                    continue
                v = body
                for l in lits:
                    v = force(v, [l], True)
                v = own(subst(v, at), at)
                if any(contains(v, d.mu.id) for d in group):
                    continue
                return k0, [x for x in lits], v
    return None


def solve(I, c, f, k):
    kr = R.atom(k)
    if c.kind == 'undef':
        return solve_scalar(UNDEF, None, f, k)
    if c.kind == 'list':
        if isinstance(f, R) and f.single() is c.mu:
            return c.v0
        if isinstance(f, ListV):
            ps = f.parts
            if ps and ps[0][0] == 'sym' and isinstance(ps[0][1], R) and ps[0][1].single() is c.mu:
                app = ListV(ps[1:])
                if contains(app, c.mu.id):
                    return None
                if not app.parts:
                    return c.v0
                k2 = fresh_atom('k', integer=True, nonneg=True)
                return ListV(tuple(c.v0.parts) +
                             (('comp', kr, k2, True, subst(app, {k.id: R.atom(k2)})),))
            if not contains(f, c.mu.id):
                prev = subst(f, {k.id: kr - R.const(1)})
                return carry(k, c.v0, prev)
        return None
    if c.kind == 'arr':
        if isinstance(f, R) and f.single() is c.mu:
            return c.v0
        a = I.lib.as_arr(f)
        v0 = I.lib.as_arr(c.v0)
        if len(a.ks) != len(v0.ks):
            return None
        ks = [fresh_atom('i', integer=True, nonneg=True) for _ in a.ks]
        kr_ = [R.atom(x) for x in ks]
        body = I._getitem_hook(a, kr_)
        v0b = I._getitem_hook(v0, kr_)
        boolean = isinstance(v0b, (bool, B)) or isinstance(body, (bool, B))
        t = fresh_atom('t', boolean=boolean)
        el = idx(R.atom(c.mu), *kr_)
        body = subst(body, {el.single().id: R.atom(t)})
        if contains(body, c.mu.id):
            body = align(body, ks, c.mu, t)
        if contains(body, c.mu.id):
            return None
        r = solve_scalar(v0b, t, body, k)
        if r is None:
            return None
        return eta(Arr(v0.shape, ks, r))
    if not isinstance(f, (R, B, bool, Gamma)) and not contains(f, c.mu.id):
        prev = subst(f, {k.id: kr - R.const(1)})
        return carry(k, c.v0, prev)
    return solve_scalar(c.v0, c.mu, f, k)


# --------------------------------------------------------------------------
def nnf(b):
    """Disjuncts of b in negation normal form (top level)."""
    if isinstance(b, bool):
        return [b]
    if b.kind == 'or':
        return [y for x in b.args for y in nnf(x)]
    if b.kind == 'not' and b.args[0].kind == 'and':
        return [y for x in b.args[0].args for y in nnf(b_not(x))]
    return [b]


def linear_bound(lit, k):
    """Smallest k >= 0 with lit, when lit is (α + βk rel 0) with β > 0."""
    neg = False
    l = lit
    if l.kind == 'not':
        neg, l = True, l.args[0]
    if l.kind != 'cmp':
        return None
    p, rel = dict(l.args[0]), l.args[1]
    if neg:
        if rel == '==':
            return None
        p = {m: -c for m, c in p.items()}
        rel = '>=' if rel == '>' else '>'
    beta, alpha = {}, {}
    for m, c in p.items():
        d = dict(m)
        e = d.get(k.id, 0)
        if e == 0:
            if any(k.id in alg.atom_closure(ATOMS[a]) for a, _ in m):
                return None
            alpha[m] = c
        elif e == 1:
            rest = tuple(x for x in m if x[0] != k.id)
            if any(k.id in alg.atom_closure(ATOMS[a]) for a, _ in rest):
                return None
            beta[rest] = c
        else:
            return None
    if not beta:
        return None
    al, be = R(alpha), R(beta)
    if rel == '==':
        q = -al / be
        return q if alg.is_int(q) else None
    if not (p_positive(be.num) and p_positive(be.den)):
        return None
    q = -al / be
    if rel == '>=':
        r = mk_ceil(q)
    elif all(alg.is_int(R({m: c})) for m, c in p.items()) and be.is_const() and be.value() == 1:
        r = q + R.const(1)
    else:
        r = mk_floor(q) + R.const(1)
    return mk_max(R.const(0), r)


# --------------------------------------------------------------------------
def refs_of(v, out):
    """Heap objects a stored value refers to directly."""
    if isinstance(v, Ref):
        out.add(v.id)
    elif isinstance(v, (TupleV, VecV)):
        for x in v.items:
            refs_of(x, out)
    elif isinstance(v, Gamma):
        refs_of(v.a, out)
        refs_of(v.b, out)
    elif isinstance(v, (ListC, ListV)):
        for p in v.parts:
            refs_of(p[2] if p[0] == 'item' else p[4] if p[0] == 'comp' else None, out)
    elif isinstance(v, DictC):
        for _, x in v.items:
            refs_of(x, out)
    elif isinstance(v, ObjC):
        for x in v.fields.values():
            refs_of(x, out)
    return out


def aliased(I, pre, inst, end, mod):
    """Lists and dictionaries of the loop holding an object that a later
    iteration changes in place (its recorded value would be the final one)"""
    moving = {l[1] for l in mod if l[0] == 'h' and l[1] in pre.heap}
    for loc, t in mod.items():
        if t.form == 'heap':
            continue
        r = loc_value(inst, loc)
        if isinstance(r, Ref) and r.id in inst.heap and inst.heap[r.id] is not end.heap.get(r.id):
            # changed in place and rebound: next time round it is this one
            refs_of(loc_value(end, loc), moving)
    if not moving:
        return []
    out = []
    for loc in mod:
        if loc[0] == 'h' and isinstance(end.heap.get(loc[1]), (ListC, DictC)):
            new = refs_of(end.heap[loc[1]], set())
            for r in new:
                while r in I.views and r not in moving:
                    r = I.views[r][0]
                if r in moving and r != loc[1]:
                    out.append(loc)
                    break
    return out


def summarise(I, n, k, body, pre, node):
    I.stats['loops'] += 1
    mod = {}
    derived = []        # views of arrays in mod
    nonint = set()
    I.loopk.append(k)
    save_sink = I.sink
    try:
        for attempt in range(14):
            s = pre.copy()
            s.trace = []
            for loc, t in mod.items():
                t.install(s, loc)
            refresh(I, s, derived)
            inst = s.copy()
            I.logs.append(set())
            nrec = len(I.recs)
            out = body(s)
            log = I.logs.pop()
            new = [l for l in log if loc_exists(pre, l) and l not in mod and l not in derived]
            for l in list(new):
                w = l
                while w[0] == 'h' and w[1] in I.views and loc_exists(pre, ('h', I.views[w[1]][0])):
                    if w not in derived:
                        derived.append(w)
                    w = ('h', I.views[w[1]][0])
                if w != l:
                    new.remove(l)
                    if w not in mod and w not in new:
                        new.append(w)
            if new:
                for l in new:
                    v0 = loc_value(pre, l)
                    if l[0] == 'h' and v0 is None:
                        continue
                    mod[l] = Template(I, loc_name(I, l), v0, pre, nonint)
                del I.recs[nrec:]
                continue
            ends = ([out.next] if out.next is not None else []) + out.conts
            end = I.merge_states(ends)
            redo = False
            if end is not None:
                for loc, t in mod.items():
                    t.match(t.end_value(end, loc))
                    for c in t.cells:
                        if c.kind == 'num' and c.integer and not (
                                isinstance(c.f, R) and alg.is_int(c.f)):
                            nonint.add(t.name)
                            redo = True
            if redo:
                for loc in list(mod):
                    mod[loc] = Template(I, loc_name(I, loc), loc_value(pre, loc), pre, nonint)
                del I.recs[nrec:]
                continue
            break
        else:
            raise Unsupported('%s: loop does not stabilise' % I.where(node))
    finally:
        I.loopk.pop()
        I.sink = save_sink
    for log in I.logs:
        log.update(mod)
    alias = aliased(I, pre, inst, end, mod) if end is not None else []
    if alias and not I.allow_alias:
        raise Unsupported('%s: a container keeps an object that the loop changes in place' % I.where(node))
    np0 = len(pre.pc)
    exits = [('break', x, None) for x in out.brks] + [('return', x, v) for x, v in out.rets] + \
            [('raise', x, e) for x, e in out.raises]
    exits = [(kd, x, v, b_and(*x.pc[np0:])) for kd, x, v in exits]

    # -- closed forms
    closed = {}
    cells = [c for t in mod.values() for c in t.cells]
    unsolved = []
    undef_vals = {}
    if end is not None:
        pend = list(cells)
        while pend:
            prog = False
            for c in list(pend):
                f = subst(c.f, closed) if closed and c.f is not UNDEF else c.f
                if c.f is UNDEF:
                    undef_vals[id(c)] = UNDEF
                    pend.remove(c)
                    prog = True
                    continue
                own = c.mu.id if c.mu is not None else None
                deps = [d for d in pend if d is not c and d.mu is not None and contains(f, d.mu.id)]
                if deps:
                    continue
                r = solve(I, c, f, k)
                if r is None:
                    continue
                if c.mu is None:
                    undef_vals[id(c)] = r
                else:
                    closed[c.mu.id] = r
                pend.remove(c)
                prog = True
            if not prog:
                got = pointwise(I, pend, closed, k)
                if not got:
                    break
                closed.update(got)
                pend = [c for c in pend if c.mu is None or c.mu.id not in got]
        unsolved = pend
    else:
        for c in cells:
            if c.mu is None:
                undef_vals[id(c)] = UNDEF
            else:
                closed[c.mu.id] = c.v0      # only iteration 0 ever starts

    # -- exit index
    E = or_simplify([c for _, _, _, c in exits]) if exits else False
    E = subst(E, closed) if isinstance(E, B) else E
    if end is None and E is not True:
        E = True
    kr = R.atom(k)
    lin, rest = [], []
    if isinstance(E, B) and not unsolved:
        for d in nnf(E):
            b = linear_bound(d, k) if isinstance(d, B) else None
            if b is not None:
                lin.append((d, b))
            else:
                rest.append(d)
    elif E is not False:
        rest = [E]
    bound = n
    for d, b in lin:
        bound = b if bound is None else mk_min(bound, b)
    C = b_or(*rest) if rest else False
    generic = bool(unsolved)
    if C is False:
        K = bound
        XC = False
    elif generic:
        K = None
        XC = None
    else:
        K = mk_first(bound, k, C)
        XC = mk_exists(bound, k, C) if bound is not None else True
    if generic and n is not None:
        XC = b_atom(fresh('havoc:exit', boolean=True)) if E is not False else False

    # -- trace
    tr = None
    over = bound        # times round, the one that ends at a bound included if anything shows of it
    pieces = []
    for _, x, _, c in exits:
        if lin and only_lin(c, lin, closed) and end is not None:
            if not x.trace:
                continue
            over = bound + R.const(1) if n is None else mk_min(bound + R.const(1), n)
        pieces.append((c, x.trace))
    if end is not None:
        pieces.append((True, end.trace))
    btr = merge_traces(pieces)
    node_tr = None
    rec = Rec()
    rec.where = I.where(node)
    rec.alias = alias
    rec.node = node
    rec.k = k
    rec.n = n
    rec.unsolved = unsolved
    for loc, t in mod.items():
        rec.locs[loc] = t
    rec.exits = exits
    rec.trace = btr
    rec.end = end
    rec.pre = pre
    rec.inst = inst
    rec.closed = closed
    rec.I = I
    if generic:
        I.recs.append(rec)

    def fin(v, kv=None):
        if v is None or isinstance(v, (bool, str)):
            return v
        r = subst(v, closed) if closed else v
        if kv is not None:
            r = subst(r, {k.id: kv})
        return r
    if btr:
        total = n
        if exits:
            total = (K + R.const(1)) if (K is not None and XC is True) else (
                ite(XC, K + R.const(1), over) if (K is not None and isinstance(XC, B)) else over)
            if total is None:
                total = fresh('trip', integer=True, nonneg=True)
        if total is None:
            total = INF()
        node_tr = LoopNode(total, k, [x.map(lambda v: fin(v)) for x in btr], node, rec)

    res = Out(None)
    # -- normal exhaustion (for loops)
    if n is not None:
        s = pre.copy()
        ok = True
        if XC is not False or lin:
            X = b_or(XC if XC is not False else False,
                     *[mk_cmp(n - b, '>') for _, b in lin])
            ok = I.assume(s, b_not(X))
        if ok:
            for loc, t in mod.items():
                def put(v, cell=None):
                    if cell is not None:
                        u = undef_vals.get(id(cell), UNDEF)
                        return subst_safe(u, {k.id: n})
                    v2 = subst(v, closed)
                    v2 = subst(v2, {k.id: n})
                    for c in unsolved:
                        if c.mu is not None and contains(v2, c.mu.id):
                            h = fresh('havoc:' + t.name, ndim=c.mu.ndim, shape=c.mu.shape, boolean=c.mu.boolean)
                            I.havocs[h.single().id] = (rec, c)
                            v2 = subst(v2, {c.mu.id: h})
                    return v2
                t.store(s, loc, put)
            refresh(I, s, derived)
            drop_stale(s, pre)
            if node_tr is not None:
                s.trace.append(node_tr)
            res.next = s
    # -- exits
    others = [e for e in exits if not only_lin(e[3], lin, closed)]
    for e in exits:
        kd, x, v, c = e
        s = pre.copy()
        conds = []
        if generic:
            if len(exits) > 1 or n is not None:
                conds = [c]
            Kx = None
        else:
            islin = e not in others
            Kx = K
            if islin:
                if XC is not False:
                    conds.append(b_not(XC))
                if n is not None:
                    conds.append(or_simplify([mk_cmp(n - b, '>') for _, b in lin]))
                if bound is not None and Kx is not None and XC is not False:
                    Kx = bound
            else:
                conds.append(XC)
                if len(others) > 1:
                    cc = restrict(subst(c, closed), [b_not(d) for d, _ in lin])
                    conds.append(subst(cc, {k.id: K}) if isinstance(cc, B) else cc)
        ok = True
        for cc in conds:
            ok = ok and I.assume(s, cc)
        if not ok:
            continue

        def mp(val, Kx=Kx):
            r = subst(val, closed) if closed else val
            if Kx is not None:
                r = subst(r, {k.id: Kx})
            return r
        # everything written or created in the exiting iteration
        for loc in mod:
            loc_set(s, loc, map_any(loc_value(x, loc), mp))
        refresh(I, s, derived)
        for fid in x.frames:
            if fid not in pre.frames:
                s.frames[fid] = {a: map_any(b, mp) for a, b in x.frames[fid].items()}
        for h in x.heap:
            if h not in pre.heap:
                s.heap[h] = map_any(x.heap[h], mp)
        if node_tr is not None:
            s.trace.append(node_tr)
        v2 = map_any(v, mp) if not (v is not None and type(v) is object) else v
        if kd == 'break':
            res.brks.append(s)
        elif kd == 'return':
            res.rets.append((s, v2))
        else:
            res.raises.append((s, v2))
    if I.naming is not None:
        for s in ([res.next] if res.next is not None else []) + res.brks:
            for loc, t in mod.items():
                o = s.heap.get(loc[1]) if loc[0] == 'h' else None
                if isinstance(o, ListC):
                    r = I.naming(ListV([I.freeze_part(p, s, ()) for p in o.parts]), len(I.loopk))
                    if r is not None:
                        s.heap[loc[1]] = ListC([('sym', r)])
    return res


def refresh(I, s, derived):
    """Views of arrays the loop writes follow their base."""
    def depth(l):
        n = 0
        while l[1] in I.views:
            l = ('h', I.views[l[1]][0])
            n += 1
        return n
    for l in sorted(derived, key=depth):
        base, fwd, _ = I.views[l[1]]
        if isinstance(s.heap.get(base), ArrC):
            s.heap[l[1]] = ArrC(fwd(I, s, s.heap[base].val))


def subst_safe(v, m):
    if v is UNDEF:
        return v
    if isinstance(v, Gamma) and (v.a is UNDEF or v.b is UNDEF):
        c = subst(v.cond, m)
        a, b = subst_safe(v.a, m), subst_safe(v.b, m)
        if isinstance(c, bool):
            return a if c else b
        return Gamma(c, a, b)
    return subst(v, m)


def only_lin(c, lin, closed):
    if not lin:
        return False
    cc = subst(c, closed) if isinstance(c, B) else c
    return all(isinstance(d, B) and any(beq(d, l) for l, _ in lin) for d in nnf(cc))


def map_any(v, f):
    if isinstance(v, ObjC):
        return ObjC(v.cls, {k: map_any(x, f) for k, x in v.fields.items()})
    if isinstance(v, ListC):
        return ListC(f(ListV(v.parts)).parts)
    if isinstance(v, DictC):
        return DictC([(k, map_any(x, f)) for k, x in v.items])
    if isinstance(v, ArrC):
        return ArrC(f(v.val))
    if isinstance(v, (R, B, TupleV, VecV, Arr, StrV, ListV, SliceV)):
        return f(v)
    if isinstance(v, Gamma):
        c = f(v.cond)
        if isinstance(c, bool):
            return map_any(v.a if c else v.b, f)
        a, b = map_any(v.a, f), map_any(v.b, f)
        return merge(c, a, b)
    return v


def drop_stale(s, pre):
    for fid in list(s.frames):
        if fid not in pre.frames:
            del s.frames[fid]


def loc_name(I, l):
    if l[0] == 'v':
        return l[2]
    if l[0] == 'f':
        return l[2]
    return 'h%s' % l[1]


def merge_traces(pieces):
    if not pieces:
        return []
    acc = pieces[-1][1]
    for c, t in reversed(pieces[:-1]):
        i = 0
        while i < len(t) and i < len(acc) and t[i] is acc[i]:
            i += 1
        if len(t) == i and len(acc) == i:
            continue
        if c is True:
            acc = t
            continue
        acc = acc[:i] + [IfNode(c, t[i:], acc[i:])]
    return acc

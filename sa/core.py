"""Obligation book-keeping shared by all rules."""
import ast
import itertools
import os
from h import *
import alg
import small
import lib2


class Opt:
    """Analysis options of one attempt at a rule."""

    def __init__(self, inline=False):
        self.inline = inline


class Stop(Exception):
    """A violation that makes the remaining obligations of the rule moot."""


class Ctx:
    def __init__(self, prop, root='/repo', inline=False, tier='quick', overlay=None):
        self.prop = prop
        self.root = root
        self.tier = tier
        self.inline = inline
        self.overlay = overlay
        self.W = World(root, overlay)
        CURRENT[:] = [self.W.I]
        self.I = self.W.I
        self.n = 0
        self.ok = 0
        self.cases = 0
        self.viol = []              # (rule, construct, where, message)
        self.rules = {}             # rule -> obligations
        self.plain = set()          # loop-state atoms the rule quantifies over
        self.units = []             # what was analysed
        lib2.FINITE[0] = True       # coordinates etc. are real numbers unless a rule says otherwise

    def again(self):
        """The same book-keeping over a fresh analysis of the program."""
        import copy
        c = copy.copy(self)
        c.W = World(self.root, self.overlay)
        c.I = c.W.I
        c.__dict__['_up'] = self._up if hasattr(self, '_up') else self
        return c

    # -- anchors ----------------------------------------------------------------
    def fn(self, qual):
        for m, e in self.W.broken.items():
            if qual.startswith(m + '.'):
                raise Unsupported('module %s: %s' % (m, e))
        f = self.I.get(qual)
        if not isinstance(f, (FuncV, ClassV, PropV)) and not hasattr(f, 'node'):
            raise Anchor('%s is not a function or class' % qual)
        return f

    def loc(self, f):
        """file:line of a function value or qualified name."""
        if isinstance(f, str):
            if ':' in f:
                return f
            f = self.fn(f)
        if isinstance(f, BoundV):
            f = f.func
        node = getattr(f, 'node', None)
        mod = getattr(f, 'module', None)
        p = self.I.prog.paths.get(mod)
        return '%s:%d' % (os.path.relpath(p, self.root) if p else mod, getattr(node, 'lineno', 0))

    def unit(self, q):
        if q not in self.units:
            self.units.append(q)

    # -- obligations --------------------------------------------------------------
    def require(self, ok, rule, construct, msg, where=None):
        up = getattr(self, '_up', self)
        up.n += 1
        up.rules[rule] = up.rules.get(rule, 0) + 1
        up.unit(construct)
        if ok:
            up.ok += 1
            return True
        if where is None:
            try:
                where = self.loc(construct)
            except (Anchor, AttributeError, KeyError):
                where = '?'
        self.viol.append((rule, construct, where, msg))
        return False

    def same(self, got, want, rule, construct, what, facts=None, where=None, skip_boundary=False,
             abstract=False):
        """Obligation: two abstract values denote the same function of the inputs."""
        es = entries(got, want, facts)
        for g, w, f in es[:-1]:
            if not self.same_entry(g, w, rule, construct, what, f, where, skip_boundary, abstract):
                return False
        return not es or self.same_entry(*es[-1][:2], rule, construct, what, es[-1][2], where, skip_boundary, abstract)

    def same_entry(self, got, want, rule, construct, what, facts=None, where=None, skip_boundary=False,
                   abstract=False):
        facts = first_facts((got, want), facts)
        if abstract:
            g = alg.generalise([got, want], facts, abstract if isinstance(abstract, set) else None)
            try:
                if g is not None:
                    self.cases += equiv(g[0][0], g[0][1], g[1], skip_boundary) or 1
                    return self.require(True, rule, construct, what, where)
            except Mismatch as m:
                if g[2] and not opaque_part(got, self.plain):
                    return self.require(False, rule, construct, '%s: computed %s, required %s (%s; when %s)' % (
                        what, show(got, 400), show(want, 400), m, describe(m.facts) if m.facts else 'always'), where)
            except Unsupported:
                pass
        try:
            self.cases += equiv(got, want, facts, skip_boundary) or 1
            return self.require(True, rule, construct, what, where)
        except Mismatch as m:
            if opaque_part(got, self.plain) or (m.a is not None and opaque_part(m.a, self.plain)):
                raise Unsupported('%s: %s: value not expressible: %s' % (construct, what, show(got, 300)))
            if vague(got, want) and vague(m.a if m.a is not None else got, want) and not independent(got, want, facts):
                d = small.differ(got, want, facts, vague)
                if d is not None:
                    return self.require(False, rule, construct, '%s: computed %s, required %s (for sequences of length %d: %s)' % (
                        what, show(got, 400), show(want, 400), d[0], d[1]), where)
                from lib import rank
                dims = [rank(x) if isinstance(x, (R, Arr)) else None for x in (got, want)]
                if None not in dims and 0 not in dims and dims[0] != dims[1]:
                    return self.require(False, rule, construct, '%s: computed %s, required %s (%d and %d axes)' % (
                        what, show(got, 400), show(want, 400), dims[0], dims[1]), where)
                raise Unsupported('%s: %s: depends on an operation that is not modelled: %s' % (construct, what, show(got, 300)))
            return self.require(False, rule, construct, '%s: computed %s, required %s (%s; when %s)' % (
                what, show(got, 400), show(want, 400), m, describe(m.facts) if m.facts else 'always'), where)

    def same_any(self, got, wants, rule, construct, what, facts=None):
        """same(), where the requirement has several equivalent forms the engine
        may not convert into each other."""
        err = None
        facts = first_facts([got] + list(wants), facts)
        for w in wants[:-1]:
            try:
                self.cases += equiv(got, w, facts) or 1
                return self.require(True, rule, construct, what)
            except Mismatch:
                pass
            except Unsupported as e:
                err = e
        if err is not None:
            try:
                self.cases += equiv(got, wants[-1], facts) or 1
                return self.require(True, rule, construct, what)
            except Mismatch:
                raise err
        return self.same(got, wants[-1], rule, construct, what, facts)

    def implied(self, b, facts, rule, construct, what, where=None):
        """Obligation: boolean b holds whenever facts do."""
        return self.same(b, True, rule, construct, what, facts, where)

    # -- running -----------------------------------------------------------------
    def call(self, obj, args, kwargs=None, st=None):
        if isinstance(obj, str):
            self.unit(obj)
            obj = self.fn(obj)
        return self.I.run(obj, list(args), kwargs or {}, st)

    def method(self, ref, name, args, st, kwargs=None):
        f = self.I.getattr(ref, name, st, None)
        return self.I.run(f, list(args), kwargs or {}, st)

    def opaque(self, qual, result=None, name=None, keep=None):
        """Calls of qual become events; result(I, st, args) supplies the value."""
        f = self.fn(qual)
        nm = name or qual.rsplit('.', 1)[-1]

        def h(I, st, a, node):
            r = result(I, st, a) if result else None
            fz = {k: I.freeze(v, st) for k, v in a.items()}
            e = I.event(st, 'call', nm, [], {k: v for k, v in a.items()}, node, r)
            e.extra['raw'] = dict(a)
            e.extra['frozen'] = fz
            return r
        self.I.opaque[f.qual] = h
        return f

    def raise_cond(self, r, pred=None, pc0=0):
        """Condition under which the run raises an exception satisfying pred."""
        out = []
        for st, e in r.raises:
            if pred is None or pred(exc_class(e, st)):
                out.append(b_and(*st.pc[pc0:]))
        return b_or(*out) if out else False

    def exc_names(self, r):
        return sorted({exc_name(exc_class(e, st)) for st, e in r.raises})


def entries(got, want, facts):
    """With the sizes of the inputs fixed, an obligation about the i-th entry is
    one about every entry."""
    if not alg.SIZES:
        return [(got, want, facts)]
    n = {}
    for v in (got, want):
        if isinstance(v, (R, B, TupleV, VecV, alg.Arr)):
            for a in all_atoms(v):
                m = alg.fixed_size(a.args[0]) if a.op == 'idx' else None
                i = a.args[1].single() if m is not None and isinstance(a.args[1], R) else None
                if i is not None and i.op == 'sym' and '#' in (i.name or ''):
                    n[i.id] = m
    out = []
    for js in itertools.product(*[range(m) for m in n.values()]):
        z = {a: R.const(j) for a, j in zip(n, js)}
        f = Facts()
        dead = False
        for p, r in (facts or Facts()).lin:
            p = subst(R(p), z)
            if p.is_const():
                x = p.value()
                dead = dead or not (x == 0 if r == '==' else x > 0 if r == '>' else x >= 0)
            else:
                f.lin.append((p.num, r))
        for b, v in (facts or Facts()).bools:
            f._add(subst(b, z), v)
        if not dead:
            out.append((subst(got, z), subst(want, z), f))
    return out


def first_facts(vals, facts):
    """What the index of the first element with a property satisfies."""
    seen = {}
    for v in vals:
        if isinstance(v, (R, B, TupleV, VecV, alg.Arr)):
            for a in all_atoms(v):
                if a.op == 'first' and a.id not in seen:
                    seen[a.id] = a
    for a in seen.values():
        n, body = a.args
        k = fresh_atom('k', integer=True, nonneg=True)
        ex = mk_exists(n, k, subst(body, {a.meta.id: R.atom(k)}))
        facts = (facts or Facts()).add(b_or(b_not(ex), b_and(mk_cmp(n - R.atom(a), '>'), subst(body, {a.meta.id: R.atom(a)}))))
    return facts


def exc_class(e, st):
    if isinstance(e, Ref):
        return st.heap[e.id].cls
    return e


def exc_name(c):
    if isinstance(c, ClassV):
        return c.qual
    if isinstance(c, ExtV):
        return c.path.split('.')[-1]
    return str(c)


def opaque_part(v, plain=()):
    """Does v contain a part the engine could not express?  plain: loop-state
    atoms the rule itself quantifies over."""
    if v is None or isinstance(v, (bool, str)):
        return False
    try:
        return any((a.name or '').startswith('havoc:') or a.meta == 'mu' and a.id not in plain for a in all_atoms(v))
    except Exception:
        return False


VAGUE = ('eq', 'in', 'strin', 'sorted', 'set', 'item', 'extitem', 'attr', 'callv', 'getattr', 'hasattr', 'index', 'nparray',
         'size', 'nonzero', 'prod', 'ravel', 'argmin', 'argmax', 'reshape', 'argsort', 'unique', 'nunique', 'concat', 'sort')
VAGUE_PRE = ('ext:', 'meth:', 'extop:', 'str:', 'logger:')


def vague(got, want):
    """Uninterpreted library operations in got that want does not contain: the
    engine cannot tell such values from the required ones."""
    try:
        ids = {a.id for a in all_atoms(want)}
        return [a for a in all_atoms(got) if a.id not in ids and a.op and (a.op in VAGUE or a.op.startswith(VAGUE_PRE))]
    except Exception:
        return []


PURE = ('eq', 'sorted', 'set', 'nparray', 'size', 'nonzero', 'prod', 'ravel', 'argmin', 'argmax')


def independent(got, want, facts):
    """got, whose uninterpreted operations are functions of their arguments
    alone, does not mention an input that want depends on: they differ."""
    try:
        if opaque_part(got) or any(a.op not in PURE for a in vague(got, want)):
            return None
        ids = {a.id for a in all_atoms(got)}
        pinned = set()
        for p, rel in (facts.lin if facts is not None else ()):
            if rel == '==':
                pinned |= {a.id for x in alg.p_atoms(p) for a in all_atoms(R.atom(alg.ATOMS[x]))}
        for a in all_atoms(want):
            if a.op == 'sym' and a.meta is None and not str(a.name).startswith(('havoc:', 'β')) and '#' not in str(a.name) and a.id not in ids and a.id not in pinned:
                return a
    except (Unsupported, AttributeError, TypeError):
        pass
    return None


CURRENT = []


def home(cls):
    """The qualified name under which a class imported as `cls` is defined."""
    if not CURRENT or '.' not in cls or cls.split('.')[0] in ('builtins', 'numpy'):
        return None
    try:
        c = CURRENT[-1].get(cls)
    except Exception:
        return None
    return c.qual if isinstance(c, ClassV) else None


def exc_is(c, cls):
    """c is (a subclass of) the class named cls (qualified or builtin)."""
    if isinstance(c, ClassV):
        if c.qual == cls or c.qual == home(cls):
            return True
        return any(exc_is(b, cls) for b in c.bases)
    if isinstance(c, ExtV):
        return ext_exc_sub(c.path, cls)
    return False


def pos(name):
    return sym(name, pos=True)


def num(i):
    return R.const(i)


def sumk(n, f):
    """sum_{k<n} f(k)"""
    k = fresh_atom('k', integer=True, nonneg=True)
    return mk_sum(n, k, f(R.atom(k)))


def existsk(n, f):
    k = fresh_atom('k', integer=True, nonneg=True)
    return mk_exists(n, k, f(R.atom(k)))


def apply(op, *args, **kw):
    """Uninterpreted application."""
    at, new = get_app(op, tuple(args))
    if new:
        for k, v in kw.items():
            setattr(at, k, v)
    return R.atom(at)


def fapp(ctx, op, comps=2, fails=None):
    """An uninterpreted vector function of a point (x, y), as a callable; may
    raise the given exception class."""
    I = ctx.I

    def h(I, st, args, kw, node):
        v = I.freeze(args[0], st)
        if isinstance(v, TupleV):
            v = VecV(v.items)
        if not isinstance(v, VecV):
            v = VecV([I.elem(v, num(0)), I.elem(v, num(1))])
        v = VecV([as_r(x) for x in v.items])
        if fails is not None:
            c = b_atom(apply(op + '_fails', v, boolean=True))
            e = fails(I, st)
            I.raise_exc(st, e, c)
            I.assume(st, b_not(c))
        return I.new_ref(st, ArrC(VecV([apply('%s%d' % (op, i), v) for i in range(comps)])))
    return OpaqueF(op, h)

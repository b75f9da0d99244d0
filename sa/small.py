"""Comparing two values on short sequences.

A value the engine cannot compare with the required one for sequences of any
length may still be compared with it for sequences of length two or three: a
difference there is a difference.  (Agreement there proves nothing and is not
used.)"""
from fractions import Fraction
from alg import *
import alg
import loops     # noqa
from values import *


def explode(l):
    """[(condition, value)] of a list of known extent."""
    out = []
    for p in l.parts:
        if p[0] == 'item':
            out.append((p[1], p[2]))
        elif p[0] == 'comp' and isinstance(p[1], R) and p[1].is_const() and p[1].value() <= 4:
            for j in range(int(p[1].value())):
                s = {p[2].id: R.const(j)}
                body = subst(p[4], s)
                inner = explode(body) if isinstance(body, ListV) else [(True, x) for x in body.items]
                c0 = subst(p[3], s) if isinstance(p[3], B) else p[3]
                for c, v in inner:
                    c = b_and(c0, c)
                    if c is not False:
                        out.append((c, v))
        else:
            return None
    return out


def pick(items, j):
    """The j-th entry present, for a list that long."""
    r = picked(items, j)
    return R.const(0) if r is None else r


def picked(items, j):
    if len(items) <= j:
        return None
    (c, v), rest = items[0], items[1:]
    a = v if j == 0 else picked(rest, j - 1)
    b = None if c is True else picked(rest, j)
    return a if b is None else b if a is None else ite(c, a, b)


def rb_item(a, args):
    l, i = args
    if alg.EXPAND[0] and isinstance(l, ListV) and isinstance(i, R):
        items = explode(l)
        if items is not None and len(items) <= 6 and all(isinstance(v, R) for _, v in items):
            if i.is_const() and i.value() >= 0 and i.value().denominator == 1:
                return pick(items, int(i.value()))
            r = R.const(0)
            for q in reversed(range(len(items))):
                r = ite(mk_cmp(i - R.const(q), '=='), pick(items, q), r)
            return r
    return R.atom(get_app('item', (l, i))[0])


alg.REBUILD['item'] = rb_item


NEED = []       # conditions taken to hold: no entry is masked out


def cells(v):
    """The entries of a short one-dimensional array."""
    if isinstance(v, MaskedV):
        xs, ms = cells(v.arr), cells(v.mask)
        if xs is None or ms is None or len(xs) != len(ms):
            return None
        NEED.extend(m for m in ms if m is not True)
        return xs
    if isinstance(v, VecV) and len(v.items) <= 4:
        return list(v.items)
    if isinstance(v, Arr) and len(v.ks) == 1 and isinstance(v.shape[0], R) and v.shape[0].is_const() and 0 < v.shape[0].value() <= 4:
        r = [subst(v.body, {v.ks[0].id: R.const(j)}) for j in range(int(v.shape[0].value()))]
        return r
    return None


def ranked(xs):
    """The values in ascending order (at most three)."""
    if len(xs) == 1:
        return xs
    if len(xs) == 2:
        return [mk_min(*xs), mk_max(*xs)]
    lo, hi = mk_min(*xs), mk_max(*xs)
    return [lo, xs[0] + xs[1] + xs[2] - lo - hi, hi]


def rb_ranked(op, fn):
    def f(a, args):
        xs = cells(args[0]) if alg.EXPAND[0] and len(args) == 1 else None
        if xs is not None and len(xs) <= 3 and all(isinstance(x, R) for x in xs):
            return fn(xs)
        at, new = get_app(op, tuple(args))
        if new:
            at.pos, at.nonneg, at.integer = a.pos, a.nonneg, a.integer
            at.boolean, at.ndim, at.shape, at.meta = a.boolean, a.ndim, a.shape, a.meta
        return R.atom(at)
    alg.REBUILD[op] = f


def rb_selmedian(a, args):
    n, body = args
    if alg.EXPAND[0] and isinstance(n, R) and n.is_const() and 0 < n.value() <= 3:
        xs = []
        for j in range(int(n.value())):
            x = subst(body, {a.meta.id: R.const(j)})
            at = x.single() if isinstance(x, R) else None
            if at is not None and at.op == 'ite' and isinstance(at.args[2], R) and at.args[2].single() is not None and at.args[2].single().op == 'nan':
                NEED.append(at.args[0])
                x = at.args[1]
            elif at is not None and at.op == 'ite' and isinstance(at.args[1], R) and at.args[1].single() is not None and at.args[1].single().op == 'nan':
                NEED.append(b_not(at.args[0]))
                x = at.args[2]
            xs.append(x)
        xs = ranked(xs)
        if a.op == 'selmedian':
            return (xs[(len(xs) - 1) // 2] + xs[len(xs) // 2]) * R.const(Fraction(1, 2))
        return xs[0 if a.op == 'selmin' else -1]
    return OLD_SEL[a.op](a, args)


OLD_SEL = {op: alg.REBUILD[op] for op in ('selmin', 'selmax', 'selmedian')}
for _op in OLD_SEL:
    alg.REBUILD[_op] = rb_selmedian


def distinct(xs):
    n = R.const(1)
    for j in range(1, len(xs)):
        n = n + ite(b_and(*[mk_cmp(xs[j] - xs[i], '!=') for i in range(j)]), R.const(1), R.const(0))
    return n


rb_ranked('sort', lambda xs: VecV(ranked(xs)))
rb_ranked('nunique', distinct)
rb_ranked('median', lambda xs: (ranked(xs)[(len(xs) - 1) // 2] + ranked(xs)[len(xs) // 2]) * R.const(Fraction(1, 2)))


def concrete(vals, n):
    """vals for sequences of length n."""
    m = {}
    for v in vals:
        for a in all_atoms(v) if not isinstance(v, bool) else ():
            if a.op == 'len' and isinstance(a.args[0], R) and a.args[0].single() is not None and not a.args[0].single().args:
                m[a.id] = R.const(n)
            if a.op == 'idx' and isinstance(a.args[0], R) and a.args[0].single() is not None:
                s = a.args[0].single()
                # the given sequence in the opposite of the order asked for
                if s.op == 'sorted' and len(s.args) == 2 and isinstance(s.args[1], bool) and isinstance(s.args[0], R):
                    m[a.id] = idx(s.args[0], R.const(n - 1) - a.args[1], *a.args[2:])
    if not m:
        return None
    old, alg.EXPAND[0] = alg.EXPAND[0], True
    try:
        out = [subst(subst(v, m), m) if not isinstance(v, bool) else v for v in vals]
    finally:
        alg.EXPAND[0] = old
    return out


def literals(facts):
    for p, rel in facts.lin:
        yield mk_cmp(R(dict(p)), rel)
    for b, v in facts.bools:
        yield b if v else b_not(b)


def big(v):
    """v still ranges over sequences of other lengths."""
    if isinstance(v, bool):
        return False
    if any(a.op in ('sum', 'first', 'bigmax', 'bigmin', 'len') for a in all_atoms(v)):
        return True

    def ex(b):
        return isinstance(b, B) and (b.kind == 'exists' or b.kind in ('and', 'or', 'not') and any(ex(x) for x in b.args))
    return ex(v) or any(ex(x) for a in all_atoms(v) for x in a.args)


def differ(got, want, facts, vague, sizes=(2, 3)):
    """A size at which got differs from want, with the mismatch."""
    at = got.single() if isinstance(got, R) else None
    if at is not None and at.op == 'nunique' and isinstance(want, R):
        from lib import size_of
        try:
            full = size_of(at.args[0])
        except (Unsupported, AttributeError, TypeError):
            full = None
        if full is not None and r_eq(full, want) and any(x.op == 'sym' and x.ndim for x in all_atoms(at.args[0])):
            return 2, 'two equal entries count once'
    for n in sizes:
        try:
            del NEED[:]
            r = concrete([got, want], n)
            if r is None:
                return None
            g, w = r
            f = Facts()
            ok = True
            for b in literals(facts) if facts is not None else ():
                x = concrete([b], n)
                x = b if x is None else x[0]
                if x is False:
                    ok = False
                    break
                if x is not True:
                    f = f.add(x)
            for x in list(NEED):
                if x is False:
                    ok = False
                elif x is not True:
                    f = f.add(x)
            if not ok or vague(g, w) or big(g) or big(w) or not consistent(f):
                continue
            equiv(g, w, f)
        except Mismatch as m:
            return n, m
        except (Unsupported, RecursionError):
            continue
    return None

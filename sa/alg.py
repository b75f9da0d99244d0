"""
The value domain of the analysis: canonical algebraic values.

Numbers are rational functions (quotients of multivariate polynomials with
rational coefficients) over *atoms*.  An atom is a program input, or an
uninterpreted / partially interpreted application (sqrt, log, sum over a
collection, an opaque call...).  Atoms are hash-consed up to equality of their
arguments (congruence), so equal expressions get the same atom however they
were written.  Boolean values are literals `poly > 0`, `poly >= 0`,
`poly == 0`, opaque boolean atoms and connectives over them.

Nothing in here runs the analysed program: it is the transfer-function algebra
of a dataflow analysis (global value numbering with algebraic normal forms).
"""
from fractions import Fraction
import math
import lp

F0 = Fraction(0)
F1 = Fraction(1)


class Unsupported(Exception):
    """A construct the analysis has no transfer function for."""


# --------------------------------------------------------------------------
# Atoms
# --------------------------------------------------------------------------
class Atom:
    __slots__ = ('id', 'op', 'args', 'name', 'pos', 'nonneg', 'integer',
                 'ndim', 'shape', 'boolean', 'uid', 'cls', 'meta', 'finite')

    def __init__(self, op, args, name=None):
        self.id = len(ATOMS)
        ATOMS.append(self)
        self.op = op
        self.args = args
        self.name = name
        self.pos = False
        self.nonneg = False
        self.integer = False
        self.ndim = None
        self.shape = None
        self.boolean = False
        self.cls = None
        self.meta = None
        self.finite = False

    def __repr__(self):
        return show_atom(self)


ATOMS = []
_BY_OP = {}
ROWS = {}               # loop-carried sequence -> columns of its rows
_SYMS = {}
_fresh = [0]


def reset():
    ATOMS.clear()
    _BY_OP.clear()
    ROWS.clear()
    _FREE.clear()
    _SYMS.clear()
    _fresh[0] = 0
    SQ.clear()
    _FACTOR_CACHE.clear()
    _LINK.clear()
    _ATOMCACHE.clear()
    _DEP.clear()
    _init()


def sym(name, pos=False, nonneg=False, integer=False, ndim=None, shape=None,
        boolean=False, meta=None):
    """The R value of the named symbol (created on first use)."""
    a = _SYMS.get(name)
    if a is None:
        a = Atom('sym', (), name)
        a.pos, a.nonneg, a.integer = pos, nonneg or pos, integer
        a.ndim, a.shape, a.boolean, a.meta = ndim, shape, boolean, meta
        _SYMS[name] = a
    return R.atom(a)


def fresh(prefix, **kw):
    _fresh[0] += 1
    return sym('%s#%d' % (prefix, _fresh[0]), **kw)


def fresh_atom(prefix, **kw):
    return the_atom(fresh(prefix, **kw))


def by_op(op, n):
    return _BY_OP.setdefault((op, n), ({}, [], []))


def add_app(op, n, a):
    _, wild, every = by_op(op, n)
    wild.append(a)
    every.append(a)


def get_app(op, args):
    """Hash-consed application up to argument equality."""
    args = tuple(args)
    keyed, wild, every = by_op(op, len(args))
    key = []
    for x in args:
        k = vkey(x)
        if k is None:
            key = None
            break
        key.append(k)
    if key is not None:
        key = tuple(key)
    for cand in (every,) if key is None else (keyed.get(key, ()), wild):
        for a in cand:
            if all(veq(p, q) for p, q in zip(a.args, args)):
                return a, False
    a = Atom(op, args)
    every.append(a)
    if key is None:
        wild.append(a)
    else:
        keyed.setdefault(key, []).append(a)
    return a, True


PRIME = (1 << 61) - 1


def residue(i):
    return ((i + 1) * 0x9E3779B97F4A7C15 ^ (i * i + 7) * 0xC2B2AE3D27D4EB4F) % PRIME


def p_mod(p):
    """Value of a polynomial at a fixed point of a prime field; None when an
    atom is subject to reduction."""
    t = 0
    for m, c in p.items():
        v = c.numerator % PRIME if c.denominator == 1 else c.numerator * pow(c.denominator, -1, PRIME) % PRIME
        for a, e in m:
            if a in SQ:
                return None
            v = v * (residue(a) if e == 1 else pow(residue(a), e, PRIME)) % PRIME
        t += v
    return t % PRIME


def vkey(v):
    """A hash key equal values share; None when none is known."""
    if isinstance(v, R):
        if v.key is False:
            v.key = r_key(v)
        return v.key
    if isinstance(v, B):
        if v.key is False:
            v.key = b_key(v)
        return v.key
    if isinstance(v, bool):
        return ('R', int(v))
    if isinstance(v, str):
        return v
    if isinstance(v, (TupleV, VecV)):
        ks = tuple(vkey(x) for x in v.items)
        return None if None in ks else (type(v).__name__, ks)
    if isinstance(v, Arr):
        return ('Arr', len(v.ks))
    if isinstance(v, ListV):
        return ('ListV', len(v.parts))
    if isinstance(v, Ref):
        return ('ref', v.id)
    return ('other', type(v).__name__)


def r_key(v):
    n = p_mod(v.num)
    trivial = len(v.den) == 1 and () in v.den
    if trivial:
        if n is None:
            return ('S', frozenset(v.num.items()))
        d = p_mod(v.den)
    else:
        d = p_mod(v.den)
        if n is None or not d:
            return None
    return ('R', n * pow(d, -1, PRIME) % PRIME)


def b_key(b):
    if b.kind == 'cmp':
        return ('c',) + tuple(b.args)
    if b.kind in ('and', 'or'):
        ks = [vkey(x) for x in b.args]
        return None if None in ks else (b.kind, len(ks), frozenset(ks))
    if b.kind == 'exists':
        ks = (vkey(b.args[0]), vkey(b.args[2]))
        return None if None in ks else ('e', b.args[1].id, ks)
    k = vkey(b.args[0])
    return None if k is None else (b.kind, k)


# --------------------------------------------------------------------------
# Polynomials: dict monomial -> Fraction, monomial = ((atom_id, exp), ...)
# --------------------------------------------------------------------------
SQ = {}     # atom id -> ('sqrt'|'abs'|'ind', R): reduction of even powers


def p_const(c):
    c = Fraction(c)
    return {(): c} if c else {}


def p_add(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, F0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def m_mul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


class TooBig(Unsupported):
    pass


LIMIT = 60000


def p_mul(a, b):
    if len(a) * len(b) > LIMIT * 20:
        raise TooBig('polynomial blow-up')
    r = {}
    reduce = False
    for m, c in a.items():
        for n, d in b.items():
            k = m_mul(m, n)
            v = r.get(k, F0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    if len(r) > LIMIT:
        raise TooBig('polynomial blow-up')
    if SQ:
        for m in r:
            for at, e in m:
                if e >= 2 and at in SQ:
                    reduce = True
                    break
            if reduce:
                break
    return p_reduce(r) if reduce else r


def p_reduce(p):
    """Rewrite sqrt(z)^2 -> z, |z|^2 -> z^2, indicator^2 -> indicator."""
    out = {}
    for m, c in p.items():
        hit = None
        for at, e in m:
            if e >= 2 and at in SQ:
                hit = (at, e)
                break
        if hit is None:
            out = p_add(out, {m: c})
            continue
        at, e = hit
        rest = tuple(x for x in m if x[0] != at)
        kind, arg = SQ[at]
        if kind == 'ind':
            t = {m_mul(rest, ((at, 1),)): c}
        else:
            t = {rest: c}
            if e % 2:
                t = {m_mul(rest, ((at, 1),)): c}
            base = arg if kind == 'sqrt' else p_mul(arg, arg)
            for _ in range(e // 2):
                t = p_mul(t, base)
        out = p_add(out, p_reduce(t))
    return out


def p_pow(a, n):
    r = p_const(1)
    for _ in range(n):
        r = p_mul(r, a)
    return r


def p_key(p):
    return frozenset(p.items())


def p_lead(p):
    """Deterministic leading monomial."""
    return max(p, key=m_key)


def m_key(m):
    """Graded lexicographic order."""
    t = []
    for a, e in m:
        t.extend([-a] * e)
    return (len(t), t)


def p_content(p):
    """(c, q): p = c*q, q primitive integer poly with positive lead."""
    if not p:
        return F1, {}
    den = 1
    for c in p.values():
        den = den * c.denominator // math.gcd(den, c.denominator)
    g = 0
    for c in p.values():
        g = math.gcd(g, abs(c.numerator * (den // c.denominator)))
    c = Fraction(g, den)
    if p[p_lead(p)] < 0:
        c = -c
    return c, {m: v / c for m, v in p.items()}


def p_monogcd(p):
    """Largest monomial dividing every term."""
    it = iter(p)
    d = dict(next(it))
    for m in it:
        md = dict(m)
        for a in list(d):
            e = min(d[a], md.get(a, 0))
            if e:
                d[a] = e
            else:
                del d[a]
        if not d:
            break
    return tuple(sorted(d.items()))


def m_div(m, n):
    d = dict(m)
    for a, e in n:
        d[a] -= e
        if not d[a]:
            del d[a]
    return tuple(sorted(d.items()))


def p_divmono(p, n):
    return {m_div(m, n): c for m, c in p.items()} if n else p


def p_atoms(p):
    s = set()
    for m in p:
        for a, _ in m:
            s.add(a)
    return s


def p_divexact(a, b):
    """a/b if exact (multivariate long division by lead term), else None."""
    if not b:
        return None
    if len(a) > 400 or len(b) > 200:
        return None
    lb = p_lead(b)
    cb = b[lb]
    q = {}
    r = dict(a)
    n = 0
    while r:
        n += 1
        if n > 800:
            return None
        lr = p_lead(r)
        d = dict(lr)
        ok = True
        for at, e in lb:
            if d.get(at, 0) < e:
                ok = False
                break
        if not ok:
            return None
        m = m_div(lr, lb)
        c = r[lr] / cb
        q = p_add(q, {m: c})
        r = p_add(r, p_mul({m: c}, b), -1)
        if lr in r:
            return None
    return q


# --------------------------------------------------------------------------
# Rational functions
# --------------------------------------------------------------------------
class R:
    __slots__ = ('num', 'den', 'key')

    def __init__(self, num, den=None):
        self.key = False
        if den is None:
            den = {(): F1}
        if not den:
            raise ZeroDivisionError
        if not num:
            den = {(): F1}
        elif len(den) == 1:
            (m, c), = den.items()
            if c != 1:
                num = {k: v / c for k, v in num.items()}
                den = {m: F1}
            if m:
                g = p_monogcd(num)
                gd = dict(g)
                common = tuple(sorted((a, min(e, gd[a])) for a, e in m if a in gd))
                if common:
                    num = p_divmono(num, common)
                    den = {m_div(m, common): F1}
        else:
            c, d = p_content(den)
            den = d
            if c != 1:
                num = {k: v / c for k, v in num.items()}
            g1 = p_monogcd(num)
            if g1:
                gd = dict(p_monogcd(den))
                common = tuple(sorted((a, min(e, gd[a])) for a, e in g1 if a in gd))
                if common:
                    num = p_divmono(num, common)
                    den = p_divmono(den, common)
            if len(num) > 0:
                q = p_divexact(num, den)
                if q is not None:
                    num, den = q, {(): F1}
                else:
                    q = p_divexact(den, num) if len(num) > 1 else None
                    if q is not None:
                        num, den = {(): F1}, q
                        if len(den) == 1:
                            (m, c), = den.items()
                            num, den = {(): 1 / c}, {m: F1}
        self.num = num
        self.den = den

    @staticmethod
    def atom(a):
        return R({((a.id, 1),): F1})

    @staticmethod
    def const(c):
        return R(p_const(c))

    def is_const(self):
        return (not self.num or (len(self.num) == 1 and () in self.num)) and self.den == {(): F1}

    def value(self):
        return self.num.get((), F0)

    def __add__(self, o):
        o = as_r(o)
        if p_key(self.den) == p_key(o.den):
            return R(p_add(self.num, o.num), self.den)
        if len(o.den) == 1 and () in o.den:
            return R(p_add(self.num, p_mul(o.num, self.den)), self.den)
        if len(self.den) == 1 and () in self.den:
            return R(p_add(p_mul(self.num, o.den), o.num), o.den)
        q = p_divexact(self.den, o.den)
        if q is not None:
            return R(p_add(self.num, p_mul(o.num, q)), self.den)
        q = p_divexact(o.den, self.den)
        if q is not None:
            return R(p_add(p_mul(self.num, q), o.num), o.den)
        return R(p_add(p_mul(self.num, o.den), p_mul(o.num, self.den)),
                 p_mul(self.den, o.den))

    def __neg__(self):
        return R({m: -c for m, c in self.num.items()}, self.den)

    def __sub__(self, o):
        return self + (-as_r(o))

    def __mul__(self, o):
        o = as_r(o)
        if not self.num or not o.num:
            return R({})
        n1, d2 = self.num, o.den
        n2, d1 = o.num, self.den
        if len(d2) > 1:
            q = p_divexact(n1, d2)
            if q is not None:
                n1, d2 = q, {(): F1}
        if len(d1) > 1:
            q = p_divexact(n2, d1)
            if q is not None:
                n2, d1 = q, {(): F1}
        return R(p_mul(n1, n2), p_mul(d1, d2))

    def __truediv__(self, o):
        o = as_r(o)
        if not o.num:
            raise ZeroDivisionError
        return self * R(o.den, o.num)

    def __pow__(self, n):
        if n < 0:
            return R.const(1) / (self ** (-n))
        return R(p_pow(self.num, n), p_pow(self.den, n))

    def atoms(self):
        return p_atoms(self.num) | p_atoms(self.den)

    def single(self):
        """The atom, if this value is exactly one atom."""
        if len(self.num) == 1 and len(self.den) == 1 and () in self.den:
            (m, c), = self.num.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return ATOMS[m[0][0]]
        return None

    def __repr__(self):
        return show(self)


def the_atom(r):
    return r.single()


def as_r(v):
    if isinstance(v, R):
        return v
    if isinstance(v, bool):
        return R.const(1 if v else 0)
    if isinstance(v, (int, Fraction)):
        return R.const(v)
    if isinstance(v, float):
        return num_const(v)
    if isinstance(v, B):
        return ite(v, R.const(1), R.const(0))
    raise Unsupported('not a number: %r' % (type(v).__name__,))


def r_eq(a, b):
    if a is b:
        return True
    if a.den == b.den:
        return a.num == b.num
    return p_mul(a.num, b.den) == p_mul(b.num, a.den)


def r_iszero(a):
    return not a.num


# --------------------------------------------------------------------------
# Numeric literals
# --------------------------------------------------------------------------
def num_const(v):
    """Exact value of a literal.  Floating literals that are the double
    nearest to r*pi or r/pi for a simple rational r, or to a simple rational
    itself, denote that number."""
    if isinstance(v, bool):
        return R.const(int(v))
    if isinstance(v, int):
        return R.const(v)
    if isinstance(v, Fraction):
        return R.const(v)
    if v != v:
        return R.atom(get_app('nan', ())[0])
    if v in (float('inf'), float('-inf')):
        a = INF()
        return a if v > 0 else -a
    f = Fraction(repr(v))
    if v == 0:
        return R.const(0)
    digits = len(repr(v).replace('.', '').replace('-', '').split('e')[0].strip('0'))
    if digits >= 13:
        s = Fraction(v).limit_denominator(5000)
        if s and abs(float(s) - v) <= 4e-16 * abs(v) * 4:
            return R.const(s)
        for k in (1, -1, 2, -2):
            c = v / math.pi ** k
            s = Fraction(c).limit_denominator(512)
            if s and abs(float(s) - c) <= 1e-12 * abs(c):
                return R.const(s) * PI() ** k
    return R.const(f)


def PI():
    r = sym('pi', pos=True)
    return r


NONFINITE = [False]     # comparisons with infinity are tests for values that are not finite


def INF():
    r = sym('inf', pos=True)
    return r


# --------------------------------------------------------------------------
# Booleans
# --------------------------------------------------------------------------
class B:
    """Non-constant boolean.  kinds: cmp (poly, rel), atom (R), not, and, or,
    exists (n, binder atom, body)."""
    __slots__ = ('kind', 'args', 'key')

    def __init__(self, kind, args):
        self.key = False
        self.kind = kind
        self.args = args

    def __repr__(self):
        return show(self)


def b_atom(r):
    return B('atom', (r,))


def b_not(b):
    if b is True:
        return False
    if b is False:
        return True
    if b.kind == 'not':
        return b.args[0]
    return B('not', (b,))


def _flat(kind, bs):
    out = []
    for b in bs:
        if isinstance(b, B) and b.kind == kind:
            out.extend(b.args)
        else:
            out.append(b)
    return out


def b_and(*bs):
    out = []
    for b in _flat('and', bs):
        if b is True:
            continue
        if b is False:
            return False
        if any(beq(b, c) for c in out):
            continue
        nb = b_not(b)
        if any(beq(nb, c) for c in out):
            return False
        out.append(b)
    out = _absorb(out, 'or')
    if out is None:
        return False
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return B('and', tuple(out))


def _absorb(out, inner):
    """A or (not A and B) -> A or B;  A and (not A or B) -> A and B.  None: the
    whole collapses to the absorbing value."""
    if len(out) < 2 or not any(isinstance(b, B) and b.kind == inner for b in out):
        return out
    for i, b in enumerate(out):
        if not (isinstance(b, B) and b.kind == inner):
            continue
        others = [c for j, c in enumerate(out) if j != i]
        if any(beq(x, c) for x in b.args for c in others):          # absorbed entirely
            return _absorb(others, inner)
        rest = [x for x in b.args if not any(beq(b_not(x), c) for c in others)]
        if len(rest) < len(b.args):
            if not rest:
                return None
            nb = rest[0] if len(rest) == 1 else B(inner, tuple(rest))
            if any(beq(nb, c) for c in others):
                return _absorb(others, inner)
            if any(beq(b_not(nb), c) for c in others):
                return None
            outer = 'and' if inner == 'or' else 'or'
            mid = list(nb.args) if isinstance(nb, B) and nb.kind == outer else [nb]
            return _absorb(out[:i] + mid + out[i + 1:], inner)
    return out


def b_or(*bs):
    out = []
    for b in _flat('or', bs):
        if b is False:
            continue
        if b is True:
            return True
        if any(beq(b, c) for c in out):
            continue
        nb = b_not(b)
        if any(beq(nb, c) for c in out):
            return True
        out.append(b)
    out = _absorb(out, 'and')
    if out is None:
        return True
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return B('or', tuple(out))


def r_posden(d):
    """True if polynomial d is certainly positive."""
    return p_positive(d)


def p_positive(p, strict=True):
    """Cheap syntactic positivity: every coefficient positive and every
    monomial nonneg; strict if one monomial is positive."""
    got = False
    if not p:
        return not strict
    for m, c in p.items():
        if c < 0:
            return False
        mono_pos = True
        for a, e in m:
            at = ATOMS[a]
            if at.pos:
                continue
            mono_pos = False
            if at.nonneg or e % 2 == 0:
                continue
            return False
        if mono_pos:
            got = True
    return got or not strict


def p_unroot(p):
    """An R of the same sign as p without its square root, where p is
    r - c sqrt(Q) with r >= 0, c > 0, or the negative of that."""
    if len(p) > 12:
        return None
    roots = [a for a in p_atoms(p) if ATOMS[a].op == 'sqrt']
    if len(roots) != 1:
        return None
    s = roots[0]
    r, c = {}, {}
    for m, v in p.items():
        e = dict(m).get(s, 0)
        if e == 0:
            r[m] = v
        elif e == 1:
            c[tuple(x for x in m if x[0] != s)] = v
        else:
            return None
    neg = lambda d: {m: -v for m, v in d.items()}
    for sg in (1, -1):
        rr, cc = (r, neg(c)) if sg > 0 else (neg(r), c)
        if p_positive(rr, strict=False) and p_positive(cc):
            q = as_R(rr) * as_R(rr) - as_R(cc) * as_R(cc) * ATOMS[s].args[0]
            return q if sg > 0 else -q
    return None


def as_R(p):
    return R(dict(p))


def mk_cmp(diff, rel):
    """Boolean for  diff rel 0, rel in > >= == != < <=."""
    if rel == '<':
        return mk_cmp(-diff, '>')
    if rel == '<=':
        return mk_cmp(-diff, '>=')
    if rel == '!=':
        return b_not(mk_cmp(diff, '=='))
    p = diff.num
    if rel == '==' and NONFINITE[0] and 'inf' in _SYMS and _SYMS['inf'].id in p_atoms(p) and len(p) > 1:
        return mk_cmp(diff if p.get(((_SYMS['inf'].id, 1),), 0) < 0 else -diff, '>=')
    if rel != '==':
        if not r_posden(diff.den):
            p = p_mul(p, diff.den)
    if not p:
        return rel in ('>=', '==')
    # strip positive monomial factors
    g = p_monogcd(p)
    if g:
        strip = tuple((a, e) for a, e in g if ATOMS[a].pos)
        strip += tuple((a, e - e % 2) for a, e in g
                       if not ATOMS[a].pos and e >= 2 and rel == '>' and False)
        if strip:
            p = p_divmono(p, tuple(sorted(strip)))
    r = p_unroot(p)
    if r is not None:
        return mk_cmp(r, rel)
    c, q = p_content(p)
    if not q or (len(q) == 1 and () in q):
        v = c * (q.get((), F0))
        return {'>': v > 0, '>=': v >= 0, '==': v == 0}[rel]
    sgn = 1 if c > 0 else -1
    if rel == '==':
        if p_positive(q):
            return False
        r = some_counted(q)
        if r is not None:
            return b_not(r)
        return B('cmp', (p_key(q), '=='))
    # infinities
    inf = _SYMS.get('inf')
    if inf is not None and inf.id in p_atoms(q):
        ci = q.get(((inf.id, 1),))
        if ci is not None:
            s = (1 if ci > 0 else -1) * sgn
            rest = {m: v for m, v in q.items() if m != ((inf.id, 1),)}
            if inf.id not in p_atoms(rest):
                if NONFINITE[0] and rest and ((),) != tuple(rest):
                    x = R(rest)
                    bad, end = [b_atom(R.atom(get_app(n, (x,))[0])) for n in ('isnan', 'isinf')]
                    if s > 0:
                        return b_not(b_or(bad, end)) if rel == '>' else b_not(bad)
                    return False if rel == '>' else end
                return s > 0
    # sign from syntactic positivity
    if sgn > 0:
        if rel == '>' and p_positive(q):
            return True
        if rel == '>=' and p_positive(q, strict=False):
            return True
    else:
        if rel == '>' and p_positive(q, strict=False):
            return False
        if rel == '>=' and p_positive(q):
            return False
    # integers: P > 0  <=>  P - 1 >= 0 when P is integer valued with coefficient gcd 1
    if all(ATOMS[a].integer for a in p_atoms(q)):
        if rel == '>':
            return mk_ge_int(q, sgn)
        q2 = q if sgn > 0 else {m: -v for m, v in q.items()}
        # q2 >= 0
        return _int_lit(q2)
    if sgn > 0:
        return B('cmp', (p_key(q), rel))
    # -q > 0  <=> not (q >= 0) ; -q >= 0 <=> not (q > 0)
    return b_not(B('cmp', (p_key(q), '>=' if rel == '>' else '>')))


def mk_ge_int(q, sgn):
    q2 = q if sgn > 0 else {m: -v for m, v in q.items()}
    return _int_lit(p_add(q2, p_const(-1)))


def _int_lit(p):
    """Literal  p >= 0, p integer valued; canonical with positive lead."""
    # divide out gcd of non-constant coefficients
    nc = {m: c for m, c in p.items() if m}
    if not nc:
        return p.get((), F0) >= 0
    g = 0
    for c in nc.values():
        g = math.gcd(g, int(c))
    k = p.get((), F0)
    nc = {m: c / g for m, c in nc.items()}
    k = Fraction(math.floor(k / g))
    p = p_add(nc, p_const(k))
    if p_positive(p, strict=False):
        return True
    # extreme value with positive integers at one, the others at zero
    if all(ATOMS[a].pos or ATOMS[a].nonneg or e % 2 == 0 for m in nc for a, e in m):
        ext = k + sum((c for m, c in nc.items() if all(ATOMS[a].pos for a, _ in m)), F0)
        if ext >= 0 and all(c > 0 for c in nc.values()):
            return True
        if ext < 0 and all(c < 0 for c in nc.values()):
            return False
    if nc[p_lead(nc)] > 0:
        if k == -1:
            r = some_counted(nc)
            if r is not None:
                return r
        return B('cmp', (p_key(p), '>='))
    # -q + k >= 0  <=>  not (q - k - 1 >= 0)
    q = {m: -v for m, v in p.items()}
    q = p_add(q, p_const(-1))
    if p_positive(q, strict=False):
        return False
    if k == 0:
        r = some_counted({m: -v for m, v in nc.items()})
        if r is not None:
            return b_not(r)
    return b_not(B('cmp', (p_key(q), '>=')))


def some_counted(p):
    """For a number of elements (the sum of an indicator): that there is one."""
    if len(p) != 1:
        return None
    m, = p
    if len(m) != 1 or m[0][1] != 1:
        return None
    a = ATOMS[m[0][0]]
    if a.op != 'sum' or not isinstance(a.args[1], R):
        return None
    e = a.args[1].single()
    if e is None or e.op != 'ite' or not all(isinstance(x, R) and x.is_const() for x in e.args[1:]):
        return None
    v = [x.value() for x in e.args[1:]]
    if v not in ([1, 0], [0, 1]):
        return None
    k = fresh_atom('k', integer=True, nonneg=True)
    c = e.args[0] if v[0] else b_not(e.args[0])
    return mk_exists(a.args[0], k, subst(c, {a.meta.id: R.atom(k)}))


def beq(a, b):
    if a is b:
        return True
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if a.kind != b.kind or len(a.args) != len(b.args):
        return False
    if a.kind == 'cmp':
        return a.args == b.args
    if a.kind in ('atom',):
        return veq(a.args[0], b.args[0])
    if a.kind == 'not':
        return beq(a.args[0], b.args[0])
    if a.kind in ('and', 'or'):
        used = set()
        for x in a.args:
            for i, y in enumerate(b.args):
                if i not in used and beq(x, y):
                    used.add(i)
                    break
            else:
                return False
        return True
    if a.kind == 'exists':
        return r_eq(a.args[0], b.args[0]) and a.args[1] is b.args[1] and beq(a.args[2], b.args[2])
    return False


# --------------------------------------------------------------------------
# Structured values
# --------------------------------------------------------------------------
class TupleV:
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return '(%s)' % ', '.join(show(i) for i in self.items)


class VecV:
    """Known-length numeric vector (items may be vectors)."""
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return '[%s]' % ', '.join(show(i) for i in self.items)


class MaskedV:
    """a[mask] of an elementwise array: values where mask holds."""

    def __init__(self, arr, mask):
        self.arr, self.mask = arr, mask

    def __repr__(self):
        return '%r where %r' % (self.arr, self.mask)


class Arr:
    """Array/sequence given elementwise: shape (R or None per axis), binder
    atoms, body value."""
    __slots__ = ('shape', 'ks', 'body', 'tag')

    def __init__(self, shape, ks, body, tag=None):
        self.shape = tuple(shape)
        self.ks = tuple(ks)
        self.body = body
        self.tag = tag

    def __repr__(self):
        return '{%s : %s < %s}' % (show(self.body), ','.join(k.name or '?' for k in self.ks),
                                   ','.join(show(s) for s in self.shape))


class StrV:
    """Text: tuple of parts, each a str or ('fmt', value, spec)."""
    __slots__ = ('parts',)

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif p != '':
                out.append(p)
        self.parts = tuple(out)

    def __repr__(self):
        return 'text%r' % (self.parts,)


class ListV:
    """Sequence built by appends.  parts: ('item', cond, value),
    ('comp', n, k, cond, ListV) repeated for k < n, ('sym', R)."""
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = tuple(parts)

    def __repr__(self):
        return 'list<%s>' % '; '.join(show_part(p) for p in self.parts)


def show_part(p):
    if p[0] == 'item':
        return show(p[2]) if p[1] is True else '%s if %s' % (show(p[2]), show(p[1]))
    if p[0] == 'comp':
        return '{%r if %s for %s<%s}' % (p[4], show(p[3]), p[2].name, show(p[1]))
    return '*%s' % show(p[1])


def part_eq(p, q):
    if p[0] != q[0]:
        return False
    if p[0] == 'comp':
        m = {q[2].id: R.atom(p[2])}
        return veq(p[1], q[1]) and veq(p[3], subst(q[3], m)) and veq(p[4], subst(q[4], m))
    return all(veq(x, y) for x, y in zip(p[1:], q[1:]))


class Gamma:
    """Merge of two non-numeric values."""
    __slots__ = ('cond', 'a', 'b')

    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b

    def __repr__(self):
        return 'if(%s){%s}else{%s}' % (show(self.cond), show(self.a), show(self.b))


class Ref:
    __slots__ = ('id',)

    def __init__(self, i):
        self.id = i

    def __repr__(self):
        return 'ref%s' % (self.id,)

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(('ref', self.id))


class SliceV:
    __slots__ = ('lo', 'hi', 'step')

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def __repr__(self):
        return 'slice(%s:%s:%s)' % (show(self.lo), show(self.hi), show(self.step))


class Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = Undef()


class EllipsisV:
    def __repr__(self):
        return '...'


ELLIPSIS = EllipsisV()


def veq(a, b):
    """Structural equality of values (numeric: algebraic equality)."""
    if a is b:
        return True
    if isinstance(a, bool) or isinstance(b, bool):
        if isinstance(a, B) or isinstance(b, B):
            return False
        if isinstance(a, R):
            return a.is_const() and a.value() == int(b)
        if isinstance(b, R):
            return b.is_const() and b.value() == int(a)
        return a is b or (isinstance(a, bool) and isinstance(b, bool) and a == b)
    if isinstance(a, R) and isinstance(b, R):
        return r_eq(a, b)
    if isinstance(a, B) and isinstance(b, B):
        return beq(a, b)
    if type(a) is not type(b):
        return False
    if isinstance(a, (TupleV, VecV)):
        return len(a.items) == len(b.items) and all(veq(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, Arr):
        if len(a.ks) != len(b.ks):
            return False
        if not all(veq(x, y) for x, y in zip(a.shape, b.shape)):
            return False
        if a.ks == b.ks:
            return veq(a.body, b.body)
        m = {k2.id: R.atom(k1) for k1, k2 in zip(a.ks, b.ks)}
        return veq(a.body, subst(b.body, m))
    if isinstance(a, StrV):
        return len(a.parts) == len(b.parts) and all(_parteq(x, y) for x, y in zip(a.parts, b.parts))
    if isinstance(a, MaskedV):
        return veq(a.arr, b.arr) and veq(a.mask, b.mask)
    if isinstance(a, Gamma):
        return veq(a.cond, b.cond) and veq(a.a, b.a) and veq(a.b, b.b)
    if isinstance(a, ListV):
        return len(a.parts) == len(b.parts) and all(part_eq(x, y) for x, y in zip(a.parts, b.parts))
    if isinstance(a, SliceV):
        return veq(a.lo, b.lo) and veq(a.hi, b.hi) and veq(a.step, b.step)
    if isinstance(a, Ref):
        return a.id == b.id
    try:
        return bool(a == b)
    except Exception:
        return False


def _parteq(x, y):
    if isinstance(x, str) or isinstance(y, str):
        return x == y
    if x[0] != y[0] or len(x) != len(y):
        return False
    return all(veq(p, q) for p, q in zip(x[1:], y[1:]))


# --------------------------------------------------------------------------
# Interpreted constructors
# --------------------------------------------------------------------------
def _mk(op, args, pos=False, nonneg=False, integer=False, boolean=False):
    a, new = get_app(op, args)
    if new:
        a.pos, a.nonneg, a.integer, a.boolean = pos, nonneg or pos, integer, boolean
    return R.atom(a)


def _isqrt_part(n):
    """(s, f): n = s^2 * f with f squarefree-ish (small factors)."""
    s, f = 1, n
    d = 2
    while d * d <= f and d < 1000:
        while f % (d * d) == 0:
            f //= d * d
            s *= d
        d += 1
    r = math.isqrt(f)
    if r * r == f:
        return s * r, 1
    return s, f


def mk_sqrt(z):
    z = as_r(z)
    if z.is_const():
        v = z.value()
        if v >= 0:
            s1, f1 = _isqrt_part(v.numerator * v.denominator)
            if f1 == 1:
                return R.const(Fraction(s1, v.denominator))
    if not z.num:
        return R.const(0)
    # sqrt(n/d) = sqrt(n*d)/d
    p = p_mul(z.num, z.den)
    out = R({(): F1}, z.den)
    c, q = p_content(p)
    if c < 0:
        c, q = -c, {m: -v for m, v in q.items()}
    s, f = _isqrt_part(c.numerator * c.denominator)
    out = out * R.const(Fraction(s, c.denominator))
    if f != 1:
        q = {m: v * f for m, v in q.items()}
    g = p_monogcd(q)
    take = []
    for a, e in g:
        at = ATOMS[a]
        if e >= 2 and (at.pos or at.nonneg):
            take.append((a, e - e % 2))
    if take:
        q = p_divmono(q, tuple(take))
        out = out * R({tuple((a, e // 2) for a, e in take): F1})
    if len(q) == 1 and () in q and q[()] == 1:
        return out
    # a perfect square under the root
    root = p_sqrt(q)
    if root is not None:
        return out * mk_abs(R(root))
    arg = R(q)
    a, new = get_app('sqrt', (arg,))
    if new:
        a.nonneg = True
        a.pos = p_positive(q)
        SQ[a.id] = ('sqrt', arg.num)
    return out * R.atom(a)


def p_sqrt(p):
    """Polynomial square root, if p is a perfect square (cheap test)."""
    if len(p) > 40 or not p:
        return None
    lm = p_lead(p)
    c = p[lm]
    if c < 0 or any(e % 2 for _, e in lm):
        return None
    s, f = _isqrt_part(c.numerator * c.denominator)
    if f != 1:
        return None
    r = {tuple((a, e // 2) for a, e in lm): Fraction(s, c.denominator)}
    lead = dict(r)
    for _ in range(len(p) + 2):
        rem = p_add(p, p_mul(r, r), -1)
        if not rem:
            return r
        m = p_lead(rem)
        ll = p_lead(r)
        d = dict(m)
        for a, e in ll:
            if d.get(a, 0) < e:
                return None
        t = {m_div(m, ll): rem[m] / (2 * r[ll])}
        if next(iter(t)) in r:
            return None
        r = p_add(r, t)
    return None


def mk_abs(z):
    z = as_r(z)
    if z.is_const():
        return R.const(abs(z.value()))
    c, q = p_content(z.num)
    if p_positive(q, strict=False) and p_positive(z.den):
        return R({m: v * abs(c) for m, v in q.items()}, z.den)
    if p_positive(z.den):
        core = R(q)
        scale = R({(): abs(c)}, z.den)
    else:
        core = R(q, z.den)
        scale = R.const(abs(c))
    a, new = get_app('abs', (core,))
    if new:
        a.nonneg = True
        a.integer = all(ATOMS[i].integer for i in core.atoms()) and len(core.den) == 1 and () in core.den
        if core.den == {(): F1}:
            SQ[a.id] = ('abs', core.num)
    return scale * R.atom(a)


def mk_log(z):
    z = as_r(z)
    if z.is_const() and z.value() == 1:
        return R.const(0)
    a = z.single()
    if a is not None and a.op == 'sqrt':
        return mk_log(a.args[0]) * R.const(Fraction(1, 2))
    # single power of an atom / sqrt
    if len(z.num) == 1 and z.den == {(): F1}:
        (m, c), = z.num.items()
        if c == 1 and len(m) == 1:
            at = ATOMS[m[0][0]]
            if m[0][1] > 1 and (at.pos or at.nonneg):
                return mk_log(R.atom(at)) * R.const(m[0][1])
            if m[0][1] > 1 and m[0][1] % 2 == 0 and at.op == 'abs':
                return mk_log(at.args[0] * at.args[0])
        if len(m) >= 1 and all(ATOMS[x].pos for x, _ in m) and (c != 1 or len(m) > 1) and c > 0:
            out = mk_log(R.const(c)) if c != 1 else R.const(0)
            for x, e in m:
                out = out + mk_log(R.atom(ATOMS[x])) * R.const(e)
            return out
    if z.den != {(): F1} and (len(z.den) > 1 or True):
        # log(n/d) = log n - log d when d certainly positive
        if p_positive(z.den):
            return mk_log(R(z.num)) - mk_log(R(z.den))
    # log(p^2) stays; content: log(c*q) = log c + log q
    c, q = p_content(z.num)
    if c > 0 and c != 1 and z.den == {(): F1} and not z.is_const():
        return mk_log(R.const(c)) + mk_log(R(q))
    return _mk('log', (z,))


def mk_pow(b, e):
    """b ** e with e an R."""
    b, e = as_r(b), as_r(e)
    if e.is_const():
        v = e.value()
        if v.denominator == 1:
            if abs(v.numerator) <= 12:
                return b ** v.numerator
        if v.denominator == 2 and abs(v.numerator) <= 9:
            return mk_sqrt(b) ** v.numerator
        if b.is_const() and b.value() in (0, 1):
            return b
        if v < 0:
            return R.const(1) / mk_pow(b, -e)
        # constant folding of perfect roots is not needed
        return _mk('pow', (b, e), pos=p_positive(b.num) and p_positive(b.den),
                   nonneg=p_positive(b.num, strict=False) and p_positive(b.den))
    return _mk('pow', (b, e))


def mk_floor(z):
    z = as_r(z)
    if z.is_const():
        return R.const(math.floor(z.value()))
    k = R.const(0)
    if z.den == {(): F1}:
        # pull out integer valued part
        ip = {m: c for m, c in z.num.items()
              if all(ATOMS[a].integer for a, _ in m) and c.denominator == 1}
        if ip:
            k = R(ip)
            z = R(p_add(z.num, ip, -1))
            if not z.num:
                return k
    else:
        c = z.num and p_divconst(z)
        if c:
            k = R.const(c)
            z = z - k
    return k + _mk('floor', (z,), integer=True)


def p_divconst(z):
    """Integer constant part of n/d where n = c*d + rest, matched on lead terms."""
    lm = p_lead(z.den)
    if lm in z.num:
        c = z.num[lm] / z.den[lm]
        if c.denominator == 1:
            return c
    return 0


def mk_ceil(z):
    return -mk_floor(-as_r(z))


def is_int(r):
    return isinstance(r, R) and r.den == {(): F1} and all(
        c.denominator == 1 and all(ATOMS[a].integer for a, _ in m) for m, c in r.num.items())


def mk_trunc(z):
    z = as_r(z)
    if is_int(z):
        return z
    if z.is_const():
        return R.const(int(z.value()))
    if p_positive(z.num, strict=False) and p_positive(z.den):
        return mk_floor(z)
    return _mk('trunc', (z,), integer=True)


def _minmax(op, vals):
    flat = []
    for v in vals:
        v = as_r(v)
        a = v.single()
        if a is not None and a.op == op:
            flat.extend(a.args)
        else:
            flat.append(v)
    out = []
    for v in flat:
        if not any(r_eq(v, o) for o in out):
            out.append(v)
    consts = [v for v in out if v.is_const()]
    if len(consts) > 1:
        f = min if op == 'min' else max
        c = f(v.value() for v in consts)
        out = [v for v in out if not v.is_const()] + [R.const(c)]
    # drop dominated by known differences
    keep = []
    for i, v in enumerate(out):
        dom = False
        for j, w in enumerate(out):
            if i == j:
                continue
            d = (w - v) if op == 'max' else (v - w)   # w dominates v
            t = mk_cmp(d, '>=')
            if t is True:
                t2 = mk_cmp(-d, '>=')
                if t2 is True and i < j:
                    continue
                dom = True
                break
        if not dom:
            keep.append(v)
    out = keep
    if len(out) == 1:
        return out[0]
    # congruence up to order
    sig = (op, len(out))
    for a in by_op(*sig)[2]:
        used = set()
        ok = True
        for v in out:
            for i, w in enumerate(a.args):
                if i not in used and r_eq(v, w):
                    used.add(i)
                    break
            else:
                ok = False
                break
        if ok:
            return R.atom(a)
    a = Atom(op, tuple(out))
    add_app(*sig, a)

    def prop(v, strict):
        return p_positive(v.num, strict) and p_positive(v.den)
    if op == 'max':
        a.pos = any(prop(v, True) for v in out)
        a.nonneg = a.pos or any(prop(v, False) or (v.is_const() and v.value() >= 0) for v in out)
    else:
        a.pos = all(prop(v, True) for v in out)
        a.nonneg = all(prop(v, False) or (v.is_const() and v.value() >= 0) for v in out)
    a.integer = all(is_int(v) for v in out)
    return R.atom(a)


def mk_min(*v):
    return _minmax('min', v)


def mk_max(*v):
    return _minmax('max', v)


def ite(c, a, b):
    """Gated merge."""
    if c is True:
        return a
    if c is False:
        return b
    if veq(a, b):
        return a
    # a tuple, list or vector merges elementwise
    if type(a) is type(b) and isinstance(a, (TupleV, VecV)) and len(a.items) == len(b.items):
        return type(a)([ite(c, x, y) for x, y in zip(a.items, b.items)])
    ab = isinstance(a, (bool, B))
    bb = isinstance(b, (bool, B))
    if ab and bb:
        return b_or(b_and(c, a), b_and(b_not(c), b))
    if isinstance(a, (R, bool, B)) and isinstance(b, (R, bool, B)):
        a, b = as_r(a), as_r(b)
        if c.kind == 'not':
            c, a, b = c.args[0], b, a
        # ite(c, ite(c, p, q), b) = ite(c, p, b)
        at = a.single()
        if at is not None and at.op == 'ite' and beq(at.args[0], c):
            a = at.args[1]
        bt = b.single()
        if bt is not None and bt.op == 'ite' and beq(bt.args[0], c):
            b = bt.args[2]
        if r_eq(a, b):
            return a
        at, new = get_app('ite', (c, a, b))
        if new:
            def nn(v, s):
                return p_positive(v.num, s) and p_positive(v.den)
            at.pos = nn(a, True) and nn(b, True)
            at.nonneg = at.pos or (nn(a, False) and nn(b, False))
            at.integer = is_int(a) and is_int(b)
            if a.is_const() and b.is_const() and {a.value(), b.value()} == {F0, F1}:
                SQ[at.id] = ('ind', None)
        return R.atom(at)
    if isinstance(a, Arr) and isinstance(b, Arr) and len(a.ks) == len(b.ks) and \
            all(veq(x, y) for x, y in zip(a.shape, b.shape)):
        m = {k2.id: R.atom(k1) for k1, k2 in zip(a.ks, b.ks)}
        return Arr(a.shape, a.ks, ite(c, a.body, subst(b.body, m)))
    g = MERGE_HOOK[0](c, a, b) if MERGE_HOOK[0] else None
    return Gamma(c, a, b) if g is None else g


MERGE_HOOK = [None]


def idx(base, *ix):
    """Element of an opaque (atom) value."""
    a = base.single() if isinstance(base, R) else None
    if a is None:
        raise Unsupported('index of non-atom')
    if a.op == 'idx':
        return idx(a.args[0], *(a.args[1:] + ix))
    if a.op == 'nonzero' and len(ix) == 1 and veq(ix[0], R.const(0)) and isinstance(a.args[0], Arr) and len(a.args[0].ks) == 1:
        z, k = a.args[0], fresh_atom('k', integer=True, nonneg=True)
        b = subst(z.body, {z.ks[0].id: R.atom(k)})
        import loops
        return loops.mk_first(z.shape[0], k, b_atom(b) if isinstance(b, R) else b)
    at, new = get_app('idx', (base,) + ix)
    if new:
        at.boolean = a.boolean
        at.meta = None
        hook = INDEX_HOOK[0]
        if hook:
            hook(at, a, ix)
    return R.atom(at)


INDEX_HOOK = [None]


UNORDERED = []
SIZES = {}      # inputs analysed at one size: name of the sequence -> its length


def fixed_size(v):
    if not SIZES or not isinstance(v, R):
        return None
    a = v.single()
    return SIZES.get(a.name, SIZES.get('*')) if a is not None and a.op == 'sym' and (a.meta == 'seq' or isinstance(a.meta, dict)) else None


def mk_len(v):
    n = fixed_size(v)
    if n is not None:
        return R.const(n)
    return _mk('len', (v,), nonneg=True, integer=True)


# -- big operators -----------------------------------------------------------
def binder(level):
    r = sym('β%d' % level, nonneg=True, integer=True)
    return r.single()


def max_binder(v):
    """1 + the largest bound-variable level occurring in v."""
    m = 0
    for a in all_atoms(v):
        if a.op == 'sym' and a.name and a.name.startswith('β'):
            m = max(m, int(a.name[1:]) + 1)
    return m


def close_binder(k, body):
    lv = max_binder(body)
    b = binder(lv)
    return b, subst(body, {k.id: R.atom(b)})


def contains(v, aid):
    return any(a.id == aid for a in all_atoms(v))


EXPAND = [False]        # big operators of small constant extent are written out


def at_start(body, k):
    """body has a case of its own for k == 0."""
    for i in body.atoms():
        a = ATOMS[i]
        if a.op == 'ite' and isinstance(a.args[0], B) and k.id in atom_closure(a):
            c = a.args[0]
            for l in (c.args if c.kind in ('and', 'or') else (c,)):
                if isinstance(l, B) and l.kind == 'not':
                    l = l.args[0]
                if isinstance(l, B) and l.kind == 'cmp' and l.args[1] == '==' and set(dict(l.args[0])) == {((k.id, 1),)}:
                    return True
    return False


def small_n(n):
    return EXPAND[0] and isinstance(n, R) and n.is_const() and n.value() <= 6


def mk_sum(n, k, body):
    """sum_{k=0}^{n-1} body, linearly normalised."""
    body = as_r(body)
    if isinstance(n, R) and n.is_const() and n.value() <= 0:
        return R.const(0)
    if small_n(n):
        t = R.const(0)
        for j in range(int(n.value())):
            t = t + subst(body, {k.id: R.const(j)})
        return t
    if isinstance(n, R) and at_start(body, k):
        # the first term is a case of its own
        k2 = fresh_atom('k', integer=True, nonneg=True)
        m = n - R.const(1)
        rest = mk_sum(m if p_positive(m.num, False) and p_positive(m.den) else mk_max(R.const(0), m), k2,
                      subst(body, {k.id: R.atom(k2) + R.const(1)}))
        return ite(mk_cmp(n, '>'), subst(body, {k.id: R.const(0)}) + rest, R.const(0))
    if not body.num:
        return R.const(0)
    a = body.single()
    if a is not None and a.op == 'ite' and isinstance(a.args[2], R) and not a.args[2].num and isinstance(a.args[0], B):
        k0 = pinned(a.args[0], k)
        if k0 is not None:
            c = subst(a.args[0], {k.id: k0})
            return ite(b_and(mk_cmp(k0, '>='), mk_cmp(as_r(n) - k0, '>'),
                             True if is_int(k0) else mk_cmp(k0 - mk_floor(k0), '=='), c),
                       subst(a.args[1], {k.id: k0}), R.const(0))
    b, body = close_binder(k, body)
    den_dep = any(_dep(ATOMS[a], b.id) for a in p_atoms(body.den))
    total = R.const(0)
    dden, oden = body.den, {(): F1}
    if den_dep and any(not _dep(ATOMS[a], b.id) for a in p_atoms(body.den)):
        # denominator factors free of the index leave the sum
        dd = {(): F1}
        for f, mult in factor(body.den):
            if any(_dep(ATOMS[a], b.id) for a in p_atoms(f)):
                for _ in range(mult):
                    dd = p_mul(dd, f)
        q = p_divexact(body.den, dd)
        if q is not None:
            dden, oden = dd, q
    for m, c in body.num.items():
        inner, outer = [], []
        for a, e in m:
            (inner if _dep(ATOMS[a], b.id) else outer).append((a, e))
        if den_dep:
            # split the denominator's monomial factor
            ib = R({tuple(inner): F1}, dden)
            ob = R({tuple(outer): c}, oden)
        else:
            ib = R({tuple(inner): F1})
            ob = R({tuple(outer): c}, body.den)
        if not inner and not den_dep:
            total = total + ob * (n if p_positive(n.num, False) or not n.num else mk_max(R.const(0), n))
            continue
        a, new = get_app('sum', (n, ib))
        if new:
            a.meta = b
            a.nonneg = p_positive(ib.num, False) and p_positive(ib.den)
            a.integer = is_int(ib)
        # binder level is part of identity
        if a.meta is not b:
            ib2 = subst(ib, {b.id: R.atom(a.meta)})
            if not veq(ib2, a.args[1]):
                aa = Atom('sum', (n, ib))
                aa.meta = b
                a = aa
        total = total + ob * R.atom(a)
    return total


_DEP = {}


def _dep(atom, bid):
    if atom.id == bid:
        return True
    return any(contains(x, bid) for x in atom.args)


def mk_exists(n, k, body):
    """exists k in [0,n): body."""
    if body is False:
        return False
    if isinstance(n, R) and n.is_const() and n.value() <= 0:
        return False
    if small_n(n):
        return b_or(*[subst(body, {k.id: R.const(j)}) if isinstance(body, B) else body for j in range(int(n.value()))])
    if isinstance(body, B) and body.kind == 'not' and body.args[0].kind == 'and':
        body = b_or(*[b_not(x) for x in body.args[0].args])
    elif isinstance(body, B) and body.kind == 'not' and body.args[0].kind == 'or':
        body = b_and(*[b_not(x) for x in body.args[0].args])
    if isinstance(body, B) and body.kind == 'or':
        return b_or(*[mk_exists(n, k, x) for x in body.args])
    if body is True or not contains(body, k.id):
        return b_and(mk_cmp(as_r(n), '>'), body)
    if isinstance(body, B) and body.kind == 'and':
        out = [x for x in body.args if not contains(x, k.id)]
        inn = [x for x in body.args if contains(x, k.id)]
        if out:
            return b_and(*(out + [mk_exists(n, k, b_and(*inn))]))
    k0 = pinned(body, k)
    if k0 is not None:
        n = as_r(n)
        rest = subst(body, {k.id: k0})
        return b_and(mk_cmp(k0, '>='), mk_cmp(n - k0, '>'),
                     True if is_int(k0) else mk_cmp(k0 - mk_floor(k0), '=='), rest)
    b, body = close_binder(k, body)
    return B('exists', (as_r(n), b, body))


def pinned(body, k):
    """The value k must take for the conjunction `body` to hold, if any."""
    for l in (body.args if body.kind == 'and' else (body,)):
        if l.kind != 'cmp' or l.args[1] != '==':
            continue
        p = dict(l.args[0])
        c = p.pop(((k.id, 1),), None)
        if c is None or any(k.id in atom_closure(ATOMS[a]) for a in p_atoms(p)):
            continue
        return -R(p) / R.const(c)
    return None


# --------------------------------------------------------------------------
# Traversal
# --------------------------------------------------------------------------
def children(v):
    if isinstance(v, R):
        return [ATOMS[a] for a in v.atoms()]
    if isinstance(v, Atom):
        return list(v.args)
    if isinstance(v, B):
        if v.kind == 'cmp':
            s = set()
            for m, _ in v.args[0]:
                for a, _e in m:
                    s.add(a)
            return [ATOMS[a] for a in s]
        if v.kind == 'exists':
            return [v.args[0], v.args[2]]
        return list(v.args)
    if isinstance(v, (TupleV, VecV)):
        return list(v.items)
    if isinstance(v, Arr):
        return [s for s in v.shape if s is not None] + [v.body]
    if isinstance(v, MaskedV):
        return [v.arr, v.mask]
    if isinstance(v, StrV):
        out = []
        for p in v.parts:
            if not isinstance(p, str):
                out.extend(p[1:])
        return out
    if isinstance(v, Gamma):
        return [v.cond, v.a, v.b]
    if isinstance(v, SliceV):
        return [v.lo, v.hi, v.step]
    if isinstance(v, ListV):
        out = []
        for p in v.parts:
            out.extend([p[1], p[3], p[4]] if p[0] == 'comp' else p[1:])
        return out
    if isinstance(v, (list, tuple)):
        return list(v)
    return []


_ATOMCACHE = {}


def atom_closure(a):
    """All atoms reachable from atom a (including it)."""
    c = _ATOMCACHE.get(a)
    if c is None:
        c = {a.id}
        for x in a.args:
            c |= _closure(x)
        c = frozenset(c)
        _ATOMCACHE[a] = c
    return c


def _closure(v):
    s = set()
    stack = [v]
    while stack:
        x = stack.pop()
        if isinstance(x, Atom):
            s |= atom_closure(x)
        else:
            stack.extend(children(x))
    return s


def all_atoms(v):
    return [ATOMS[i] for i in _closure(v)]


def subst(v, m):
    """Substitute atoms by values (m: atom id -> value), re-normalising."""
    if not m:
        return v
    return _Sub(m).run(v)


class _Sub:
    def __init__(self, m):
        self.m = m
        self.keys = frozenset(m)
        self.cache = {}

    def run(self, v):
        if isinstance(v, R):
            ids = v.atoms()
            if not any(self.touch(ATOMS[i]) for i in ids):
                return v
            one = v.single()
            if one is not None:
                return self.atom(one)
            num = self.poly(v.num)
            den = self.poly(v.den)
            if not den.num:         # an unreachable branch divides by zero
                return R.atom(get_app('div0', (num,))[0])
            return num / den
        if isinstance(v, bool) or v is None or isinstance(v, (str, int, Fraction)):
            return v
        if isinstance(v, B):
            return self.boolean(v)
        if isinstance(v, TupleV):
            return TupleV([self.run(x) for x in v.items])
        if isinstance(v, VecV):
            return VecV([self.run(x) for x in v.items])
        if isinstance(v, Arr):
            return Arr([self.run(s) if s is not None else None for s in v.shape], v.ks, self.run(v.body), v.tag)
        if isinstance(v, StrV):
            return StrV([p if isinstance(p, str) else (p[0],) + tuple(self.run(x) for x in p[1:])
                         for p in v.parts])
        if isinstance(v, Gamma):
            return ite(self.run(v.cond), self.run(v.a), self.run(v.b))
        if isinstance(v, ListV):
            out = []
            for p in v.parts:
                if p[0] == 'comp':
                    out.append(('comp', self.run(p[1]), p[2], self.run(p[3]), self.run(p[4])))
                elif p[0] == 'item':
                    out.append(('item', self.run(p[1]), self.run(p[2])))
                else:
                    x = self.run(p[1])
                    if isinstance(x, ListV):
                        out.extend(x.parts)
                    else:
                        out.append(('sym', x))
            return ListV(out)
        if isinstance(v, SliceV):
            return SliceV(self.run(v.lo), self.run(v.hi), self.run(v.step))
        if isinstance(v, MaskedV):
            return MaskedV(self.run(v.arr), self.run(v.mask))
        return v

    def touch(self, a):
        return not self.keys.isdisjoint(atom_closure(a))

    def poly(self, p):
        keep = {}
        out = R({})
        for mono, c in p.items():
            if not any(self.touch(ATOMS[a]) for a, _ in mono):
                keep[mono] = c
                continue
            t = R.const(c)
            for a, e in mono:
                if self.touch(ATOMS[a]):
                    t = t * (as_r(self.atom(ATOMS[a])) ** e)
                else:
                    t = t * R({((a, e),): F1})
            out = out + t
        return out + R(keep)

    def atom(self, a):
        if a.id in self.m:
            return self.m[a.id]
        if a.id in self.cache:
            return self.cache[a.id]
        if not self.touch(a):
            r = R.atom(a)
        else:
            r = rebuild(a, tuple(self.run(x) for x in a.args), self)
        self.cache[a.id] = r
        return r

    def boolean(self, v):
        if v.kind == 'cmp':
            p = dict(v.args[0])
            if not any(self.touch(ATOMS[a]) for a in p_atoms(p)):
                return v
            return mk_cmp(self.poly(p), v.args[1])
        if v.kind == 'atom':
            x = self.run(v.args[0])
            if isinstance(x, (bool, B)):
                return x
            if isinstance(x, R) and x.is_const():
                return x.value() != 0
            return b_atom(x)
        if v.kind == 'not':
            return b_not(self.boolean_(v.args[0]))
        if v.kind == 'and':
            return b_and(*[self.boolean_(x) for x in v.args])
        if v.kind == 'or':
            return b_or(*[self.boolean_(x) for x in v.args])
        if v.kind == 'exists':
            n, k, body = v.args
            k2 = fresh_atom('k', integer=True, nonneg=True)
            body = subst(body, {k.id: R.atom(k2)})
            return mk_exists(self.run(n), k2, self.run(body))
        raise Unsupported(v.kind)

    def boolean_(self, x):
        return x if isinstance(x, bool) else self.boolean(x)


REBUILD = {}


def rebuild(a, args, sub=None):
    f = REBUILD.get(a.op)
    if f:
        return f(a, args)
    at, new = get_app(a.op, args)
    if new:
        at.pos, at.nonneg, at.integer = a.pos, a.nonneg, a.integer
        at.boolean, at.ndim, at.shape, at.meta = a.boolean, a.ndim, a.shape, a.meta
    return R.atom(at)


def _rb_idx(a, args):
    f = GETITEM[0]
    base = args[0]
    if isinstance(base, R) and base.single() is not None:
        return idx(base, *args[1:])
    if f:
        return f(base, args[1:])
    raise Unsupported('idx of structured value')


GETITEM = [None]


def _rb_sum(a, args):
    n, body = args
    k2 = fresh_atom('k', integer=True, nonneg=True)
    return mk_sum(as_r(n), k2, subst(body, {a.meta.id: R.atom(k2)}))


REBUILD.update({
    'sqrt': lambda a, g: mk_sqrt(g[0]),
    'abs': lambda a, g: mk_abs(g[0]),
    'log': lambda a, g: mk_log(g[0]),
    'pow': lambda a, g: mk_pow(*g),
    'floor': lambda a, g: mk_floor(g[0]),
    'trunc': lambda a, g: mk_trunc(g[0]),
    'min': lambda a, g: mk_min(*g),
    'max': lambda a, g: mk_max(*g),
    'ite': lambda a, g: ite(*g),
    'idx': _rb_idx,
    'sum': _rb_sum,
})


# --------------------------------------------------------------------------
# Differentiation (of normal forms)
# --------------------------------------------------------------------------
def diff(v, x):
    """d v / d x for an R v and a symbol atom x."""
    if not contains(v, x.id):
        return R.const(0)
    n = _dpoly(v.num, x)
    if not any(contains(R.atom(ATOMS[a]), x.id) for a in p_atoms(v.den)):
        return n / R(v.den)
    d = _dpoly(v.den, x)
    return (n * R(v.den) - R(v.num) * d) / (R(v.den) * R(v.den))


def _dpoly(p, x):
    out = R.const(0)
    for m, c in p.items():
        for i, (a, e) in enumerate(m):
            da = _datom(ATOMS[a], x)
            if not da.num:
                continue
            rest = [y for j, y in enumerate(m) if j != i]
            if e > 1:
                rest = sorted(rest + [(a, e - 1)])
            out = out + R({tuple(sorted(rest)): c * e}) * da
    return out


def _datom(a, x):
    if a.id == x.id:
        return R.const(1)
    if x.id not in atom_closure(a):
        return R.const(0)
    if a.op == 'log':
        return diff(a.args[0], x) / a.args[0]
    if a.op == 'sqrt':
        return diff(a.args[0], x) / (R.const(2) * R.atom(a))
    if a.op == 'pow' and a.args[1].is_const():
        return a.args[1] * R.atom(a) / a.args[0] * diff(a.args[0], x)
    if a.op == 'sum' and not contains(a.args[0], x.id):
        k2 = fresh_atom('k', integer=True, nonneg=True)
        body = subst(a.args[1], {a.meta.id: R.atom(k2)})
        return mk_sum(a.args[0], k2, diff(body, x))
    if a.op == 'ite' and not contains(a.args[0], x.id):
        return ite(a.args[0], diff(a.args[1], x), diff(a.args[2], x))
    if a.op == 'arctan':
        z = a.args[0]
        return diff(z, x) / (R.const(1) + z * z)
    if a.op in ('cos', 'sin'):
        z = a.args[0]
        return (-_mk('sin', (z,)) if a.op == 'cos' else _mk('cos', (z,))) * diff(z, x)
    raise Unsupported('no derivative for %s' % a.op)


# --------------------------------------------------------------------------
# Printing
# --------------------------------------------------------------------------
def show_atom(a):
    if a.op == 'sym':
        return a.name
    if a.op == 'idx':
        return '%s[%s]' % (show(a.args[0]), ','.join(show(x) for x in a.args[1:]))
    if a.op == 'sum':
        return 'SUM[%s<%s](%s)' % (a.meta.name, show(a.args[0]), show(a.args[1]))
    return '%s(%s)' % (a.op, ', '.join(show(x) for x in a.args))


def show_poly(p):
    if not p:
        return '0'
    out = []
    for m in sorted(p, key=lambda m: (-sum(e for _, e in m), m)):
        c = p[m]
        fs = []
        for a, e in m:
            s = show_atom(ATOMS[a])
            fs.append(s if e == 1 else '%s^%d' % (s, e))
        if not fs:
            t = str(c)
        elif c == 1:
            t = '*'.join(fs)
        elif c == -1:
            t = '-' + '*'.join(fs)
        else:
            t = '%s*%s' % (c, '*'.join(fs))
        out.append(t)
    s = ' + '.join(out).replace('+ -', '- ')
    return s


def show(v, limit=400):
    if isinstance(v, R):
        n = show_poly(v.num)
        if v.den == {(): F1}:
            s = n
        else:
            s = '(%s)/(%s)' % (n, show_poly(v.den))
    elif isinstance(v, Atom):
        s = show_atom(v)
    elif isinstance(v, B):
        if v.kind == 'cmp':
            s = '%s %s 0' % (show_poly(dict(v.args[0])), v.args[1])
        elif v.kind == 'not':
            s = 'not(%s)' % show(v.args[0])
        elif v.kind == 'atom':
            s = '<%s>' % show(v.args[0])
        elif v.kind == 'exists':
            s = 'EXISTS[%s<%s](%s)' % (v.args[1].name, show(v.args[0]), show(v.args[2]))
        else:
            s = '(' + (' %s ' % v.kind).join(show(x) for x in v.args) + ')'
    elif isinstance(v, str):
        s = repr(v)
    else:
        s = repr(v)
    if limit and len(s) > limit:
        s = s[:limit] + '…'
    return s


# --------------------------------------------------------------------------
# Sign facts and case analysis
# --------------------------------------------------------------------------
_FACTOR_CACHE = {}


def factor(p):
    """Irreducible factors of a primitive polynomial: list of (poly, mult)."""
    k = p_key(p)
    r = _FACTOR_CACHE.get(k)
    if r is not None:
        return r
    deg = max(sum(e for _, e in m) for m in p)
    if deg <= 1 or len(p) > 120:
        r = [(p, 1)]
    else:
        try:
            import sympy
            ids = sorted(p_atoms(p))
            ss = {a: sympy.Symbol('v%d' % a) for a in ids}
            ex = sympy.Add(*[sympy.Rational(c.numerator, c.denominator)
                             * sympy.Mul(*[ss[a] ** e for a, e in m]) for m, c in p.items()])
            _, fl = sympy.factor_list(ex, *[ss[a] for a in ids])
            r = []
            for f, mult in fl:
                po = sympy.Poly(f, *[ss[a] for a in ids])
                d = {}
                for mono, c in po.terms():
                    mm = tuple((a, int(e)) for a, e in zip(ids, mono) if e)
                    d[mm] = Fraction(int(c.p), int(c.q))
                c0, d = p_content(d)
                r.append((d, mult))
        except ImportError:
            r = [(p, 1)]
    _FACTOR_CACHE[k] = r
    return r


class Facts:
    """A conjunction of linear sign facts over monomials (a polyhedron over
    the monomials of the value domain) plus boolean atom assignments."""

    def __init__(self, lin=(), bools=()):
        self.lin = list(lin)        # (poly, rel) rel in > >= ==
        self.bools = list(bools)    # (B literal positive form, bool)

    def copy(self):
        return Facts(self.lin, self.bools)

    def add(self, b):
        """Assume boolean b (conjunctions only; disjunctions ignored)."""
        f = self.copy()
        f._add(b, True)
        return f

    def _add(self, b, val):
        if isinstance(b, bool):
            if b is not val:
                self.lin.append((p_const(-1), '>='))
            return
        if b.kind == 'not':
            return self._add(b.args[0], not val)
        if b.kind == 'and' and val:
            for x in b.args:
                self._add(x, True)
            return
        if b.kind == 'or' and not val:
            for x in b.args:
                self._add(x, False)
            return
        if b.kind == 'cmp':
            p, rel = dict(b.args[0]), b.args[1]
            if val:
                if rel == '>' and all(c.denominator == 1 for c in p.values()) and all(ATOMS[a].integer for a in p_atoms(p)):
                    p, rel = p_add(p, p_const(-1)), '>='
                self.lin.append((p, rel))
            elif rel == '==':
                self.bools.append((b, False))
            else:
                n = {m: -c for m, c in p.items()}
                nrel = '>=' if rel == '>' else '>'
                # integers
                if rel == '>=' and all(ATOMS[a].integer for a in p_atoms(p)):
                    n = p_add(n, p_const(-1))
                    nrel = '>='
                self.lin.append((n, nrel))
            return
        old = self.lookup(b)
        if old is None:
            self.bools.append((b, val))
        elif old is not val:
            self.lin.append((p_const(-1), '>='))

    def lookup(self, b):
        for x, v in self.bools:
            if beq(x, b):
                return v
        if b.kind in ('and', 'or'):
            for x, v in self.bools:
                if v and x.kind == 'or':
                    ps = [b_not(p) for p in b.args] if b.kind == 'and' else b.args
                    if all(any(beq(p, q) for q in ps) for p in x.args):
                        return b.kind == 'or'
        return None


def _atom_facts(ids, depth=0):
    out = []
    for i in ids:
        a = ATOMS[i]
        m = {((i, 1),): F1}
        if a.pos:
            out.append((m, '>'))
        elif a.nonneg:
            out.append((m, '>='))
        if a.op == 'floor' and a.args[0].den == {(): F1}:
            e = a.args[0].num
            out.append((p_add(e, m, -1), '>='))               # e - floor >= 0
            out.append((p_add(p_add(m, p_const(1)), e, -1), '>'))
        if a.op == 'floor' and a.args[0].den != {(): F1} and p_positive(a.args[0].den):
            n, d = a.args[0].num, a.args[0].den
            out.append((p_add(n, p_mul(m, d), -1), '>='))
            out.append((p_add(p_mul(p_add(m, p_const(1)), d), n, -1), '>'))
        if a.op in ('min', 'max'):
            for v in a.args:
                if v.den == {(): F1}:
                    d = p_add(v.num, m, -1) if a.op == 'min' else p_add(m, v.num, -1)
                    out.append((d, '>='))
                elif p_positive(v.den):
                    d = p_add(v.num, p_mul(m, v.den), -1)
                    if a.op == 'max':
                        d = {k: -c for k, c in d.items()}
                    out.append((d, '>='))
        if a.op == 'abs':
            v = a.args[0]
            if v.den == {(): F1}:
                out.append((p_add(m, v.num, -1), '>='))
                out.append((p_add(m, v.num), '>='))
    return out


def _subst_eqs(cons):
    """Eliminate atoms fixed by equalities (sg - 1 == 0) from nonlinear facts."""
    if not any(r == '==' for _, r in cons) or not any(len(m) > 1 or (m and m[0][1] > 1) for p, _ in cons for m in p):
        return cons
    done = set()
    for _ in range(4):
        pick = None
        for n, (p, r) in enumerate(cons):
            if r != '==' or n in done:
                continue
            for m in p:
                if len(m) == 1 and m[0][1] == 1 and sum(1 for mm in p if any(x == m[0][0] for x, _ in mm)) == 1:
                    pick = (n, m)
                    break
            if pick:
                break
        if pick is None:
            break
        n, m = pick
        done.add(n)
        at, c = m[0][0], cons[n][0][m]
        rest = {mm: -v / c for mm, v in cons[n][0].items() if mm != m}
        out = []
        for i, (p, r) in enumerate(cons):
            if i != n and any(x == at for mm in p for x, _ in mm):
                q = {}
                for mm, v in p.items():
                    e = dict(mm).get(at, 0)
                    t = {tuple((x, k) for x, k in mm if x != at): v}
                    for _k in range(e):
                        t = p_mul(t, rest)
                    q = p_add(q, t)
                p = q
            out.append((p, r))
        cons = out
    return cons


_LINK = {}


def _link(p):
    """Atoms of p and of what the built-in facts about them mention."""
    key = p_key(p)
    r = _LINK.get(key)
    if r is None:
        r, todo = set(), list(p_atoms(p))
        while todo:
            i = todo.pop()
            if i in r:
                continue
            r.add(i)
            if ATOMS[i].op in ('floor', 'min', 'max', 'abs'):
                for v in ATOMS[i].args:
                    if isinstance(v, R):
                        todo += list(v.atoms())
        _LINK[key] = r = frozenset(r)
    return r


def related(lin, extra):
    """The facts connected with extra; the others form an independent system,
    consistent if the facts are."""
    seen = set()
    for p, _ in extra:
        seen |= _link(p)
    rest = [(i, _link(x[0])) for i, x in enumerate(lin)]
    take = set()
    while True:
        left = []
        for i, l in rest:
            if not l or l & seen:
                take.add(i)
                seen |= l
            else:
                left.append((i, l))
        if len(left) == len(rest):
            return [lin[i] for i in sorted(take)]
        rest = left


def consistent(facts, extra=()):
    """Is the polyhedron (over monomials) non-empty?  Exact LP."""
    cons = _subst_eqs((related(facts.lin, extra) if extra else list(facts.lin)) + list(extra))
    for _ in range(3):
        ids = set()
        for p, _r in cons:
            ids |= p_atoms(p)
        more = _atom_facts(ids)
        keys = {(p_key(p), r) for p, r in cons}
        new = [(p, r) for p, r in more if (p_key(p), r) not in keys]
        cons += new
        if not new:
            break
    # products of facts with positive atoms occurring in nonlinear monomials
    monos = set()
    for p, _r in cons:
        monos |= set(p)
    posat = {a for m in monos if len(m) > 1 or (m and m[0][1] > 1) for a, e in m
             if ATOMS[a].pos or ATOMS[a].nonneg}
    prod = []
    for p, r in cons:
        deg = max((sum(e for _, e in m) for m in p), default=0)
        if deg > 2:
            continue
        for a in posat:
            q = p_mul(p, {((a, 1),): F1})
            if set(q) & monos and any(m in monos and m for m in q):
                rr = r if (ATOMS[a].pos or r != '>') else '>='
                prod.append((q, rr))
    cons += prod
    monos = set()
    for p, _r in cons:
        monos |= set(p)
    for m in monos:
        if m and all(ATOMS[a].pos for a, e in m):
            cons.append(({m: F1}, '>'))
        elif m and all(ATOMS[a].nonneg or e % 2 == 0 for a, e in m):
            cons.append(({m: F1}, '>='))
    if len(cons) > 400:
        cons = cons[:400]
    return lp_feasible([_tight(p, r) for p, r in cons])


def _tight(p, r):
    """p > 0 over the integers is p - 1 >= 0."""
    if r == '>' and all(c.denominator == 1 for c in p.values()) and all(ATOMS[a].integer for a in p_atoms(p)):
        return p_add(p, p_const(-1)), '>='
    return p, r


def lp_feasible(cons):
    """Feasibility of linear constraints over monomials, with strict ones.
    maximise eps s.t. strict rows >= eps, eps <= 1."""
    cons = [(p, r) for p, r in cons]
    for p, r in cons:
        if not p or (len(p) == 1 and () in p):
            v = p.get((), F0)
            if (r == '>' and not v > 0) or (r == '>=' and not v >= 0) or (r == '==' and v != 0):
                return False
    cons = [(p, r) for p, r in cons if p and not (len(p) == 1 and () in p)]
    if not cons:
        return True
    seen = set()
    uniq = []
    for p, r in cons:
        k = (p_key(p), r)
        if k not in seen:
            seen.add(k)
            uniq.append((p, r))
    cons = uniq
    monos = sorted({m for p, _ in cons for m in p if m})
    col = {m: i for i, m in enumerate(monos)}
    rows, nonneg = [], set()
    for p, r in cons:
        coef = {col[m]: c for m, c in p.items() if m}
        k = p.get((), F0)
        if r == '==':
            rows.append((coef, k, False))
            rows.append(({i: -c for i, c in coef.items()}, -k, False))
            continue
        if not k and len(coef) == 1:
            (j, v), = coef.items()
            if v > 0:
                nonneg.add(j)
                if r == '>=':
                    continue
        rows.append((coef, k, r == '>'))
    return lp.feasible(rows, nonneg)


def sign_split(p, facts):
    """Feasible signs of polynomial p under facts: list of (sign, facts')."""
    out = []
    for s in (1, 0, -1):
        if s == 1:
            ex = (p, '>')
        elif s == -1:
            ex = ({m: -c for m, c in p.items()}, '>')
        else:
            ex = (p, '==')
        if consistent(facts, [ex]):
            f = facts.copy()
            f.lin.append(_tight(*ex))
            out.append((s, f))
    return out


def decide(b, facts):
    """Three-valued truth of b under facts: True / False / None."""
    if isinstance(b, bool):
        return b
    k = b.kind
    if k == 'not':
        r = decide(b.args[0], facts)
        return None if r is None else not r
    if k in ('and', 'or') and len(facts.bools) and any(x.kind == k for x, _ in facts.bools):
        got = facts.lookup(b)
        if got is not None:
            return got
    return decide_parts(b, facts)


def decide_parts(b, facts):
    k = b.kind
    if k == 'and':
        rs = [decide(x, facts) for x in b.args]
        if any(r is False for r in rs):
            return False
        return True if all(r is True for r in rs) else facts.lookup(b)
    if k == 'or':
        rs = [decide(x, facts) for x in b.args]
        if any(r is True for r in rs):
            return True
        return False if all(r is False for r in rs) else facts.lookup(b)
    got = facts.lookup(b)
    if got is not None:
        return got
    if k == 'cmp':
        p, rel = dict(b.args[0]), b.args[1]
        neg = {m: -c for m, c in p.items()}
        if rel == '==':
            if not consistent(facts, [(p, '==')]):
                return False
            if not consistent(facts, [(p, '>')]) and not consistent(facts, [(neg, '>')]):
                return True
            return None
        nrel = '>=' if rel == '>' else '>'
        if not consistent(facts, [(neg, nrel)]):
            return True
        if not consistent(facts, [(p, rel)]):
            return False
        return None
    if k == 'exists':
        return decide_exists(b, facts)
    return None


EXISTS_BUDGET = [60]


def decide_exists(b, facts):
    """exists k < n: body, from what is known of other such statements over the
    same range, taken at one arbitrary element."""
    n, kb, body = b.args
    known = [(x, v) for x, v in facts.bools if x.kind == 'exists' and r_eq(x.args[0], n)]
    if not known:
        return None
    sk = sym('κ', nonneg=True, integer=True)
    base = Facts(facts.lin, [(x, v) for x, v in facts.bools if x.kind != 'exists'])
    base.lin.append((p_add((n - sk).num, p_const(-1)), '>=') if n.den == {(): F1} and is_int(n) else ((n - sk).num, '>'))
    at = lambda x: subst(x.args[2], {x.args[1].id: sk})
    none = b_and(*[b_not(at(x)) for x, v in known if v is False])
    if none is False:
        return False
    here = at(b)
    if unsat(b_and(none, here), base, list(EXISTS_BUDGET)):
        return False
    for x, v in known:
        if v is True and unsat(b_and(at(x), none, b_not(here)), base, list(EXISTS_BUDGET)):
            return True
    return None


def unsat(b, facts, budget):
    """Is b certainly false under facts?"""
    budget[0] -= 1
    if budget[0] < 0:
        return False
    t = decide(b, facts)
    if t is not None:
        return t is False
    v, und = resolve_bool(b, facts)
    if not beq_(v, b):
        return unsat(v, facts, budget)
    lit = und or pick_literal(b, facts)
    if lit is None:
        return False
    return all(unsat(b, f, budget) for f in split_literal(lit, facts))


def literals(b, out):
    if isinstance(b, bool):
        return
    if b.kind in ('not', 'and', 'or'):
        for x in b.args:
            literals(x, out)
    else:
        if not any(beq(b, x) for x in out):
            out.append(b)


def pick_literal(b, facts):
    """First literal of b undecided under facts."""
    ls = []
    literals(b, ls)
    for x in ls:
        if decide(x, facts) is None:
            return x
    return None


CASE_LIMIT = [4000]


def split_literal(lit, facts):
    """Cases of a literal: list of facts."""
    if lit.kind == 'cmp':
        p = dict(lit.args[0])
        fs = factor(p)
        if len(fs) > 1 or fs[0][1] > 1:
            f = None
            for q, mult in fs:
                sp = sign_split(q, facts)
                if len(sp) > 1:
                    f = (q, sp)
                    break
            if f is None:
                # all factor signs known: conclude the sign of p
                s = 1
                for q, mult in fs:
                    sp = sign_split(q, facts)
                    if not sp:
                        return []
                    sg = sp[0][0]
                    s *= sg ** mult if sg else 0
                f2 = facts.copy()
                ex = [(p, '>')] if s > 0 else [(p, '==')] if s == 0 else [({m: -c for m, c in p.items()}, '>')]
                f2.lin += ex
                return [f2]
            return [x for _, x in f[1]]
        return [x for _, x in sign_split(p, facts)]
    out = []
    for v in (True, False):
        f = facts.copy()
        f.bools.append((lit, v))
        out.append(f)
    return out


def case_atoms(v):
    """Atoms that need a case split before two values can be compared."""
    return sorted({a.id: a for a in all_atoms(v) if a.op in ('ite', 'min', 'max', 'abs', 'trunc')}.values(),
                  key=lambda a: a.id)


_FREE = {}


def atom_bound(a):
    if a.id not in _FREE:
        if a.op == 'sym':
            f = frozenset((a.id,)) if a.name and a.name.startswith('β') else frozenset()
        else:
            f = frozenset().union(*[bound_in(x) for x in a.args])
            if getattr(a.meta, 'id', None) in f:
                f -= {a.meta.id}
        _FREE[a.id] = f
    return _FREE[a.id]


def bound_in(v):
    """Bound variables of enclosing operators that v depends on."""
    if v is None or isinstance(v, (bool, str)):
        return frozenset()
    if isinstance(v, B):
        if v.kind == 'exists':
            return bound_in(v.args[0]) | (bound_in(v.args[2]) - {v.args[1].id})
        if v.kind == 'cmp':
            return frozenset().union(*[atom_bound(ATOMS[a]) for a in p_atoms(dict(v.args[0]))])
        return frozenset().union(*[bound_in(x) for x in v.args])
    if isinstance(v, R):
        return frozenset().union(*[atom_bound(ATOMS[a]) for a in v.atoms()])
    return frozenset(a.id for a in all_atoms(v) if a.op == 'sym' and a.name and a.name.startswith('β'))


def resolve(v, facts):
    """Remove every ite/min/max/abs decided by facts; returns (value,
    undecided literal or None)."""
    for _ in range(200):
        ats = [a for a in case_atoms(v)]
        # innermost first: atoms whose args contain no case atoms
        ats = [a for a in ats if not any(case_atoms(x) for x in a.args)]
        # those of a big operator are settled when it is opened
        if ats:
            free = bound_in(v)
            ats = [a for a in ats if (bound_in(a.args[0]) if a.op == 'ite' else atom_bound(a)) <= free]
        if not ats:
            return v, None
        m = {}
        und = None
        for a in ats:
            if a.op == 'ite':
                t = decide(a.args[0], facts)
                if t is None:
                    und = und or pick_literal(a.args[0], facts)
                    continue
                m[a.id] = a.args[1] if t else a.args[2]
            elif a.op == 'abs':
                c = mk_cmp(a.args[0], '>=')
                t = decide(c, facts)
                if t is None and decide(mk_cmp(a.args[0], '>'), facts) is False:
                    t = False
                if t is None:
                    und = und or pick_literal(c, facts)
                    continue
                m[a.id] = a.args[0] if t else -a.args[0]
            elif a.op == 'trunc':
                c = mk_cmp(a.args[0], '>=')
                t = decide(c, facts)
                if t is None:
                    und = und or pick_literal(c, facts)
                    continue
                m[a.id] = mk_floor(a.args[0]) if t else mk_ceil(a.args[0])
            else:
                args = list(a.args)
                best = args[0]
                ok = True
                for w in args[1:]:
                    d = (best - w) if a.op == 'min' else (w - best)
                    c = mk_cmp(d, '>')
                    t = decide(c, facts)
                    if t is None:
                        und = und or pick_literal(c, facts)
                        ok = False
                        break
                    if t:
                        best = w
                if ok:
                    m[a.id] = best
        if not m:
            return v, und
        v = subst(v, m)
    raise Unsupported('case resolution did not converge')


def eq_under(a, b, facts):
    """Equality of two case-free numeric values modulo == facts."""
    d = a - b
    if not d.num:
        return True
    eqs = [p for p, r in facts.lin if r == '==']
    # equalities implied by opposing inequalities
    for p, r in facts.lin:
        if r == '>=':
            n = {m: -c for m, c in p.items()}
            if any(r2 == '>=' and p_key(q) == p_key(n) for q, r2 in facts.lin):
                eqs.append(p)
    for p in list(eqs):
        # a sum of non-negative atoms that vanishes: each of them does
        if len(p) > 1 and all(len(m) == 1 and m[0][1] == 1 and (ATOMS[m[0][0]].nonneg or ATOMS[m[0][0]].pos)
                              for m in p) and len({v > 0 for v in p.values()}) == 1:
            z = {m[0][0]: R({}) for m in p}
            if not (subst(a, z) - subst(b, z)).num:
                return True
            if len(eqs) > 1 and eq_under(subst(a, z), subst(b, z), Facts([(subst(R(x), z).num, '==') for x in eqs if x is not p])):
                return True
    for p in eqs:
        done = set()
        # solve for an atom occurring linearly with constant coefficient, alone
        for m in sorted(p, key=lambda m: (-max([a for a, _ in m], default=-1))):
            if len(m) == 1 and m[0][1] == 1:
                at = m[0][0]
                if at in done:
                    continue
                if sum(1 for mm in p if any(x == at for x, _ in mm)) == 1:
                    c = p[m]
                    rest = {mm: -v / c for mm, v in p.items() if mm != m}
                    if at in _closure(R(rest)):
                        continue
                    d2 = subst(a, {at: R(rest)}) - subst(b, {at: R(rest)})
                    if not d2.num:
                        return True
                    f2 = Facts([(x, r) for x, r in facts.lin if x is not p])
                    if len(eqs) > 1 and eq_under(subst(a, {at: R(rest)}), subst(b, {at: R(rest)}),
                                                 Facts([(subst(R(x), {at: R(rest)}).num, r)
                                                        for x, r in f2.lin if r == '==' and x])):
                        return True
                    break
        # the numerator may be a multiple of the equality polynomial
        if p and p_divexact(d.num, p) is not None:
            return True
    return False


def emptied(facts):
    """Counts that the facts force to zero, as a substitution."""
    z = {}
    for p, r in facts.lin:
        if r not in ('>=', '==') or () in p or not p:
            continue
        if all(len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].op == 'len' for m in p) and \
                (all(v < 0 for v in p.values()) or r == '==' and all(v > 0 for v in p.values())):
            for m in p:
                z[m[0][0]] = R({})
    return z


def at_empty(facts, z):
    """False where the facts contradict each other once the counts are zero."""
    return not any(subst(b, z) is (not v) for b, v in facts.bools)


class Mismatch(Exception):
    def __init__(self, msg, a=None, b=None, facts=None):
        super().__init__(msg)
        self.a, self.b, self.facts = a, b, facts


def describe(facts):
    out = []
    for p, r in facts.lin[:12]:
        out.append('%s %s 0' % (show_poly(p)[:120], r))
    for b, v in facts.bools[:8]:
        out.append('%s%s' % ('' if v else 'not ', show(b)[:120]))
    return ' and '.join(out) or 'always'


def fact_cases(facts):
    """Simplify case expressions inside the facts themselves; returns (facts,
    undecided literal of some fact or None)."""
    und = None
    out = []
    changed = False
    for p, r in facts.lin:
        if any(ATOMS[a].op == 'ite' for a in p_atoms(p)):
            rest = Facts([x for x in facts.lin if x[0] is not p], facts.bools)
            v = R(p)
            for _ in range(20):
                m = {}
                for a in p_atoms(v.num):
                    at = ATOMS[a]
                    if at.op == 'ite':
                        t = decide(at.args[0], rest)
                        if t is not None:
                            m[a] = at.args[1] if t else at.args[2]
                        else:
                            und = und or pick_literal(at.args[0], rest)
                if not m:
                    break
                v = subst(v, m)
                changed = True
            f = Facts()
            f._add(mk_cmp(v, r), True)
            out += f.lin
        else:
            out.append((p, r))
    return (Facts(out, facts.bools) if changed else facts), und


def clause_case(facts, budget=None):
    """Compound boolean facts: False if they cannot all hold, None otherwise."""
    budget = budget if budget is not None else [300]
    budget[0] -= 1
    if budget[0] < 0:
        raise Unsupported('case analysis budget exhausted')
    comp = [(i, b, v) for i, (b, v) in enumerate(facts.bools) if b.kind in ('and', 'or')]
    uses = {}
    lits = {}
    for i, b, v in comp:
        ls = []
        literals(b, ls)
        lits[i] = ls
        for x in ls:
            if x.kind == 'atom':
                k = next((r for r in uses if beq(r, x)), x)
                uses.setdefault(k, set()).add(i)
    for i, b, v in comp:
        rest = Facts(facts.lin, facts.bools[:i] + facts.bools[i + 1:])
        t = decide_parts(b, rest)
        if t is not None:
            if t is not v:
                return False
            continue
        # satisfiable through an atom nothing else speaks about
        if any(x.kind == 'atom' and len(uses[next(r for r in uses if beq(r, x))]) == 1 and facts.lookup(x) is None
               for x in lits[i]) and b.kind == 'or' and v and all(p.kind == 'atom' for p in b.args if isinstance(p, B)):
            continue
        lit = pick_literal(b, rest)
        if lit is None:
            continue
        for f in split_literal(lit, facts):
            if clause_case(f, budget) is None:
                return None
        return False
    for i, (b, v) in enumerate(facts.bools):
        if b.kind == 'exists' and v:
            rest = Facts(facts.lin, facts.bools[:i] + facts.bools[i + 1:])
            if decide_exists(b, rest) is False:
                return False
    return None


def eliminate(facts):
    """One equality of the facts turned into a substitution: (map, facts')."""
    for n, (p, r) in enumerate(facts.lin):
        if r != '==' or not p:
            continue
        z = None
        if all(len(m) == 1 and m[0][1] == 1 and (ATOMS[m[0][0]].nonneg or ATOMS[m[0][0]].pos)
               for m in p) and len({v > 0 for v in p.values()}) == 1:
            z = {m[0][0]: R({}) for m in p}
        else:
            for m in sorted((m for m in p if len(m) == 1 and m[0][1] == 1), key=lambda m: -m[0][0]):
                at, c = m[0][0], p[m]
                rest = {mm: -v / c for mm, v in p.items() if mm != m}
                if at not in _closure(R(rest)) and (not ATOMS[at].integer or is_int(R(rest))):
                    z = {at: R(rest)}
                    break
        if z is None:
            continue
        f = Facts()
        for i, (q, r2) in enumerate(facts.lin):
            if i != n:
                f._add(mk_cmp(subst(R(q), z), r2), True)
            if i == n:
                for a in z:             # what was known of the atom itself
                    if ATOMS[a].pos:
                        f._add(mk_cmp(z[a], '>'), True)
                    elif ATOMS[a].nonneg:
                        f._add(mk_cmp(z[a], '>='), True)
        for b, v in facts.bools:
            f._add(subst(b, z), v)
        return z, f
    return None, facts


def _cval(r):
    if not r.num:
        return F0
    if r.den == {(): F1} and set(r.num) == {()}:
        return r.num[()]
    return None


def generalise(vals, facts, private=None):
    """Replace every min/max atom by an arbitrary number of the same kind: what
    then still holds, holds for the original values."""
    facts = facts or Facts()
    whole = TupleV(list(vals) + [R(p) for p, _ in facts.lin])
    ats = [a for a in all_atoms(whole) if a.op in ('max', 'min')]
    inner = set()
    for a in ats:
        for x in a.args:
            inner |= {b.id for b in all_atoms(x)}
    m = {}
    for a in ats:
        if a.id in inner:
            continue
        nn = a.nonneg or (a.op == 'max' and any(_cval(x) is not None and _cval(x) >= 0 for x in a.args))
        m[a.id] = fresh('g', integer=all(is_int(x) for x in a.args), nonneg=nn)
    if not m:
        return None
    if private:         # each replaced atom can take every value on its own
        used = set()
        for a in ats:
            if a.id in m:
                own = {b.id for b in all_atoms(R.atom(a))} & private
                if a.op != 'max' or len(own) != 1 or own & used or len(a.args) != 2 or not any(
                        _cval(x) is not None and not _cval(x) for x in a.args):
                    private = None
                    break
                used |= own
    f = Facts((), facts.bools)
    for p, r in facts.lin:
        f._add(mk_cmp(subst(R(p), m), r), True)
    return [subst(v, m) for v in vals], f, bool(private)


def equiv(a, b, facts=None, skip_boundary=False, budget=None):
    """Decide that values a and b are equal in every feasible sign case.
    Raises Mismatch with the separating case, returns number of cases."""
    facts = facts or Facts()
    if budget is None:
        budget = [CASE_LIMIT[0]]
    budget[0] -= 1
    if budget[0] < 0:
        raise Unsupported('case analysis budget exhausted')
    if isinstance(a, (TupleV, VecV)) and isinstance(b, (TupleV, VecV)):
        if len(a.items) != len(b.items):
            raise Mismatch('lengths differ', a, b, facts)
        return sum(equiv(x, y, facts, skip_boundary, budget) for x, y in zip(a.items, b.items))
    if isinstance(a, (bool, B)) and isinstance(b, (bool, B)):
        return equiv_bool(a, b, facts, skip_boundary, budget)
    if isinstance(a, (R, B, bool)) and isinstance(b, (R, B, bool)):
        a, b = as_r(a), as_r(b)
        if r_eq(a, b):
            return 1
        z = emptied(facts)
        if z:
            a, b = subst(a, z), subst(b, z)
            if r_eq(a, b):
                return 1
            if not at_empty(facts, z):
                return 0
        both, und = resolve(VecV([a, b]), facts)
        a2, b2 = both.items
        if und is None:
            if eq_under(a2, b2, facts):
                return 1
            facts, und = fact_cases(facts)
            if und is None:
                if eq_under(a2, b2, facts):
                    return 1
                if not consistent(facts):
                    return 0
                und = clause_case(facts)
                if und is False:
                    return 0
                if und is None:
                    if vacuous(facts) or impossible(facts):
                        return 0
                    raise Mismatch('values differ', a2, b2, facts)
        if r_eq(a2, b2):
            return 1
        n = 0
        for f in split_literal(und, facts):
            if skip_boundary and _boundary(f, facts):
                continue
            n += equiv(a2, b2, fact_cases(f)[0], skip_boundary, budget)
        return n
    if isinstance(a, Arr) and isinstance(b, Arr) and len(a.ks) == len(b.ks):
        m = {k2.id: R.atom(k1) for k1, k2 in zip(a.ks, b.ks)}
        n = 0
        for x, y in zip(a.shape, b.shape):
            n += equiv(x, y, facts, skip_boundary, budget)
        f = facts.copy()
        for s, k in zip(a.shape, a.ks):
            f._add(mk_cmp(R.atom(k), '>='), True)
            f._add(mk_cmp(s - R.atom(k), '>'), True)
        return n + equiv(a.body, subst(b.body, m), f, skip_boundary, budget)
    if isinstance(a, Gamma) or isinstance(b, Gamma):
        g = a if isinstance(a, Gamma) else b
        t = decide(g.cond, facts)
        if t is None:
            n = 0
            for f in split_literal(pick_literal(g.cond, facts), facts):
                n += equiv(a, b, f, skip_boundary, budget)
            return n
        pick = g.a if t else g.b
        if g is a:
            return equiv(pick, b, facts, skip_boundary, budget)
        return equiv(a, pick, facts, skip_boundary, budget)
    if veq(a, b):
        return 1
    raise Mismatch('values differ', a, b, facts)


def impossible(facts):
    """Solving the equalities of the facts shows that they cannot all hold."""
    for _ in range(8):
        z, facts = eliminate(facts)
        if z is None:
            return False
        if not consistent(facts):
            return True
    return False


def vacuous(facts):
    """The case assumes p of the running index of an operator although it
    assumes that p holds of no index."""
    for b, val in facts.bools:
        if not val and isinstance(b, B) and b.kind == 'exists':
            k = b.args[1]
            if any(v and isinstance(c, B) and c.kind != 'exists' and contains(c, k.id) for c, v in facts.bools) and \
                    decide(b.args[2], facts) is True:
                return True
    return False


def _boundary(f, old):
    return any(r == '==' for p, r in f.lin[len(old.lin):])


def equiv_bool(a, b, facts, skip_boundary, budget):
    budget[0] -= 1
    if budget[0] < 0:
        raise Unsupported('case analysis budget exhausted')
    if beq_(a, b):
        return 1
    z = emptied(facts)
    if z:
        a, b = subst(a, z), subst(b, z)
        if beq_(a, b):
            return 1
        if not at_empty(facts, z):
            return 0
    ta, tb = decide(a, facts), decide(b, facts)
    if ta is not None and tb is not None:
        if ta != tb:
            facts, und = fact_cases(facts)
            if und is None:
                z, f2 = eliminate(facts)
                if z is not None:
                    return equiv_bool(subst(a, z), subst(b, z), f2, skip_boundary, budget)
                if not consistent(facts):
                    return 0
                und = clause_case(facts)
                if und is False:
                    return 0
                if und is None:
                    if vacuous(facts):
                        return 0
                    raise Mismatch('conditions differ', a, b, facts)
            return sum(equiv_bool(a, b, fact_cases(f)[0], skip_boundary, budget) for f in split_literal(und, facts))
        return 1
    a2, b2 = drop_decided(a, facts), drop_decided(b, facts)
    for kind, val in (('or', False), ('and', True)):
        pa = list(a2.args) if isinstance(a2, B) and a2.kind == kind else [a2]
        pb = list(b2.args) if isinstance(b2, B) and b2.kind == kind else [b2]
        if len(pa) + len(pb) < 3:
            continue
        common = [x for x in pa if any(beq_(x, y) for y in pb)]
        if common:
            # either some common part settles both sides, or all are settled
            f = facts
            for x in common:
                f = f.add(x if val else b_not(x))
            mk = b_or if kind == 'or' else b_and
            return equiv_bool(mk(*[x for x in pa if not any(beq_(x, y) for y in common)]),
                              mk(*[x for x in pb if not any(beq_(x, y) for y in common)]), f, skip_boundary, budget)
    if not (beq_(a, a2) and beq_(b, b2)):
        return equiv_bool(a2, b2, facts, skip_boundary, budget)
    for x, t in ((a, ta), (b, tb)):
        if t is None:
            v, und = resolve_bool(x, facts)
            if und is None:
                und = pick_literal(v, facts)
            if not beq_(v, x):
                return equiv_bool(v if x is a else a, v if x is b else b, facts, skip_boundary, budget)
            if und is None:
                raise Unsupported('undecided condition %s' % show(x))
            n = 0
            for f in split_literal(und, facts):
                if skip_boundary and _boundary(f, facts):
                    continue
                n += equiv_bool(a, b, fact_cases(f)[0], skip_boundary, budget)
            return n


def drop_decided(b, facts):
    """b without the parts of a conjunction or disjunction facts decide."""
    if not isinstance(b, B):
        return b
    if b.kind == 'not':
        return b_not(drop_decided(b.args[0], facts))
    if b.kind not in ('and', 'or'):
        return b
    t = decide(b, facts)
    if t is not None:
        return t
    parts = []
    for x in b.args:
        t = decide(x, facts)
        parts.append(t if t is not None else drop_decided(x, facts))
    return (b_and if b.kind == 'and' else b_or)(*parts)


def beq_(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    return beq(a, b)


def resolve_bool(b, facts):
    """Resolve case atoms inside the literals of b."""
    if isinstance(b, bool):
        return b, None
    if not case_atoms(b):
        return b, None
    return resolve(b, facts)


def _init():
    PI()
    INF()


_init()

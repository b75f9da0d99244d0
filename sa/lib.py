"""Transfer functions for Python built-ins, numpy, math, strings, logging."""
import ast
import re
import string
from values import *
import alg
from interp import eta, guard_parts, PyDead, undef_free
import loops

CANON = {
    'scipy.ndimage.filters': 'scipy.ndimage', 'numpy.core': 'numpy', 'os.path': 'os.path',
    'numpy.lib': 'numpy',
}


def canon(p):
    for a, b in CANON.items():
        if p == a or p.startswith(a + '.'):
            return b + p[len(a):]
    return p


ALIAS = {
    'numpy.amax': 'numpy.max', 'numpy.amin': 'numpy.min', 'numpy.absolute': 'numpy.abs',
    'numpy.fabs': 'numpy.abs', 'math.fabs': 'numpy.abs', 'builtins.abs': 'numpy.abs',
    'math.sqrt': 'numpy.sqrt', 'math.log': 'numpy.log', 'math.exp': 'numpy.exp', 'math.sin': 'numpy.sin',
    'math.cos': 'numpy.cos', 'math.tan': 'numpy.tan', 'math.hypot': 'numpy.hypot', 'math.atan2': 'numpy.arctan2',
    'math.atan': 'numpy.arctan', 'math.isnan': 'numpy.isnan', 'math.isfinite': 'numpy.isfinite',
    'math.isinf': 'numpy.isinf', 'math.pow': 'numpy.power', 'numpy.float_power': 'numpy.power',
    'numpy.true_divide': 'numpy.divide', 'numpy.round': 'numpy.around', 'numpy.round_': 'numpy.around',
    'numpy.concatenate': 'numpy.concatenate', 'numpy.asfarray': 'numpy.array',
    'numpy.array': 'numpy.array', 'numpy.copy': 'numpy.array',
    'numpy.row_stack': 'numpy.vstack', 'scipy.linalg.norm': 'numpy.linalg.norm', 'scipy.linalg.inv': 'numpy.linalg.inv',
    'scipy.linalg.solve': 'numpy.linalg.solve', 'scipy.linalg.lstsq': 'numpy.linalg.lstsq',
    'math.copysign': 'numpy.copysign', 'numpy.bool_': 'numpy.bool', 'numpy.bool8': 'numpy.bool',
    'numpy.float_': 'numpy.float', 'numpy.float64': 'numpy.float', 'numpy.double': 'numpy.float',
    'numpy.linalg.linalg.LinAlgError': 'numpy.linalg.LinAlgError', 'numpy.fliplr': 'numpy.fliplr',
    'numpy.conjugate': 'numpy.conj', 'numpy.random.Generator.uniform': 'numpy.random.uniform',
    'math.degrees': 'numpy.degrees', 'math.radians': 'numpy.radians', 'numpy.deg2rad': 'numpy.radians',
    'numpy.alltrue': 'numpy.all', 'numpy.sometrue': 'numpy.any', 'copy.copy': 'copy.copy',
    'math.prod': 'numpy.prod', 'math.fsum': 'builtins.sum', 'numpy.empty_like': 'numpy.zeros_like',
    'operator.add': 'numpy.add', 'operator.mul': 'numpy.multiply', 'operator.sub': 'numpy.subtract',
    'operator.truediv': 'numpy.divide', 'operator.neg': 'numpy.negative', 'operator.pow': 'numpy.power',
    'matplotlib.pylab': 'matplotlib.pyplot', 'math.dist': 'math.dist',
}


def ext(path):
    path = ALIAS.get(path, path)
    if path in ('numpy.pi', 'math.pi', 'scipy.pi', 'scipy.constants.pi'):
        return PI()
    if path in ('math.tau',):
        return PI() * R.const(2)
    if path in ('numpy.inf', 'math.inf', 'numpy.Inf', 'numpy.infty', 'numpy.PINF'):
        return INF()
    if path in ('numpy.NINF',):
        return -INF()
    if path in ('numpy.nan', 'math.nan', 'numpy.NaN', 'numpy.NAN'):
        return NAN()
    if path == 'numpy.newaxis':
        return None
    if path == 'math.e' or path == 'numpy.e':
        return sym('e', pos=True)
    if path == 'sys.float_info.epsilon':
        return EPSM()
    return ExtV(path)


def NAN():
    return R.atom(get_app('nan', ())[0])


def EPSM():
    return sym('eps', pos=True)


BUILTINS = set('''abs min max sum len range enumerate zip map filter sorted reversed list tuple dict set int float
bool str repr round print isinstance type hasattr getattr setattr any all divmod pow input open super callable iter
next id format object property staticmethod classmethod frozenset complex bytes issubclass vars locals globals exit
quit hash chr ord slice __import__ NotImplemented BaseException profile'''.split()) | set(EXC_TREE)


def builtin(name):
    if name in BUILTINS and name not in ('profile',):
        return ext('builtins.' + name)
    return None


# --------------------------------------------------------------------------
# arrays
# --------------------------------------------------------------------------
def rank(v):
    """Array rank, or None for a non-array (scalar: 0)."""
    if isinstance(v, VecV):
        return 1 + max([rank(x) or 0 for x in v.items] or [0])
    if isinstance(v, Arr):
        return len(v.ks) + (rank(v.body) or 0 if isinstance(v.body, (VecV, Arr)) else 0)
    if isinstance(v, R):
        a = v.single()
        if a is not None and a.ndim:
            return a.ndim
        return 0
    if isinstance(v, (B, bool)):
        return 0
    return None


def is_boolish(v):
    if isinstance(v, (bool, B)):
        return True
    if isinstance(v, R):
        a = v.single()
        return a is not None and a.boolean
    return False


def as_arr(v):
    """v as an element-wise array value."""
    if isinstance(v, Arr):
        if isinstance(v.body, (VecV, TupleV)) and v.tag != 'seq':
            inner = as_arr(v.body)
            return Arr(v.shape + inner.shape, v.ks + inner.ks, inner.body)
        if isinstance(v.body, Arr):
            return Arr(v.shape + v.body.shape, v.ks + v.body.ks, v.body.body)
        return v
    if isinstance(v, (VecV, TupleV)):
        n = len(v.items)
        k = fresh_atom('i', integer=True, nonneg=True)
        if n and all(rank(x) for x in v.items):
            subs = [as_arr(x) for x in v.items]
            ks = [fresh_atom('i', integer=True, nonneg=True) for _ in subs[0].ks]
            bodies = [subst(s.body, {a.id: R.atom(b) for a, b in zip(s.ks, ks)}) for s in subs]
            return Arr((R.const(n),) + subs[0].shape, (k,) + tuple(ks), select(bodies, R.atom(k)))
        return Arr((R.const(n),), (k,), select(list(v.items), R.atom(k)) if n else R.const(0))
    if isinstance(v, R):
        a = v.single()
        if a is not None and a.op == 'ite' and (rank(a.args[1]) or rank(a.args[2])):
            x, y = as_arr(a.args[1]), as_arr(a.args[2])
            return ite(a.args[0], x, y)
        if a is not None and a.op == 'mT' and a.ndim == 2:
            x = as_arr(a.args[0])
            return Arr(tuple(reversed(x.shape)), tuple(reversed(x.ks)), x.body)
        if a is not None and a.ndim:
            ks = [fresh_atom('i', integer=True, nonneg=True) for _ in range(a.ndim)]
            shape = a.shape or tuple([mk_len(v)] + [None] * (a.ndim - 1))
            e = idx(v, *[R.atom(k) for k in ks])
            if a.boolean:
                e = b_atom(e)
            return Arr(shape, ks, e)
    if isinstance(v, Gamma):
        return ite(v.cond, as_arr(v.a), as_arr(v.b))
    raise Unsupported('not an array: %s' % type(v).__name__)


def merge_masked(c, a, b):
    """Merge of a[mask] with another selection of an array of the same shape."""
    if not isinstance(a, MaskedV) and not isinstance(b, MaskedV):
        return None
    try:
        m = [v if isinstance(v, MaskedV) else MaskedV(as_arr(v), None) for v in (a, b)]
    except Unsupported:
        return None
    x, y = m
    if len(x.arr.ks) != 1 or len(y.arr.ks) != 1 or not veq(x.arr.shape[0], y.arr.shape[0]):
        return None
    k = x.arr.ks[0]
    kr = R.atom(k)
    e = [x.arr.body, subst(y.arr.body, {y.arr.ks[0].id: kr})]
    w = [True if v.mask is None else subst(tobool(v.mask.body), {v.mask.ks[0].id: kr}) for v in m]
    # a selection made only where it drops something is that selection
    n = x.arr.shape[0]
    drops = [b_or(*[mk_exists(n, k, b_not(v))]) if v is not True else False for v in w]
    if w[1] is True and beq(c, drops[0]) and veq(e[0], e[1]):
        return MaskedV(Arr((n,), (k,), e[0]), Arr((n,), (k,), w[0]))
    if w[0] is True and beq(c, b_not(drops[1])) and veq(e[0], e[1]):
        return MaskedV(Arr((n,), (k,), e[0]), Arr((n,), (k,), w[1]))
    return MaskedV(Arr((n,), (k,), alg.ite(c, *e)), Arr((n,), (k,), b_or(b_and(c, w[0]), b_and(b_not(c), w[1]))))


alg.MERGE_HOOK[0] = merge_masked


def select(items, i):
    r = items[-1]
    for j in range(len(items) - 2, -1, -1):
        c = mk_cmp(i - R.const(j), '==')
        r = ite(c, items[j], r)
    return r


def small(v, limit=64):
    """An array of a few elements, listed."""
    if isinstance(v, Arr) and v.tag is None and v.shape and not isinstance(v.body, (VecV, TupleV, Arr, Gamma)):
        n = 1
        for d in v.shape:
            if not (isinstance(d, R) and d.is_const()) or d.value() < 1 or d.value().denominator != 1:
                return v
            n *= int(d.value())
            if n > limit:
                return v

        def go(ax, m):
            if ax == len(v.shape):
                return subst(v.body, m)
            return VecV([go(ax + 1, {**m, v.ks[ax].id: R.const(i)}) for i in range(int(v.shape[ax].value()))])
        return go(0, {})
    return v


def lift(f, *vals):
    """Element-wise application with numpy broadcasting."""
    for i, v in enumerate(vals):
        if isinstance(v, Gamma):
            va, vb = list(vals), list(vals)
            va[i], vb[i] = v.a, v.b
            return ite(v.cond, lift(f, *va), lift(f, *vb))
    for i, v in enumerate(vals):
        if isinstance(v, MaskedV):
            def app(x):
                vs = list(vals)
                vs[i] = x
                for j, w in enumerate(vs):
                    if isinstance(w, MaskedV):
                        vs[j] = w.arr
                return lift(f, *vs)
            return MaskedV(as_arr(app(v.arr)), v.mask)
    rs = [rank(v) for v in vals]
    if any(r is None for r in rs):
        bad = [v for v, r in zip(vals, rs) if r is None][0]
        raise Unsupported('arithmetic on %s' % type(bad).__name__)
    m = max(rs)
    if m == 0:
        return f(*vals)
    if any(isinstance(v, VecV) for v in vals) and any(isinstance(v, Arr) for v in vals):
        vals = [small(v) for v in vals]
    if all(isinstance(v, VecV) or r == 0 for v, r in zip(vals, rs)):
        n = max(len(v.items) for v, r in zip(vals, rs) if r == m)
        out = []
        for i in range(n):
            xs = []
            for v, r in zip(vals, rs):
                if r < m:
                    xs.append(v)
                else:
                    xs.append(v.items[i] if len(v.items) > 1 or n == 1 else v.items[0])
            out.append(lift(f, *xs))
        return VecV(out)
    arrs = [as_arr(v) if r else v for v, r in zip(vals, rs)]
    m = max(len(a.ks) for a, r in zip(arrs, rs) if r)
    ks = [fresh_atom('i', integer=True, nonneg=True) for _ in range(m)]
    shape = [None] * m
    xs = []
    for a, r in zip(arrs, rs):
        if not r:
            xs.append(a)
            continue
        off = m - len(a.ks)
        sub = {}
        for j, (s, k) in enumerate(zip(a.shape, a.ks)):
            one = isinstance(s, R) and s.is_const() and s.value() == 1
            cur = shape[off + j]
            if one:
                others = any(isinstance(b, Arr) and len(b.ks) >= m - off - j and not (
                    isinstance(b.shape[len(b.ks) - (m - off - j)], R)
                    and b.shape[len(b.ks) - (m - off - j)].is_const()
                    and b.shape[len(b.ks) - (m - off - j)].value() == 1)
                    for b, rb in zip(arrs, rs) if rb)
                if others:
                    sub[k.id] = R.const(0)
                    continue
            if cur is None:
                shape[off + j] = s
            sub[k.id] = R.atom(ks[off + j])
        xs.append(subst(a.body, sub))
    body = f(*xs)
    r = Arr(shape, ks, body)
    if any(isinstance(v, VecV) for v in vals) and m == 1 and isinstance(shape[0], R) and shape[0].is_const() \
            and shape[0].value() <= 12:
        return VecV([subst(body, {ks[0].id: R.const(i)}) for i in range(int(shape[0].value()))])
    return eta(r)


def flatten_items(v):
    out = []
    for x in v.items:
        out.extend(flatten_items(x) if isinstance(x, (VecV, TupleV)) else [x])
    return out


def to_array(I, v, st, node=None):
    """np.array(v): an immutable array value."""
    v = I.deref(v, st)
    if isinstance(v, (VecV, Arr)):
        if isinstance(v, Arr) and v.tag == 'seq':
            return as_arr(Arr(v.shape, v.ks, to_array(I, v.body, st) if isinstance(v.body, (TupleV, Ref, ListV)) else v.body))
        return v
    if isinstance(v, Gamma):
        return ite(v.cond, to_array(I, v.a, st), to_array(I, v.b, st))
    if isinstance(v, (R, B, bool)):
        a = v.single() if isinstance(v, R) else None
        if a is not None and a.ndim is None and (a.op in ('sym', 'idx') and (a.meta == 'seq' or isinstance(a.meta, dict))):
            cols = a.meta.get('cols') if isinstance(a.meta, dict) else None
            k = fresh_atom('i', integer=True, nonneg=True)
            if cols:
                j = fresh_atom('i', integer=True, nonneg=True)
                return Arr((mk_len(v), R.const(cols)), (k, j), idx(v, R.atom(k), R.atom(j)))
            return Arr((mk_len(v),), (k,), idx(v, R.atom(k)))
        return v
    if isinstance(v, Ref) or isinstance(v, (TupleV, ListV)):
        parts = I.seq(v, st)
        if all(p[0] == 'item' and p[1] is True for p in parts):
            return VecV([to_array(I, p[2], st) for p in parts])
        if len(parts) == 1 and parts[0][0] == 'sym':
            return to_array(I, parts[0][1], st)
        if len(parts) == 1 and parts[0][0] == 'comp':
            _, n, k, c, inner = parts[0]
            ip = inner.parts
            if len(ip) == 1 and ip[0][0] == 'item' and c is True and ip[0][1] is True:
                body = to_array(I, ip[0][2], st)
                k2 = fresh_atom('i', integer=True, nonneg=True)
                body = subst(body, {k.id: R.atom(k2)})
                return as_arr(Arr((n,), (k2,), body))
            if len(ip) == 1 and ip[0][0] == 'item':
                body = to_array(I, ip[0][2], st)
                k2 = fresh_atom('i', integer=True, nonneg=True)
                sb = {k.id: R.atom(k2)}
                cc = b_and(c, ip[0][1])
                if not isinstance(body, (VecV, Arr)):
                    return MaskedV(Arr((n,), (k2,), subst(body, sb)), Arr((n,), (k2,), subst(cc, sb)))
        if len(parts) > 1 and all(p[0] in ('item', 'sym') and p[1] is not False and (p[0] == 'sym' or p[1] is True) or p[0] == 'comp' and
                                  p[3] is True and isinstance(p[4], ListV) and len(p[4].parts) == 1 and p[4].parts[0][0] == 'item' and
                                  p[4].parts[0][1] is True for p in parts):
            fz = ListV([I.freeze_part(p, st, ()) for p in parts])
            k2 = fresh_atom('i', integer=True, nonneg=True)
            e = I.elem(fz, R.atom(k2))
            w = width_of(e)
            if w is not None:
                j = fresh_atom('j', integer=True, nonneg=True)
                cols = [as_r(I.elem(e, R.const(q))) for q in range(w)]
                body = cols[-1]
                for q in range(w - 1)[::-1]:
                    body = ite(mk_cmp(R.atom(j) - R.const(q), '=='), cols[q], body)
                return Arr((I.length(fz, st), R.const(w)), (k2, j), body)
            if isinstance(e, R) and not rank(e):
                return Arr((I.length(fz, st),), (k2,), e)
        fz = I.freeze(v, st)
        at, _ = get_app('nparray', (fz,))
        at.ndim = 1
        at.shape = (I.length(v, st),)
        return R.atom(at)
    raise Unsupported('%s: np.array of %s' % (I.where(node), type(v).__name__))


def width_of(e):
    """The number of columns of a row, where it is known."""
    if isinstance(e, (TupleV, VecV)):
        return len(e.items)
    if isinstance(e, Gamma):
        a, b = width_of(e.a), width_of(e.b)
        return a if a == b else None
    if isinstance(e, R) and e.single() is not None:
        a = e.single()
        if a.op == 'ite':
            x, y = width_of(a.args[1]), width_of(a.args[2])
            return x if x == y else None
        if a.op == 'idx' and len(a.args) == 2 and isinstance(a.args[0], R) and a.args[0].single() is not None:
            return row_width(a.args[0].single())
    return None


def row_width(s):
    """Columns of the rows of a sequence."""
    if isinstance(s.meta, dict):
        return s.meta.get('cols') or s.meta.get('width')
    return alg.ROWS.get(s.id)


def size_of(v):
    if isinstance(v, VecV):
        return R.const(len(flatten_items(v)))
    if isinstance(v, MaskedV):
        return masked_len(v)
    a = as_arr(v)
    t = R.const(1)
    for s in a.shape:
        if s is None:
            return R.atom(get_app('size', (v,))[0])
        t = t * s
    return t


def masked_len(v):
    e = alg.ite(tobool(v.mask.body), R.const(1), R.const(0))
    for k, n in reversed(list(zip(v.mask.ks, v.mask.shape))):
        e = mk_sum(n, k, e)
    return e


def shape_of(v):
    if isinstance(v, MaskedV):
        return (masked_len(v),)
    if isinstance(v, VecV):
        inner = shape_of(v.items[0]) if v.items and isinstance(v.items[0], (VecV, Arr)) else ()
        return (R.const(len(v.items)),) + inner
    if isinstance(v, Arr):
        return as_arr(v).shape
    if isinstance(v, R):
        a = v.single()
        if a is not None and a.shape:
            return tuple(a.shape)
        if a is not None and a.ndim == 1:
            return (mk_len(v),)
    return ()


def shape_arg(I, v, st):
    v = I.deref(v, st)
    if isinstance(v, R) and not rank(v):
        a = v.single()
        return [v]
    if isinstance(v, VecV):
        return [as_r(x) for x in v.items]
    return [as_r(p[2]) for p in I.seq(v, st)]


def full_array(dims, val):
    if all(d.is_const() and d.value() <= 12 for d in dims) and len(dims) == 1:
        return VecV([val] * int(dims[0].value()))
    ks = [fresh_atom('i', integer=True, nonneg=True) for _ in dims]
    return Arr(dims, ks, val)


# --------------------------------------------------------------------------
# arithmetic
# --------------------------------------------------------------------------
def num(v):
    if isinstance(v, R):
        return v
    return as_r(v)


def scalar_op(op, a, b):
    if op in ('BitAnd', 'BitOr', 'BitXor') and (is_boolish(a) or is_boolish(b)):
        a, b = tobool(a), tobool(b)
        if op == 'BitAnd':
            return b_and(a, b)
        if op == 'BitOr':
            return b_or(a, b)
        return b_or(b_and(a, b_not(b)), b_and(b_not(a), b))
    a, b = num(a), num(b)
    if op == 'Add':
        return a + b
    if op == 'Sub':
        return a - b
    if op == 'Mult':
        return a * b
    if op == 'Div':
        if not b.num:
            return R.atom(get_app('div0', (a,))[0])
        return a / b
    if op == 'Pow':
        return mk_pow(a, b)
    if op == 'FloorDiv':
        return mk_floor(a / b)
    if op == 'Mod':
        return a - b * mk_floor(a / b)
    raise Unsupported('operator %s' % op)


def tobool(v):
    if isinstance(v, (bool, B)):
        return v
    if isinstance(v, R):
        if v.is_const():
            return v.value() != 0
        a = v.single()
        if a is not None and a.boolean:
            return b_atom(v)
        if a is not None and a.op == 'ite':
            return b_or(b_and(a.args[0], tobool(a.args[1])), b_and(b_not(a.args[0]), tobool(a.args[2])))
        if a is not None and a.op == 'sym' and (a.meta == 'seq' or isinstance(a.meta, dict)):
            return mk_cmp(mk_len(v), '>')
        return b_not(mk_cmp(v, '=='))
    raise Unsupported('boolean of %s' % type(v).__name__)


def is_text(v):
    return isinstance(v, (str, StrV))


def binop(I, op, a, b, st, node):
    if isinstance(a, Gamma) and rank(a) is None:
        return I.fork_value(a.cond, st, lambda s: binop(I, op, I.deref(a.a, s), b, s, node),
                            lambda s: binop(I, op, I.deref(a.b, s), b, s, node))
    if isinstance(b, Gamma) and rank(b) is None:
        return I.fork_value(b.cond, st, lambda s: binop(I, op, a, I.deref(b.a, s), s, node),
                            lambda s: binop(I, op, a, I.deref(b.b, s), s, node))
    if is_text(a) and op == 'Mod':
        return percent(I, a, b, st)
    if is_text(a) and is_text(b) and op == 'Add':
        return mkstr(list(parts_of(a)) + list(parts_of(b)))
    if op == 'Mult' and (is_text(a) or is_text(b)):
        t, n = (a, b) if is_text(a) else (b, a)
        n = num(n)
        if n.is_const() and isinstance(t, str):
            return t * int(n.value())
        return StrV([('rep', t if isinstance(t, StrV) else StrV([t]), n)])
    if op == 'Add' and is_text(a) and isinstance(b, R):
        return mkstr(list(parts_of(a)) + [('fmt', b, '', '')])
    if op == 'Add' and is_text(b) and isinstance(a, R):
        return mkstr([('fmt', a, '', '')] + list(parts_of(b)))
    la, lb = is_list(a, st), is_list(b, st)
    if op == 'Add' and la and lb:
        parts = tuple(I.seq(a, st)) + tuple(I.seq(b, st))
        if isinstance(a, TupleV) and isinstance(b, TupleV):
            return TupleV(a.items + b.items)
        return I.new_ref(st, ListC(parts))
    if op == 'Mult' and (la or lb) and not (la and lb):
        l, n = (a, b) if la else (b, a)
        n = num(n)
        parts = tuple(I.seq(l, st))
        if n.is_const():
            parts = parts * max(0, int(n.value()))
        else:
            k = fresh_atom('k', integer=True, nonneg=True)
            parts = (('comp', mk_max(R.const(0), n), k, True, ListV(parts)),)
        if isinstance(l, TupleV) and all(p[0] == 'item' for p in parts):
            return TupleV([p[2] for p in parts])
        return I.new_ref(st, ListC(parts))
    if isinstance(a, (FuncV, ExtObj)) or isinstance(b, ExtObj):
        r = R.atom(get_app('extop:' + op, (opq(a), opq(b)))[0])
        return r
    if op == 'MatMult':
        return matmul(I, a, b, st)
    if la:
        a = to_array(I, a, st) if rank(b) else a
    if lb:
        b = to_array(I, b, st) if rank(a) else b
    if isinstance(a, Ref) and isinstance(st.heap.get(a.id), ObjC):
        dn = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__', 'Div': '__truediv__'}.get(op)
        return I.call(I.getattr(a, dn, st, node), [b], {}, st, node)
    try:
        return lift(lambda x, y: scalar_op(op, x, y), a, b)
    except Unsupported as e:
        if str(e).startswith('arithmetic on'):
            raise Unsupported('%s: %s' % (I.where(node), e))
        raise


def opq(v):
    """An opaque numeric stand-in usable as an atom argument."""
    return v


def is_list(v, st):
    return isinstance(v, (TupleV, ListV)) or (isinstance(v, Ref) and isinstance(st.heap.get(v.id), ListC))


REL = {'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>=', 'Eq': '==', 'NotEq': '!='}


def compare(I, op, a, b, st, node):
    a0, b0 = I.deref(a, st), I.deref(b, st)
    if isinstance(a0, Gamma) and rank_g(a0) is None:
        return ite(a0.cond, compare(I, op, a0.a, b, st, node), compare(I, op, a0.b, b, st, node))
    if isinstance(b0, Gamma) and rank_g(b0) is None:
        return ite(b0.cond, compare(I, op, a, b0.a, st, node), compare(I, op, a, b0.b, st, node))
    if op in ('Is', 'IsNot'):
        r = is_same(I, a, b, st)
        return b_not(r) if op == 'IsNot' else r
    if op in ('In', 'NotIn'):
        r = member(I, a, b, st, node)
        return b_not(r) if op == 'NotIn' else r
    if op in ('Eq', 'NotEq') and not (rank(a0) is not None and rank(b0) is not None):
        r = same_value(I, a0, b0, st)
        return b_not(r) if op == 'NotEq' else r
    if is_text(a0) or is_text(b0):
        return b_atom(R.atom(get_app('strcmp:' + op, (a0, b0))[0]))
    if is_list(a0, st) and rank(b0):
        a0 = to_array(I, a0, st)
    if is_list(b0, st) and rank(a0):
        b0 = to_array(I, b0, st)

    def f(x, y):
        if REL[op] in ('==', '!=') and (is_boolish(x) and is_boolish(y)):
            x, y = tobool(x), tobool(y)
            r = b_or(b_and(x, y), b_and(b_not(x), b_not(y)))
            return b_not(r) if op == 'NotEq' else r
        x, y = num(x), num(y)
        if has_nan(x) or has_nan(y):
            return op == 'NotEq'
        if alg.NONFINITE[0] and op in ('Eq', 'NotEq') and r_eq(x, y) and any(a.op in ('V0', 'V1') for a in alg.all_atoms(x)):
            nan = b_atom(R.atom(get_app('isnan', (x,))[0]))       # only NaN differs from itself
            return nan if op == 'NotEq' else b_not(nan)
        return mk_cmp(x - y, REL[op])
    return lift(f, a0, b0)


def has_nan(x):
    """x is an arithmetic expression with NaN as an operand."""
    return any(alg.ATOMS[i].op == 'nan' for i in alg.p_atoms(x.num) | alg.p_atoms(x.den))


def rank_g(v):
    return rank(v.a) if not isinstance(v.a, Gamma) else rank_g(v.a)


TYPE_EQ = {}


def is_same(I, a, b, st):
    if a is None and b is None:
        return True
    if a is None or b is None:
        x = b if a is None else a
        if isinstance(x, Gamma):
            return b_or(b_and(x.cond, is_same(I, x.a, None, st)), b_and(b_not(x.cond), is_same(I, x.b, None, st)))
        if isinstance(x, R) and x.single() is not None and x.single().op in ('sym', 'idx', 'callv', 'app') \
                and x.single().ndim is None and (x.single().name or '').startswith('μ:'):
            return b_atom(R.atom(get_app('isnone', (x,))[0]))
        if isinstance(x, R) and x.single() is not None and x.single().meta == 'maybe_none':
            return b_atom(R.atom(get_app('isnone', (x,))[0]))
        return False
    if isinstance(a, TypeOf) or isinstance(b, TypeOf):
        t, c = (a, b) if isinstance(a, TypeOf) else (b, a)
        return isinstance_(I, t.v, c, st)
    if isinstance(a, (bool, B)) and isinstance(b, (bool, B)):
        return b_or(b_and(a, b), b_and(b_not(a), b_not(b)))
    if isinstance(a, bool) or isinstance(b, bool):
        x, y = (a, b) if isinstance(b, bool) else (b, a)
        if isinstance(x, R):
            t = tobool(x)
            return t if y else b_not(t)
    if isinstance(a, R) and isinstance(b, R):
        return mk_cmp(a - b, '==')
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.id == b.id
    return veq(a, b)


class TypeOf:
    def __init__(self, v):
        self.v = v


def same_value(I, a, b, st):
    if isinstance(a, TypeOf) or isinstance(b, TypeOf):
        return is_same(I, a, b, st)
    if a is None or b is None:
        return is_same(I, a, b, st)
    if is_text(a) and is_text(b):
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        return True if veq(a, b) else b_atom(R.atom(get_app('streq', (a, b))[0]))
    if is_text(a) or is_text(b):
        x = b if is_text(a) else a
        if isinstance(x, R) and x.single() is not None:
            t = a if is_text(a) else b
            return b_atom(R.atom(get_app('streq', (x, t))[0]))
        return False
    if is_list(a, st) and is_list(b, st):
        pa, pb = I.seq(a, st), I.seq(b, st)
        if all(p[0] == 'item' and p[1] is True for p in pa + pb):
            if len(pa) != len(pb):
                return False
            return b_and(*[same_value(I, I.deref(p[2], st), I.deref(q[2], st), st) for p, q in zip(pa, pb)])
    if isinstance(a, (R, B, bool)) and isinstance(b, (R, B, bool)):
        return mk_cmp(num(a) - num(b), '==')
    fa, fb = I.freeze(a, st), I.freeze(b, st)
    if veq(fa, fb):
        return True
    if isinstance(a, (FuncV, ClassV, ExtV, ModV)) or isinstance(b, (FuncV, ClassV, ExtV, ModV)):
        return False
    return b_atom(R.atom(get_app('eq', (fa, fb))[0]))


def present(v):
    """When the entry of a dictionary exists."""
    if v is UNDEF:
        return False
    if isinstance(v, Gamma) and (v.a is UNDEF or v.b is UNDEF):
        return b_and(v.cond, present(v.a)) if v.b is UNDEF else b_and(b_not(v.cond), present(v.b))
    return True


def element(v):
    """(sequence, index) of an element of an input sequence."""
    v = v.single() if isinstance(v, R) else None
    return (v.args[0], v.args[1]) if v is not None and v.op == 'idx' and len(v.args) == 2 else None


def among(a, parts, deref):
    """Is the element a of a sequence among chosen elements of that sequence?
    When the choice depends on the values of an element only, it is iff it
    would be chosen itself.  Returns (when that is so, the choice) or None."""
    me = element(a)
    if me is None or not any(p[0] == 'comp' for p in parts):
        return None
    where, chosen, tests, others = [], [], [], []
    for p in parts:
        if p[0] == 'item':
            it = element(deref(p[2]))
            if it is None or not veq(it[0], me[0]):
                return None
            others.append((p[1], it[1]))
            continue
        if p[0] != 'comp' or not isinstance(p[4], ListV) or len(p[4].parts) != 1 or p[4].parts[0][0] != 'item':
            return None
        k, cond = p[2], b_and(p[3], p[4].parts[0][1])
        it = element(deref(p[4].parts[0][2]))
        if it is None or not veq(it[0], me[0]):
            return None
        off = it[1] - R.atom(k)
        if any(x.id == k.id for x in alg.all_atoms(off)):
            return None

        def test(at, k=k, cond=cond, it=it):
            m = {x.id: alg.idx(it[0], at, *x.args[2:]) for x in alg.all_atoms(cond)
                 if x.op == 'idx' and isinstance(x.args[0], R) and veq(x.args[0], it[0]) and veq(x.args[1], it[1])}
            r = subst(cond, m)
            return None if any(x.id == k.id for x in alg.all_atoms(r)) else r
        r = test(me[1])
        if r is None:
            return None
        tests.append(test)
        chosen.append(r)
        n = p[1] if isinstance(p[1], R) else R.const(p[1])
        where.append(b_and(mk_cmp(me[1] - off, '>='), mk_cmp(n - me[1] + off, '>')))
    for c, i in others:     # a single element that would be chosen as well adds nothing
        if c is True and any(t(i) is True for t in tests):
            continue
        return None
    return b_and(*where), b_or(*chosen)


def member(I, a, b, st, node):
    if isinstance(b, Ref) and isinstance(st.heap.get(b.id), DictC):
        return b_or(*[b_and(same_value(I, a, k, st), present(v)) for k, v in st.heap[b.id].items])
    if is_text(b):
        if isinstance(a, str) and isinstance(b, str):
            return a in b
        return b_atom(R.atom(get_app('strin', (a, b))[0]))
    if isinstance(b, ExtObj):
        return b_atom(R.atom(get_app('in', (a, b))[0]))
    parts = I.seq(b, st, node)
    r = among(I.deref(a, st), parts, lambda x: I.deref(x, st))
    if r is not None:
        return ite(r[0], r[1], b_atom(R.atom(get_app('in', (I.freeze(a, st), I.freeze(b, st)))[0])))
    out = []
    for p in parts:
        if p[0] == 'item':
            if isinstance(a, Ref) and isinstance(p[2], Ref) and a.id == p[2].id:
                out.append(p[1])
                continue
            out.append(b_and(p[1], same_value(I, I.deref(a, st), I.deref(p[2], st), st)))
        else:
            return b_atom(R.atom(get_app('in', (I.freeze(a, st), I.freeze(b, st)))[0]))
    return b_or(*out)


# --------------------------------------------------------------------------
# subscripts
# --------------------------------------------------------------------------
def getitem(I, o, i, st, node):
    if isinstance(o, Gamma) and not (rank(I.deref(o, st)) is not None and isinstance(I.deref(o, st), (R, VecV, Arr))):
        return I.fork_value(o.cond, st, lambda s: getitem(I, o.a, i, s, node), lambda s: getitem(I, o.b, i, s, node))
    if isinstance(i, Gamma):
        return I.fork_value(i.cond, st, lambda s: getitem(I, o, i.a, s, node), lambda s: getitem(I, o, i.b, s, node))
    if isinstance(o, Ref):
        h = st.heap.get(o.id)
        if isinstance(h, DictC):
            r = UNDEF
            for k, v in sorted(h.items, key=lambda x: veq(x[0], i)):       # an exact match decides last
                c = same_value(I, I.deref(i, st), k, st) if not (isinstance(i, str) and isinstance(k, str)) else i == k
                c = b_and(c, present(v))
                if c is True:
                    return undef_free(v)
                if c is False:
                    continue
                r = undef_free(v) if r is UNDEF else I.merge_vals(c, undef_free(v), r)
            if r is UNDEF:
                e = I.make_exc(st, ExtV('builtins.KeyError'), [i])
                I.raise_exc(st, e)
                raise PyDead()
            return undef_free(r)
        if isinstance(h, ListC):
            return list_item(I, ListV(h.parts), I.deref(i, st), st, node, mutable=True)
        if isinstance(h, ObjC):
            m = I.getattr(o, '__getitem__', st, node)
            return I.call(m, [i], {}, st, node)
    v = I.deref(o, st)
    i = I.deref(i, st)
    if isinstance(v, (TupleV, ListV)):
        return list_item(I, v, i, st, node)
    if isinstance(v, Arr) and v.tag == 'seq':
        if isinstance(i, R):
            return I.elem(v, i)
        if isinstance(i, SliceV):
            return arr_index(I, v, (i,), st, node)
    if isinstance(v, R) and v.single() is not None and not v.single().ndim:
        a = v.single()
        if isinstance(i, R):
            if i.is_const() and i.value() < 0:
                i = mk_len(v) + i
            return I.elem(v, i)
        if isinstance(i, SliceV):
            return slice_seq(I, v, i, st)
        if isinstance(i, TupleV) and not any(isinstance(x, SliceV) or x is None for x in i.items):
            r = v
            for x in i.items:
                r = I.elem(r, num(x))
            return r
        if isinstance(i, TupleV):
            ai = a
            ai.ndim = len([x for x in i.items if x is not None])
            return I.wrap(arr_index(I, v, i.items, st, node), st)
        if is_text(i):
            return R.atom(get_app('idx', (v, i))[0])
        if rank(i):
            m = as_arr(i)
            if is_boolish(m.body):
                ar = Arr((mk_len(v),), m.ks, idx(v, *[R.atom(k) for k in m.ks]))
                return MaskedV(ar, m)
            return Arr(m.shape, m.ks, I.elem(v, num(m.body)))
    if isinstance(v, (VecV, Arr)) or (isinstance(v, R) and rank(v)):
        ix = i.items if isinstance(i, TupleV) else (i,)
        r = arr_index(I, v, ix, st, node)
        if isinstance(o, Ref) and isinstance(st.heap.get(o.id), ArrC) and all(
                x is None or x is ELLIPSIS or isinstance(x, SliceV) or isinstance(x, R) and not rank(x) for x in ix) \
                and (rank(r) or isinstance(r, (VecV, Arr))):
            return I.link(st, o, r, lambda I, st, b: I.deref(arr_index(I, b, ix, st, node), st),
                          lambda I, st, b, x: arr_store(I, b, TupleV(ix), x, st, node))
        return I.wrap(r, st)
    if isinstance(v, MaskedV):
        return R.atom(get_app('item', (I.freeze(v.arr, st), I.freeze(v.mask, st), I.freeze(i, st)))[0])
    if is_text(v):
        if isinstance(v, str) and isinstance(i, R) and i.is_const():
            return v[int(i.value())]
        return StrV([('sub', v if isinstance(v, StrV) else StrV([v]), show(i))])
    if isinstance(v, ExtObj):
        r = get_app('extitem', (v, I.freeze(i, st)))[0]
        return R.atom(r)
    if isinstance(v, (ClassV, ExtV)):
        return v
    raise Unsupported('%s: subscript of %s' % (I.where(node), type(v).__name__))


def list_item(I, v, i, st, node, mutable=False):
    if isinstance(i, SliceV):
        r = slice_seq(I, v, i, st)
        if mutable and not isinstance(r, Ref):
            return I.new_ref(st, ListC(I.seq(r, st)))
        return r
    if isinstance(i, (bool, B)):
        i = num(i)
    if not isinstance(i, R):
        raise Unsupported('%s: list index' % I.where(node))
    try:
        return I.elem(v, i)
    except Unsupported as e:
        if 'out of range' in str(e):
            x = I.make_exc(st, ExtV('builtins.IndexError'), [])
            I.raise_exc(st, x)
            raise PyDead()
        raise


def slice_bounds(s, n):
    """(lo, length, step) of slice s over length n; step const."""
    step = num(s.step) if s.step is not None else R.const(1)
    if not step.is_const() or step.value() == 0:
        raise Unsupported('slice step')
    sv = int(step.value())

    def norm(x, d):
        if x is None:
            return d
        x = num(x)
        if x.is_const() and x.value() < 0:
            return n + x
        if mk_cmp(x, '<') is True and not x.is_const():
            return n + x
        return x
    if sv > 0:
        lo, hi = norm(s.lo, R.const(0)), norm(s.hi, n)
        ln = hi - lo
        if sv != 1:
            ln = mk_ceil(ln / R.const(sv))
    else:
        lo, hi = norm(s.lo, n - R.const(1)), norm(s.hi, R.const(-1)) if s.hi is not None else R.const(-1)
        ln = lo - hi
        if sv != -1:
            ln = mk_ceil(ln / R.const(-sv))
    if ln.is_const():
        ln = R.const(max(0, ln.value()))
    else:
        ln = mk_max(R.const(0), ln)
    return lo, ln, sv


def slice_seq(I, v, s, st):
    parts = I.seq(v, st)
    if all(p[0] == 'item' and p[1] is True for p in parts):
        bs = []
        for x in (s.lo, s.hi, s.step):
            if x is None:
                bs.append(None)
            else:
                x = num(x)
                if not x.is_const():
                    bs = None
                    break
                bs.append(int(x.value()))
        if bs is not None:
            vals = [p[2] for p in parts][slice(*bs)]
            if isinstance(v, VecV):
                return VecV(vals)
            if isinstance(v, TupleV):
                return TupleV(vals)
            return ListV([('item', True, x) for x in vals])
    if s.lo is None and s.hi is None and s.step is None:
        return v
    a = v.single() if isinstance(v, R) else None
    if a is not None and s.step is None and s.hi is not None:
        lo = num(s.lo) if s.lo is not None else R.const(0)
        hi = num(s.hi)
        if lo.is_const() and hi.is_const() and 0 <= lo.value() <= hi.value() <= 12:
            # a short record prefix
            return TupleV([I.elem(v, R.const(i)) for i in range(int(lo.value()), int(hi.value()))])
    n = I.length(v, st)
    lo, ln, sv = slice_bounds(s, n)
    k = fresh_atom('k', integer=True, nonneg=True)
    # a suffix of a list whose head items are known
    if isinstance(v, ListV) and sv == 1 and s.hi is None and lo.is_const() and lo.value() >= 0:
        j = int(lo.value())
        if len(parts) >= j and all(p[0] == 'item' and p[1] is True for p in parts[:j]):
            return ListV(parts[j:])
    body = I.elem(v if not isinstance(v, Ref) else ListV(parts), lo + R.const(sv) * R.atom(k))
    return Arr((ln,), (k,), body, 'seq')


def positions(ix):
    """The boolean array M when the index tuple ix is np.nonzero(M)."""
    if not ix or not all(isinstance(x, MaskedV) and len(x.mask.ks) == len(ix) for x in ix):
        return None
    for ax, x in enumerate(ix):
        if not (isinstance(x.arr.body, R) and len(x.arr.ks) == len(ix) and x.arr.body.single() is x.arr.ks[ax]
                and veq(x.mask, ix[0].mask)):
            return None
    return ix[0].mask


def arr_index(I, v, ix, st, node):
    ix = [I.deref(x, st) for x in ix]
    m = positions(ix)
    if m is not None:
        ix = [m]
    n_real = len([x for x in ix if x is not None and x is not ELLIPSIS])
    if any(x is ELLIPSIS for x in ix):
        j = [x is ELLIPSIS for x in ix].index(True)
        fill = rank(v) - n_real
        ix = ix[:j] + [SliceV(None, None, None)] * fill + ix[j + 1:]
    if isinstance(v, VecV) and len(ix) >= 1:
        i0 = ix[0]
        if isinstance(i0, R) and not rank(i0):
            r = I.elem(v, i0)
            return arr_index(I, r, ix[1:], st, node) if len(ix) > 1 else r
        if isinstance(i0, SliceV) and len(ix) == 1:
            return slice_seq(I, v, i0, st)
        if isinstance(i0, SliceV) and all(x is None for x in (i0.lo, i0.hi, i0.step)) and all(
                isinstance(x, R) and not rank(x) for x in ix[1:]) and all(isinstance(y, VecV) for y in v.items):
            return VecV([arr_index(I, y, ix[1:], st, node) for y in v.items])
        if i0 is None and len(ix) == 2:
            return VecV([v])
    a = as_arr(v)
    ym = ix[0].single() if len(ix) == 1 and isinstance(ix[0], R) else None
    fl = v.single() if isinstance(v, R) else None
    if ym is not None and fl is not None and ym.op == fl.op == 'ravel' and rank(ym.args[0]) == rank(fl.args[0]):
        m = as_arr(ym.args[0])
        if is_boolish(m.body):      # in row-major order, as the unflattened selection
            return MaskedV(as_arr(fl.args[0]), Arr(m.shape, m.ks, tobool(m.body)))
    # boolean mask
    if len(ix) == 1 and rank(ix[0]) and rank(ix[0]) == len(a.ks):
        m = as_arr(ix[0])
        if is_boolish(m.body):
            return MaskedV(a, Arr(m.shape, m.ks, tobool(m.body)))
    if len(ix) == 1 and isinstance(ix[0], MaskedV):
        raise Unsupported('masked index')
    if len(ix) >= 1 and rank(ix[0]) == 1 and len(a.ks) >= 1 and not is_boolish(as_arr(ix[0]).body) and len(ix) == 1:
        m = as_arr(ix[0])
        sub = {a.ks[0].id: num(m.body)}
        return Arr(m.shape + a.shape[1:], m.ks + a.ks[1:], subst(a.body, sub))
    sub = {}
    shape, ks = [], []
    ax = 0
    for x in ix:
        if x is None:
            k = fresh_atom('i', integer=True, nonneg=True)
            shape.append(R.const(1))
            ks.append(k)
            continue
        if ax >= len(a.ks):
            raise Unsupported('%s: too many indices' % I.where(node))
        n, k0 = a.shape[ax], a.ks[ax]
        if isinstance(x, SliceV):
            k = fresh_atom('i', integer=True, nonneg=True)
            if x.lo is None and x.hi is None and x.step is None:
                sub[k0.id] = R.atom(k)
                shape.append(n)
            else:
                if n is None and (x.hi is None or (num(x.hi).is_const() and num(x.hi).value() < 0)):
                    raise Unsupported('slice of unknown length')
                lo, ln, sv = slice_bounds(x, n)
                sub[k0.id] = lo + R.const(sv) * R.atom(k)
                shape.append(ln)
            ks.append(k)
        elif isinstance(x, (R, bool, B)) and not rank(x):
            x = num(x)
            if x.is_const() and x.value() < 0:
                x = n + x
            sub[k0.id] = x
        else:
            raise Unsupported('%s: index kind' % I.where(node))
        ax += 1
    for n, k0 in zip(a.shape[ax:], a.ks[ax:]):
        k = fresh_atom('i', integer=True, nonneg=True)
        sub[k0.id] = R.atom(k)
        shape.append(n)
        ks.append(k)
    body = subst(a.body, sub)
    if not ks:
        return body
    return eta(Arr(shape, ks, body))


def setitem(I, o, i, v, st, node):
    if isinstance(o, Gamma):
        def put(x):
            return lambda s: setitem(I, x, i, v, s, node)
        I.fork_value(o.cond, st, put(o.a), put(o.b))
        return
    if isinstance(o, Ref):
        h = st.heap.get(o.id)
        if isinstance(h, DictC):
            dict_set(I, o, i, v, st)
            return
        if isinstance(h, ListC):
            list_set(I, o, h, I.deref(i, st), v, st, node)
            return
        if isinstance(h, ArrC):
            x = I.deref(v, st)
            dt = I.dtypes.get(o.id)
            if dt is not None:
                import lib2
                x = lib2.dtype_cast(I, to_array(I, x, st) if is_list(x, st) else x, dt, st)
            I.hset(st, o.id, ArrC(arr_store(I, h.val, i, x, st, node)))
            return
        if isinstance(h, ObjC):
            I.call(I.getattr(o, '__setitem__', st, node), [i, v], {}, st, node)
            return
    if isinstance(o, R) and o.single() is not None:
        I.event(st, 'mutate', 'setitem', [o, I.deref(i, st), I.deref(v, st)], {}, node)
        return
    if isinstance(o, (ExtObj, ExtV)):
        I.event(st, 'setitem', show(o), [I.freeze(I.deref(i, st), st), I.freeze(v, st)], {}, node)
        return
    raise Unsupported('%s: item store on %s' % (I.where(node), type(o).__name__))


def list_set(I, o, h, i, v, st, node):
    parts = list(h.parts)
    if isinstance(i, SliceV) and i.lo is None and i.hi is None and i.step is None:
        I.hset(st, o.id, ListC(I.seq(v, st)))
        return
    if isinstance(i, R) and all(p[0] == 'item' and p[1] is True for p in parts):
        if i.is_const():
            j = int(i.value())
            if -len(parts) <= j < len(parts):
                parts[j] = ('item', True, v)
                I.hset(st, o.id, ListC(parts))
                return
        else:
            parts = [('item', True, I.merge_vals(mk_cmp(i - R.const(j), '=='), v, p[2])) for j, p in enumerate(parts)]
            I.hset(st, o.id, ListC(parts))
            return
    if isinstance(i, R) and len(parts) == 1 and parts[0][0] in ('comp', 'sym'):
        lv = ListV(parts)
        n = I.length(lv, st)
        k = fresh_atom('k', integer=True, nonneg=True)
        old = I.elem(lv, R.atom(k))
        if i.is_const() and i.value() < 0:
            i = n + i
        new = I.merge_vals(mk_cmp(R.atom(k) - i, '=='), I.freeze(v, st), old)
        I.hset(st, o.id, ListC([('comp', n, k, True, ListV([('item', True, new)]))]))
        return
    raise Unsupported('%s: list store' % I.where(node))


def dict_set(I, o, k, v, st):
    h = st.heap[o.id]
    items = []
    done = there = False
    for k2, v2 in h.items:
        if veq(k, k2):
            items.append((k2, v))
            done = True
        elif isinstance(k, str) and isinstance(k2, str):
            items.append((k2, v2))
        else:
            c = b_and(same_value(I, k, k2, st), present(v2))
            there = b_or(there, c)
            items.append((k2, v2 if c is False else v if c is True else I.merge_vals(c, v, v2)))
    if not done and there is not True:
        items.append((k, v if there is False else Gamma(b_not(there), v, UNDEF)))
    I.hset(st, o.id, DictC(items))


def delitem(I, o, i, st, node):
    if isinstance(o, Ref):
        h = st.heap.get(o.id)
        if isinstance(h, DictC):
            I.hset(st, o.id, DictC([(k, v) for k, v in h.items if not veq(k, i)]))
            return
        if isinstance(h, ListC) and isinstance(i, R) and i.is_const() and all(p[0] == 'item' for p in h.parts):
            ps = list(h.parts)
            del ps[int(i.value())]
            I.hset(st, o.id, ListC(ps))
            return
    if isinstance(o, R) and o.single() is not None:
        I.event(st, 'mutate', 'del', [o, I.deref(i, st)], {}, node)
        return
    if isinstance(o, ExtObj):
        I.event(st, 'delitem', show(o), [o, I.freeze(I.deref(i, st), st)], {}, node)
        return
    raise Unsupported('%s: del item' % I.where(node))


def arr_store(I, v, i, x, st, node):
    """New array value after v[i] = x."""
    ix = list(i.items) if isinstance(i, TupleV) else [i]
    ix = [I.deref(y, st) for y in ix]
    m = positions(ix)
    if m is not None:
        ix = [m]
    if is_list(x, st):
        x = to_array(I, x, st)
    flat = v.single() if isinstance(v, R) else None
    if flat is not None and flat.op == 'ravel' and len(ix) == 1:
        # a store through the flattened array: by position when the mask is flattened too
        y = ix[0]
        ym = y.single() if isinstance(y, R) else None
        if isinstance(y, SliceV) and y.lo is None and y.hi is None and not rank(x):
            return ravel(I, eta(arr_store(I, flat.args[0], TupleV([y]), x, st, node)), st)
        if ym is not None and ym.op == 'ravel' and rank(ym.args[0]) == rank(flat.args[0]):
            mx = as_arr(ym.args[0])
            return ravel(I, eta(arr_store(I, flat.args[0], Arr(mx.shape, mx.ks, tobool(mx.body)), x, st, node)), st)
    if isinstance(v, VecV):
        if len(ix) == 1 and isinstance(ix[0], R) and not rank(ix[0]) and ix[0].is_const():
            items = list(v.items)
            items[int(ix[0].value())] = x
            return VecV(items)
        if len(ix) == 1 and isinstance(ix[0], SliceV) and ix[0].lo is None and ix[0].hi is None and not rank(x):
            return VecV([x if not isinstance(y, VecV) else lift(lambda a: x, y) for y in v.items])
        if all(isinstance(y, R) and y.is_const() for y in ix) and len(ix) == 2 and all(isinstance(y, VecV) for y in v.items):
            items = list(v.items)
            j = int(ix[0].value())
            items[j] = arr_store(I, items[j], ix[1], x, st, node)
            return VecV(items)
    a = as_arr(v)
    if any(y is ELLIPSIS for y in ix):
        j = [y is ELLIPSIS for y in ix].index(True)
        ix = ix[:j] + [SliceV(None, None, None)] * (len(a.ks) - len(ix) + 1) + ix[j + 1:]
    if len(ix) == 1 and rank(ix[0]) and is_boolish(as_arr(ix[0]).body):
        m = as_arr(ix[0])
        sub = {k.id: R.atom(k2) for k, k2 in zip(m.ks, a.ks)}
        c = tobool(subst(m.body, sub))
        if isinstance(x, MaskedV):
            xb = subst(x.arr.body, {k.id: R.atom(k2) for k, k2 in zip(x.arr.ks, a.ks)})
        elif rank(x):
            raise Unsupported('%s: masked store of an array' % I.where(node))
        else:
            xb = x
        extra = a.ks[len(m.ks):]
        return Arr(a.shape, a.ks, ite(c, xb, a.body))
    cond = []
    pos = []          # (source index expr) per remaining axis
    for ax, y in enumerate(ix):
        k, n = R.atom(a.ks[ax]), a.shape[ax]
        if isinstance(y, SliceV):
            if y.lo is None and y.hi is None and y.step is None:
                pos.append((k, n))
                continue
            lo, ln, sv = slice_bounds(y, n)
            if sv != 1:
                raise Unsupported('strided store')
            if y.lo is not None:
                cond.append(mk_cmp(k - lo, '>='))
            if y.hi is not None:
                hi = num(y.hi)
                if hi.is_const() and hi.value() < 0:
                    hi = n + hi
                cond.append(mk_cmp(hi - k, '>'))
            pos.append((k - lo, ln))
        elif isinstance(y, (R, bool, B)) and not rank(y):
            y = num(y)
            if y.is_const() and y.value() < 0:
                y = n + y
            cond.append(mk_cmp(k - y, '=='))
        else:
            raise Unsupported('%s: array store index' % I.where(node))
    for ax in range(len(ix), len(a.ks)):
        pos.append((R.atom(a.ks[ax]), a.shape[ax]))
    rx = rank(x) or 0
    if rx == 0:
        val = x
    else:
        xa = as_arr(x)
        use = pos[len(pos) - len(xa.ks):]
        if len(xa.ks) > len(pos):
            # leading singleton axes
            drop = len(xa.ks) - len(pos)
            xa = Arr(xa.shape[drop:], xa.ks[drop:], subst(xa.body, {k.id: R.const(0) for k in xa.ks[:drop]}))
            use = pos
        sub = {}
        for k, s, (p, n) in zip(xa.ks, xa.shape, use):
            one = isinstance(s, R) and s.is_const() and s.value() == 1
            sub[k.id] = R.const(0) if one else p
        val = subst(xa.body, sub)
    if is_boolish(a.body) and not isinstance(val, (bool, B)):
        val = tobool(val)
    if isinstance(a.body, (bool, B)) and isinstance(val, R):
        val = tobool(val)
    return eta(Arr(a.shape, a.ks, ite(b_and(*cond), val, a.body)))


# --------------------------------------------------------------------------
# attributes
# --------------------------------------------------------------------------
def arr_attr(I, o, name, st, node):
    v = I.deref(o, st)
    if name == 'shape':
        return TupleV(shape_of(v))
    if name == 'size':
        return size_of(v)
    if name == 'ndim':
        return R.const(rank(v))
    if name == 'T':
        r = I.wrap(transpose(I, v, st), st)
        return _l2.as_view(I, o, r, lambda b, s: transpose(I, b, s), 'numpy.transpose', st, node) if isinstance(o, Ref) else r
    if name == 'dtype':
        return _l2.element_type(I, o, v) or ExtV('numpy.dtype')
    if name == 'flat':
        r = ravel(I, v, st)
        return _l2.as_view(I, o, r, lambda b, s: ravel(I, b, s), 'numpy.ravel', st, node) if isinstance(o, Ref) else r
    if name == 'real':
        return o
    return BoundV(o, ExtV('method:' + name))


def r_attr(I, o, name, st, node):
    a = o.single()
    if rank(o):
        return arr_attr(I, o, name, st, node)
    if name in ('real',):
        return o
    if name in METHODS_ANY:
        return BoundV(o, ExtV('method:' + name))
    if a is None:
        raise Unsupported('%s: attribute %s of a number' % (I.where(node), name))
    at, new = get_app('attr', (o, name))
    if I.readlog is not None:
        I.readlog.append((o, name, node))
    return R.atom(at)


METHODS_ANY = set('append extend items keys values get pop copy sum mean min max any all astype index count '
                  'format strip split join flatten ravel reshape sort tolist item dot transpose '
                  'insert remove clear update setdefault reverse popitem resize put itemset partition fill std argmax argmin cumsum nonzero squeeze'.split())


def obj_attr(I, o, name, st, node):
    if isinstance(o, ExtObj) and o.path.startswith('numpy.finfo') and name in ('eps', 'resolution'):
        return EPSM()
    if isinstance(o, ExtObj) and o.path.startswith('numpy.finfo') and name in ('max',):
        return INF()
    return None


# --------------------------------------------------------------------------
# text
# --------------------------------------------------------------------------
def parts_of(v):
    return (v,) if isinstance(v, str) else v.parts


def mkstr(parts):
    s = StrV(parts)
    if not s.parts:
        return ''
    if len(s.parts) == 1 and isinstance(s.parts[0], str):
        return s.parts[0]
    return s


def fmt_parts(I, v, spec, conv, st):
    v = I.freeze(v, st)
    spec = plain_spec(spec)
    if isinstance(v, Gamma) and (is_text(v.a) or is_text(v.b)):
        return [('fmt', v, spec, conv)]
    if is_text(v) and spec in ('', 's') and conv in ('', 's'):
        return list(parts_of(v))
    if isinstance(v, str) and isinstance(spec, str):
        try:
            return [format(v, spec)]
        except ValueError:
            pass
    if isinstance(v, R) and v.is_const() and isinstance(spec, str) and not conv and spec[-1:] in tuple('dfeg'):
        x = v.value()
        try:
            return [format(int(x) if spec.endswith('d') else float(x), spec)]
        except ValueError:
            pass
    return [('fmt', v, spec, conv)]


def plain_spec(sp):
    """A computed format specification as plain text where it is constant."""
    if isinstance(sp, StrV) and len(sp.parts) == 1 and not isinstance(sp.parts[0], str) \
            and sp.parts[0][0] == 'fmt' and is_text(sp.parts[0][1]):
        sp = sp.parts[0][1]
    if isinstance(sp, StrV):
        ps = [str(int(x[1].value())) if isinstance(x, tuple) and isinstance(x[1], R) and x[1].is_const() and
              x[1].value().denominator == 1 else x for x in sp.parts]
        if all(isinstance(x, str) for x in ps):
            sp = ''.join(ps)
    return sp


def str_format(I, s, args, kwargs, st, node):
    if not isinstance(s, str):
        raise Unsupported('format of a computed string')
    auto = [0]

    def field(name):
        m = re.match(r'^([^.\[]*)(.*)$', name)
        base, rest = m.group(1), m.group(2)
        if base == '':
            v = args[auto[0]]
            auto[0] += 1
        elif base.isdigit():
            v = args[int(base)]
        else:
            v = kwargs[base]
        for t in re.findall(r'\.(\w+)|\[([^\]]*)\]', rest):
            if t[0]:
                v = I.getattr(v, t[0], st, node)
            else:
                key = R.const(int(t[1])) if t[1].lstrip('-').isdigit() else t[1]
                v = I.getitem(v, key, st, node)
        return v

    def go(t):
        out = []
        for lit, name, spec, conv in string.Formatter().parse(t):
            if lit:
                out.append(lit)
            if name is not None:
                v = field(name)
                sp = mkstr(go(spec)) if spec else ''
                out.extend(fmt_parts(I, v, sp, conv or '', st))
        return out
    try:
        return mkstr(go(s))
    except (IndexError, KeyError):
        e = I.make_exc(st, ExtV('builtins.IndexError'), ['format'])
        I.raise_exc(st, e)
        raise PyDead()


def percent(I, s, b, st):
    if not isinstance(s, str):
        raise Unsupported('% of a computed string')
    args = list(b.items) if isinstance(b, TupleV) else [b]
    out = []
    pos = 0
    n = 0
    for m in re.finditer(r'%(?:\((\w+)\))?([-+ #0]*)(\d+|\*)?(?:\.(\d+))?([hlL]?)([diouxXeEfFgGcrsa%])', s):
        out.append(s[pos:m.start()])
        pos = m.end()
        t = m.group(6)
        if t == '%':
            out.append('%')
            continue
        if m.group(1):
            v = getitem(I, b, m.group(1), st, None)
        else:
            if n >= len(args):
                raise Unsupported('% format arguments')
            v = args[n]
            n += 1
        flags, w, p = m.group(2), m.group(3) or '', m.group(4)
        spec = flags.replace('-', '<') + w + ('.' + p if p is not None else '') + (t if t not in 'sr' else '')
        if t == 'i':
            spec = spec[:-1] + 'd'
        out.extend(fmt_parts(I, v, spec, 'r' if t == 'r' else '', st))
    out.append(s[pos:])
    return mkstr([x for x in out if x != ''])


# --------------------------------------------------------------------------
# isinstance
# --------------------------------------------------------------------------
def tname(t):
    if isinstance(t, ExtV):
        return t.path.split('.')[-1]
    if isinstance(t, ClassV):
        return t.qual
    return show(t)


def isinstance_(I, v, t, st):
    if isinstance(t, TupleV):
        return b_or(*[isinstance_(I, v, x, st) for x in t.items])
    if isinstance(t, Ref) and isinstance(st.heap.get(t.id), ListC):
        return b_or(*[isinstance_(I, v, p[2], st) for p in st.heap[t.id].parts])
    if isinstance(v, Gamma):
        return b_or(b_and(v.cond, isinstance_(I, v.a, t, st)), b_and(b_not(v.cond), isinstance_(I, v.b, t, st)))
    n = tname(t)
    if n in ('Number', 'Real', 'Complex'):
        return b_or(isinstance_(I, v, ExtV('builtins.int'), st), isinstance_(I, v, ExtV('builtins.float'), st))
    if n == 'Integral':
        n = 'int'
    if n in ('Sequence',):
        return b_or(isinstance_(I, v, ExtV('builtins.tuple'), st), isinstance_(I, v, ExtV('builtins.list'), st))
    if isinstance(v, Ref):
        h = st.heap.get(v.id)
        if isinstance(h, ListC):
            return n == 'list'
        if isinstance(h, DictC):
            return n == 'dict'
        if isinstance(h, ArrC):
            return n == 'ndarray'
        if isinstance(h, ObjC):
            if isinstance(h.cls, ClassV):
                return h.cls is t or h.cls.is_sub(t)
            return bool(I.exc_matches(v, t, st))
    if isinstance(v, TupleV):
        return n == 'tuple'
    if is_text(v):
        return n == 'str'
    if v is None:
        return n == 'NoneType'
    if isinstance(v, (bool, B)):
        return n in ('bool', 'int')
    if isinstance(v, (VecV, Arr)):
        return n == 'ndarray'
    if isinstance(v, R):
        if v.is_const():
            if v.value().denominator != 1:
                return n == 'float'
            if n not in ('int', 'float'):
                return False
        a = v.single()
        if a is not None and rank(v):
            return n == 'ndarray'
        return b_atom(R.atom(get_app('isinstance', (v, n))[0]))
    return False


# --------------------------------------------------------------------------
# matrices
# --------------------------------------------------------------------------
def mat_leaf(I, v, st):
    """v as a matrix atom (R with ndim)."""
    if isinstance(v, R) and rank(v):
        return v
    a = eta(as_arr(v))
    if isinstance(a, R):
        return a
    if len(a.ks) == 2:
        t = eta(Arr(tuple(a.shape)[::-1], tuple(a.ks)[::-1], a.body))
        if isinstance(t, R):
            return mk_T(t)
    for at in alg.by_op('mat', 1)[2]:
        x = at.args[0]
        if len(x.ks) == len(a.ks) and veq(x, a):
            return R.atom(at)
        if len(x.ks) == 2 and len(a.ks) == 2 and veq(Arr(tuple(x.shape)[::-1], tuple(x.ks)[::-1], x.body), a):
            return mk_T(R.atom(at))
    at, new = get_app('mat', (a,))
    at.ndim, at.shape = len(a.ks), tuple(a.shape)
    return R.atom(at)


def _rb_mat(a, args):
    v = args[0]
    if isinstance(v, Arr):
        at, new = get_app('mat', (v,))
        at.ndim, at.shape = len(v.ks), tuple(v.shape)
        return R.atom(at)
    return v


alg.REBUILD['mat'] = _rb_mat


def mm_factors(v):
    a = v.single()
    return list(a.args) if a.op == 'mm' else [v]


def is_eye(g):
    """Is this matrix the identity?"""
    a = g.single()
    if a is None or a.op != 'mat' or not isinstance(a.args[0], Arr) or len(a.args[0].ks) != 2:
        return False
    v = a.args[0]
    n, m = v.shape
    if isinstance(n, R) and isinstance(m, R) and n.is_const() and m.is_const():
        if not r_eq(n, m) or n.value() > 12:
            return False
        w = int(n.value())
        for i in range(w):
            for j in range(w):
                x = subst(v.body, {v.ks[0].id: R.const(i), v.ks[1].id: R.const(j)})
                if not (isinstance(x, R) and r_eq(x, R.const(1 if i == j else 0))):
                    return False
        return True
    d = R.atom(v.ks[0]) - R.atom(v.ks[1])
    return veq(n, m) and any(veq(v.body, ite(mk_cmp(e, '=='), R.const(1), R.const(0))) for e in (d, -d))


def mk_mm(fs):
    out = []
    fs = [g for f in fs for g in mm_factors(f)]
    if len(fs) > 1:
        fs = [g for g in fs if not is_eye(g)] or fs[:1]
    for f in fs:
        for g in mm_factors(f):
            # X inv(X) cancels only when square: inv(X) X
            if out and is_inv_of(out[-1], g):
                out.pop()
                continue
            out.append(g)
    if not out:
        return None
    if len(out) == 1:
        return out[0]
    at, new = get_app('mm', tuple(out))
    if new:
        s0, s1 = out[0].single().shape, out[-1].single().shape
        dims = []
        if len(s0) == 2:
            dims.append(s0[0])
        if len(s1) == 2:
            dims.append(s1[1])
        at.shape = tuple(dims)
        at.ndim = len(dims)
    return R.atom(at)


def is_inv_of(x, y):
    a, b = x.single(), y.single()
    return (a.op == 'minv' and veq(a.args[0], y)) or (b.op == 'minv' and veq(b.args[0], x))


def mk_T(v):
    a = v.single()
    if a.ndim == 1:
        return v
    if a.op == 'mT':
        return a.args[0]
    if a.op == 'mm':
        return mk_mm([mk_T(x) for x in reversed(a.args)])
    if a.op == 'minv':
        return mk_inv(mk_T(a.args[0]))
    at, new = get_app('mT', (v,))
    at.ndim = a.ndim
    at.shape = tuple(reversed(a.shape)) if a.shape else None
    return R.atom(at)


def mk_inv(v):
    a = v.single()
    if a.op == 'minv':
        return a.args[0]
    at, new = get_app('minv', (v,))
    at.ndim, at.shape = 2, a.shape
    return R.atom(at)


alg.REBUILD['mm'] = lambda a, g: mk_mm(list(g))
alg.REBUILD['mT'] = lambda a, g: mk_T(g[0])
alg.REBUILD['minv'] = lambda a, g: mk_inv(g[0])


def transpose(I, v, st):
    if rank(v) in (0, None):
        return v
    if rank(v) == 1:
        return v
    if isinstance(v, R):
        return mk_T(v)
    a = as_arr(v)
    return Arr(tuple(reversed(a.shape)), tuple(reversed(a.ks)), a.body, a.tag)


def matmul(I, a, b, st):
    a = to_array(I, a, st) if is_list(a, st) else a
    b = to_array(I, b, st) if is_list(b, st) else b
    a, b = small(a), small(b)
    ra, rb = rank(a), rank(b)
    if not ra or not rb:
        return lift(lambda x, y: num(x) * num(y), a, b)
    if ra == 1 and rb == 1:
        return sum_array(I, lift(lambda x, y: num(x) * num(y), a, b), None, st)
    if isinstance(a, VecV) and isinstance(b, (VecV,)):
        if ra == 2 and rb == 1:
            return VecV([matmul(I, r, b, st) for r in a.items])
        if ra == 1 and rb == 2:
            cols = list(zip(*[r.items for r in b.items]))
            return VecV([matmul(I, a, VecV(c), st) for c in cols])
    la, lb = mat_leaf(I, a, st), mat_leaf(I, b, st)
    if all(x.single().op in ('mat',) for x in (la, lb)) and (ra == 1 or rb == 1):
        # an explicit matrix-vector product: sum over the shared axis
        A, Bv = as_arr(a), as_arr(b)
        if ra == 2:
            k = fresh_atom('k', integer=True, nonneg=True)
            body = subst(A.body, {A.ks[1].id: R.atom(k)}) * subst(Bv.body, {Bv.ks[0].id: R.atom(k)})
            n = A.shape[1] if A.shape[1] is not None else Bv.shape[0]
            if n is not None and n.is_const() and n.value() <= 12:
                t = R.const(0)
                for j in range(int(n.value())):
                    t = t + subst(body, {k.id: R.const(j)})
                return Arr(A.shape[:1], A.ks[:1], t)
            return Arr(A.shape[:1], A.ks[:1], mk_sum(n, k, body))
    return mk_mm([la, lb])


def lstsq(I, a, b, st):
    A, y = mat_leaf(I, a, st), mat_leaf(I, b, st)
    At = mk_T(A)
    return mk_mm([mk_inv(mk_mm([At, A])), At, y])


# --------------------------------------------------------------------------
# reductions
# --------------------------------------------------------------------------
def sum_array(I, v, axis, st):
    if isinstance(v, MaskedV):
        return sum_array(I, Arr(v.arr.shape, v.arr.ks, ite(
            subst(v.mask.body, {k.id: R.atom(k2) for k, k2 in zip(v.mask.ks, v.arr.ks)}),
            num(v.arr.body), R.const(0))), axis, st)
    if rank(v) == 0:
        return num(v)
    if isinstance(v, VecV):
        if axis is None:
            t = R.const(0)
            for x in v.items:
                t = t + sum_array(I, x, None, st)
            return t
        if axis == 0:
            r = v.items[0]
            for x in v.items[1:]:
                r = lift(lambda p, q: num(p) + num(q), r, x)
            return r
        return VecV([sum_array(I, x, axis - 1, st) for x in v.items])
    a = as_arr(v)
    if axis is not None and axis < 0:
        axis += len(a.ks)
    axes = range(len(a.ks)) if axis is None else [axis]
    body = num(a.body)
    for ax in reversed(list(axes)):
        n = a.shape[ax]
        if n is None:
            raise Unsupported('sum over an axis of unknown length')
        if n.is_const() and n.value() <= 12:
            t = R.const(0)
            for j in range(int(n.value())):
                t = t + subst(body, {a.ks[ax].id: R.const(j)})
            body = t
        else:
            body = mk_sum(n, a.ks[ax], body)
    rest = [i for i in range(len(a.ks)) if i not in axes]
    if not rest:
        return body
    return Arr([a.shape[i] for i in rest], [a.ks[i] for i in rest], body)


def sum_parts(I, parts, st):
    t = R.const(0)
    vec = None
    for p in parts:
        if p[0] == 'item':
            v = I.deref(p[2], st)
            if p[1] is not True:
                v = lift(lambda x: ite(p[1], num(x), R.const(0)), v)
            t = lift(lambda x, y: num(x) + num(y), t, v)
        elif p[0] == 'sym':
            k = fresh_atom('k', integer=True, nonneg=True)
            t = t + mk_sum(I.length(p[1]), k, num(I.elem(p[1], R.atom(k))))
        else:
            inner = sum_parts(I, p[4].parts if isinstance(p[4], ListV) else I.seq(p[4], st), st)

            def one(x):
                if p[3] is not True:
                    x = ite(p[3], num(x), R.const(0))
                return mk_sum(p[1], p[2], num(x))
            t = lift(lambda x, y: num(x) + num(y), t, lift(one, inner))
    return t


def any_parts(I, parts, st, f):
    out = []
    for p in parts:
        if p[0] == 'item':
            out.append(b_and(p[1], f(p[2])))
        elif p[0] == 'sym':
            k = fresh_atom('k', integer=True, nonneg=True)
            out.append(mk_exists(I.length(p[1]), k, f(I.elem(p[1], R.atom(k)))))
        else:
            k = fresh_atom('k', integer=True, nonneg=True)
            inner = any_parts(I, p[4].parts, st, f)
            b = b_and(p[3], inner)
            out.append(mk_exists(p[1], k, subst(b, {p[2].id: R.atom(k)}) if isinstance(b, B) else b))
    return b_or(*out)


def any_array(I, v, st, f):
    if rank(v) == 0:
        return f(v)
    if isinstance(v, VecV):
        return b_or(*[any_array(I, x, st, f) for x in v.items])
    a = as_arr(v)
    b = f(a.body)
    for n, k in reversed(list(zip(a.shape, a.ks))):
        k2 = fresh_atom('k', integer=True, nonneg=True)
        b = mk_exists(n, k2, subst(b, {k.id: R.atom(k2)}) if isinstance(b, B) else b)
    return b


def extreme(I, op, v, st, node):
    """min/max of a sequence or array."""
    v = I.deref(v, st)
    mk = mk_min if op == 'min' else mk_max
    if isinstance(v, (Arr,)) or (isinstance(v, R) and rank(v)):
        parts = None
        if isinstance(v, Arr) and len(v.ks) == 1 and v.tag == 'seq':
            pass
    elif isinstance(v, VecV):
        return mk(*[num(x) for x in flatten_items(v)])
    else:
        parts = I.seq(v, st, node)
        if parts and all(p[0] == 'item' and p[1] is True for p in parts):
            return mk(*[num(I.deref(p[2], st)) for p in parts])
    fz = I.freeze(v, st)
    return extreme_atom(I, op, fz)


def extreme_atom(I, op, fz):
    """Canonical atom for the extreme of a symbolic sequence."""
    v = fz
    n = I.length(v) if not (rank(v) or 0) > 1 else None
    # elementwise:  max_k f(k)
    if n is not None:
        try:
            k = fresh_atom('k', integer=True, nonneg=True)
            e = I.elem(v, R.atom(k))
            if isinstance(e, R):
                return big_extreme(op, n, k, e)
        except Unsupported:
            pass
    sel = selection(I, 'sel' + op, v)
    if sel is not None:
        return sel
    a, new = get_app('a' + op, (fz,))
    return R.atom(a)


def selection(I, op, v):
    """Statistic op of the entries a[mask] of a 1-D array, in canonical form."""
    if isinstance(v, MaskedV) and len(v.arr.ks) == 1 and len(v.mask.ks) == 1:
        k = fresh_atom('k', integer=True, nonneg=True)
        e, m = I.elem(v.arr, R.atom(k)), I.elem(v.mask, R.atom(k))
        if isinstance(e, R):
            return loops.mk_big(op, v.arr.shape[0], k, alg.ite(m, e, R.atom(get_app('nan', ())[0])))
    return None


def big_extreme(op, n, k, e):
    """max_k (c*f(k) + d) = c*max f + d for c > 0 (min for c < 0)."""
    const = {m: c for m, c in e.num.items() if not any(k.id in alg.atom_closure(ATOMS[a]) for a, _ in m)}
    if not any(k.id in alg.atom_closure(ATOMS[a]) for a in alg.p_atoms(e.den)):
        var = {m: c for m, c in e.num.items() if m not in const}
        d = R(const, e.den) if const else R.const(0)
        if var:
            c, q = alg.p_content(var)
            g = alg.p_monogcd(q)
            take = tuple((a, x) for a, x in g if ATOMS[a].pos and k.id not in alg.atom_closure(ATOMS[a]))
            q = alg.p_divmono(q, take)
            if p_positive(e.den):
                s = R({take: abs(c)}, e.den)
                if c < 0:
                    op2 = 'min' if op == 'max' else 'max'
                    return d - s * loops.mk_big('big' + op2, n, k, R(q))
                return d + s * loops.mk_big('big' + op, n, k, R(q))
    return loops.mk_big('big' + op, n, k, e)


def ravel(I, v, st):
    """1-D view of an array."""
    if isinstance(v, VecV):
        return VecV(flatten_items(v))
    if isinstance(v, MaskedV):
        return v
    if rank(v) == 1:
        return v
    sh = shape_of(v)
    real = [i for i, s in enumerate(sh) if not (isinstance(s, R) and s.is_const() and s.value() == 1)]
    if len(real) <= 1 and all(s is not None for s in sh):
        a = as_arr(v)
        if not real:
            return VecV([subst(a.body, {k.id: R.const(0) for k in a.ks})])
        keep = real[0]
        sub = {k.id: R.const(0) for i, k in enumerate(a.ks) if i != keep}
        body = subst(a.body, sub)
        n = a.shape[keep]
        if n.is_const() and n.value() <= 12:
            return VecV([subst(body, {a.ks[keep].id: R.const(j)}) for j in range(int(n.value()))])
        return eta(Arr((n,), (a.ks[keep],), body))
    if isinstance(v, Arr):
        a = as_arr(v)
        if not isinstance(a.body, (B, bool)):
            # scale factors that do not vary with position stay outside
            pass
    at = find_app('ravel', v)
    at.ndim = 1
    at.boolean = is_boolish(v if isinstance(v, R) else v.body)
    at.shape = (size_of(v),)
    return R.atom(at)


def find_app(op, *args):
    at, new = get_app(op, tuple(args))
    return at


def pull_scale(a):
    """Arr body = s * rest with s positive, position independent -> (s, rest)."""
    if not isinstance(a.body, R):
        return R.const(1), a
    ks = {k.id for k in a.ks}

    def dep(at):
        return not ks.isdisjoint(alg.atom_closure(ATOMS[at]))
    e = a.body
    s_num, s_den = [], []
    if e.num:
        for at, x in alg.p_monogcd(e.num):
            if ATOMS[at].pos and not dep(at):
                s_num.append((at, x))
        for at, x in alg.p_monogcd(e.den):
            if ATOMS[at].pos and not dep(at):
                s_den.append((at, x))
        c, _ = alg.p_content(e.num)
        s = R({tuple(s_num): abs(c)}) / R({tuple(s_den): Fraction(1)})
        return s, eta(Arr(a.shape, a.ks, e / s))
    return R.const(1), a


def sort_array(I, v, st):
    """Ascending sort of a 1-D array value."""
    if isinstance(v, R) and v.single().op == 'sort':
        return v
    base = v
    s = R.const(1)
    if isinstance(v, R) and v.single().op == 'ravel':
        inner = v.single().args[0]
        s, rest = pull_scale(as_arr(inner)) if isinstance(inner, (Arr, R)) else (s, inner)
        neg = eta(Arr(rest.shape, rest.ks, -rest.body)) if isinstance(rest, Arr) and isinstance(rest.body, R) else None
        if isinstance(neg, R):
            n, k = size_of(rest), fresh_atom('i', integer=True, nonneg=True)
            srt = sort_array(I, ravel(I, neg, st), st)
            return eta(Arr((n,), (k,), -s * num(I.elem(srt, n - R.const(1) - R.atom(k)))))
        at = find_app('ravel', rest)
        at.ndim, at.shape = 1, (size_of(rest),)
        base = R.atom(at)
    elif isinstance(v, Arr):
        s, base = pull_scale(v)
        # sort(-x) = -reverse(sort(x)); sort of a reversal/sort
        if isinstance(base, Arr) and isinstance(base.body, R) and len(base.ks) == 1:
            neg = eta(Arr(base.shape, base.ks, -base.body))
            if isinstance(neg, R):
                n = base.shape[0]
                srt = sort_array(I, neg, st)
                k = fresh_atom('i', integer=True, nonneg=True)
                return eta(Arr((n,), (k,), -s * num(I.elem(srt, n - R.const(1) - R.atom(k)))))
            b = base.body.single()
            if b is not None and b.op == 'idx' and b.args[0].single() is not None:
                r = b.args[1] if len(b.args) == 2 else None
                bs = b.args[0].single()
                if r is not None and veq(r, base.shape[0] - R.const(1) - R.atom(base.ks[0])):
                    base = b.args[0]
                    if bs.op == 'sort':
                        base = b.args[0]
    if isinstance(base, R) and base.single() is not None and base.single().op == 'sort':
        srt = base
    else:
        at = find_app('sort', base)
        at.ndim = 1
        at.shape = tuple(shape_of(base)) or (I.length(base),)
        srt = R.atom(at)
    if s.is_const() and s.value() == 1:
        return srt
    return lift(lambda x: num(x) * s, srt)


from lib2 import *      # noqa  (calls and methods)
import lib2 as _l2
_l2.bind(globals())

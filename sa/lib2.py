"""Calls to built-ins / numpy / other libraries, and methods of values."""
import ast
from values import *
import alg
from interp import eta, guard_parts, PyDead, undef_free, owned, memo

__all__ = ['call_ext', 'method']


def bind(g):
    for k, v in g.items():
        if not k.startswith('__') and k not in globals():
            globals()[k] = v


def kat():
    return fresh_atom('k', integer=True, nonneg=True)


def iat():
    return fresh_atom('i', integer=True, nonneg=True)


def A(args, kwargs, i, name, default=None):
    if i < len(args):
        return args[i]
    return kwargs.get(name, default)


PURE = ('numpy.', 'math.', 'scipy.', 'operator.', 'functools.', 'itertools.', 'time.', 'datetime.', 'os.path.',
        'platform.', 'sys.', 'statistics.', 'string.', 'textwrap.', 'copy.', 'cmath.', 'random.', 'typing.',
        'collections.', 'inspect.', 'builtins.')


# --------------------------------------------------------------------------
def call_ext(I, path, args, kwargs, st, node):
    path0, path = path, ALIAS.get(canon(path), canon(path))
    name = path.rsplit('.', 1)[-1]
    h = TABLE.get(path)
    if h is not None:
        if args and (path in SAME or path == 'numpy.array' and kwargs.get('copy') is False):
            x = args[0]
            if isinstance(x, Gamma):
                return I.fork_value(x.cond, st, lambda s: call_ext(I, path, [x.a] + args[1:], kwargs, s, node),
                                    lambda s: call_ext(I, path, [x.b] + args[1:], kwargs, s, node))
            if same_array(I, x, A(args, kwargs, 1, 'dtype'), st):
                return x
        if path in VIEWS and args and isinstance(args[0], Ref):
            return as_view(I, args[0], h(I, args, kwargs, st, node), lambda b, s: h(I, [b] + list(args[1:]), kwargs, s, node), path, st, node)
        return h(I, args, kwargs, st, node)
    if path.startswith('builtins.') and name in EXC_TREE or name == 'BaseException':
        return I.make_exc(st, ExtV(path), list(args))
    if path.startswith('numpy.') and name in EXC_TREE:
        return I.make_exc(st, ExtV(path), list(args))
    if path in UFUNC1:
        return _ufunc(I, UFUNC1[path], args[:1], kwargs, st, node)
    if path in UFUNC2:
        if len(args) == 1 and not kwargs:
            raise Unsupported('%s: %s of one argument' % (I.where(node), path))
        return _ufunc(I, UFUNC2[path], args[:2], kwargs, st, node)
    if path.startswith('numpy.random.') or path.startswith('random.'):
        return rng(I, path, None, args, kwargs, st, node)
    return generic(I, path, args, kwargs, st, node)


SAME = ('numpy.asarray', 'numpy.asanyarray', 'numpy.ascontiguousarray')     # return an array argument itself


def same_array(I, x, dt, st):
    """np.asarray(x, dtype) is x: an array that has the type already."""
    if isinstance(x, Ref) and isinstance(st.heap.get(x.id), ArrC):
        v = st.heap[x.id].val
    elif isinstance(x, R) and rank(x):
        v = x
    else:
        return False
    if dt is None:
        return True
    want = dt.path if isinstance(dt, ExtV) else dt if isinstance(dt, str) else ''
    if isinstance(v, VecV):
        b = all(is_boolish(y) for y in flatten_items(v))
    else:
        b = is_boolish(as_arr(v).body)
    return ('bool' in want) == b and ('bool' in want or 'float' in want or 'double' in want)


VIEWS = ('numpy.reshape', 'numpy.ravel', 'numpy.transpose', 'numpy.squeeze')


def as_view(I, o, r, again, path, st, node):
    """r = path(o) shares the memory of the array behind o."""
    if not isinstance(st.heap.get(o.id), ArrC):
        return r

    def bwd(I, st, b, x):
        if path == 'numpy.transpose':
            return I.deref(transpose(I, x, st), st)
        return I.deref(do_reshape(I, x, list(shape_of(b)), st, node), st)
    return I.link(st, o, I.deref(r, st), lambda I, st, b: I.deref(again(b, st), st), bwd)


def generic(I, path, args, kwargs, st, node):
    fz = [I.freeze(x, st) for x in args]
    kw = [(k, I.freeze(v, st)) for k, v in sorted(kwargs.items())]
    if path.startswith(PURE):
        at, new = get_app('ext:' + path, tuple(fz) + tuple(x for kv in kw for x in kv))
        r = R.atom(at)
        if new and path.split('.')[0] in ('numpy', 'scipy') and path.split('.')[-1] in KEEP_RANK:
            for x in fz:
                if rank(x):
                    at.ndim = rank(x)
                    at.shape = tuple(shape_of(x)) or None
                    break
        return r
    r = ExtObj(path, I.uid(), tuple(fz))
    if path == 'matplotlib.pyplot.subplots' and not args and not {'nrows', 'ncols', 'squeeze'} & set(kwargs):
        r = TupleV([ExtObj('matplotlib.figure.Figure', I.uid(), ()), ExtObj('matplotlib.axes.Axes', I.uid(), ())])
    e = I.event(st, 'ext', path, args, kwargs, node, r)
    if I.opaque_raises:
        for x in I.opaque_raises(e):
            I.raise_exc(st, x)
    return r


KEEP_RANK = {'gaussian_filter', 'uniform_filter', 'median_filter', 'nan_to_num', 'roll', 'real', 'around', 'tanh',
             'arcsin', 'arccos', 'exp', 'sin', 'cos', 'tan', 'convolve', 'interp', 'diff', 'gradient', 'zoom', 'rint'}


def arr(I, v, st):
    """Numeric/array view of an argument (lists become arrays)."""
    v = I.deref(v, st)
    if isinstance(v, (TupleV, ListV)) or isinstance(v, Ref) and isinstance(st.heap.get(v.id), ListC):
        return to_array(I, v, st)
    if isinstance(v, Gamma):
        return ite(v.cond, arr(I, v.a, st), arr(I, v.b, st))
    if isinstance(v, R) and not rank(v):
        a = v.single()
        if a is not None and (a.meta == 'seq' or isinstance(a.meta, dict)):
            return to_array(I, v, st)
    if v is None:
        raise Unsupported('arithmetic on None')
    return v


def _ufunc(I, f, args, kwargs, st, node):
    vs = [arr(I, a, st) for a in args]
    r = lift(f, *vs)
    out = kwargs.get('out')
    if isinstance(out, TupleV) and len(out.items) == 1:
        out = out.items[0]
    if out is not None:
        if isinstance(out, Ref) and isinstance(st.heap.get(out.id), ArrC):
            if kwargs.get('where') is not None and kwargs['where'] is not True:
                r = lift(lambda c, a, b: ite(tobool(c), a, b), arr(I, kwargs['where'], st), r, st.heap[out.id].val)
            elif rank(st.heap[out.id].val) != rank(r):
                raise Unsupported('%s: out= of another shape' % I.where(node))
            I.hset(st, out.id, ArrC(r))
            return out
        if owned(out):
            I.event(st, 'mutate', 'out=', [out], {}, node)
            return out
        raise Unsupported('%s: out= argument' % I.where(node))
    if 'where' in kwargs:
        raise Unsupported('%s: where= argument' % I.where(node))
    return I.wrap(r, st)


def app1(op, pos=False, nonneg=False):
    def f(x):
        x = num(x)
        at, _ = get_app(op, (x,))
        if nonneg:
            at.nonneg = True
        if pos:
            at.pos = True
        return R.atom(at)
    return f


def _sign(x):
    x = num(x)
    return ite(mk_cmp(x, '>'), R.const(1), ite(mk_cmp(-x, '>'), R.const(-1), R.const(0)))


def _hypot(x, y):
    x, y = num(x), num(y)
    return mk_sqrt(x * x + y * y)


def _isfinite(x):
    x = num(x)
    if x.is_const():
        return True
    if x.num and len(alg.all_atoms(x)) and any(ATOMS[i].op == 'nan' or ATOMS[i].name == 'inf' for i in alg.p_atoms(x.num)):
        return False
    if FINITE[0]:
        return True
    return b_and(b_not(_isnan(x)), b_not(_isinf(x)))


FINITE = [False]        # rules over real-valued inputs switch NaN tests off


def _isnan(x):
    x = num(x)
    if x.is_const():
        return False
    if FINITE[0] and not any(a.op == 'nan' for a in alg.all_atoms(x)):
        return False
    if has_nan(x):
        return True
    a = x.single()
    if a is not None:
        if a.op == 'ite':
            return b_or(b_and(a.args[0], _isnan(a.args[1])), b_and(b_not(a.args[0]), _isnan(a.args[2])))
    return b_atom(R.atom(get_app('isnan', (x,))[0]))


def _isinf(x):
    x = num(x)
    if x.is_const() or FINITE[0] and not veq(x, INF()) and not veq(x, -INF()):
        return False
    return b_atom(R.atom(get_app('isinf', (x,))[0]))


def _arctan2(y, x):
    return R.atom(get_app('arctan2', (num(y), num(x)))[0])


def _divide(x, y):
    return scalar_op('Div', x, y)


UFUNC1 = {
    'numpy.sqrt': lambda x: mk_sqrt(num(x)), 'numpy.log': lambda x: mk_log(num(x)),
    'numpy.abs': lambda x: mk_abs(num(x)), 'numpy.square': lambda x: num(x) * num(x),
    'numpy.floor': lambda x: mk_floor(num(x)), 'numpy.ceil': lambda x: mk_ceil(num(x)),
    'numpy.trunc': lambda x: mk_trunc(num(x)), 'numpy.fix': lambda x: mk_trunc(num(x)),
    'math.floor': lambda x: mk_floor(num(x)), 'math.ceil': lambda x: mk_ceil(num(x)),
    'math.trunc': lambda x: mk_trunc(num(x)), 'numpy.negative': lambda x: -num(x),
    'numpy.positive': lambda x: num(x), 'numpy.reciprocal': lambda x: R.const(1) / num(x),
    'numpy.sign': _sign, 'numpy.exp': app1('exp', pos=True), 'numpy.sin': app1('sin'), 'numpy.cos': app1('cos'),
    'numpy.tan': app1('tan'), 'numpy.arctan': app1('arctan'), 'numpy.isfinite': _isfinite,
    'numpy.isnan': _isnan, 'numpy.isinf': _isinf, 'numpy.logical_not': lambda x: b_not(tobool(x)),
    'numpy.invert': lambda x: b_not(tobool(x)), 'numpy.log2': lambda x: mk_log(num(x)) / mk_log(R.const(2)),
    'numpy.log10': lambda x: mk_log(num(x)) / mk_log(R.const(10)),
    'numpy.radians': lambda x: num(x) * PI() / R.const(180), 'numpy.degrees': lambda x: num(x) * R.const(180) / PI(),
    'numpy.log1p': lambda x: mk_log(num(x) + R.const(1)), 'numpy.conj': lambda x: num(x), 'numpy.real': lambda x: num(x),
    'numpy.cbrt': lambda x: mk_pow(num(x), R.const(Fraction(1, 3))),
}
UFUNC2 = {
    'numpy.add': lambda x, y: scalar_op('Add', x, y), 'numpy.subtract': lambda x, y: scalar_op('Sub', x, y),
    'numpy.multiply': lambda x, y: scalar_op('Mult', x, y), 'numpy.divide': _divide,
    'numpy.floor_divide': lambda x, y: scalar_op('FloorDiv', x, y), 'numpy.mod': lambda x, y: scalar_op('Mod', x, y),
    'numpy.remainder': lambda x, y: scalar_op('Mod', x, y), 'numpy.power': lambda x, y: mk_pow(num(x), num(y)),
    'numpy.hypot': _hypot, 'numpy.arctan2': _arctan2,
    'numpy.maximum': lambda x, y: mk_max(num(x), num(y)), 'numpy.minimum': lambda x, y: mk_min(num(x), num(y)),
    'numpy.fmax': lambda x, y: mk_max(num(x), num(y)), 'numpy.fmin': lambda x, y: mk_min(num(x), num(y)),
    'numpy.logical_and': lambda x, y: b_and(tobool(x), tobool(y)),
    'numpy.logical_or': lambda x, y: b_or(tobool(x), tobool(y)),
    'numpy.bitwise_and': lambda x, y: scalar_op('BitAnd', x, y),
    'numpy.bitwise_or': lambda x, y: scalar_op('BitOr', x, y),
    'numpy.logical_xor': lambda x, y: scalar_op('BitXor', tobool(x), tobool(y)),
    'numpy.less': lambda x, y: mk_cmp(num(x) - num(y), '<'), 'numpy.less_equal': lambda x, y: mk_cmp(num(x) - num(y), '<='),
    'numpy.greater': lambda x, y: mk_cmp(num(x) - num(y), '>'),
    'numpy.greater_equal': lambda x, y: mk_cmp(num(x) - num(y), '>='),
    'numpy.equal': lambda x, y: mk_cmp(num(x) - num(y), '=='),
    'numpy.not_equal': lambda x, y: mk_cmp(num(x) - num(y), '!='),
    'numpy.copysign': lambda x, y: ite(mk_cmp(num(y), '>='), mk_abs(num(x)), -mk_abs(num(x))),
}
for _n in ('less', 'less_equal', 'greater', 'greater_equal', 'equal', 'not_equal'):
    pass


# --------------------------------------------------------------------------
# random numbers
# --------------------------------------------------------------------------
def rng(I, path, gen, args, kwargs, st, node):
    name = path.rsplit('.', 1)[-1]
    if name in ('default_rng', 'RandomState', 'Generator', 'PCG64', 'SeedSequence', 'Random', 'MT19937'):
        r = ExtObj('numpy.random.Generator', I.uid(), tuple(I.freeze(a, st) for a in args))
        I.event(st, 'rng', 'create:' + name, args, kwargs, node, r)
        return r
    uid = I.uid()
    size = kwargs.get('size')
    at, _ = get_app('rng:' + name, (R.const(uid),) + tuple(R.atom(k) for k in I.loopk))
    if name == 'multivariate_normal':
        at.ndim = 1
        try:
            at.shape = tuple(shape_of(arr(I, args[0], st))) or None
        except Unsupported:
            pass
    r = R.atom(at)
    if name in ('seed', 'shuffle', 'set_state'):
        r = None
    I.event(st, 'rng', name, ([gen] if gen is not None else []) + list(args), kwargs, node, r)
    return r


# --------------------------------------------------------------------------
# built-ins
# --------------------------------------------------------------------------
def _len(I, args, kwargs, st, node):
    v = args[0]
    if isinstance(v, Gamma):
        return I.fork_value(v.cond, st, lambda s: _len(I, [v.a], kwargs, s, node), lambda s: _len(I, [v.b], kwargs, s, node))
    return I.length(v, st)


def range_n(lo, hi, step):
    if step.is_const() and step.value() == 0:
        raise Unsupported('range step 0')
    if step.is_const():
        s = step.value()
        if s == 1:
            return mk_max(R.const(0), hi - lo)
        if s == -1:
            return mk_max(R.const(0), lo - hi)
    return mk_max(R.const(0), mk_ceil((hi - lo) / step))


def as_int(v):
    if isinstance(v, (bool, B)):
        return as_r(v)
    return v


def _range(I, args, kwargs, st, node):
    a = [num(I.deref(x, st)) for x in args]
    lo, hi, step = R.const(0), a[0], R.const(1)
    if len(a) > 1:
        lo, hi = a[0], a[1]
    if len(a) > 2:
        step = a[2]
    n = range_n(lo, hi, step)
    n0 = n.single()
    k = kat()
    return Arr((n,), (k,), lo + step * R.atom(k), 'seq')


def _items(parts):
    return all(p[0] == 'item' and p[1] is True for p in parts)


def indexable(I, v, st):
    """(length, elem function) for a sequence of known structure, or None."""
    return I.length(v, st), lambda i: I.elem(v, i)


def frz(I, v, st):
    v = I.deref(v, st)
    if isinstance(v, Ref):
        h = st.heap.get(v.id)
        if isinstance(h, ListC):
            return ListV(h.parts)
        if isinstance(h, DictC):
            return TupleV([k for k, _ in h.items])
        if isinstance(h, ObjC):
            return ListV(I.seq(v, st))
    return v


def _enumerate(I, args, kwargs, st, node):
    start = num(A(args, kwargs, 1, 'start', R.const(0)))
    v = frz(I, args[0], st)
    parts = I.seq(v, st, node)
    if _items(parts):
        return TupleV([TupleV([R.const(i) + start, p[2]]) for i, p in enumerate(parts)])
    k = kat()
    if len(parts) == 1 and parts[0][0] == 'comp' and not simple_comp(parts[0]):
        return guarded_enum(I, parts, start, st, node)
    return Arr((I.length(v, st),), (k,), TupleV([R.atom(k) + start, I.elem(v, R.atom(k))]), 'seq')


def simple_comp(p):
    return p[3] is True and isinstance(p[4], ListV) and len(p[4].parts) == 1 and p[4].parts[0][0] == 'item' \
        and p[4].parts[0][1] is True


def guarded_enum(I, parts, start, st, node):
    """enumerate over a filtered sequence: the position counts earlier kept elements."""
    p = parts[0]
    ip = p[4].parts
    if len(ip) == 1 and ip[0][0] == 'item':
        c = b_and(p[3], ip[0][1])
        j = kat()
        pos = mk_sum(R.atom(p[2]), j, ite(subst(c, {p[2].id: R.atom(j)}), R.const(1), R.const(0)))
        return ListV([('comp', p[1], p[2], p[3], ListV([('item', ip[0][1], TupleV([start + pos, ip[0][2]]))]))])
    raise Unsupported('%s: enumerate over a filtered sequence' % I.where(node))


def _zip(I, args, kwargs, st, node):
    if len(args) == 1 and isinstance(args[0], StarSeq):
        return unzip(I, args[0].v, st, node)
    if any(isinstance(a, StarSeq) for a in args):
        raise Unsupported('%s: zip of starred arguments' % I.where(node))
    if not args:
        return TupleV([])
    vs = [frz(I, a, st) for a in args]
    if all(isinstance(v, MaskedV) and veq(v.mask, vs[0].mask) for v in vs):
        arrs = [v.arr for v in vs]
        return index_list(I, vs[0].mask, lambda ks: TupleV([subst(a.body, {x.id: k for x, k in zip(a.ks, ks)}) for a in arrs]))
    ps = [I.seq(v, st, node) for v in vs]
    if all(_items(p) for p in ps):
        return TupleV([TupleV([q[2] for q in t]) for t in zip(*ps)])
    al = aligned([list(p) for p in ps])
    if al is not None:
        return I.new_ref(st, ListC(al))
    k = kat()
    ls = [I.length(v, st) for v in vs]
    n = ls[0]
    for m in ls[1:]:
        if not r_eq(m, n):
            n = mk_min(n, m)
    return Arr((n,), (k,), TupleV([I.elem(v, R.atom(k)) for v in vs]), 'seq')


def aligned(ps):
    """Parts of the sequence of tuples, when the sequences select alike."""
    if len({len(p) for p in ps}) != 1 or not any(q[0] == 'comp' and (q[3] is not True or any(
            x[0] != 'item' or x[1] is not True for x in (q[4].parts if isinstance(q[4], ListV) else ()))) or
            q[0] == 'item' and q[1] is not True for q in ps[0]):
        return None
    out = []
    for t in zip(*ps):
        if any(q[0] != t[0][0] for q in t):
            return None
        if t[0][0] == 'item':
            if not all(same_b(q[1], t[0][1]) for q in t):
                return None
            out.append(('item', t[0][1], TupleV([q[2] for q in t])))
        elif t[0][0] == 'comp':
            _, n, k, cond, _ = t[0]
            inner = []
            for q in t:
                s = {q[2].id: R.atom(k)}
                if not (veq(q[1], n) and same_b(subst(q[3], s) if isinstance(q[3], B) else q[3], cond)):
                    return None
                body = subst(q[4], s)
                inner.append(list(body.parts) if isinstance(body, ListV) else [('item', True, x) for x in body.items])
            if len({len(x) for x in inner}) != 1:
                return None
            row = []
            for u in zip(*inner):
                if any(x[0] != 'item' or not same_b(x[1], u[0][1]) for x in u):
                    return None
                row.append(('item', u[0][1], TupleV([x[2] for x in u])))
            out.append(('comp', n, k, cond, ListV(row)))
        else:
            return None
    return out


def same_b(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    return beq(a, b)


def unzip(I, v, st, node):
    v = frz(I, v, st)
    k0 = kat()
    e = I.elem(v, R.atom(k0))
    cols = None
    if isinstance(e, R) and e.single() is not None:
        a = e.single()
        m = None
        b = v.single() if isinstance(v, R) else None
        if b is not None and isinstance(b.meta, dict):
            cols = b.meta.get('cols')
    elif isinstance(e, (TupleV, VecV)):
        cols = len(e.items)
    if cols is None:
        cols = I.lib.width_of(e)
    if cols is None:
        raise Unsupported('%s: zip(*x) of unknown width' % I.where(node))
    n = I.length(v, st)
    out = []
    for j in range(cols):
        k = kat()
        out.append(Arr((n,), (k,), I.elem(I.elem(v, R.atom(k)), R.const(j)), 'seq'))
    return TupleV(out)


def _map(I, args, kwargs, st, node):
    f = args[0]
    if len(args) > 2:
        z = _zip(I, args[1:], {}, st, node)
        return map_seq(I, z, lambda s, v: I.call(f, list(I.unpack(v, len(args) - 1, s, node)), {}, s, node), st, node)
    return map_seq(I, args[1], lambda s, v: I.call(f, [v], {}, s, node), st, node)


def map_seq(I, v, fn, st, node, keep=None):
    ref = I.new_ref(st, ListC([]))

    def body(x, e):
        r = fn(x, e)
        if keep is not None:
            c = I.truth(r, x, node)
            part = ('item', c, e)
            if c is not False:
                I.hset(x, ref.id, ListC(x.heap[ref.id].parts + (part,)))
        else:
            I.hset(x, ref.id, ListC(x.heap[ref.id].parts + (('item', True, r),)))
        return Out(x)
    o = I.run_parts(I.seq(v, st, node), body, st, node)
    I.sink.extend(o.raises)
    if o.next is None:
        raise PyDead()
    st.become(o.next)
    return ref


def _filter(I, args, kwargs, st, node):
    f = args[0]
    fn = (lambda s, v: v) if f is None else (lambda s, v: I.call(f, [v], {}, s, node))
    return map_seq(I, args[1], fn, st, node, keep=True)


def _sum(I, args, kwargs, st, node):
    v = I.deref(args[0], st)
    start = A(args, kwargs, 1, 'start', R.const(0))
    if isinstance(v, Arr) and v.tag != 'seq' and len(as_arr(v).ks) == 1:
        return sum_array(I, v, None, st) + num(start)
    if isinstance(v, Arr) and v.tag != 'seq':
        r = sum_array(I, v, 0, st)
    else:
        r = sum_parts(I, I.seq(v, st, node), st)
    return I.wrap(lift(lambda x, y: num(x) + num(y), r, I.deref(start, st)), st)


def _extreme(op):
    def f(I, args, kwargs, st, node):
        key = kwargs.get('key')
        if len(args) == 1:
            if key is not None:
                return arg_extreme_by(I, op, args[0], key, st, node, kwargs)
            if 'default' in kwargs:
                n = I.length(args[0], st)
                return ite(mk_cmp(n, '>'), extreme(I, op, args[0], st, node), num(kwargs['default']))
            return extreme(I, op, args[0], st, node)
        if any(isinstance(a, StarSeq) for a in args):
            parts = []
            for a in args:
                parts += I.seq(a.v, st) if isinstance(a, StarSeq) else [('item', True, a)]
            return extreme(I, op, ListV(parts), st, node)
        if key is not None:
            best = args[0]
            kb = I.call(key, [best], {}, st, node)
            for x in args[1:]:
                kx = I.call(key, [x], {}, st, node)
                c = mk_cmp(num(kx) - num(kb), '<' if op == 'min' else '>')
                best, kb = I.merge_vals(c, x, best), ite(c, kx, kb)
            return best
        vs = [I.deref(a, st) for a in args]
        mk = mk_min if op == 'min' else mk_max
        return mk(*[num(v) for v in vs])
    return f


def arg_extreme_by(I, op, v, key, st, node, kwargs):
    parts = I.seq(v, st, node)
    if _items(parts):
        return _extreme(op)(I, [p[2] for p in parts], {'key': key}, st, node)
    fz = I.freeze(v, st)
    ks = map_seq(I, v, lambda s, e: I.call(key, [e], {}, s, node), st, node)
    i = R.atom(get_app('arg' + op, (I.freeze(ks, st),))[0])
    i.single().integer = True
    i.single().nonneg = True
    return I.elem(fz, i)


def row_items(x):
    """The entries of a row of an input, None for other values."""
    if isinstance(x, (TupleV, VecV)):
        return list(x.items)
    a = x.single() if isinstance(x, R) else None
    if a is not None and a.op == 'idx' and len(a.args) == 2 and isinstance(a.args[0], R):
        b = a.args[0].single()
        w = b.meta.get('width') if b is not None and isinstance(b.meta, dict) else None
        if w:
            return [idx(a.args[0], a.args[1], R.const(j)) for j in range(w)]
    return None


def less(x, y):
    """x < y for numbers and rows of them, None for other values."""
    u, v = row_items(x), row_items(y)
    if u is None and v is None:
        return mk_cmp(y - x, '>') if isinstance(x, R) and isinstance(y, R) and not rank(x) and not rank(y) else None
    if u is None or v is None or len(u) != len(v):
        return None
    r = False
    for p, q in reversed(list(zip(u, v))):
        l = less(p, q)
        if l is None:
            return None
        r = b_or(l, b_and(mk_cmp(as_r(p) - as_r(q), '=='), r))
    return r


def sort_few(I, xs, key, rev, st, node):
    """A stable sort of at most three values, as choices."""
    if not 0 < len(xs) <= 3:
        return None
    xs = [I.deref(x, st) for x in xs]
    ks = xs if key is None else [I.freeze(I.call(key, [x], {}, st, node), st) for x in xs]
    rows = [row_items(x) for x in xs]
    xs = [(TupleV(r) if r is not None else x, k) for x, r, k in zip(xs, rows, ks)]
    if not all(isinstance(x, (R, TupleV)) for x, k in xs):
        return None
    for m in range(len(xs) - 1, 0, -1):
        for j in range(m):
            (x, k), (y, l) = xs[j], xs[j + 1]
            c = less(k, l) if rev else less(l, k)
            if c is None:
                return None
            xs[j], xs[j + 1] = (ite(c, y, x), ite(c, l, k)), (ite(c, x, y), ite(c, k, l))
    return [x for x, k in xs]


def _sorted(I, args, kwargs, st, node):
    v = I.deref(args[0], st)
    key = kwargs.get('key')
    rev = kwargs.get('reverse', False)
    if rev is not False and not isinstance(rev, bool):
        rv = num_truth(rev)
        rev = rv
    if key is None:
        try:
            if isinstance(v, (Arr, R, VecV)) and rank(v) == 1 or isinstance(v, Arr) and isinstance(v.body, R):
                s = sort_array(I, v if not isinstance(v, VecV) else as_arr(v), st)
                if rev:
                    s = reverse_arr(I, s, st)
                k = kat()
                n = I.length(s)
                return I.new_ref(st, ListC([('comp', n, k, True, ListV([('item', True, I.elem(s, R.atom(k)))]))]))
        except Unsupported:
            pass
        try:
            parts = I.seq(v, st, node)
        except Unsupported:
            parts = []
        xs = [p[2] for p in parts if p[0] == 'item' and p[1] is True]
        if len(xs) == len(parts) and 0 < len(xs) <= 4 and all(isinstance(x, R) and not rank(x) for x in xs):
            for m in range(len(xs) - 1, 0, -1):        # bubble network
                for j in range(m):
                    xs[j], xs[j + 1] = alg.mk_min(xs[j], xs[j + 1]), alg.mk_max(xs[j], xs[j + 1])
            if rev:
                xs = xs[::-1]
            return I.new_ref(st, ListC([('item', True, x) for x in xs]))
    if alg.SIZES:
        parts = I.seq(v, st, node)
        if all(p[0] == 'item' and p[1] is True for p in parts):
            xs = sort_few(I, [p[2] for p in parts], key, rev, st, node)
            if xs is not None:
                return I.new_ref(st, ListC([('item', True, x) for x in xs]))
    fz = I.freeze(args[0], st)
    extra = ()
    if key is not None:
        kk = kat()
        try:
            e = I.elem(fz, R.atom(kk))
            kv = I.call(key, [e], {}, st, node)
            k2, body = close_binder(kk, I.freeze(kv, st))
            extra = (R.atom(k2), body)
        except Unsupported:
            extra = (show(I.freeze(key, st)),)
    at, new = get_app('sorted', (fz, bool(rev)) + tuple(extra))
    if new:
        if isinstance(fz, R) and fz.single() is not None:
            at.meta = fz.single().meta
        at.shape = (I.length(fz, st),)
    return R.atom(at)


def num_truth(v):
    if isinstance(v, R) and v.is_const():
        return v.value() != 0
    raise Unsupported('symbolic flag')


def reverse_arr(I, v, st):
    n = I.length(v, st)
    k = iat()
    e = I.elem(v, n - R.const(1) - R.atom(k))
    return eta(Arr((n,), (k,), e))


def _reversed(I, args, kwargs, st, node):
    v = frz(I, args[0], st)
    parts = I.seq(v, st, node)
    if _items(parts):
        return TupleV([p[2] for p in reversed(parts)])
    n = I.length(v, st)
    k = kat()
    return Arr((n,), (k,), I.elem(v, n - R.const(1) - R.atom(k)), 'seq')


def _list(I, args, kwargs, st, node):
    if not args:
        return I.new_ref(st, ListC([]))
    return I.new_ref(st, ListC(I.seq(frz_gamma(args[0]), st, node)))


def frz_gamma(v):
    return v


def _tuple(I, args, kwargs, st, node):
    if not args:
        return TupleV([])
    parts = I.seq(args[0], st, node)
    if _items(parts):
        return TupleV([p[2] for p in parts])
    if len(parts) == 1 and parts[0][0] == 'sym':
        return parts[0][1]
    return ListV(parts)


def _set(I, args, kwargs, st, node):
    if not args:
        return I.new_ref(st, ListC([]))
    parts = I.seq(args[0], st, node)
    if _items(parts):
        out = []
        for p in parts:
            if not any(veq(p[2], q[2]) for q in out):
                out.append(p)
        if alg.SIZES and len(out) > 1 and any(not isinstance(p[2], (str, R)) or isinstance(p[2], R) and not p[2].is_const()
                                              for p in out):
            # entries that may be equal, in no particular order
            import lib
            alg.UNORDERED.append(I.where(node))
            some = []
            for p in out:
                new = b_and(*[b_not(b_and(q[1], lib.same_value(I, q[2], p[2], st))) for q in some])
                if new is not False:
                    some.append(('item', b_and(p[1], new), p[2]))
            out = some
        return I.new_ref(st, ListC(out))
    return R.atom(get_app('set', (I.freeze(args[0], st),))[0])


def _dict(I, args, kwargs, st, node):
    ref = I.new_ref(st, DictC([]))
    if args:
        a = args[0]
        if isinstance(a, Ref) and isinstance(st.heap.get(a.id), DictC):
            st.heap[ref.id] = DictC(st.heap[a.id].items)
        else:
            parts = I.seq(a, st, node)
            if not _items(parts):
                raise Unsupported('%s: dict of a symbolic sequence' % I.where(node))
            for p in parts:
                k, v = I.unpack(p[2], 2, st, node)
                dict_set(I, ref, k, v, st)
    for k, v in kwargs.items():
        dict_set(I, ref, k, v, st)
    return ref


def _int(I, args, kwargs, st, node):
    if not args:
        return R.const(0)
    v = I.deref(args[0], st)
    if isinstance(v, str):
        try:
            return R.const(int(v))
        except ValueError:
            raise Unsupported('int of text')
    if is_text(v):
        return R.atom(get_app('int', (v,))[0])
    if rank(v):
        return I.wrap(lift(lambda x: mk_trunc(num(x)), v), st)
    if isinstance(v, Gamma):
        return ite(v.cond, _int(I, [v.a], {}, st, node), _int(I, [v.b], {}, st, node))
    return mk_trunc(num(v))


def _float(I, args, kwargs, st, node):
    if not args:
        return R.const(0)
    v = I.deref(args[0], st)
    if isinstance(v, str):
        t = v.strip().lower()
        if t in ('inf', '+inf', 'infinity'):
            return INF()
        if t == '-inf':
            return -INF()
        if t == 'nan':
            return NAN()
        try:
            return num_const(float(v))
        except ValueError:
            raise Unsupported('float of text')
    if is_text(v):
        return R.atom(get_app('float', (v,))[0])
    if isinstance(v, VecV) and len(v.items) == 1:
        return num(v.items[0])
    if isinstance(v, (bool, B)):
        return as_r(v)
    if isinstance(v, Gamma):
        return ite(v.cond, _float(I, [v.a], {}, st, node), _float(I, [v.b], {}, st, node))
    return v


def _bool(I, args, kwargs, st, node):
    if not args:
        return False
    return I.truth(args[0], st, node)


def _str(I, args, kwargs, st, node):
    if not args:
        return ''
    v = I.freeze(args[0], st)
    if is_text(v):
        return v
    if isinstance(v, R) and v.is_const() and is_int(v):
        return mkstr([('fmt', v, '', '')])
    if isinstance(v, Ref) and isinstance(st.heap.get(v.id), ObjC) and isinstance(st.heap[v.id].cls, ClassV):
        m = st.heap[v.id].cls.lookup('__str__')
        if isinstance(m, FuncV):
            return I.call_func(m, [v], {}, st, node)
    return mkstr([('fmt', v, '', '')])


def _repr(I, args, kwargs, st, node):
    v = I.freeze(args[0], st)
    if isinstance(v, Ref) and isinstance(st.heap.get(v.id), ObjC) and isinstance(st.heap[v.id].cls, ClassV):
        m = st.heap[v.id].cls.lookup('__repr__')
        if isinstance(m, FuncV):
            return I.call_func(m, [v], {}, st, node)
    return mkstr([('fmt', v, '', 'r')])


def _round(I, args, kwargs, st, node):
    v = I.deref(args[0], st)
    nd = A(args, kwargs, 1, 'ndigits', None)
    nd = A(args, kwargs, 1, 'decimals', nd)
    def f(x):
        x = num(x)
        if x.is_const() and is_int(x):
            return x
        at, _ = get_app('round', (x,) if nd is None else (x, num(nd)))
        if nd is None:
            at.integer = True
        return R.atom(at)
    return I.wrap(lift(f, v), st)


def _print(I, args, kwargs, st, node):
    I.event(st, 'print', 'print', args, kwargs, node)
    return None


def _isinstance(I, args, kwargs, st, node):
    return isinstance_(I, args[0], args[1], st)


def _isscalar(I, v, st):
    v = I.deref(v, st)
    if isinstance(v, Gamma):
        return b_or(b_and(v.cond, _isscalar(I, v.a, st)), b_and(b_not(v.cond), _isscalar(I, v.b, st)))
    if isinstance(v, R) and not rank(v) and not v.is_const() and v.single() is not None:
        return b_or(*[isinstance_(I, v, ExtV('builtins.' + t), st) for t in ('int', 'float', 'bool', 'str')])
    return isinstance(v, (bool, B)) or is_text(v) or isinstance(v, R) and not rank(v)


def _type(I, args, kwargs, st, node):
    v = args[0]
    if isinstance(v, Ref) and isinstance(st.heap.get(v.id), ObjC):
        return st.heap[v.id].cls
    return TypeOf(v)


def _hasattr(I, args, kwargs, st, node):
    o, n = args
    if isinstance(o, Ref) and isinstance(st.heap.get(o.id), ObjC):
        h = st.heap[o.id]
        if n in h.fields and h.fields[n] is not UNDEF:
            return b_not(undef_cond(h.fields[n])) if has_undef(h.fields[n]) else True
        return isinstance(h.cls, ClassV) and I.cls_lookup(h.cls, n, st) is not None
    if isinstance(o, ClassV):
        return I.cls_lookup(o, n, st) is not None
    if isinstance(o, FuncV):
        m = st.frames.get(('cls', 'f:' + o.qual), {}).get(n, UNDEF)
        return b_not(undef_cond(m)) if has_undef(m) and m is not UNDEF else m is not UNDEF
    return b_atom(R.atom(get_app('hasattr', (I.freeze(o, st), n))[0]))


def _getattr(I, args, kwargs, st, node):
    o, n = args[0], args[1]
    if not isinstance(n, str):
        return R.atom(get_app('getattr', (I.freeze(o, st), I.freeze(n, st)))[0])
    if len(args) > 2:
        old, I.sink = I.sink, []
        s2 = st.copy()
        try:
            try:
                v = I.getattr(o, n, s2, node)
            except PyDead:
                return args[2]
            finally:
                I.sink = old
        except Unsupported:
            return args[2]
    return I.getattr(o, n, st, node)


def _setattr(I, args, kwargs, st, node):
    if not isinstance(args[1], str):
        raise Unsupported('%s: setattr with a computed name' % I.where(node))
    I.setattr(args[0], args[1], args[2], st, node)
    return None


def _any(I, args, kwargs, st, node):
    v = I.deref(args[0], st)
    if rank(v):
        return any_array(I, v, st, tobool)
    return any_parts(I, I.seq(v, st, node), st, lambda x: I.truth(x, st, node))


def _all(I, args, kwargs, st, node):
    v = I.deref(args[0], st)
    if rank(v):
        return b_not(any_array(I, v, st, lambda x: b_not(tobool(x))))
    return b_not(any_parts(I, I.seq(v, st, node), st, lambda x: b_not(I.truth(x, st, node))))


def _divmod(I, args, kwargs, st, node):
    a, b = num(I.deref(args[0], st)), num(I.deref(args[1], st))
    q = mk_floor(a / b)
    return TupleV([q, a - b * q])


def _pow(I, args, kwargs, st, node):
    return I.wrap(lift(lambda x, y: mk_pow(num(x), num(y)), I.deref(args[0], st), I.deref(args[1], st)), st)


def _iter(I, args, kwargs, st, node):
    return args[0]


def _next(I, args, kwargs, st, node):
    v = args[0]
    parts = I.seq(v, st, node)
    if len(args) > 1:
        r = args[1]
        n = I.length(ListV(parts), st)
        if _items(parts):
            return parts[0][2] if parts else r
        if len(parts) == 1 and parts[0][0] == 'comp':
            p = parts[0]
            ip = p[4].parts
            if len(ip) == 1 and ip[0][0] == 'item':
                c = b_and(p[3], ip[0][1])
                k = kat()
                ex = mk_exists(p[1], k, subst(c, {p[2].id: R.atom(k)}) if isinstance(c, B) else c)
                f = loops.mk_first(p[1], p[2], c)
                return I.merge_vals(ex, subst(ip[0][2], {p[2].id: f}), r)
    if parts and parts[0][0] == 'item' and parts[0][1] is True:
        return parts[0][2]
    if len(parts) == 1 and parts[0][0] == 'comp':
        p = parts[0]
        ip = p[4].parts
        if len(ip) == 1 and ip[0][0] == 'item':
            c = b_and(p[3], ip[0][1])
            f = loops.mk_first(p[1], p[2], c)
            return subst(ip[0][2], {p[2].id: f})
    raise Unsupported('%s: next()' % I.where(node))


def _callable(I, args, kwargs, st, node):
    return isinstance(args[0], (FuncV, BoundV, ClassV, OpaqueF, PartialV, ExtV))


def _open(I, args, kwargs, st, node):
    r = ExtObj('builtins.open', I.uid(), tuple(I.freeze(a, st) for a in args))
    I.event(st, 'ext', 'builtins.open', args, kwargs, node, r)
    return r


def _super(I, args, kwargs, st, node):
    raise Unsupported('%s: super()' % I.where(node))


def _property(I, args, kwargs, st, node):
    return PropV(args[0] if args else None, args[1] if len(args) > 1 else None)


def _identity(I, args, kwargs, st, node):
    return args[0]


def _none(I, args, kwargs, st, node):
    return None


# --------------------------------------------------------------------------
# numpy constructors and shape functions
# --------------------------------------------------------------------------
def dtype_cast(I, v, dt, st):
    if dt is None:
        return v
    n = dt if isinstance(dt, str) else (dt.path.rsplit('.', 1)[-1] if isinstance(dt, ExtV) else None)
    if n in ('int', 'int64', 'int32', 'intp', 'int_', 'i', 'i4', 'i8', 'int16', 'int8', 'uint8', 'uint32', 'uint64', 'uint'):
        return lift(lambda x: mk_trunc(num(x)), v)
    if n in ('bool', '?'):
        return lift(tobool, v)
    if n in ('float', 'float64', 'double', 'd', 'f8', 'complex'):
        return lift(lambda x: num(x), v) if not isinstance(v, MaskedV) else v
    if n in ('float32', 'f4', 'float16', 'half', 'single', 'f', 'f2'):
        return lift(app1('cast:' + n), v)
    if n in ('object', 'dtype', 'str'):
        return v
    raise Unsupported('dtype %r' % (dt,))


def _array(I, args, kwargs, st, node):
    v = A(args, kwargs, 0, 'object')
    r = to_array(I, v, st, node)
    dt = A(args, kwargs, 1, 'dtype')
    r = dtype_cast(I, r, dt, st)
    nd = kwargs.get('ndmin')
    if isinstance(r, (VecV, Arr, MaskedV)) or rank(r):
        return typed(I, I.new_ref(st, ArrC(r)), dt or int_literals(node, 0) or (I.dtypes.get(v.id) if isinstance(v, Ref) else None)) if not isinstance(r, MaskedV) else r
    return r


NARROW = ('int', 'int64', 'int32', 'intp', 'int_', 'i', 'i4', 'i8', 'int16', 'int8', 'uint8', 'uint32', 'uint64', 'uint',
          'bool', '?', 'bool_', 'float32', 'f4', 'float16', 'half', 'single', 'f', 'f2')


def typed(I, ref, dt):
    """Remember the element type of a new array: what is stored into it later is converted."""
    n = dt if isinstance(dt, str) else (dt.path.rsplit('.', 1)[-1] if isinstance(dt, ExtV) else None)
    if isinstance(ref, Ref) and n in NARROW:
        I.dtypes[ref.id] = dt
    return ref


def element_type(I, o, v):
    """The element type of an array, where it is not float."""
    dt = I.dtypes.get(o.id) if isinstance(o, Ref) else None
    if dt is not None:
        return ExtV('numpy.' + dt) if isinstance(dt, str) and dt.isidentifier() else dt
    while isinstance(v, VecV) and v.items:
        v = v.items[0]
    b = v.body if isinstance(v, Arr) else v
    a = b.single() if isinstance(b, R) else None
    if isinstance(b, (bool, B)) or a is not None and getattr(a, 'boolean', False):
        return ExtV('numpy.bool')
    return None


def int_literals(node, i):
    """numpy takes an array built from integer constants alone for an integer array."""
    if not (isinstance(node, ast.Call) and len(node.args) > i) or any(k.arg == 'dtype' for k in node.keywords):
        return None

    def ints(x):
        if isinstance(x, (ast.List, ast.Tuple)):
            return bool(x.elts) and all(ints(y) for y in x.elts)
        if isinstance(x, ast.UnaryOp):
            return ints(x.operand)
        return isinstance(x, ast.Constant) and type(x.value) is int
    return 'int' if ints(node.args[i]) else None


def _filled(val):
    def f(I, args, kwargs, st, node):
        sh = A(args, kwargs, 0, 'shape')
        v = val
        i = 1
        if val == 'full':
            v = num(I.deref(A(args, kwargs, 1, 'fill_value'), st)) if not isinstance(
                I.deref(A(args, kwargs, 1, 'fill_value'), st), (bool, B)) else I.deref(args[1], st)
            i = 2
        r = full_array(shape_arg(I, sh, st), v)
        dt = A(args, kwargs, i, 'dtype')
        if dt is not None:
            r = dtype_cast(I, r, dt, st)
        elif val == 'full':
            dt = int_literals(node, 1)
        ref = I.new_ref(st, ArrC(r))
        if val != 'full' and (dt is None or isinstance(dt, ExtV) and dt.path in ('numpy.float', 'numpy.float64', 'builtins.float', 'numpy.double')):
            I.floats.add(ref.id)
        return typed(I, ref, dt)
    return f


def _filled_like(val):
    def f(I, args, kwargs, st, node):
        a = arr(I, args[0], st)
        v = val if val != 'full' else num(I.deref(args[1], st))
        sh = shape_of(a)
        if not sh:
            return v
        r = full_array(list(sh), v)
        dt = kwargs.get('dtype')
        if dt is not None:
            r = dtype_cast(I, r, dt, st)
        else:
            dt = element_type(I, args[0], I.deref(args[0], st))
            if dt is not None:
                r = dtype_cast(I, r, dt, st)
        ref = I.new_ref(st, ArrC(r))
        if dt is None and isinstance(args[0], Ref) and args[0].id in I.floats:
            I.floats.add(ref.id)
        return typed(I, ref, dt)
    return f


def _eye(I, args, kwargs, st, node):
    n = num(I.deref(args[0], st))
    m = A(args, kwargs, 1, 'M')
    m = n if m is None else num(I.deref(m, st))
    if n.is_const() and n.value() <= 12 and m.is_const():
        return I.wrap(VecV([VecV([R.const(1 if i == j else 0) for j in range(int(m.value()))]) for i in range(int(n.value()))]), st)
    i, j = iat(), iat()
    return I.wrap(Arr((n, m), (i, j), ite(mk_cmp(R.atom(i) - R.atom(j), '=='), R.const(1), R.const(0))), st)


def _diag(I, args, kwargs, st, node):
    v = arr(I, args[0], st)
    if rank(v) == 2:
        a = as_arr(v)
        k = iat()
        return I.wrap(Arr((a.shape[0],), (k,), subst(a.body, {a.ks[0].id: R.atom(k), a.ks[1].id: R.atom(k)})), st)
    a = as_arr(v)
    i, j = iat(), iat()
    return I.wrap(Arr((a.shape[0], a.shape[0]), (i, j), ite(mk_cmp(R.atom(i) - R.atom(j), '=='),
                  subst(a.body, {a.ks[0].id: R.atom(i)}), R.const(0))), st)


def const_size(dims):
    """The number of entries when every dimension is a known number, else None."""
    n = 1
    for d in dims:
        if not isinstance(d, R) or not d.is_const() or d.value() < 0:
            return None
        n *= d.value()
    return n


def do_reshape(I, v, dims, st, node):
    v = I.deref(v, st)
    have, want = const_size(shape_of(v)), const_size(dims)
    if have is not None and want is not None and have != want:
        I.raise_exc(st, I.make_exc(st, ExtV('builtins.ValueError'), ['reshape']))
        raise PyDead()
    if len(dims) == 1 and isinstance(dims[0], R) and dims[0].is_const() and dims[0].value() == -1:
        return I.wrap(ravel(I, v, st), st)
    real = [d for d in dims if not (d.is_const() and d.value() == 1)]
    if len(real) <= 1 and (rank(v) or 0) <= 2:
        flat = as_arr(ravel(I, v, st))
        n = flat.shape[0]
        ks = [iat() for _ in dims]
        src = R.const(0)
        shape = []
        for d, k in zip(dims, ks):
            if d.is_const() and d.value() == 1:
                shape.append(R.const(1))
            else:
                shape.append(n if d.is_const() and d.value() == -1 else d)
                src = R.atom(k)
        return I.wrap(Arr(shape, ks, subst(flat.body, {flat.ks[0].id: src})), st)
    if isinstance(v, R) and v.single() is not None and v.single().op == 'ravel':
        b = v.single().args[0]
        bs = shape_of(b)
        if len(bs) == len(dims) and all(x is not None and r_eq(x, y) for x, y in zip(bs, dims)):
            return I.wrap(b, st)
    sh = shape_of(v)
    if len(sh) == len(dims) and all(r_eq(a, b) for a, b in zip(sh, dims) if a is not None):
        return I.wrap(v, st)
    auto = [i for i, d in enumerate(dims) if d.is_const() and d.value() == -1]
    if len(sh) == len(dims) and len(auto) == 1 and all(
            a is not None and (i in auto or r_eq(a, b)) for i, (a, b) in enumerate(zip(sh, dims))):
        return I.wrap(v, st)
    if isinstance(v, VecV) and all(d.is_const() for d in dims):
        fl = flatten_items(v)
        ds = [int(d.value()) for d in dims]
        if -1 in ds:
            i = ds.index(-1)
            m = 1
            for x in ds:
                m *= x if x != -1 else 1
            ds[i] = len(fl) // m

        def build(ds, fl):
            if len(ds) == 1:
                return VecV(fl)
            step = len(fl) // ds[0]
            return VecV([build(ds[1:], fl[i * step:(i + 1) * step]) for i in range(ds[0])])
        return I.wrap(build(ds, fl), st)
    # full-length columns/rows of a symbolic array: (n, c) from flat n*c
    a = find_app('reshape', I.freeze(v, st), TupleV(dims))
    a.ndim = len(dims)
    a.shape = tuple(dims)
    return R.atom(a)


def _reshape(I, args, kwargs, st, node):
    return do_reshape(I, arr(I, args[0], st), shape_arg(I, A(args, kwargs, 1, 'newshape', kwargs.get('shape')), st), st, node)


def _ravel(I, args, kwargs, st, node):
    return I.wrap(ravel(I, arr(I, args[0], st), st), st)


def _transpose(I, args, kwargs, st, node):
    return I.wrap(transpose(I, arr(I, args[0], st), st), st)


def _squeeze(I, args, kwargs, st, node):
    v = arr(I, args[0], st)
    a = as_arr(v) if rank(v) else None
    if a is None:
        return v
    keep = [i for i, s in enumerate(a.shape) if not (isinstance(s, R) and s.is_const() and s.value() == 1)]
    sub = {k.id: R.const(0) for i, k in enumerate(a.ks) if i not in keep}
    if not keep:
        return subst(a.body, sub)
    return I.wrap(Arr([a.shape[i] for i in keep], [a.ks[i] for i in keep], subst(a.body, sub)), st)


def _flip(I, args, kwargs, st, node):
    v = arr(I, args[0], st)
    ax = A(args, kwargs, 1, 'axis')
    a = as_arr(v)
    axes = range(len(a.ks)) if ax is None else [int(num(ax).value()) % len(a.ks)]
    return I.wrap(flip_axes(a, axes), st)


def flip_axes(a, axes):
    sub, ks = {}, list(a.ks)
    for i in axes:
        k = iat()
        sub[a.ks[i].id] = a.shape[i] - R.const(1) - R.atom(k)
        ks[i] = k
    return eta(Arr(a.shape, ks, subst(a.body, sub)))


def _flipud(I, args, kwargs, st, node):
    return I.wrap(flip_axes(as_arr(arr(I, args[0], st)), [0]), st)


def _fliplr(I, args, kwargs, st, node):
    return I.wrap(flip_axes(as_arr(arr(I, args[0], st)), [1]), st)


def _rot90(I, args, kwargs, st, node):
    k = A(args, kwargs, 1, 'k', R.const(1))
    k = int(num(k).value()) % 4
    a = as_arr(arr(I, args[0], st))
    for _ in range(k):
        t = transpose(I, a, st)
        a = as_arr(flip_axes(as_arr(t), [0]))
    return I.wrap(a, st)


def _linspace(I, args, kwargs, st, node):
    lo, hi = num(I.deref(args[0], st)), num(I.deref(args[1], st))
    n = A(args, kwargs, 2, 'num', R.const(50))
    n = num(I.deref(n, st))
    n = n if is_int(n) else n
    ep = A(args, kwargs, 3, 'endpoint', True)
    if not isinstance(ep, bool):
        ep = num_truth(ep)
    k = iat()
    if ep:
        if n.is_const() and n.value() == 1:
            return I.wrap(VecV([lo]), st)
        body = lo + (hi - lo) * R.atom(k) / (n - R.const(1))
    else:
        body = lo + (hi - lo) * R.atom(k) / n
    if n.is_const() and n.value() <= 12:
        return I.wrap(VecV([subst(body, {k.id: R.const(i)}) for i in range(int(n.value()))]), st)
    r = I.wrap(Arr((n,), (k,), body), st)
    if kwargs.get('retstep') is True:
        return TupleV([r, (hi - lo) / (n - R.const(1) if ep else n)])
    return r


def apply_rounding(q):
    at, new = get_app('rounding', (q,))
    if new:
        at.integer = at.nonneg = True
    return R.atom(at)


def _arange(I, args, kwargs, st, node):
    a = [num(I.deref(x, st)) for x in args]
    if 'stop' in kwargs:
        a.append(num(kwargs['stop']))
    lo, hi, step = R.const(0), a[0], R.const(1)
    if len(a) > 1:
        lo, hi = a[0], a[1]
    if len(a) > 2:
        step = a[2]
    elif 'step' in kwargs:
        step = num(kwargs['step'])
    if is_int(lo) and is_int(hi) and step.is_const() and step.value() in (1, -1):
        n = range_n(lo, hi, step)
    else:
        q = (hi - lo) / step
        n = mk_max(R.const(0), mk_ceil(q))
        if is_int(q) and not is_int(step) and not (step.is_const() and (q.is_const() or step.value().denominator & (step.value().denominator - 1) == 0)):
            # the last value appears or not as the quotient happens to be rounded
            n = n + apply_rounding(q)
    k = iat()
    body = lo + step * R.atom(k)
    if n.is_const() and n.value() <= 12:
        return I.wrap(VecV([subst(body, {k.id: R.const(i)}) for i in range(int(n.value()))]), st)
    return I.wrap(Arr((n,), (k,), body), st)


def stack_items(I, v, st, node):
    parts = I.seq(v, st, node)
    if not _items(parts):
        return None
    return [arr(I, p[2], st) for p in parts]


def _column_stack(I, args, kwargs, st, node):
    xs = stack_items(I, args[0], st, node)
    if xs is None:
        t = to_array(I, args[0], st)
        return I.wrap(transpose(I, as_arr(t), st), st)
    cols = []
    for x in xs:
        a = as_arr(x)
        if len(a.ks) == 1:
            cols.append(a)
        else:
            w = a.shape[1]
            if not w.is_const():
                raise Unsupported('%s: column_stack of wide arrays' % I.where(node))
            for j in range(int(w.value())):
                cols.append(Arr(a.shape[:1], a.ks[:1], subst(a.body, {a.ks[1].id: R.const(j)})))
    if all(isinstance(x, VecV) and rank(x) == 1 for x in xs):
        return I.wrap(VecV([VecV(list(t)) for t in zip(*[x.items for x in xs])]), st)
    i, j = iat(), iat()
    bodies = [subst(c.body, {c.ks[0].id: R.atom(i)}) for c in cols]
    n = cols[0].shape[0]
    return I.wrap(Arr((n, R.const(len(cols))), (i, j), select(bodies, R.atom(j))), st)


def _vstack(I, args, kwargs, st, node):
    xs = stack_items(I, args[0], st, node)
    if xs is None:
        return I.wrap(to_array(I, args[0], st), st)
    if all(rank(x) == 1 for x in xs):
        if all(isinstance(x, VecV) for x in xs):
            return I.wrap(VecV(xs), st)
        arrs = [as_arr(x) for x in xs]
        i, j = iat(), iat()
        return I.wrap(Arr((R.const(len(xs)), arrs[0].shape[0]), (i, j),
                          select([subst(a.body, {a.ks[0].id: R.atom(j)}) for a in arrs], R.atom(i))), st)
    xs = [small(VecV([x]) if rank(x) == 1 else x) for x in xs]
    if len(xs) == 1:
        return I.wrap(xs[0], st)
    return concat(I, xs, 0, st, node)


def concat(I, xs, axis, st, node):
    if all(isinstance(x, VecV) for x in xs) and axis == 0:
        return I.wrap(VecV([i for x in xs for i in x.items]), st)
    arrs = [as_arr(x) if rank(x) else as_arr(VecV([x])) for x in xs]
    nd = max(len(a.ks) for a in arrs)
    if axis < 0:
        axis += nd
    k = [iat() for _ in range(nd)]
    off = R.const(0)
    offs = []
    for a in arrs:
        offs.append(off)
        off = off + a.shape[axis]
    bodies = []
    for a, o in zip(arrs, offs):
        sub = {}
        for j, ka in enumerate(a.ks):
            sub[ka.id] = R.atom(k[j]) - (o if j == axis else R.const(0))
        bodies.append(subst(a.body, sub))
    r = bodies[-1]
    for j in range(len(bodies) - 2, -1, -1):
        r = ite(mk_cmp(R.atom(k[axis]) - offs[j + 1], '<'), bodies[j], r)
    shape = list(arrs[0].shape)
    shape[axis] = off
    if off.is_const() and off.value() <= 12 and nd == 1:
        return I.wrap(VecV([subst(r, {k[0].id: R.const(i)}) for i in range(int(off.value()))]), st)
    return I.wrap(Arr(shape, k, r), st)


def _concatenate(I, args, kwargs, st, node):
    ax = A(args, kwargs, 1, 'axis', R.const(0))
    xs = stack_items(I, args[0], st, node)
    if xs is None:
        fz = I.freeze(args[0], st)
        at = find_app('concat', fz)
        at.ndim = 1
        return R.atom(at)
    return concat(I, xs, int(num(ax).value()), st, node)


def _hstack(I, args, kwargs, st, node):
    xs = stack_items(I, args[0], st, node)
    if xs is None:
        return _concatenate(I, args, {}, st, node)
    nd = max(rank(x) or 1 for x in xs)
    return concat(I, xs, 0 if nd == 1 else 1, st, node)


def _stack(I, args, kwargs, st, node):
    ax = int(num(A(args, kwargs, 1, 'axis', R.const(0))).value())
    xs = stack_items(I, args[0], st, node)
    if xs is None:
        return I.wrap(to_array(I, args[0], st), st)
    if all(rank(x) == 0 for x in xs):
        return I.wrap(VecV(xs), st)
    if ax == 0:
        return _vstack(I, [TupleV(xs)], {}, st, node)
    if all(rank(x) == 1 for x in xs):
        return _column_stack(I, [TupleV(xs)], {}, st, node)
    raise Unsupported('%s: stack' % I.where(node))


def _append(I, args, kwargs, st, node):
    a, b = arr(I, args[0], st), arr(I, args[1], st)
    ax = A(args, kwargs, 2, 'axis')
    if ax is None:
        a = ravel(I, a, st) if rank(a) else VecV([a])
        b = ravel(I, b, st) if rank(b) else VecV([b])
        return concat(I, [a, b], 0, st, node)
    return concat(I, [a, b], int(num(ax).value()), st, node)


def _pad(I, args, kwargs, st, node):
    a = as_arr(arr(I, args[0], st))
    w = I.freeze(A(args, kwargs, 1, 'pad_width'), st)
    mode = A(args, kwargs, 2, 'mode', 'constant')
    cv = kwargs.get('constant_values', R.const(0))
    if mode != 'constant':
        raise Unsupported('%s: pad mode' % I.where(node))
    if isinstance(w, R):
        pairs = [(w, w)] * len(a.ks)
    else:
        it = w.items
        if all(isinstance(x, R) for x in it):
            pairs = [(num(it[0]), num(it[-1]))] * len(a.ks)
        else:
            pairs = [(num(x.items[0]), num(x.items[-1])) for x in it]
            if len(pairs) == 1:
                pairs = pairs * len(a.ks)
    ks = [iat() for _ in a.ks]
    sub, conds, shape = {}, [], []
    for k, k0, s, (p, q) in zip(ks, a.ks, a.shape, pairs):
        rel = R.atom(k) - p
        sub[k0.id] = rel
        conds += [mk_cmp(rel, '>='), mk_cmp(s - rel, '>')]
        shape.append(s + p + q)
    old = subst(a.body, sub)
    body = ite(b_and(*conds), old, tobool(cv) if is_boolish(old) else num(cv))
    return I.wrap(Arr(shape, ks, body), st)


def _meshgrid(I, args, kwargs, st, node):
    ij = kwargs.get('indexing', 'xy')
    xs = [as_arr(arr(I, a, st)) for a in args]
    if len(xs) != 2:
        raise Unsupported('%s: meshgrid' % I.where(node))
    x, y = xs
    out = []
    for which in (0, 1):
        i, j = iat(), iat()
        src = xs[which]
        if ij == 'xy':
            k = j if which == 0 else i
            shape = (y.shape[0], x.shape[0])
        else:
            k = i if which == 0 else j
            shape = (x.shape[0], y.shape[0])
        out.append(I.wrap(Arr(shape, (i, j), subst(src.body, {src.ks[0].id: R.atom(k)})), st))
    return I.new_ref(st, ListC([('item', True, o) for o in out]))


def axis_arg(args, kwargs, i=1):
    ax = A(args, kwargs, i, 'axis')
    if ax is None:
        return None
    if isinstance(ax, R) and ax.is_const():
        return int(ax.value())
    raise Unsupported('axis argument')


def _npsum(I, args, kwargs, st, node):
    v = arr(I, args[0], st)
    if kwargs.get('where') is not None:
        raise Unsupported('sum(where=)')
    r = sum_array(I, v, axis_arg(args, kwargs), st)
    if kwargs.get('keepdims') is True:
        raise Unsupported('keepdims')
    return I.wrap(r, st)


def count_of(I, v, axis, st):
    if isinstance(v, MaskedV):
        return I.length(v)
    if axis is None:
        return size_of(v)
    return shape_of(v)[axis]


def _mean(I, args, kwargs, st, node):
    v = arr(I, args[0], st)
    ax = axis_arg(args, kwargs)
    s = sum_array(I, v, ax, st)
    n = count_of(I, v, ax, st)
    return I.wrap(lift(lambda x: num(x) / n, s), st)


def _average(I, args, kwargs, st, node):
    w = A(args, kwargs, 2, 'weights')
    if w is None:
        return _mean(I, args, kwargs, st, node)
    v, w = arr(I, args[0], st), arr(I, w, st)
    ax = axis_arg(args, kwargs)
    s = sum_array(I, lift(lambda x, y: num(x) * num(y), v, w), ax, st)
    t = sum_array(I, w, ax, st)
    return I.wrap(lift(lambda x, y: num(x) / num(y), s, t), st)


def var_of(I, args, kwargs, st, node):
    v = arr(I, args[0], st)
    ax = axis_arg(args, kwargs)
    dd = kwargs.get('ddof', R.const(0))
    n = count_of(I, v, ax, st)
    m = sum_array(I, v, ax, st) / n if not rank(sum_array(I, v, ax, st)) else None
    if m is None:
        raise Unsupported('%s: var along an axis' % I.where(node))
    d = lift(lambda x: (num(x) - m) * (num(x) - m), v)
    return sum_array(I, d, None, st) / (n - num(dd))


def _var(I, args, kwargs, st, node):
    return var_of(I, args, kwargs, st, node)


def _std(I, args, kwargs, st, node):
    return mk_sqrt(var_of(I, args, kwargs, st, node))


def _npextreme(op):
    def f(I, args, kwargs, st, node):
        v = arr(I, args[0], st)
        ax = axis_arg(args, kwargs)
        if ax is None or rank(v) == 1:
            return extreme(I, op, v, st, node)
        a = as_arr(v)
        ax %= len(a.ks)
        rest = [i for i in range(len(a.ks)) if i != ax]
        k = kat()
        e = subst(a.body, {a.ks[ax].id: R.atom(k)})
        n = a.shape[ax]
        mk = mk_min if op == 'min' else mk_max
        if n.is_const() and n.value() <= 12:
            b = mk(*[subst(e, {k.id: R.const(i)}) for i in range(int(n.value()))])
        else:
            b = big_extreme(op, n, k, e)
        return I.wrap(Arr([a.shape[i] for i in rest], [a.ks[i] for i in rest], b), st)
    return f


def _prod(I, args, kwargs, st, node):
    v = arr(I, args[0], st)
    if isinstance(v, VecV):
        t = R.const(1)
        for x in flatten_items(v):
            t = t * num(x)
        return t
    return R.atom(get_app('prod', (I.freeze(v, st),))[0])


def _dot(I, args, kwargs, st, node):
    return I.wrap(matmul(I, arr(I, args[0], st), arr(I, args[1], st), st), st)


def _outer(I, args, kwargs, st, node):
    a, b = as_arr(arr(I, args[0], st)), as_arr(arr(I, args[1], st))
    i, j = iat(), iat()
    return I.wrap(Arr((a.shape[0], b.shape[0]), (i, j), num(subst(a.body, {a.ks[0].id: R.atom(i)})) *
                      num(subst(b.body, {b.ks[0].id: R.atom(j)}))), st)


def _where(I, args, kwargs, st, node):
    if len(args) == 1:
        return _nonzero(I, args, kwargs, st, node)
    c, x, y = [arr(I, a, st) for a in args]
    return I.wrap(lift(lambda p, q, r: ite(tobool(p), num(q) if not isinstance(q, (bool, B)) else q,
                                           num(r) if not isinstance(r, (bool, B)) else r), c, x, y), st)


def _clip(I, args, kwargs, st, node):
    v = arr(I, args[0], st)
    lo, hi = A(args, kwargs, 1, 'a_min'), A(args, kwargs, 2, 'a_max')
    if lo is not None:
        v = lift(lambda x, y: mk_max(num(x), num(y)), v, arr(I, lo, st))
    if hi is not None:
        v = lift(lambda x, y: mk_min(num(x), num(y)), v, arr(I, hi, st))
    return I.wrap(v, st)


def _nany(I, args, kwargs, st, node):
    return any_array(I, arr(I, args[0], st), st, tobool)


def _nall(I, args, kwargs, st, node):
    return b_not(any_array(I, arr(I, args[0], st), st, lambda x: b_not(tobool(x))))


def _count_nonzero(I, args, kwargs, st, node):
    v = arr(I, args[0], st)
    return I.wrap(sum_array(I, lift(lambda x: as_r(tobool(x)), v), axis_arg(args, kwargs), st), st)


def _sort(I, args, kwargs, st, node):
    v = arr(I, args[0], st)
    if isinstance(v, VecV):
        v = as_arr(v)
    if (rank(v) or 0) > 1:
        ax = A(args, kwargs, 1, 'axis', R.const(-1))
        if ax is not None:
            a = as_arr(v)
            if not (isinstance(ax, R) and ax.is_const() and int(ax.value()) % len(a.ks) == len(a.ks) - 1):
                return generic(I, 'numpy.sort', args, kwargs, st, node)
            k, j = a.ks[-1], iat()
            row = sort_array(I, eta(Arr((a.shape[-1],), (k,), a.body)), st)
            return I.wrap(Arr(a.shape, a.ks[:-1] + (j,), num(I.elem(row, R.atom(j)))), st)
        v = ravel(I, v, st)
    return I.wrap(sort_array(I, v, st), st)


def _argsort(I, args, kwargs, st, node):
    at = find_app('argsort', I.freeze(arr(I, args[0], st), st))
    at.ndim = 1
    at.shape = (I.length(arr(I, args[0], st)),)
    at.integer = True
    return R.atom(at)


def bool_body(v):
    return isinstance(v, Arr) and len(v.ks) == 1 and (isinstance(v.body, (B, bool)) or isinstance(v.body, R) and
                                                      v.body.single() is not None and v.body.single().boolean)


def index_list(I, a, item):
    """The positions where boolean array a holds, row by row."""
    ks = [kat() for _ in a.ks]
    sub = {x.id: R.atom(k) for x, k in zip(a.ks, ks)}
    body = ListV([('item', True, item([R.atom(k) for k in ks]))])
    cond = tobool(subst(a.body, sub))
    for n, k in reversed(list(zip(a.shape, ks))):
        body = ListV([('comp', n, k, cond, body)])
        cond = True
    return body


def _argwhere(I, args, kwargs, st, node):
    v = arr(I, args[0], st)
    if isinstance(v, VecV):
        return generic(I, 'numpy.argwhere', args, kwargs, st, node)
    return I.new_ref(st, ListC(index_list(I, as_arr(v), lambda ks: TupleV(ks)).parts))


def nonzero(I, v, st):
    """np.flatnonzero / np.nonzero(v)[0]: element 0 is the first index."""
    fz = I.freeze(v, st)
    at, new = get_app('nonzero', (fz,))
    if new:
        at.ndim = 1
    return R.atom(at)


def _nonzero(I, args, kwargs, st, node):
    v = arr(I, args[0], st)
    if (rank(v) or 0) > 1:
        a = as_arr(v)
        m = Arr(a.shape, a.ks, tobool(a.body))
        return TupleV([MaskedV(Arr(a.shape, a.ks, R.atom(k)), m) for k in a.ks])
    return TupleV([nonzero(I, args[0], st)])


def _flatnonzero(I, args, kwargs, st, node):
    return nonzero(I, args[0], st)


def _arg(op):
    def f(I, args, kwargs, st, node):
        v = arr(I, args[0], st)
        if bool_body(v) and not kwargs and len(args) == 1:
            from loops import mk_first
            k = kat()
            b = tobool(subst(v.body, {v.ks[0].id: R.atom(k)}))
            if op == 'min':
                b = b_not(b)
            n = v.shape[0]
            e = fresh_atom('k', integer=True, nonneg=True)
            return ite(mk_exists(n, e, subst(b, {k.id: R.atom(e)})), mk_first(n, k, b), R.const(0))
        at = find_app('arg' + op, I.freeze(v, st))
        at.integer = at.nonneg = True
        return R.atom(at)
    return f


def _cumsum(I, args, kwargs, st, node):
    v = arr(I, args[0], st)
    if isinstance(v, VecV):
        out, t = [], R.const(0)
        for x in v.items:
            t = lift(lambda p, q: num(p) + num(q), t, x)
            out.append(t)
        return I.wrap(VecV(out), st)
    a = as_arr(v)
    k, j = iat(), kat()
    return I.wrap(Arr(a.shape, (k,), mk_sum(R.atom(k) + R.const(1), j, num(subst(a.body, {a.ks[0].id: R.atom(j)})))), st)


def _norm(I, args, kwargs, st, node):
    v = arr(I, args[0], st)
    o = A(args, kwargs, 1, 'ord')
    if o is None or (isinstance(o, R) and o.is_const() and o.value() == 2):
        return mk_sqrt(sum_array(I, lift(lambda x: num(x) * num(x), v), None, st))
    if isinstance(o, R) and veq(o, INF()):
        return extreme(I, 'max', lift(lambda x: mk_abs(num(x)), v), st, node)
    if isinstance(o, R) and o.is_const() and o.value() == 1:
        return sum_array(I, lift(lambda x: mk_abs(num(x)), v), None, st)
    return generic(I, 'numpy.linalg.norm', args, kwargs, st, node)


def linalg_error(I, st, node, kind, a):
    """A linear-algebra failure outcome (singular matrix / no convergence)."""
    at, _ = get_app('linalg_fails:' + kind, (I.freeze(a, st),))
    at.boolean = True
    c = b_atom(R.atom(at))
    e = I.make_exc(st, ExtV('numpy.linalg.LinAlgError'), [kind])
    I.raise_exc(st, e, c)
    I.assume(st, b_not(c))


def _inv(I, args, kwargs, st, node):
    v = arr(I, args[0], st)
    linalg_error(I, st, node, 'inv', v)
    return I.wrap(mk_inv(mat_leaf(I, v, st)), st)


def _solve(I, args, kwargs, st, node):
    a, b = arr(I, args[0], st), arr(I, args[1], st)
    linalg_error(I, st, node, 'inv', a)
    return I.wrap(mk_mm([mk_inv(mat_leaf(I, a, st)), mat_leaf(I, b, st)]), st)


def small_rcond(r):
    if r is None:
        return True
    if isinstance(r, R):
        if r.is_const():
            return r.value() <= Fraction(1, 10 ** 12)
        a = r.single()
        return a is not None and a.name == 'eps'
    return False


def truncated(I, name, mats, rc, st, shape):
    """A solution whose small singular values are cut off at rc: a matrix of its own."""
    a = get_app('truncated:' + name, mats + (num(I.deref(rc, st)),))[0]
    a.ndim, a.shape = len(shape), shape
    return R.atom(a)


def _lstsq(I, args, kwargs, st, node):
    a, b = arr(I, args[0], st), arr(I, args[1], st)
    rc = A(args, kwargs, 2, 'rcond')
    if isinstance(rc, str):
        rc = None
    linalg_error(I, st, node, 'lstsq', a)
    if small_rcond(I.deref(rc, st)):
        x = lstsq(I, a, b, st)
    else:
        x = truncated(I, 'lstsq', (mat_leaf(I, a, st), mat_leaf(I, b, st)), rc, st,
                      (shape_of(a)[1],) + tuple(shape_of(b)[1:]))
    fa, fb = I.freeze(a, st), I.freeze(b, st)
    rest = [R.atom(get_app('lstsq:' + n, (fa, fb))[0]) for n in ('res', 'rank', 'sv')]
    return TupleV([I.wrap(x, st)] + rest)


def _pinv(I, args, kwargs, st, node):
    v = arr(I, args[0], st)
    A_ = mat_leaf(I, v, st)
    rc = A(args, kwargs, 1, 'rcond')
    if not small_rcond(I.deref(rc, st)):
        return I.wrap(truncated(I, 'pinv', (A_,), rc, st, tuple(shape_of(v))[::-1]), st)
    At = mk_T(A_)
    return I.wrap(mk_mm([mk_inv(mk_mm([At, A_])), At]), st)


def _finfo(I, args, kwargs, st, node):
    return ExtObj('numpy.finfo', 0)


def _isclose(I, args, kwargs, st, node):
    a, b = arr(I, args[0], st), arr(I, args[1], st)
    rt = num(A(args, kwargs, 2, 'rtol', num_const(1e-5)))
    atol = num(A(args, kwargs, 3, 'atol', num_const(1e-8)))
    return I.wrap(lift(lambda x, y: mk_cmp(atol + rt * mk_abs(num(y)) - mk_abs(num(x) - num(y)), '>='), a, b), st)


def _allclose(I, args, kwargs, st, node):
    r = I.deref(_isclose(I, args, kwargs, st, node), st)
    return b_not(any_array(I, r, st, lambda x: b_not(tobool(x))))


def _math_isclose(I, args, kwargs, st, node):
    a, b = num(args[0]), num(args[1])
    rt = num(kwargs.get('rel_tol', num_const(1e-9)))
    at = num(kwargs.get('abs_tol', R.const(0)))
    return mk_cmp(mk_max(rt * mk_max(mk_abs(a), mk_abs(b)), at) - mk_abs(a - b), '>=')


def _atleast_1d(I, args, kwargs, st, node):
    v = arr(I, args[0], st)
    return I.wrap(v if rank(v) else VecV([v]), st)


def _atleast_2d(I, args, kwargs, st, node):
    v = arr(I, args[0], st)
    if rank(v) == 2:
        return I.wrap(v, st)
    if rank(v) == 1:
        return I.wrap(VecV([v]) if isinstance(v, VecV) else as_arr(VecV([as_arr(v)])), st)
    return I.wrap(VecV([VecV([v])]), st)


def _shape(I, args, kwargs, st, node):
    return TupleV(shape_of(arr(I, args[0], st)))


def _size(I, args, kwargs, st, node):
    return size_of(arr(I, args[0], st))


def _ndim(I, args, kwargs, st, node):
    return R.const(rank(arr(I, args[0], st)) or 0)


def _median(I, args, kwargs, st, node):
    v = arr(I, args[0], st)
    ax = axis_arg(args, kwargs)
    if ax is not None and rank(v) not in (None, 1):
        n = shape_of(v)[1 - ax % 2]
        if rank(v) != 2 or not n.is_const():
            raise Unsupported('median along an axis of %r' % (v,))
        out = []
        for j in range(int(n.value())):
            k = kat()
            ix = [R.atom(k), R.const(j)] if ax % 2 == 0 else [R.const(j), R.atom(k)]
            x = v
            for i in ix:
                x = I.elem(x, i)
            out.append(_median(I, [Arr([shape_of(v)[ax % 2]], [k], x)], {}, st, node))
        return I.wrap(VecV(out), st)
    sel = selection(I, 'selmedian', nonmissing_all(v) if not isinstance(v, MaskedV) and rank(v) == 1 else v)
    if sel is not None:
        return sel
    return R.atom(get_app('median', (I.freeze(v, st),))[0])


def _quantile(scale):
    """The half quantile is the median; others stay uninterpreted."""
    name = 'numpy.percentile' if scale == 100 else 'numpy.quantile'

    def f(I, args, kwargs, st, node):
        q = A(args, kwargs, 1, 'q')
        if isinstance(q, R) and q.is_const() and q.value() * 2 == scale and not set(kwargs) - {'q', 'axis'}:
            return _median(I, args[:1], {k: v for k, v in kwargs.items() if k == 'axis'}, st, node)
        q0, q = q, I.deref(q, st)
        how = [I.deref(kwargs[k], st) for k in ('method', 'interpolation') if k in kwargs]
        if not set(kwargs) - {'q', 'method', 'interpolation'} and len(args) <= 2 and len(how) <= 1:
            if not how and (isinstance(q, (VecV, ListV, TupleV)) or isinstance(q0, Ref)):
                ps = I.seq(q0, st, node)
                if all(p[0] == 'item' and p[1] is True for p in ps):
                    return I.wrap(VecV([f(I, [args[0], I.deref(p[2], st)], {}, st, node) for p in ps]), st)
            if isinstance(q, R) and q.is_const() and (not how or how in (['linear'], ['nearest'])):
                at = q.value() / scale
                if at in (0, 1):
                    return _npextreme('max' if at else 'min')(I, args[:1], {}, st, node)
                if how == ['linear'] and at * 2 == 1:
                    return _median(I, args[:1], {}, st, node)
                if 0 < at < 1:
                    return R.atom(get_app('quantile', (I.freeze(arr(I, args[0], st), st), R.const(at), how[0] if how else 'linear'))[0])
        return generic(I, name, args, kwargs, st, node)
    f.quant = True
    return f


def _mdist(I, args, kwargs, st, node):
    a, b = arr(I, args[0], st), arr(I, args[1], st)
    return mk_sqrt(sum_array(I, lift(lambda x, y: (num(x) - num(y)) * (num(x) - num(y)), a, b), None, st))


def nonmissing_all(v):
    a = as_arr(v)
    return MaskedV(a, Arr(a.shape, a.ks, True))


def nonmissing(I, v, st):
    a = as_arr(v)
    m = subst_bool(a, lambda x: b_not(_isnan(x)))
    return a if m.body is True else MaskedV(a, m)


def subst_bool(a, f):
    return Arr(a.shape, a.ks, f(a.body))


def _nanreduce(fn):
    """numpy.nanX: numpy.X over the entries that are not NaN."""
    def f(I, args, kwargs, st, node):
        v = arr(I, args[0], st)
        if isinstance(v, MaskedV) and len(v.arr.ks) == 1 and len(v.mask.ks) == 1:
            t = subst(v.mask.body, {v.mask.ks[0].id: R.atom(v.arr.ks[0])})
            m = Arr(v.arr.shape, v.arr.ks, b_and(tobool(t), b_not(_isnan(v.arr.body))))
            return fn(I, [MaskedV(v.arr, m)] + (list(args[1:]) if getattr(fn, 'quant', False) else []), {k: x for k, x in kwargs.items() if k not in ('axis', 'a')}, st, node)
        if isinstance(v, MaskedV) or rank(v) not in (1, 2):
            raise Unsupported('nan reduction of %r' % (v,))
        ax = axis_arg(args, kwargs)
        kw = {k: x for k, x in kwargs.items() if k not in ('axis', 'a')}
        if ax is None or rank(v) == 1:
            return fn(I, [nonmissing(I, v, st)] + (list(args[1:]) if getattr(fn, 'quant', False) else []), kw, st, node)
        ax %= 2
        n = shape_of(v)[1 - ax]
        if not n.is_const():
            raise Unsupported('nan reduction along an axis of %r' % (v,))
        out = []
        for j in range(int(n.value())):
            k = kat()
            ix = [R.atom(k), R.const(j)] if ax == 0 else [R.const(j), R.atom(k)]
            x = v
            for i in ix:
                x = I.elem(x, i)
            out.append(fn(I, [nonmissing(I, Arr([shape_of(v)[ax]], [k], x), st)], kw, st, node))
        return I.wrap(VecV(out), st)
    return f


def _copyto(I, args, kwargs, st, node):
    w = kwargs.get('where')
    if w is not None and w is not True:
        x = arr(I, args[1], st)
        old = arr(I, args[0], st)
        x = lift(lambda c, a, b: ite(tobool(c), a, b), arr(I, w, st), x, old)
        setitem(I, args[0], SliceV(None, None, None), x, st, node)
        return None
    setitem(I, args[0], SliceV(None, None, None), args[1], st, node)
    return None


def _einsum(I, args, kwargs, st, node):
    return generic(I, 'numpy.einsum', args, kwargs, st, node)


def _trace_(I, args, kwargs, st, node):
    a = as_arr(arr(I, args[0], st))
    k = kat()
    return mk_sum(a.shape[0], k, subst(num(a.body), {x.id: R.atom(k) for x in a.ks}))


# --------------------------------------------------------------------------
# other libraries
# --------------------------------------------------------------------------
def _getlogger(I, args, kwargs, st, node):
    name = A(args, kwargs, 0, 'name', '')
    return ExtObj('logging.Logger', ('logger', show(name) if not isinstance(name, str) else name), (name,))


def _log_mod(level):
    def f(I, args, kwargs, st, node):
        return log_call(I, '', level, args, kwargs, st, node)
    return f


def log_call(I, name, level, args, kwargs, st, node):
    if level == 'log':
        level, args = 'log', args[1:]
    text = I.freeze(args[0], st) if args else ''
    rest = list(args[1:])
    if rest and isinstance(text, str):
        try:
            text = percent(I, text, TupleV(rest), st)
            rest = []
        except Unsupported:
            pass
    if not is_text(text):
        text = mkstr([('fmt', text, '', '')])
    I.event(st, 'log', level, [name, text] + rest, kwargs, node)
    return None


def _partial(I, args, kwargs, st, node):
    return PartialV(args[0], list(args[1:]), dict(kwargs))


def _copy(I, args, kwargs, st, node):
    v = args[0]
    if isinstance(v, Ref):
        o = st.heap[v.id]
        if isinstance(o, ObjC):
            return I.new_ref(st, o.copy())
        return I.new_ref(st, o)
    return v


def _deepcopy(I, args, kwargs, st, node):
    v = args[0]
    if isinstance(v, Ref):
        o = st.heap[v.id]
        if isinstance(o, ObjC):
            c = o.copy()
            c.fields = {k: _deepcopy(I, [x], {}, st, node) for k, x in c.fields.items()}
            return I.new_ref(st, c)
        if isinstance(o, ListC) and _items(o.parts):
            return I.new_ref(st, ListC([('item', True, _deepcopy(I, [p[2]], {}, st, node)) for p in o.parts]))
        return I.new_ref(st, o)
    return v


def _import_module(I, args, kwargs, st, node):
    n = args[0]
    if isinstance(n, str) and n in I.prog.paths:
        return I.import_mod(n)
    r = I.module_stub or ExtObj('module', I.uid(), (I.freeze(n, st),))
    I.event(st, 'ext', 'importlib.import_module', args, kwargs, node, r)
    return r


def _reduce(I, args, kwargs, st, node):
    f, v = args[0], args[1]
    parts = I.seq(v, st, node)
    if not _items(parts):
        raise Unsupported('%s: reduce over a symbolic sequence' % I.where(node))
    xs = [p[2] for p in parts]
    acc = args[2] if len(args) > 2 else xs.pop(0)
    for x in xs:
        acc = I.call(f, [acc, x], {}, st, node)
    return acc


def _product(I, args, kwargs, st, node):
    vs = [frz(I, a, st) for a in args]
    if len(vs) != 2:
        raise Unsupported('%s: itertools.product' % I.where(node))
    a, b = vs
    i, j = kat(), kat()
    pa, pb = I.seq(a, st), I.seq(b, st)
    if _items(pa) and _items(pb):
        return TupleV([TupleV([x[2], y[2]]) for x in pa for y in pb])
    return ListV([('comp', I.length(a, st), i, True, ListV([('comp', I.length(b, st), j, True, ListV([
        ('item', True, TupleV([I.elem(a, R.atom(i)), I.elem(b, R.atom(j))]))]))]))])


def _chain(I, args, kwargs, st, node):
    parts = []
    for a in args:
        parts += I.seq(a, st, node)
    return ListV(parts)


def _pairwise(I, args, kwargs, st, node):
    v = frz(I, args[0], st)
    k = kat()
    n = mk_max(R.const(0), I.length(v, st) - R.const(1))
    return Arr((n,), (k,), TupleV([I.elem(v, R.atom(k)), I.elem(v, R.atom(k) + R.const(1))]), 'seq')


def _islice(I, args, kwargs, st, node):
    v = frz(I, args[0], st)
    a = [None if x is None else num(x) for x in args[1:]]
    s = SliceV(None, a[0], None) if len(a) == 1 else SliceV(a[0], a[1], a[2] if len(a) > 2 else None)
    return getitem(I, v, s, st, node)


def _itercount(I, args, kwargs, st, node):
    raise Unsupported('%s: itertools.count' % I.where(node))


def _ndindex(I, args, kwargs, st, node):
    dims = [num(I.deref(a, st)) for a in args] if not (len(args) == 1 and not rank(I.deref(args[0], st)) == 0) else \
        shape_arg(I, args[0], st)
    ks = [kat() for _ in dims]
    body = ListV([('item', True, TupleV([R.atom(k) for k in ks]))])
    for n, k in reversed(list(zip(dims, ks))):
        body = ListV([('comp', mk_max(R.const(0), n), k, True, body)])
    return body


def _ndenumerate(I, args, kwargs, st, node):
    a = as_arr(arr(I, args[0], st))
    ks = [kat() for _ in a.ks]
    body = ListV([('item', True, TupleV([TupleV([R.atom(k) for k in ks]), subst(a.body, {x.id: R.atom(k) for x, k in zip(a.ks, ks)})]))])
    for n, k in reversed(list(zip(a.shape, ks))):
        body = ListV([('comp', n, k, True, body)])
    return body


def _attrgetter(I, args, kwargs, st, node):
    n = args[0]
    return OpaqueF('attrgetter', lambda I, st, a, k, nd: I.getattr(a[0], n, st, nd))


def _itemgetter(I, args, kwargs, st, node):
    ns = list(args)

    def h(I, st, a, k, nd):
        if len(ns) == 1:
            return I.getitem(a[0], ns[0], st, nd)
        return TupleV([I.getitem(a[0], n, st, nd) for n in ns])
    return OpaqueF('itemgetter', h)


def _namedtuple(I, args, kwargs, st, node):
    f = args[1]
    names = f.replace(',', ' ').split() if isinstance(f, str) else [p[2] for p in I.seq(f, st)]
    c = ClassV(None, '', args[0] if isinstance(args[0], str) else 'namedtuple', 'namedtuple:%s' % (args[0],), [])
    c.members['#dataclass'] = [(n, False) for n in names]
    return c


def _field_reduce(I, args, kwargs, st, node):
    return generic(I, 'x', args, kwargs, st, node)


TABLE = {
    'builtins.len': _len, 'builtins.range': _range, 'builtins.enumerate': _enumerate, 'builtins.zip': _zip,
    'builtins.map': _map, 'builtins.filter': _filter, 'builtins.sum': _sum, 'builtins.min': _extreme('min'),
    'builtins.max': _extreme('max'), 'builtins.sorted': _sorted, 'builtins.reversed': _reversed,
    'builtins.list': _list, 'builtins.tuple': _tuple, 'builtins.set': _set, 'builtins.frozenset': _set,
    'builtins.dict': _dict, 'builtins.int': _int, 'builtins.float': _float, 'builtins.bool': _bool,
    'builtins.str': _str, 'builtins.repr': _repr, 'builtins.round': _round, 'builtins.print': _print,
    'builtins.isinstance': _isinstance, 'builtins.type': _type, 'builtins.hasattr': _hasattr,
    'builtins.getattr': _getattr, 'builtins.setattr': _setattr, 'builtins.any': _any, 'builtins.all': _all,
    'builtins.divmod': _divmod, 'builtins.pow': _pow, 'builtins.iter': _iter, 'builtins.next': _next,
    'builtins.callable': _callable, 'builtins.open': _open, 'builtins.super': _super, 'builtins.property': _property,
    'builtins.slice': lambda I, a, k, st, n: SliceV(*( [None, a[0], None] if len(a) == 1 else (list(a) + [None])[:3])),
    'builtins.format': lambda I, a, k, st, n: mkstr(fmt_parts(I, a[0], a[1] if len(a) > 1 else '', '', st)),
    'numpy.isscalar': lambda I, a, k, st, n: _isscalar(I, a[0], st),
    'builtins.id': lambda I, a, k, st, n: R.atom(get_app('id', (I.freeze(a[0], st),))[0]),
    'numpy.float': _float, 'numpy.float32': lambda I, a, k, st, n: app1('cast:float32')(I.deref(a[0], st)),
    'numpy.int': _int, 'numpy.int64': _int, 'numpy.int32': _int, 'numpy.int_': _int, 'numpy.intp': _int,
    'numpy.bool': _bool,
    'numpy.array': _array, 'numpy.matrix': _array, 'numpy.asanyarray': _array, 'numpy.asarray': _array,
    'numpy.ascontiguousarray': _array, 'numpy.fromiter': _array,
    'numpy.zeros': _filled(R.const(0)), 'numpy.ones': _filled(R.const(1)), 'numpy.empty': _filled(R.const(0)),
    'numpy.full': _filled('full'), 'numpy.zeros_like': _filled_like(R.const(0)),
    'numpy.ones_like': _filled_like(R.const(1)), 'numpy.full_like': _filled_like('full'),
    'numpy.eye': _eye, 'numpy.identity': _eye, 'numpy.diag': _diag, 'numpy.reshape': _reshape, 'numpy.ravel': _ravel,
    'numpy.transpose': _transpose, 'numpy.squeeze': _squeeze, 'numpy.flip': _flip, 'numpy.flipud': _flipud,
    'numpy.fliplr': _fliplr, 'numpy.rot90': _rot90, 'numpy.linspace': _linspace, 'numpy.arange': _arange,
    'numpy.column_stack': _column_stack, 'numpy.vstack': _vstack, 'numpy.hstack': _hstack, 'numpy.stack': _stack,
    'numpy.concatenate': _concatenate, 'numpy.append': _append, 'numpy.pad': _pad, 'numpy.meshgrid': _meshgrid,
    'numpy.sum': _npsum, 'numpy.mean': _mean, 'numpy.average': _average, 'numpy.std': _std, 'numpy.var': _var,
    'numpy.max': _npextreme('max'), 'numpy.min': _npextreme('min'), 'numpy.nanmax': _nanreduce(_npextreme('max')),
    'numpy.nanmin': _nanreduce(_npextreme('min')), 'numpy.nanmean': _nanreduce(_mean), 'numpy.nanstd': _nanreduce(_std),
    'statistics.median': _median, 'statistics.mean': _mean, 'statistics.fmean': _mean, 'statistics.pstdev': lambda I, a, k, st, node: _std(I, a[:1], {}, st, node),
    'statistics.stdev': lambda I, a, k, st, node: _std(I, a[:1], {'ddof': R.const(1)}, st, node),
    'numpy.percentile': _quantile(100), 'numpy.quantile': _quantile(1), 'numpy.nanpercentile': _nanreduce(_quantile(100)),
    'numpy.nanmedian': _nanreduce(_median), 'numpy.nanvar': _nanreduce(_var), 'numpy.prod': _prod,
    'numpy.dot': _dot, 'numpy.matmul': _dot, 'numpy.inner': _dot, 'numpy.vdot': _dot, 'numpy.outer': _outer,
    'numpy.linalg.multi_dot': lambda I, a, k, st, n: _reduce(I, [OpaqueF('mm', lambda I, st, x, kw, nd: _dot(I, x, {}, st, nd)), a[0]], {}, st, n),
    'numpy.where': _where, 'numpy.clip': _clip, 'numpy.any': _nany, 'numpy.all': _nall,
    'numpy.count_nonzero': _count_nonzero, 'numpy.sort': _sort, 'numpy.argsort': _argsort,
    'numpy.nonzero': _nonzero, 'numpy.flatnonzero': _flatnonzero, 'numpy.argwhere': _argwhere,
    'numpy.argmax': _arg('max'), 'numpy.argmin': _arg('min'), 'numpy.cumsum': _cumsum,
    'numpy.linalg.norm': _norm, 'numpy.linalg.inv': _inv, 'numpy.linalg.solve': _solve,
    'numpy.linalg.lstsq': _lstsq, 'numpy.linalg.pinv': _pinv, 'numpy.finfo': _finfo, 'numpy.isclose': _isclose,
    'numpy.allclose': _allclose, 'math.isclose': _math_isclose, 'numpy.atleast_1d': _atleast_1d,
    'numpy.atleast_2d': _atleast_2d, 'numpy.shape': _shape, 'numpy.size': _size, 'numpy.ndim': _ndim,
    'numpy.median': _median, 'numpy.around': _round, 'math.dist': _mdist, 'numpy.copyto': _copyto,
    'numpy.ndindex': _ndindex, 'numpy.ndenumerate': _ndenumerate, 'numpy.trace': _trace_,
    'logging.getLogger': _getlogger, 'functools.partial': _partial, 'functools.reduce': _reduce,
    'copy.copy': _copy, 'copy.deepcopy': _deepcopy, 'importlib.import_module': _import_module,
    'itertools.product': _product, 'itertools.chain': _chain, 'itertools.pairwise': _pairwise,
    'itertools.islice': _islice, 'itertools.count': _itercount, 'operator.attrgetter': _attrgetter,
    'operator.itemgetter': _itemgetter, 'collections.namedtuple': _namedtuple,
    'operator.le': lambda I, a, k, st, n: compare(I, 'LtE', a[0], a[1], st, n),
    'operator.lt': lambda I, a, k, st, n: compare(I, 'Lt', a[0], a[1], st, n),
    'operator.ge': lambda I, a, k, st, n: compare(I, 'GtE', a[0], a[1], st, n),
    'operator.gt': lambda I, a, k, st, n: compare(I, 'Gt', a[0], a[1], st, n),
    'operator.eq': lambda I, a, k, st, n: compare(I, 'Eq', a[0], a[1], st, n),
    'functools.wraps': lambda I, a, k, st, n: OpaqueF('id', lambda I, st, x, kw, nd: x[0]),
    'functools.lru_cache': lambda I, a, k, st, n: (memo(a[0]) if a and isinstance(a[0], FuncV) else OpaqueF('memo', lambda I, st, x, kw, nd: memo(x[0]))),
    'functools.cache': lambda I, a, k, st, n: memo(a[0]),
    'math.gcd': lambda I, a, k, st, n: generic(I, 'math.gcd', a, k, st, n),
}
for _l in ('debug', 'info', 'warning', 'error', 'critical', 'exception', 'log'):
    TABLE['logging.' + _l] = _log_mod(_l)
for _e in ('numpy.errstate', 'warnings.catch_warnings', 'contextlib.suppress', 'contextlib.nullcontext',
           'numpy.printoptions'):
    TABLE[_e] = (lambda p: lambda I, a, k, st, n: ExtObj(p, I.uid(), tuple(a)))(_e)
for _e in ('numpy.seterr', 'warnings.simplefilter', 'warnings.filterwarnings', 'numpy.set_printoptions'):
    TABLE[_e] = _none


# --------------------------------------------------------------------------
# methods
# --------------------------------------------------------------------------
def method(I, o, name, args, kwargs, st, node):
    if isinstance(o, PropV):
        if name == 'setter':
            return PropV(o.fget, args[0])
        if name == 'getter':
            return PropV(args[0], o.fset)
    if isinstance(o, Gamma):
        return I.fork_value(o.cond, st, lambda s: I.call(I.getattr(o.a, name, s, node), args, kwargs, s, node),
                            lambda s: I.call(I.getattr(o.b, name, s, node), args, kwargs, s, node))
    if is_text(o):
        return str_method(I, o, name, args, kwargs, st, node)
    if isinstance(o, ExtObj):
        return obj_method(I, o, name, args, kwargs, st, node)
    if isinstance(o, Ref):
        h = st.heap.get(o.id)
        if isinstance(h, ListC):
            return list_method(I, o, h, name, args, kwargs, st, node)
        if isinstance(h, DictC):
            return dict_method(I, o, h, name, args, kwargs, st, node)
        if isinstance(h, ArrC):
            return arr_method(I, o, h.val, name, args, kwargs, st, node)
        if isinstance(h, ObjC) and name in ('with_traceback', 'add_note'):
            return o
    if isinstance(o, (Arr, VecV, MaskedV)):
        return arr_method(I, o, o, name, args, kwargs, st, node)
    if isinstance(o, (TupleV, ListV)):
        return list_method(I, o, ListC(I.seq(o, st)), name, args, kwargs, st, node)
    if isinstance(o, R):
        return r_method(I, o, name, args, kwargs, st, node)
    if isinstance(o, (bool, B)):
        if name in ('any', 'all', 'item'):
            return o
        if name in ('sum',):
            return as_r(o)
        if name == 'astype':
            return dtype_cast(I, o, args[0], st)
    raise Unsupported('%s: method %s of %s' % (I.where(node), name, type(o).__name__))


def str_method(I, o, name, args, kwargs, st, node):
    if name == 'format':
        return str_format(I, o, args, kwargs, st, node)
    if name == 'join':
        parts = I.seq(args[0], st, node)
        if _items(parts):
            out = []
            for i, p in enumerate(parts):
                if i:
                    out += list(parts_of(o))
                v = I.deref(p[2], st)
                if is_text(v):
                    out += list(parts_of(v))
                else:
                    out.append(('fmt', I.freeze(v, st), '', ''))
            return mkstr(out)
        return StrV([('join', o if isinstance(o, StrV) else StrV([o]), I.freeze(args[0], st))])
    fz = [I.freeze(a, st) for a in args]
    if isinstance(o, str) and name in ('upper', 'lower', 'strip', 'title', 'capitalize', 'lstrip', 'rstrip',
                                       'startswith', 'endswith', 'replace', 'ljust', 'rjust', 'center', 'zfill',
                                       'split', 'isdigit', 'count', 'find', 'splitlines'):
        py = []
        ok = not kwargs
        for a in fz:
            if isinstance(a, str):
                py.append(a)
            elif isinstance(a, R) and a.is_const() and is_int(a):
                py.append(int(a.value()))
            else:
                ok = False
        if ok:
            r = getattr(o, name)(*py)
            if isinstance(r, list):
                return I.new_ref(st, ListC([('item', True, x) for x in r]))
            if isinstance(r, int) and not isinstance(r, bool):
                return R.const(r)
            return r
    if name in ('startswith', 'endswith', 'isdigit', 'isnumeric', 'isalpha'):
        return b_atom(R.atom(get_app('str:' + name, (o,) + tuple(fz))[0]))
    if name in ('split', 'splitlines', 'count', 'find', 'encode'):
        return R.atom(get_app('str:' + name, (o,) + tuple(fz))[0])
    return StrV([('meth', name, o if isinstance(o, StrV) else StrV([o]), show(TupleV(fz)))])


def list_method(I, o, h, name, args, kwargs, st, node):
    def put(parts):
        if not isinstance(o, Ref):
            raise Unsupported('%s: mutation of an immutable sequence' % I.where(node))
        I.hset(st, o.id, ListC(parts))
    if name in ('append', 'add'):
        put(h.parts + (('item', True, args[0]),))
        return None
    if name in ('extend', 'update'):
        put(h.parts + tuple(I.seq(args[0], st, node)))
        return None
    if name == 'insert':
        i = num(args[0])
        if i.is_const():
            j = int(i.value())
            if j == 0:
                put((('item', True, args[1]),) + h.parts)
                return None
            if _items(h.parts):
                p = list(h.parts)
                p.insert(j, ('item', True, args[1]))
                put(tuple(p))
                return None
        raise Unsupported('%s: insert at a symbolic position' % I.where(node))
    if name == 'pop':
        i = num(args[0]) if args else R.const(-1)
        if i.is_const() and h.parts:
            j = int(i.value())
            p = list(h.parts)
            if j == -1 and p[-1][0] == 'item' and p[-1][1] is True:
                x = p.pop()
                put(tuple(p))
                return x[2]
            if j == 0 and p[0][0] == 'item' and p[0][1] is True:
                x = p.pop(0)
                put(tuple(p))
                return x[2]
            if _items(p):
                x = p.pop(j)
                put(tuple(p))
                return x[2]
            v = ListV(h.parts)
            n = I.length(v, st)
            if j == -1:
                x = I.elem(v, n - R.const(1))
                k = kat()
                put((('comp', n - R.const(1), k, True, ListV([('item', True, I.elem(v, R.atom(k)))])),))
                return x
            if j >= 0:
                x = I.elem(v, R.const(j))
                k = kat()
                e = I.elem(v, R.atom(k) + R.const(1)) if j == 0 else ite(
                    mk_cmp(R.const(j) - R.atom(k), '>'), I.elem(v, R.atom(k)), I.elem(v, R.atom(k) + R.const(1)))
                put((('comp', n - R.const(1), k, True, ListV([('item', True, e)])),))
                return x
        raise Unsupported('%s: pop' % I.where(node))
    if name == 'copy':
        return I.new_ref(st, ListC(h.parts))
    if name == 'clear':
        put(())
        return None
    if name == 'reverse':
        r = _reversed(I, [o], {}, st, node)
        put(tuple(I.seq(r, st)))
        return None
    if name == 'sort':
        r = _sorted(I, [o], kwargs, st, node)
        put(tuple(I.seq(r, st, node)))
        return None
    if name == 'index':
        fz = I.freeze(o, st)
        at, _ = get_app('index', (fz, I.freeze(args[0], st)))
        at.integer = at.nonneg = True
        return R.atom(at)
    if name == 'count':
        return sum_parts(I, [('item', p[1], as_r(same_value(I, p[2], args[0], st))) for p in h.parts], st)
    if name in ('remove', 'discard'):
        p = list(h.parts)
        if _items(p):
            for i, q in enumerate(p):
                if veq(q[2], args[0]):
                    p.pop(i)
                    put(tuple(p))
                    return None
        raise Unsupported('%s: remove' % I.where(node))
    if name == 'issubset':
        raise Unsupported('%s: set operations' % I.where(node))
    raise Unsupported('%s: list method %s' % (I.where(node), name))


def dict_method(I, o, h, name, args, kwargs, st, node):
    if name == 'items':
        return ListV([('item', True if not has_undef(v) else undef_cond(v), TupleV([k, undef_free(v)])) for k, v in h.items])
    if name == 'keys':
        return ListV([('item', True if not has_undef(v) else undef_cond(v), k) for k, v in h.items])
    if name == 'values':
        return ListV([('item', True if not has_undef(v) else undef_cond(v), undef_free(v)) for k, v in h.items])
    if name == 'get':
        d = args[1] if len(args) > 1 else None
        r = d
        for k, v in h.items:
            c = same_value(I, I.deref(args[0], st), k, st) if not (isinstance(args[0], str) and isinstance(k, str)) else args[0] == k
            if c is False:
                continue
            if has_undef(v):
                c = b_and(c, undef_cond(v))
                v = undef_free(v)
            if c is True:
                return v
            r = I.merge_vals(c, v, r)
        return r
    if name == 'update':
        if args:
            a = args[0]
            ha = st.heap.get(a.id) if isinstance(a, Ref) else None
            if not isinstance(ha, DictC):
                raise Unsupported('%s: dict.update' % I.where(node))
            for k, v in ha.items:
                dict_set(I, o, k, v, st)
        for k, v in kwargs.items():
            dict_set(I, o, k, v, st)
        return None
    if name == 'copy':
        return I.new_ref(st, DictC(h.items))
    if name == 'setdefault':
        d = args[1] if len(args) > 1 else None
        there = member(I, args[0], o, st, node)
        if there is False:
            v = d
        else:
            v = dict_method(I, o, h, 'get', [args[0], d], {}, st, node)
        if there is not True:
            dict_set(I, o, args[0], v, st)
        return v
    if name == 'pop':
        if not all(isinstance(k, str) for k in [args[0]] + [k for k, v in h.items]):
            raise Unsupported('%s: dict.pop' % I.where(node))
        for k, v in h.items:
            if isinstance(k, str) and k == args[0]:
                I.hset(st, o.id, DictC([x for x in h.items if x[0] is not k]))
                return undef_free(v)
        if len(args) > 1:
            return args[1]
    raise Unsupported('%s: dict method %s' % (I.where(node), name))


def has_undef(v):
    return v is UNDEF or (isinstance(v, Gamma) and (v.a is UNDEF or v.b is UNDEF))


def undef_cond(v):
    return v.cond if v.b is UNDEF else b_not(v.cond)


def statistic(fn, order=True, distinct=False):
    """A reduction: case by case over merged arguments; the order of the entries
    (and, distinct=True, how often one occurs) does not matter."""
    def f(I, args, kwargs, st, node):
        if len(args) == 1 and not set(kwargs) - {'ddof'}:
            v = I.deref(args[0], st)
            at = v.single() if isinstance(v, R) else None
            g = (v.cond, v.a, v.b) if isinstance(v, Gamma) and not has_undef(v) else \
                at.args if at is not None and at.op == 'ite' and (rank(at.args[1]) or rank(at.args[2])) else None
            if g is not None:
                r = [f(I, [x], kwargs, st, node) for x in g[1:]]
                if all(isinstance(x, R) for x in r):
                    return ite(g[0], *r)
            while at is not None and len(at.args) and (at.op == 'sort' or distinct and at.op == 'unique'):
                v = at.args[0]
                at = v.single() if isinstance(v, R) else None
                args = [v]
        return fn(I, args, kwargs, st, node)
    return f


def _unique(I, args, kwargs, st, node):
    if len(args) != 1 or kwargs:
        return generic(I, 'numpy.unique', args, kwargs, st, node)
    v = arr(I, args[0], st)
    v = ravel(I, v, st) if not isinstance(v, MaskedV) else v
    at, new = get_app('unique', (I.freeze(v, st),))
    if new:
        n, _ = get_app('nunique', (I.freeze(v, st),))
        n.integer = n.nonneg = True
        at.ndim, at.shape = 1, (R.atom(n),)
    return R.atom(at)


TABLE['numpy.unique'] = _unique
for _n in ('sum', 'mean', 'average', 'std', 'var', 'median', 'nansum', 'nanmean', 'nanmedian', 'nanstd', 'nanvar'):
    if 'numpy.' + _n in TABLE:
        TABLE['numpy.' + _n] = statistic(TABLE['numpy.' + _n])
for _n in ('min', 'max', 'amin', 'amax', 'nanmin', 'nanmax'):
    if 'numpy.' + _n in TABLE:
        TABLE['numpy.' + _n] = statistic(TABLE['numpy.' + _n], distinct=True)

AS_FUNC = {'sum': 'numpy.sum', 'mean': 'numpy.mean', 'std': 'numpy.std', 'var': 'numpy.var', 'min': 'numpy.min',
           'max': 'numpy.max', 'any': 'numpy.any', 'all': 'numpy.all', 'ravel': 'numpy.ravel',
           'flatten': 'numpy.ravel', 'transpose': 'numpy.transpose', 'squeeze': 'numpy.squeeze', 'dot': 'numpy.dot',
           'argmax': 'numpy.argmax', 'argmin': 'numpy.argmin', 'cumsum': 'numpy.cumsum', 'prod': 'numpy.prod',
           'argsort': 'numpy.argsort', 'clip': 'numpy.clip', 'round': 'numpy.around', 'trace': 'numpy.trace'}


def arr_method(I, o, v, name, args, kwargs, st, node):
    if name in AS_FUNC:
        p = AS_FUNC[name]
        h = TABLE.get(p)
        if p in VIEWS and name != 'flatten' and isinstance(o, Ref):
            return as_view(I, o, h(I, [o] + list(args), kwargs, st, node), lambda b, s: h(I, [b] + list(args), kwargs, s, node), p, st, node)
        return h(I, [o] + list(args), kwargs, st, node)
    if name == 'copy':
        if isinstance(v, MaskedV):
            return v
        return typed(I, I.new_ref(st, ArrC(v)), I.dtypes.get(o.id) if isinstance(o, Ref) else None)
    if name in ('astype',):
        return typed(I, I.wrap(dtype_cast(I, v, args[0], st), st), args[0])
    if name == 'reshape':
        if len(args) == 1:
            dims = shape_arg(I, args[0], st)
        else:
            dims = [num(I.deref(a, st)) for a in args]
        if isinstance(o, Ref):
            return as_view(I, o, do_reshape(I, v, dims, st, node), lambda b, s: do_reshape(I, b, dims, s, node), 'numpy.reshape', st, node)
        return do_reshape(I, v, dims, st, node)
    if name == 'tolist':
        return I.new_ref(st, ListC(I.seq(v, st)))
    if name == 'item':
        if isinstance(v, VecV) and len(flatten_items(v)) == 1:
            return flatten_items(v)[0]
        if args:
            return I.getitem(o, args[0] if len(args) == 1 else TupleV(args), st, node)
        a = as_arr(v)
        return subst(a.body, {k.id: R.const(0) for k in a.ks})
    if name == 'fill':
        I.setitem(o, SliceV(None, None, None), args[0], st, node)
        return None
    if name == 'sort' and isinstance(o, Ref):
        I.hset(st, o.id, ArrC(sort_array(I, v if not isinstance(v, VecV) else as_arr(v), st)))
        return None
    if name == 'nonzero':
        return TupleV([nonzero(I, v, st)])
    if name in ('index', 'count', 'append', 'extend', 'pop'):
        return list_method(I, o, ListC(I.seq(v, st)), name, args, kwargs, st, node)
    raise Unsupported('%s: array method %s' % (I.where(node), name))


def r_method(I, o, name, args, kwargs, st, node):
    if name in ('item', 'conjugate'):
        return o
    if name == 'astype':
        return I.wrap(dtype_cast(I, o, args[0], st), st)
    if name in ('append', 'extend', 'insert', 'sort', 'remove', 'clear', 'update', 'fill', 'reverse', 'pop', 'popitem',
                'setdefault', 'resize', 'put', 'itemset', 'partition'):
        # mutation of a symbolic (caller-owned) sequence: recorded as an effect
        I.event(st, 'mutate', name, [o] + list(args), kwargs, node)
        if name in ('pop', 'setdefault', 'popitem'):
            return R.atom(get_app('meth:' + name, (o,) + tuple(I.freeze(a, st) for a in args))[0])
        return None
    if rank(o) or name in AS_FUNC and name not in ('min', 'max'):
        if name in ('append', 'extend', 'insert', 'pop'):
            raise Unsupported('%s: mutation of %s' % (I.where(node), show(o)))
        return arr_method(I, o, o, name, args, kwargs, st, node)
    if name == 'index':
        at, _ = get_app('index', (o, I.freeze(args[0], st)))
        at.integer = at.nonneg = True
        return R.atom(at)
    if name == 'copy':
        return I.new_ref(st, ListC(I.seq(o, st, node)))
    if name == 'get':
        k = I.freeze(args[0], st)
        return R.atom(get_app('idx', (o, k))[0])
    if name == 'is_integer':
        return mk_cmp(o - mk_floor(o), '==')
    fz = tuple(I.freeze(a, st) for a in args)
    return R.atom(get_app('meth:' + name, (o,) + fz)[0])


def obj_method(I, o, name, args, kwargs, st, node):
    if o.path == 'logging.Logger':
        if name in ('debug', 'info', 'warning', 'warn', 'error', 'critical', 'exception', 'log'):
            return log_call(I, o.args[0] if o.args else '', name, args, kwargs, st, node)
        I.event(st, 'logconf', name, [o.args[0] if o.args else ''] + list(args), kwargs, node)
        if name in ('hasHandlers', 'isEnabledFor'):
            return b_atom(R.atom(get_app('logger:' + name, (o,))[0]))
        if name == 'getChild':
            return ExtObj('logging.Logger', ('logger', '%s.%s' % (o.args[0], args[0])), ('%s.%s' % (o.args[0], args[0]),))
        return None
    if o.path == 'numpy.random.Generator' or o.path.startswith('numpy.random'):
        return rng(I, 'numpy.random.' + name, o, args, kwargs, st, node)
    r = ExtObj(o.path + '.' + name, I.uid(), tuple(I.freeze(a, st) for a in args))
    e = I.event(st, 'ext', o.path + '.' + name, [o] + list(args), kwargs, node, r)
    if I.opaque_raises:
        for x in I.opaque_raises(e):
            I.raise_exc(st, x)
    return r

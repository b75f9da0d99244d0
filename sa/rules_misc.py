"""Independence of calls: callers' data, stored state and module data."""
import ast
from core import *
from values import walk_trace, ListV, ExtObj
from interp import owned
from rules_runs import Run, STO, DET, ISD, VAR, MEAN, FO, PF
from rules_main import Entry, ON
from rules_out import Drawing, PROB, DPLOT, IMPACT, STATS, NAMES, FORMATS, VIS
from rules_model import M

ATTRS = ('base', 'conductivity', 'porosity', 'thickness', 'wells', 'xo', 'yo', 'coef')
QUERIES = ('compute_potential', 'compute_potential_wells_only', 'compute_discharge', 'compute_head', 'compute_velocity',
           'compute_velocity_confined')
GRIDS = ('deltax', 'deltay', 'nrows', 'ncols', 'xmin', 'xmax', 'ymin', 'ymax', 'pgrid', 'rgrid', 'total_weight')
IN_PLACE = ('shuffle', 'put', 'place', 'putmask', 'copyto', 'fill_diagonal', 'heapify', 'heappop', 'heappush', 'insort',
            'insort_left', 'insort_right', 'heappushpop', 'heapreplace')


def attrs(c, ref, st, names=ATTRS):
    return {n: c.I.freeze(c.I.getattr(ref, n, st, None), st) for n in names}


def written(st):
    """Inputs some statement of the run changes in place."""
    out = []
    for e, conds, loops in walk_trace(st.trace):
        hit = e.kind in ('mutate', 'setattr') or e.kind in ('ext', 'rng', 'callv') and e.name.rsplit('.', 1)[-1] in IN_PLACE
        if hit and e.args and owned(e.args[0]) is not None:
            out.append('%s by %s (%s)' % (owned(e.args[0]).name, e.name, e.where))
    return out


def ends(r):
    return ([r.state] if r.state is not None else []) + [s for s, _ in r.raises]


def untouched(c, r, q, skip=()):
    """No input changed in place, no module-level or default data changed."""
    bad, hid = [], []
    for st in ends(r):
        bad += [x for x in written(st) if x not in bad]
        hid += [x for x in hidden(c, st) if x not in hid]
    c.require(not bad, 'callers-data', q, 'the arguments are left as they were: %s' % '; '.join(bad[:3]))
    c.require(not hid, 'no-hidden-state', q, 'module-level, class-level and default values are left as they were: %s' % '; '.join(hid[:3]))


def hidden(c, st):
    I, out = c.I, []
    extra = [f for f in st.frames if isinstance(f, tuple) and f[0] == 'cls' and isinstance(f[1], str) and f not in I.base.frames]
    for fid, vs in list(I.base.frames.items()) + [(f, {}) for f in extra]:
        if not (isinstance(fid, tuple) and fid[0] in ('mod', 'cls')):
            continue
        now = st.frames.get(fid, {})
        for n in set(vs) | set(now):
            if vs.get(n) is not now.get(n) and not (n in vs and n in now and same_thing(vs[n], now[n])):
                out.append('%s of %s' % (n, fid[1]))
    for h, o in I.base.heap.items():
        n = st.heap.get(h)
        if n is not None and n is not o and not same_object(I, o, n, st):
            out.append(name_of(I, h))
    return out


def same_thing(a, b):
    try:
        return veq(a, b)
    except Exception:
        return False


def same_object(I, a, b, st):
    if type(a) is not type(b):
        return False
    if isinstance(a, ListC):
        return len(a.parts) == len(b.parts) and all(x is y or part_same(x, y) for x, y in zip(a.parts, b.parts))
    if isinstance(a, ArrC):
        return same_thing(a.val, b.val)
    if isinstance(a, DictC):
        return len(a.items) == len(b.items) and all(same_thing(x, y) for p, q in zip(a.items, b.items) for x, y in zip(p, q))
    if isinstance(a, ObjC):
        return set(a.fields) == set(b.fields) and all(a.fields[k] is b.fields[k] or same_thing(a.fields[k], b.fields[k]) for k in a.fields)
    return False


def part_same(x, y):
    return len(x) == len(y) and all(a is b or isinstance(a, str) and a == b or same_thing(a, b) for a, b in zip(x, y))


def name_of(I, h):
    for fid, vs in I.base.frames.items():
        for n, v in vs.items():
            if isinstance(v, Ref) and v.id == h:
                return '%s of %s' % (n, fid[1])
            for f in ([v] if hasattr(v, 'defaults') else list(getattr(v, 'members', {}).values())):
                f = getattr(f, 'fget', f)
                for d in list(getattr(f, 'defaults', [])) + list(getattr(f, 'kwdefaults', {}).values()):
                    if isinstance(d, Ref) and d.id == h:
                        return 'a default value of %s' % f.qual
                if isinstance(f, Ref) and f.id == h:
                    return 'a class value of %s' % getattr(v, 'qual', n)
    return 'a shared object'


def unchanged(c, before, after, q, what, rule='object-unchanged'):
    for n in before:
        c.same(after[n], before[n], rule, q, '%s: %s is as before' % (what, n))


# --------------------------------------------------------------------------
def C26(c):
    """Calls change nothing but what they are for."""
    settings(c)
    models(c.again())
    fits(c.again())
    separate_models(c.again())
    separate_fields(c.again())
    fields(c.again())
    descriptors(c.again())
    tables(c.again())
    for q in (PROB, DPLOT, IMPACT):
        d = Drawing(c.again(), q)
        untouched(d.c, d.r, q)
        if d.r.state is not None:
            ref = d.r.state and d.ref
            unchanged(d.c, d.v, attrs(d.c, ref, d.r.state, tuple(d.v)), q, 'the field drawn')
    for w in ('stochastic', 'deterministic'):
        r = Run(c.again(), w)
        untouched(r.c, r.r, r.q)
    e = Entry(c.again(), typed=True)
    untouched(e.c, e.r, ON)


def models(c, names=QUERIES):
    """Queries leave the model as it was and answer for its current state."""
    I = c.I
    for m in names:
        q = M + m
        c.fn(q)
        I.memo = []
        st = I.start()
        ref, v = c.W.model(st)
        before = attrs(c, ref, st)
        x, y = sym('x'), sym('y')
        r = c.method(ref, m, [x, y], st)
        untouched(c, r, q)
        for s in ends(r):
            unchanged(c, before, attrs(c, ref, s), q, 'the model asked')
        if r.state is not None:
            asked_again(c, m, ref, v, r.state)
    I.memo = None


def asked_again(c, m, ref, v, s):
    """The model, asked before and changed since, answers like a new one."""
    I = c.I
    q = M + m
    x, y = sym('x'), sym('y')
    s = s.copy()
    s.trace, s.pc = [], ()
    new = dict(xo=sym('xo2'), yo=sym('yo2'))
    coef = VecV([sym('c2_%d' % i) for i in range(6)])
    for n, z in new.items():
        I.setattr(ref, n, z, s, None)
    I.setattr(ref, 'coef', I.new_ref(s, ArrC(coef)), s, None)
    s0 = I.start()
    r2 = c.method(ref, m, [x, y], s)
    I.memo = []
    f = I.call(I.get('oneka.model.Model'), [v[n] for n in ('base', 'conductivity', 'porosity', 'thickness', 'wells')],
               dict(new, coef=I.new_ref(s0, ArrC(coef))), s0, None)
    r3 = c.method(f, m, [x, y], s0)
    what = 'asked again after a change of coefficients and origin, the answer is that of the changed model'
    same_run(c, q, r2, r3, what)


def same_run(c, q, a, b, what):
    c.same(c.raise_cond(a), c.raise_cond(b), 'history', q, what)
    if a.state is not None and b.state is not None:
        c.same(c.I.freeze(a.value, a.state), c.I.freeze(b.value, b.state), 'history', q, what)


def content(o):
    if isinstance(o, ObjC):
        return [z for k in sorted(o.fields) for z in (k, o.fields[k])]
    if isinstance(o, ListC):
        return list(o.parts)
    if isinstance(o, DictC):
        return [z for kv in o.items for z in kv]
    return [o.val] if isinstance(o, ArrC) else [o]


def alike(a, b):
    return len(a) == len(b) and all(x is y or isinstance(x, str) and x == y for x, y in zip(a, b))


def twin(a):
    """Another symbol of the same kind."""
    return sym(a.name + "'", pos=a.pos, nonneg=a.nonneg, integer=a.integer, ndim=a.ndim, shape=a.shape,
               boolean=a.boolean, meta=a.meta).single()


def model_history(c, names):
    """What these queries answer does not depend on earlier queries, of this
    model with other coefficients or of another model."""
    c = c.again()
    I = c.I
    for m in names:
        I.memo = []
        st = I.start()
        ref, v = c.W.model(st)
        old, _ = c.W.model(st, 'old_')
        before = attrs(c, ref, st)
        h0 = {i: content(o) for i, o in st.heap.items()}
        for o, p in ((old, 'o'), (ref, '')):
            r = c.method(o, m, [sym(p + 'x'), sym(p + 'y')], st)
            if r.state is None:
                break
            st = r.state.copy()
            st.trace, st.pc = [], ()
        kept = r.state is not None and not I.memo and not hidden(c, st) and all(
            i in st.heap and alike(content(st.heap[i]), x) for i, x in h0.items())
        c.require(True, 'history', M + m, 'leaves nothing behind')
        if r.state is not None and not kept:
            asked_again(c, m, ref, v, st)
    I.memo = None


def _filter(c):
    return FO, [seqsym('obs', width=4), seqsym('wells', width=4), pos('buffer')]


def _trace(c):
    from rules_trace import BT
    return BT, [sym('xs'), sym('ys'), sym('D'), pos('tol'), pos('maxstep'), fapp(c, 'V', 2)]


HISTORY = {
    'C10': [lambda c: (PF + '.distancesquared', [sym(n) for n in ('ax', 'ay', 'bx', 'by', 'cx', 'cy')])],
    'C13': [_trace], 'C14': [_trace], 'C19': [_filter], 'C20': [_filter],
    'C18': [lambda c: (ISD, [sym('d'), sym('lb'), sym('ub')]), lambda c: (MEAN, [sym('d')]),
            lambda c: (ISD, [TupleV([sym('a'), sym('b')]), sym('lb'), sym('ub')]), lambda c: (MEAN, [TupleV([sym('a'), sym('b')])])],
    'C29': [lambda c: (STATS, [seqsym('values', width=3), TupleV(list(NAMES)), TupleV(list(FORMATS)), 'Title'])],
}


def behind(I, v):
    """Atoms a value comes from, through the loops that made it."""
    cells = {ce.mu.id: ce for rec in I.recs for t in rec.locs.values() for ce in t.cells if ce.mu is not None}
    seen, todo = set(), [v]
    while todo:
        x = todo.pop()
        for a in all_atoms(x) if isinstance(x, (R, B, TupleV, VecV, ListV, Gamma, Arr)) else ():
            if a.id not in seen:
                seen.add(a.id)
                if a.id in cells:
                    todo += [cells[a.id].v0, cells[a.id].f]
    return seen


def histories(c, prop):
    for mk in HISTORY[prop]:
        d = c.again()
        history(d, *mk(d))


def history(c, q, args, kwargs=None):
    """What q returns does not depend on an earlier call with other arguments."""
    I = c.I
    f = c.fn(q)
    kwargs = kwargs or {}
    vals = list(args) + list(kwargs.values())
    m = {}
    for x in vals:
        for a in all_atoms(x) if isinstance(x, (R, B, TupleV, VecV, ListV)) else ():
            if a.id not in m and not a.args:
                m[a.id] = R.atom(twin(a))
    I.memo = []
    try:
        go = lambda x: subst(x, m) if isinstance(x, (R, B, TupleV, VecV, ListV)) else x
        n0 = len(ATOMS)
        try:
            r1 = I.run(f, [go(x) for x in args], {k: go(x) for k, x in kwargs.items()}, I.start())
        except Unsupported:
            return          # the rules decide this code under their own models of its parts
        c.require(True, 'history', q, 'leaves nothing behind')
        if r1.state is None or not I.memo and not hidden(c, r1.state):
            return
        s = r1.state.copy()
        s.trace, s.pc = [], ()
        n1 = len(ATOMS)
        r2 = I.run(f, list(args), dict(kwargs), s)
        keyed = bool(I.memo) or any(
            isinstance(o, DictC) and any(not isinstance(k, str) for k, _ in s.heap[h].items) for h, o in I.base.heap.items() if h in s.heap)
        I.memo = []
        if not keyed and r2.state is not None:
            v = I.freeze(r2.value, r2.state)
            old = [i for i in behind(I, v) if n0 <= i < n1]
            if not c.require(not old, 'history', q, 'the result holds what an earlier call left in %s' % ', '.join(hidden(c, s))):
                return
        r3 = I.run(f, list(args), dict(kwargs), I.start())
        same_run(c, q, r2, r3, 'an earlier call with other arguments changes nothing')
    finally:
        I.memo = None


def fits(c):
    I = c.I
    n = sym('nobs', integer=True, pos=True)
    st = I.start()
    ref, v = c.W.model(st)
    before = attrs(c, ref, st)
    obs = seqsym('obs', width=4)
    r = c.method(ref, 'construct_fit', [obs, sym('fx'), sym('fy')], st)
    untouched(c, r, M + 'construct_fit')
    for s in ends(r):
        unchanged(c, before, attrs(c, ref, s), M + 'construct_fit', 'the model')
    st = I.start()
    A, b = sym('WA', ndim=2, shape=(n, num(6))), sym('Wb', ndim=2, shape=(n, num(1)))
    ra, rb = I.new_ref(st, ArrC(A)), I.new_ref(st, ArrC(b))
    r = c.call(M + 'compute_fit', [ra, rb], st=st)
    untouched(c, r, M + 'compute_fit')
    for s in ends(r):
        for ref, x, nm in ((ra, A, 'equations'), (rb, b, 'right-hand side')):
            c.same(I.freeze(ref, s), x, 'callers-data', M + 'compute_fit', 'the %s are left as they were' % nm)


def store(c, st, ref, name, ix):
    """Change one element of the array held by an object; False if not an array."""
    I = c.I
    a = I.getattr(ref, name, st, None)
    if not (isinstance(a, Ref) and isinstance(st.heap.get(a.id), ArrC)):
        return False
    I.setitem(a, ix, sym('poke'), st, None)
    return True


def separate_models(c):
    """Two models share no changeable data, nor with the caller's array."""
    I = c.I
    M_ = I.get('oneka.model.Model')
    q = M + '__init__'

    def make(st, tag, **kw):
        w = c.W
        return I.call(M_, [sym(tag + 'base'), pos(tag + 'K'), pos(tag + 'n'), pos(tag + 'T'), seqsym(tag + 'wells', width=4)], kw, st, None)
    for label in ('default coefficients', 'the same array', 'a column array', 'another model\'s coefficients'):
        st = I.start()
        arr = None
        if label == 'default coefficients':
            a, b = make(st, 'a'), make(st, 'b')
        elif label.startswith('another'):
            a = make(st, 'a')
            b = make(st, 'b', coef=I.getattr(a, 'coef', st, None))
        else:
            cs = [sym('c%d' % i) for i in range(6)]
            arr = I.new_ref(st, ArrC(VecV([VecV([x]) for x in cs] if label == 'a column array' else cs)))
            a, b = make(st, 'a', coef=arr), make(st, 'b', coef=arr)
        before = attrs(c, b, st)
        mine = I.freeze(arr, st) if arr is not None else None
        if not store(c, st, a, 'coef', num(0)):
            continue
        what = 'models built with %s are independent' % label
        unchanged(c, before, attrs(c, b, st), q, what, 'separate')
        if arr is not None:
            c.same(I.freeze(arr, st), mine, 'separate', q, 'changing a model leaves the array it was built from')
            cur = attrs(c, a, st)
            I.setitem(arr, num(1) if label != 'a column array' else TupleV([num(1), num(0)]), sym('poke2'), st, None)
            unchanged(c, cur, attrs(c, a, st), q, 'changing the array afterwards leaves the model', 'separate')
        else:
            n = make(st, 'n')
            st2 = I.start()
            n2 = make(st2, 'n')
            unchanged(c, attrs(c, n2, st2), attrs(c, n, st), q, 'later models do not see changes of earlier ones', 'separate')


def separate_fields(c):
    I = c.I
    q = PF + '.__init__'
    F = I.get(PF)
    for g in ('pgrid', 'rgrid'):
        st = I.start()
        mk = lambda tag: I.call(F, [pos('dx'), pos('dy'), sym(tag + 'xo'), sym(tag + 'yo')], {}, st, None)
        a, b = mk('a'), mk('b')
        before, own = attrs(c, b, st, GRIDS), attrs(c, a, st, GRIDS)
        if not store(c, st, a, g, TupleV([num(1), num(1)])):
            continue
        unchanged(c, before, attrs(c, b, st, GRIDS), q, 'two fields are independent', 'separate')
        now = attrs(c, a, st, GRIDS)
        for n in GRIDS:
            if n != g:
                c.same(now[n], own[n], 'separate', q, 'the two grids of a field are independent (%s)' % n)


def fields(c):
    """Marking leaves the path given as it was."""
    I = c.I
    n = sym('npts', integer=True, pos=True)
    st = I.start()
    p, v = c.W.field(st)
    for m in ('expand', 'insert'):
        c.opaque(PF + '.' + m)
    X, Y = sym('X', ndim=1, shape=(n,)), sym('Y', ndim=1, shape=(n,))
    rx, ry = I.new_ref(st, ArrC(X)), I.new_ref(st, ArrC(Y))
    r = c.method(p, 'rasterize', [rx, ry, pos('umbra')], st)
    untouched(c, r, PF + '.rasterize')
    for s in ends(r):
        c.same(I.freeze(rx, s), X, 'callers-data', PF + '.rasterize', 'the x-coordinates are left as they were')
        c.same(I.freeze(ry, s), Y, 'callers-data', PF + '.rasterize', 'the y-coordinates are left as they were')


def descriptors(c):
    I = c.I
    for q in (ISD, VAR, MEAN):
        for n in (2, 3):
            st = I.start()
            cs = [sym('d%d' % i) for i in range(n)]
            a = I.new_ref(st, ListC([('item', True, x) for x in cs]))
            for x in range(n - 1):
                I.assume(st, mk_cmp(cs[x + 1] - cs[x], '>='))
            r = c.call(q, [a] + ([sym('lb'), sym('ub')] if q == ISD else []), st=st)
            untouched(c, r, q)
            for s in ends(r):
                ps = s.heap[a.id].parts
                c.require(len(ps) == n and all(p[0] == 'item' and veq(p[2], x) for p, x in zip(ps, cs)), 'callers-data', q,
                          'the descriptor is left as it was')


def tables(c):
    I = c.I
    st = I.start()
    r = c.call(FO, [seqsym('obs', width=4), seqsym('wells', width=4), pos('buffer')], st=st)
    untouched(c, r, FO)
    st = I.start()
    names = I.new_ref(st, ListC([('item', True, x) for x in NAMES]))
    forms = I.new_ref(st, ListC([('item', True, x) for x in FORMATS]))
    r = c.call(STATS, [seqsym('values', width=3), names, forms, 'Title'], st=st)
    untouched(c, r, STATS)
    for s in ends(r):
        for ref, want in ((names, NAMES), (forms, FORMATS)):
            ps = s.heap[ref.id].parts
            c.require(len(ps) == 3 and all(p[2] == x for p, x in zip(ps, want)), 'callers-data', STATS, 'names and formats are left as they were')


SETTERS = ('numpy.seterr', 'numpy.seterrcall', 'numpy.setbufsize', 'numpy.random.seed', 'numpy.random.set_state', 'random.seed',
           'random.setstate', 'os.chdir', 'os.umask', 'os.putenv', 'os.environ', 'warnings.simplefilter', 'warnings.filterwarnings',
           'locale.setlocale', 'matplotlib.rc', 'matplotlib.rcdefaults', 'matplotlib.use', 'matplotlib.pyplot.rc',
           'matplotlib.pyplot.rcdefaults', 'matplotlib.pyplot.switch_backend', 'matplotlib.style.use', 'matplotlib.pyplot.style.use',
           'matplotlib.rcParams', 'matplotlib.pyplot.rcParams', 'sys.setrecursionlimit', 'logging.disable', 'decimal.setcontext',
           'time.tzset', 'gc.disable', 'sys.stdout', 'sys.stderr', 'numpy.set_printoptions', 'signal.signal')
CHANGING = ('update', 'setdefault', 'pop', 'clear', 'popitem', '__setitem__')


def settings(c):
    """No function of the package leaves a process-wide setting of a library
    changed.  A setting changed in a with statement is put back by it."""
    n = 0
    for m in sorted(c.I.prog.paths):
        if m.split('.')[0] != 'oneka':
            continue
        tree = c.I.prog.tree(m)
        names = {}
        for x in ast.walk(tree):
            if isinstance(x, ast.Import):
                for a in x.names:
                    names[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
            elif isinstance(x, ast.ImportFrom) and x.module and not x.level:
                for a in x.names:
                    names[a.asname or a.name] = x.module + '.' + a.name

        def path(e):
            if isinstance(e, ast.Name):
                return names.get(e.id)
            b = path(e.value) if isinstance(e, ast.Attribute) else None
            return None if b is None else b + '.' + e.attr
        for f in ast.walk(tree):
            if not isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            n += 1
            back = {path(x.func) for x in ast.walk(f) if isinstance(x, ast.Call) and any(k.arg is None for k in x.keywords)}
            held = {id(i.context_expr) for x in ast.walk(f) if isinstance(x, ast.With) for i in x.items}
            # settings put back in a finally clause
            undone = {id(y) for x in ast.walk(f) if isinstance(x, ast.Try) and x.finalbody for y in ast.walk(x)}
            for x in ast.walk(f):
                hit = None
                if isinstance(x, ast.Call) and id(x) not in held:
                    p = path(x.func)
                    if p in SETTERS and p not in back:
                        hit = p
                    elif p and p.rsplit('.', 1)[-1] in CHANGING and p.rsplit('.', 1)[0] in SETTERS:
                        hit = p
                elif isinstance(x, (ast.Assign, ast.AugAssign, ast.Delete)):
                    for t in getattr(x, 'targets', None) or [x.target]:
                        b = path(t.value if isinstance(t, ast.Subscript) else t) if isinstance(t, (ast.Subscript, ast.Attribute)) else None
                        if b in SETTERS:
                            hit = b
                if hit and id(x) in undone:
                    raise Unsupported('%s.%s: %s set, and perhaps put back' % (m, f.name, hit))
                c.require(hit is None, 'process-settings', '%s.%s' % (m, f.name),
                          'the settings of the process and its libraries are left as they were: %s' % hit,
                          '%s:%d' % (m.replace('.', '/') + '.py', getattr(x, 'lineno', 0)))
    c.require(n > 0, 'process-settings', 'oneka', 'the package has functions')


RULES = {'C26': C26}
for _r in RULES.values():
    _r.modes = 1

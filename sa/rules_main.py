"""Rules on the entry point: argument validation, parameter threading, the run
log, the archive."""
from core import *
from values import Event, walk_trace, ListV, ExtObj, ObjC
from rules_runs import STO, DET, ISD, bound_names, filtered
from rules_trace import b_replace

ON = 'oneka.oneka.oneka'
LOGRUN = 'oneka.oneka.log_the_run'
DUMP = 'oneka.archive.dump_oneka'
LOAD = 'oneka.archive.load_oneka'
FILTER = 'oneka.utilities.filter_obs'
STATS = 'oneka.utilities.summary_statistics'
PROB = 'oneka.visualize.create_probability_plot'
IMPACT = 'oneka.visualize.create_impact_plot'
DPLOT = 'oneka.visualize.create_deterministic_plot'
PARAMS = ('projectname', 'runtime', 'target', 'npaths', 'duration', 'nrealizations', 'base', 'c_dist', 'p_dist', 't_dist',
          'stochastic_wells', 'observations', 'buffer', 'spacing', 'umbra', 'smooth', 'confined', 'tol', 'maxstep')
PUBLIC = (DUMP, STO, DET, FILTER, STATS, PROB, IMPACT, DPLOT)


def isa(v, *types):
    return b_or(*[b_atom(apply('isinstance', v, t, boolean=True)) for t in types])


def number(v):
    return isa(v, 'int', 'float')


class Entry:
    """One abstract run of oneka(), all arguments arbitrary."""

    def __init__(self, c, typed=False, log=True, only=PARAMS):
        self.c = c
        I = c.I
        self.kw = {n: sym(n) for n in PARAMS}
        self.kw['stochastic_wells'] = seqsym('stochastic_wells', 4)
        self.kw['observations'] = seqsym('observations', 4)
        if typed:
            self.kw['target'] = sym('target', integer=True, nonneg=True)
            self.kw['npaths'] = sym('npaths', integer=True, pos=True)
            self.kw['nrealizations'] = sym('nrealizations', integer=True)
            self.kw['confined'] = sym('confined', boolean=True)
        self.kept = seqsym('kept', 4)
        self.pf = {STO: ExtObj('field', ('field', 'stochastic'), ()), DET: ExtObj('field', ('field', 'deterministic'), ())}
        self.pr, self.area = sym('pr', ndim=1, shape=(sym('npr', integer=True, pos=True),)), None
        n = self.pr.single().shape[0]
        self.area = sym('area', ndim=1, shape=(n,))
        self.darea = sym('capture_area', nonneg=True)
        self.table = ExtObj('io.StringIO', ('table',), ())
        res = {FILTER: lambda I, st, a: self.kept, STO: lambda I, st, a: self.pf[STO], DET: lambda I, st, a: self.pf[DET],
               STATS: lambda I, st, a: self.table, IMPACT: lambda I, st, a: TupleV([self.pr, self.area]),
               DPLOT: lambda I, st, a: self.darea}
        for q in PUBLIC:
            c.opaque(q, res.get(q), q)

        def isd(I, st, a):
            return b_atom(apply('isd', *[I.freeze(x, st) for x in list(a.values())[:3]], boolean=True))
        I.opaque[c.fn(ISD).qual] = lambda I, st, a, node: isd(I, st, a)
        if not log:
            c.opaque(LOGRUN, None, LOGRUN)
        st = I.start()
        if typed:
            for b in self.valid().values():
                I.assume(st, b)
            I.assume(st, mk_cmp(mk_len(self.kept) - num(7), '>='))
        self.npc = len(st.pc)
        self.r = c.call(ON, [], dict(self.kw), st=st)
        self.ev = list(walk_trace(self.r.state.trace)) if self.r.state is not None else []

    def valid(self):
        """The documented domain, per argument."""
        k, inf = self.kw, alg.INF()

        def isd(v, lo, hi):
            return b_atom(apply('isd', v, lo, hi, boolean=True))

        def posnum(v):
            return b_and(number(v), mk_cmp(v, '>'))
        w, ob = k['stochastic_wells'], k['observations']

        def bad_well(j):
            e = idx(w, j)
            return b_not(b_and(mk_cmp(mk_len(e) - num(4), '=='), *[number(idx(w, j, num(i))) for i in range(3)],
                               mk_cmp(idx(w, j, num(2)), '>'), isd(idx(w, j, num(3)), -inf, inf)))

        def bad_obs(j):
            e = idx(ob, j)
            return b_not(b_and(mk_cmp(mk_len(e) - num(4), '=='), *[number(idx(ob, j, num(i))) for i in range(4)],
                               mk_cmp(idx(ob, j, num(3)), '>')))
        return {
            'projectname': isa(k['projectname'], 'str'), 'runtime': isa(k['runtime'], 'str'),
            'stochastic_wells': b_and(isa(w, 'list'), mk_cmp(mk_len(w) - num(1), '>='), b_not(existsk(mk_len(w), bad_well))),
            'target': b_and(isa(k['target'], 'int'), mk_cmp(k['target'], '>='), mk_cmp(mk_len(w) - k['target'], '>')),
            'npaths': b_and(isa(k['npaths'], 'int'), mk_cmp(k['npaths'], '>')),
            'duration': b_and(number(k['duration']), b_not(mk_cmp(k['duration'], '=='))),
            'base': number(k['base']),
            'c_dist': isd(k['c_dist'], num(0), inf), 'p_dist': isd(k['p_dist'], num(0), num(1)),
            't_dist': isd(k['t_dist'], num(0), inf),
            'observations': b_and(isa(ob, 'list'), mk_cmp(mk_len(ob) - num(7), '>='), b_not(existsk(mk_len(ob), bad_obs))),
            'buffer': posnum(k['buffer']), 'spacing': posnum(k['spacing']), 'umbra': posnum(k['umbra']),
            'smooth': b_and(number(k['smooth']), mk_cmp(k['smooth'], '>=')),
            'confined': isa(k['confined'], 'bool'), 'tol': posnum(k['tol']), 'maxstep': posnum(k['maxstep'])}


TEXT = ('str.', 'meth:strip', 'meth:lower', 'meth:upper', 'meth:lstrip', 'meth:rstrip', 'meth:replace', 'sym')


def free_text(b):
    """b with every test of a text argument against a fixed text (which some
    texts pass and some do not) free."""
    lits = []
    alg.literals(b, lits)
    for l in lits:
        a = l.args[0].single() if l.kind != 'cmp' and isinstance(l.args[0], R) else None
        if a is None or a.op not in ('streq', 'in') or len(a.args) != 2:
            continue
        text = [x for x in a.args if isinstance(x, R)]
        if len(text) == 1 and any(isinstance(x, str) for x in a.args) and {
                x.name for x in all_atoms(text[0]) if x.op == 'sym'} <= {'projectname', 'runtime'} and all(
                    x.op in TEXT for x in all_atoms(text[0])):
            b = b_replace(b, l, b_atom(fresh('text', boolean=True)))
    return b


def C21(c):
    """The run is rejected exactly outside the documented domain, before it
    does anything."""
    e = Entry(c, log=False)
    valid = e.valid()
    early, late, other = [], [], []
    for st, x in e.r.raises:
        ev = [t for t, cd, l in walk_trace(st.trace)]
        if not exc_is(exc_class(x, st), 'AssertionError'):
            other.append(exc_name(exc_class(x, st)))
        elif [t for t in ev if t.kind == 'call' and t.name == FILTER]:
            late.append((st, ev))
        else:
            early.append((st, ev))
    c.require(not other, 'assertion', ON, 'a run is rejected with an AssertionError (%s)' % other)
    noisy = sorted({'%s %s' % (t.kind, t.name) for st, ev in early for t in ev})
    c.require(not noisy, 'no-effect', ON, 'invalid arguments are rejected before anything is done (%s)' % noisy)
    rejected = b_or(*[b_and(*st.pc[e.npc:]) for st, ev in early])
    base = Facts()
    for v in valid.values():
        base = base.add(v)
    rejected = free_text(rejected)
    c.same(rejected, False, 'accepts', ON, 'arguments inside the documented domain are accepted', base)
    for p in valid:
        f = Facts()
        for q, v in valid.items():
            if q != p:
                f = f.add(v)
        c.same(rejected, b_not(valid[p]), 'domain', ON, 'argument %s is rejected exactly outside its domain' % p, f)
    few = mk_cmp(num(7) - mk_len(e.kept), '>')
    tail = [b_and(*[x for x in st.pc[e.npc:]]) for st, ev in late]
    c.same(b_or(*tail) if tail else False, few, 'few-observations', ON,
           'a run with fewer than seven retained observations is rejected', base)
    work = sorted({t.name for st, ev in late for t in ev if t.kind in ('call', 'ext') and t.name not in (FILTER, LOGRUN)})
    c.require(not work, 'few-observations', ON, 'it is rejected before any computation, plot or archive (%s)' % work)


def arguments(c, q, e, names):
    """Arguments of a recorded call, by our names: the callee's own parameter
    names where they are these, positions otherwise."""
    a = e.extra['frozen']
    if set(names) <= set(a):
        return {n: a[n] for n in names}
    vals = list(a.values())
    if len(vals) < len(names):
        raise Unsupported('%s takes %d arguments' % (q, len(vals)))
    return dict(zip(names, vals))


BOTH = ('target', 'npaths', 'duration', 'nrealizations', 'base', 'c_dist', 'p_dist', 't_dist', 'stochastic_wells',
        'observations', 'spacing', 'umbra', 'confined', 'tol', 'maxstep')
SIGNATURES = {
    FILTER: ('observations', 'wellfield', 'buffer'),
    STO: BOTH, DET: tuple(x for x in BOTH if x != 'nrealizations'),
    PROB: ('target', 'stochastic_wells', 'obs', 'pf', 'smooth'),
    DPLOT: ('target', 'stochastic_wells', 'obs', 'pf'),
    IMPACT: ('spacing', 'pf'),
    DUMP: PARAMS + ('pfield',),
}


def threading(c, e, q, cond, why, **want):
    """q is called exactly once, exactly under cond, with these arguments."""
    calls = [(t, cd, l) for t, cd, l in e.ev if t.kind == 'call' and t.name == q]
    short = q.rsplit('.', 1)[-1]
    if not c.require(len(calls) >= 1 and not any(l for t, cd, l in calls), 'called', ON, '%s is called (%s)' % (short, why)):
        return
    c.same(b_or(*[b_and(*cd) for t, cd, l in calls]), cond, 'called', ON, '%s is called exactly when due (%s)' % (short, why))
    for i in range(len(calls)):
        for j in range(i):
            c.same(b_and(*calls[i][1], *calls[j][1]), False, 'called', ON, '%s is called once' % short)
    for t, cd, l in calls:
        f = Facts()
        for x in cd:
            f = f.add(x)
        got = arguments(c, q, t, SIGNATURES[q])
        for n in SIGNATURES[q]:
            w = want[n] if n in want else e.kw.get(n)
            thread(c, got[n], w, ON, '%s receives its %s' % (short, n), f)


def copied(got, want):
    """want itself, where got is a list of all its entries (or of rows of their
    four entries), else got."""
    try:
        n, k, cond, e = filtered(None, got)
    except Unsupported:
        return got
    K = R.atom(k)
    if cond is not True or not r_eq(as_r(n), mk_len(want)):
        return got
    if isinstance(e, R):
        return want if r_eq(e, idx(want, K)) else got
    xs = e.items if isinstance(e, (TupleV, VecV)) else ()
    if len(xs) == 4 and all(isinstance(x, R) and r_eq(x, idx(want, K, num(i))) for i, x in enumerate(xs)):
        return want
    return got


def thread(c, got, want, where, what, f=None):
    if isinstance(want, ExtObj) or isinstance(got, (ExtObj, Gamma)) and not isinstance(want, (R, B, bool)):
        while isinstance(got, Gamma):
            t = alg.decide(got.cond, f or Facts())
            if t is None:
                for x in (got.cond, b_not(got.cond)):
                    g = (f or Facts()).add(x)
                    w = want
                    while isinstance(w, Gamma):
                        w = w.a if alg.decide(w.cond, g) else w.b
                    thread(c, got, w, where, what, g)
                return
            got = got.a if t else got.b
        c.require(got is want, 'argument', where, '%s: %s' % (what, show(got, 200)))
        return
    if isinstance(want, B) or isinstance(want, R) and want.single() is not None and want.single().boolean:
        if isinstance(got, R):
            got = b_atom(got)
        if isinstance(want, R):
            want = b_atom(want)
    if isinstance(got, Arr) and len(got.shape) == 1 and isinstance(want, R) and not want.is_const():
        # part of it, or a copy
        c.same(as_r(got.shape[0]), mk_len(want), 'argument', where, what + ' whole', f)
        k = fresh_atom('k', integer=True, nonneg=True)
        x = subst(got.body, {got.ks[0].id: R.atom(k)})
        if isinstance(x, R) and not r_eq(x, idx(want, R.atom(k))) and 'wellfield' not in what:
            c.same(x, idx(want, R.atom(k)), 'argument', where, what + ' in its order', f)
    if isinstance(got, ListV) and isinstance(want, R) and not want.is_const():
        got = copied(got, want)
    if not isinstance(got, (R, B, bool)):
        if isinstance(got, TupleV) or isinstance(got, str) or got is None or isinstance(got, ListV):
            c.require(False, 'argument', where, '%s: got %s' % (what, show(got, 200)))
            return
        raise Unsupported('%s: %s: %s' % (where, what, show(got, 200)))
    c.same(got, want, 'argument', where, what, f)


def C22(c):
    """Every stage of a run gets the user's own parameters, and the field it
    computed is the one shown, archived and returned."""
    e = Entry(c, typed=True)
    if not c.require(e.r.state is not None and not e.r.raises, 'total', ON, 'a valid run raises %s' % c.exc_names(e.r)):
        raise Stop()
    many = mk_cmp(e.kw['nrealizations'] - num(1), '>')
    few = b_not(many)
    threading(c, e, FILTER, True, 'always', wellfield=e.kw['stochastic_wells'])
    threading(c, e, STO, many, 'more than one realization', observations=e.kept)
    threading(c, e, DET, few, 'a single realization', observations=e.kept)
    threading(c, e, PROB, many, 'more than one realization', obs=e.kept, pf=e.pf[STO])
    threading(c, e, IMPACT, many, 'more than one realization', pf=e.pf[STO])
    threading(c, e, DPLOT, few, 'a single realization', obs=e.kept, pf=e.pf[DET])
    field = Gamma(many, e.pf[STO], e.pf[DET])
    threading(c, e, DUMP, True, 'always', pfield=field)
    thread(c, e.r.value, field, ON, 'the field computed is returned')
    shown(c, e)
    for n, v in (('buffer', 100), ('spacing', 10), ('umbra', 10), ('smooth', 0), ('confined', True), ('tol', 1), ('maxstep', 10)):
        d = default_of(c, ON, n)
        if isinstance(v, bool):
            c.require(d is v, 'default', ON, 'the documented default of %s is %s: %s' % (n, v, show(d)))
        else:
            c.same(as_r(d) if d is not None else None, num(v), 'default', ON, 'the documented default of %s' % n)
    driver(c)


def shown(c, e):
    """The plots are put on the screen once they are complete."""
    shows = [(i, cd) for i, (t, cd, l) in enumerate(e.ev)
             if t.kind in ('ext', 'callv') and t.name.rsplit('.', 1)[-1] == 'show']
    plots = [i for i, (t, cd, l) in enumerate(e.ev) if t.kind == 'call' and t.name in (PROB, IMPACT, DPLOT)]
    late = [cd for i, cd in shows if not plots or i > max(plots)]
    c.require(bool(late), 'shown', ON, 'the plots are shown after they are drawn')
    if late:
        c.same(b_or(*[b_and(*cd) for cd in late]), True, 'shown', ON, 'the plots are always shown')


def default_of(c, q, name):
    f = c.fn(q)
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    ds = dict(zip(names[len(names) - len(f.defaults):], f.defaults)) if f.defaults else {}
    ds.update(f.kwdefaults or {})
    if name not in names + [x.arg for x in a.kwonlyargs]:
        raise Anchor('%s has no parameter %s' % (q, name))
    return ds.get(name)


MODULE = {'projectname': 'PROJECTNAME', 'stochastic_wells': 'WELLS'}


def driver(c):
    """runme.main passes the data module's settings to oneka()."""
    I = c.I
    q = 'runme.main'
    f = c.fn(ON)
    seen = []

    def h(I, st, a, node):
        seen.append({k: I.freeze(v, st) for k, v in a.items()})
        I.event(st, 'call', ON, [], a, node)
        return None
    I.opaque[f.qual] = h
    st = I.start()
    vals = {n: sym('module_' + MODULE.get(n, n.upper())) for n in PARAMS if n != 'runtime'}
    I.module_stub = I.new_ref(st, ObjC(None, {MODULE.get(n, n.upper()): v for n, v in vals.items()}))
    try:
        r = c.call(q, [sym('module_name')], {}, st=st)
    finally:
        I.module_stub = None
    if not c.require(len(seen) >= 1, 'driver', q, 'the driver runs oneka()'):
        return
    for a in seen:
        for n, v in vals.items():
            thread(c, a.get(n), v, q, '%s is the data module\'s %s' % (n, MODULE.get(n, n.upper())))
    ev = list(walk_trace(r.state.trace)) if r.state is not None else []
    calls = [i for i, (t, cd, l) in enumerate(ev) if t.kind == 'call' and t.name == ON]
    hand = [i for i, (t, cd, l) in enumerate(ev) if t.kind == 'logconf' and t.name == 'addHandler' and
            (t.args[0] in ('Oneka', '', 'root'))]
    c.require(calls and hand and min(hand) < min(calls), 'driver', q, 'the log file is attached before the run')


def C23(c):
    """The archive holds every input and the field, is written before the
    windows block, and loads back as it was written."""
    I = c.I
    e = Entry(c, typed=True)
    if not c.require(e.r.state is not None, 'total', ON, 'a valid run returns'):
        raise Stop()
    dumps = [i for i, (t, cd, l) in enumerate(e.ev) if t.kind == 'call' and t.name == DUMP]
    shows = [i for i, (t, cd, l) in enumerate(e.ev) if t.kind == 'ext' and t.name.endswith('pyplot.show')]
    c.require(bool(dumps), 'archived', ON, 'every run is archived')
    many = mk_cmp(e.kw['nrealizations'] - num(1), '>')
    threading(c, e, DUMP, True, 'always', pfield=Gamma(many, e.pf[STO], e.pf[DET]))
    c.require(not shows or dumps and max(dumps) < min(shows), 'archived', ON,
              'the archive is written before the plot windows block the program')
    # what is written
    c.I.opaque.pop(c.fn(DUMP).qual, None)
    st = I.start()
    kw = {n: sym('in_' + n) for n in PARAMS + ('pfield',)}
    names = bound_names(c.fn(DUMP))
    args = [kw[n] for n in PARAMS + ('pfield',)]
    if set(kw) <= set(names):
        r = c.call(DUMP, [], dict(kw), st=st)
    else:
        r = c.call(DUMP, args, {}, st=st)
    if not c.require(r.state is not None and not r.raises, 'written', DUMP, 'archiving returns'):
        raise Stop()
    ev = [(plainly(t, r.state.trace), cd, l) for t, cd, l in walk_trace(r.state.trace)]
    writes = [(t, cd, l) for t, cd, l in ev if t.kind == 'ext' and t.name in ('pickle.dump', 'pickle.dumps')]
    held, packed, unpacked = None, [], []
    if len(writes) == 1 and writes[0][0].name == 'pickle.dumps':
        # pickled first, written to the file afterwards
        text = writes[0][0].result
        packed = [t for t, cd, l in ev if t.name in PACK and t.args and t.args[0] is text]
        if packed:
            text = packed[0].result
        into = [x for x in ev if x[0].kind in ('ext', 'callv') and x[0].name.endswith('write') and any(a is text for a in x[0].args)]
        if len(into) == 1:
            held = into[0]
            c.same(b_and(*held[1]), True, 'written', DUMP, 'the archive is always written')
    if len(writes) != 1 or writes[0][0].name != 'pickle.dump' and held is None:
        names_ = sorted({t.name for t, cd, l in ev if t.kind == 'ext'})
        if not any('pickle' in n or 'write' in n or 'dump' in n or 'save' in n for n in names_):
            c.require(False, 'written', DUMP, 'the run is written (%s)' % names_)
            raise Stop()
        raise Unsupported('%s: archive is not written by one pickle.dump (%s)' % (DUMP, names_))
    t, cd, l = writes[0]
    c.same(b_and(*cd), True, 'written', DUMP, 'the archive is always written')
    if isinstance(t.args[0], R) and any(r_eq(t.args[0], x) for x in kw.values()):
        c.require(False, 'complete', DUMP, 'the archive holds every input of the run and its field: only %s is written' % show(t.args[0]))
        raise Stop()
    items = entries(r.state, t.args[0])
    for n in PARAMS + ('pfield',):
        v = items.get(n, 'missing')
        c.require(isinstance(v, R) and r_eq(v, kw[n]), 'complete', DUMP, 'the archive maps %r to the run\'s %s: %s' % (
            n, n, show(v, 100)))
    fp = t.args[1] if len(t.args) > 1 else None
    if held is not None:
        fp = held[0].args[0]
    how = opened(ev, fp)
    if how is None:
        raise Unsupported('%s: file object of the archive not found: %s' % (DUMP, show(fp)))
    if packed:
        how = ((PACK[packed[0].name] if how[0] == 'plain' else how[0] + PACK[packed[0].name]),) + how[1:]
    c.require('w' in how[1] or 'x' in how[1], 'codec', DUMP, 'the archive file is opened for writing (%s)' % how[1])
    loss = coarse(how[2])
    c.require(loss is None, 'name', DUMP, 'a later run does not overwrite the archive: %s' % loss)
    closed = [x for x, cd, l in ev if x.kind == 'exit' and x.args and x.args[0] is fp or
              x.kind == 'ext' and x.name.endswith('.close') and x.args and x.args[0] is fp]
    c.require(bool(closed), 'codec', DUMP, 'the archive file is closed')
    # what is read
    name = sym('filename')
    r2 = c.call(LOAD, [name], {})
    if not c.require(r2.state is not None and not r2.raises, 'read', LOAD, 'loading returns'):
        raise Stop()
    ev2 = [(plainly(t, r2.state.trace), cd, l) for t, cd, l in walk_trace(r2.state.trace)]
    reads = [t for t, cd, l in ev2 if t.kind == 'ext' and t.name in ('pickle.load', 'pickle.loads')]
    if len(reads) != 1:
        raise Unsupported('%s: %d pickle.load calls' % (LOAD, len(reads)))
    c.require(r2.value is reads[0].result, 'read', LOAD, 'what was archived is returned: %s' % show(r2.value, 100))
    for x, cd, l in ev2:
        if x.args and x.args[0] is reads[0].result and b_and(*cd) is not False:
            lost = x.kind == 'ext' and x.name.endswith(('.pop', '.popitem', '.clear')) or x.kind == 'delitem' or \
                (x.kind, x.name) == ('mutate', 'del')
            put = x.kind == 'ext' and x.name.endswith('.update')
            if put:
                raise Unsupported('%s: %s of what was loaded' % (LOAD, x.name))
            c.require(not lost, 'read', LOAD, 'nothing is taken out of what was archived: %s' % x.name)
        if x.kind in ('setattr', 'mutate') and x.args and x.args[0] is not reads[0].result and b_and(*cd) is not False:
            on = x.args[0] if isinstance(x.args[0], str) else show(x.args[0], 300)
            c.require(show(reads[0].result) not in on, 'read', LOAD, 'what was archived is returned as it was: %s of %s is changed' % (
                x.name, on))
        if x.kind == 'setitem' and x.name == show(reads[0].result) and x.args[0] in PARAMS + ('pfield',):
            c.require(False, 'read', LOAD, 'what was archived under %r is returned' % x.args[0])
    fp2 = reads[0].args[0]
    if reads[0].name == 'pickle.loads':       # the whole file is read first
        unpacked = [t for t, cd, l in ev2 if t.name in UNPACK and t.result is fp2 and t.args]
        if unpacked:
            fp2 = unpacked[0].args[0]
        whole = [t for t, cd, l in ev2 if t.kind in ('ext', 'callv') and t.name.endswith('.read') and t.result is fp2 and len(t.args) == 1]
        if len(whole) != 1:
            raise Unsupported('%s: what is unpickled is not the contents of a file' % LOAD)
        fp2 = whole[0].args[0]
    how2 = opened(ev2, fp2)
    if how2 is None:
        raise Unsupported('%s: file object not found' % LOAD)
    if unpacked:
        how2 = ((UNPACK[unpacked[0].name] if how2[0] == 'plain' else how2[0] + UNPACK[unpacked[0].name]),) + how2[1:]
    c.require(how2[0] == how[0], 'codec', LOAD, 'archives are read with the codec they are written with (%s, %s)' % (how[0], how2[0]))
    c.require('r' in how2[1], 'codec', LOAD, 'the archive is opened for reading (%s)' % how2[1])
    c.require(isinstance(how2[2], R) and r_eq(how2[2], name), 'codec', LOAD, 'the file named is opened: %s' % show(how2[2], 100))


WHOLE = {'%c': '%a %b %d %H:%M:%S %Y', '%D': '%m/%d/%y', '%F': '%Y-%m-%d', '%T': '%H:%M:%S', '%x': '%m/%d/%y', '%X': '%H:%M:%S',
         '%r': '%I:%M:%S %p', '%s': '%Y%j%H%M%S', '%R': '%H:%M', '%e': '%d', '%h': '%b', '%G': '%Y', '%k': '%H', '%l': '%I'}


def coarse(name):
    """Why two runs started at different seconds can get the same file name, or
    None.  Judged where the name is made of the formatted time and nothing else
    that differs between runs."""
    if isinstance(name, str):
        return 'every run is archived as %r' % name
    if not isinstance(name, StrV):
        return None
    fmts = []
    for p in name.parts:
        if isinstance(p, str):
            continue
        at = p[1].single() if isinstance(p[1], R) else None
        f = None
        if at is not None and at.op == 'callv' and len(at.args) == 2 and isinstance(at.args[1], str) and 'strftime' in show(at.args[0]) \
                and 'now' in show(at.args[0]):
            f = at.args[1]
        elif at is not None and at.op == 'ext:time.strftime' and at.args and isinstance(at.args[0], str):
            f = at.args[0]
        elif isinstance(p[2], str) and '%' in p[2]:
            f = p[2]
        elif isinstance(p[1], R) and at is not None and at.op == 'sym' and at.name.startswith('in_'):
            continue            # what the run was given may be the same twice
        if f is None:
            return None
        fmts.append(f)
    if not fmts:
        return 'the name depends on the arguments alone'
    f = ''.join(fmts)
    for k, v in WHOLE.items():
        f = f.replace(k, v)
    has = {f[i + 1] for i in range(len(f) - 1) if f[i] == '%'}
    for what, ok in (('year', has & set('Yy')), ('day', 'j' in has or has & set('mbB') and 'd' in has),
                     ('hour', 'H' in has or {'I', 'p'} <= has), ('minute', 'M' in has), ('second', 'S' in has)):
        if not ok:
            return 'its name %s does not tell the %s' % (fmts, what)
    return None


def entries(st, d):
    while isinstance(d, Ref):
        d = st.heap[d.id]
    if isinstance(d, DictC):
        return {k if isinstance(k, str) else show(k): v for k, v in d.items}
    raise Unsupported('%s: archived object is not a dictionary: %s' % (DUMP, show(d, 200)))


PACK = {'bz2.compress': 'bz2', 'gzip.compress': 'gzip', 'lzma.compress': 'lzma', 'zlib.compress': 'zlib'}
UNPACK = {'bz2.decompress': 'bz2', 'gzip.decompress': 'gzip', 'lzma.decompress': 'lzma', 'zlib.decompress': 'zlib'}
SLOTS = {'pickle.dump': ('obj', 'file'), 'pickle.load': ('file',), 'pickle.dumps': ('obj',), 'pickle.loads': ('data',)}


def plainly(t, trace):
    """A pickling event in the form pickle.dump(obj, file), pickle.load(file)."""
    name, args, kw = t.name, list(t.args), dict(t.kwargs)
    if t.kind == 'ext' and name in ('pickle.Pickler.dump', 'pickle.Unpickler.load') and args:
        made = [x for x, cd, l in walk_trace(trace) if x.kind == 'ext' and x.name == name.rsplit('.', 1)[0] and x.result is args[0]]
        if len(made) != 1:
            return t
        file = made[0].args[0] if made[0].args else made[0].kwargs.get('file')
        if file is None:
            return t
        name = 'pickle.' + name.rsplit('.', 1)[1]
        args = args[1:] + ([kw.pop('obj')] if 'obj' in kw else []) + [file]
    elif not (t.kind == 'ext' and name in SLOTS):
        return t
    for n in SLOTS[name][len(args):]:
        if n not in kw:
            break
        args.append(kw.pop(n))
    e = Event(t.kind, name, tuple(args), kw, t.node, t.where, t.result, t.uid)
    e.extra = t.extra
    return e


OPENERS = {'bz2.BZ2File': 'bz2', 'bz2.open': 'bz2', 'gzip.open': 'gzip', 'gzip.GzipFile': 'gzip', 'lzma.open': 'lzma',
           'lzma.LZMAFile': 'lzma', 'builtins.open': 'plain', 'io.open': 'plain'}


def opened(ev, fp):
    for t, cd, l in ev:
        if t.result is fp and t.name in OPENERS:
            args = list(t.args)
            mode = args[1] if len(args) > 1 else t.kwargs.get('mode', 'r')
            return OPENERS[t.name], mode if isinstance(mode, str) else show(mode), args[0] if args else t.kwargs.get('filename', t.kwargs.get('file'))
    return None


RULES = {'C21': C21, 'C22': C22, 'C23': C23}
for _r in RULES.values():
    _r.modes = 1

"""The run log: what is recorded about a run is what the run used and found."""
import os
import re
from fractions import Fraction
from core import *
import lib2
from lib import rank
from values import walk_trace, StrV, ExtObj
from rules_runs import Run, STO, DET
from rules_runs import Filter, FO, filtered
from rules_main import Entry, ON, LOGRUN, PARAMS

LOUD = ('info', 'warning', 'warn', 'error', 'critical', 'exception', 'log')
ACRE = R.const(Fraction(202343, 50))         # square metres in an acre


class Record:
    """One log record: alternating label text and values."""

    def __init__(self, t, conds, loops, text=None):
        self.t, self.conds, self.loops = t, conds, loops
        self.logger, text = t.args[0], t.args[1] if text is None else text
        if len(t.args) > 2:
            raise Unsupported('log record with unexpanded arguments: %s' % show(text, 100))
        self.values, self.labels, self.specs, lab = [], [], [], ''
        for p in ([text] if isinstance(text, str) else text.parts):
            if isinstance(p, str):
                lab += p
                continue
            v = p[1]
            self.values.append(v)
            self.specs.append(p[2])
            self.labels.append(lab)
            lab = ''
        self.tail = lab
        self.text = text

    def label(self, i):
        return re.sub('[^a-z]', '', self.labels[i].lower())

    @property
    def cond(self):
        return b_and(*self.conds)

    def find(self, label):
        return [i for i in range(len(self.values)) if self.label(i) == label]


def expand(parts, conds):
    """Texts with conditional wording, as one alternative per wording."""
    for i, p in enumerate(parts):
        if not isinstance(p, tuple):
            continue
        v = p[1]
        if isinstance(v, str):
            return expand(parts[:i] + (v,) + parts[i + 1:], conds)
        if isinstance(v, StrV):
            return expand(parts[:i] + tuple(v.parts) + parts[i + 1:], conds)
        if isinstance(v, Gamma) and isinstance(v.a, (str, StrV, Gamma)) and isinstance(v.b, (str, StrV, Gamma)):
            out = []
            for x, g in ((v.a, v.cond), (v.b, b_not(v.cond))):
                out += expand(parts[:i] + (('fmt', x) + tuple(p[2:]),) + parts[i + 1:], conds + [g])
            return out
    return [(parts, conds)]


def records(ev):
    out = []
    for t, cd, l in ev:
        if t.kind != 'log':
            continue
        text = t.args[1]
        parts = (text,) if isinstance(text, str) else tuple(text.parts)
        for ps, cs in expand(parts, list(cd)):
            out.append(Record(t, cs, l, StrV(ps)))
    return out


def loggers(c, recs, q, what):
    """Everything is logged under the logger the driver attaches the file to."""
    bad = sorted({str(r.logger) for r in recs if not (r.logger == 'Oneka' or str(r.logger).startswith('Oneka.'))})
    c.require(not bad, 'logger', q, '%s is logged under Oneka (%s)' % (what, bad))
    quiet = [show(r.text, 60) for r in recs if r.t.name not in LOUD and r.t.name != 'debug']
    c.require(not quiet, 'logger', q, '%s is logged at a level (%s)' % (what, quiet))


def defer(c, why):
    """No answer for one entry: raised once the other entries are judged."""
    up = getattr(c, '_up', c)
    up.__dict__.setdefault('pending', []).append(why)


def labelled(c, recs, q, label, want, cond, what, facts=None, text=False):
    """Some loud record labelled so carries the value exactly under cond, and
    none labelled so carries another value."""
    hits = [(r, i) for r in recs for i in r.find(label) if r.t.name in LOUD]
    if not hits:
        for r in recs:
            if r.t.name in LOUD and any(isinstance(v, R) and isinstance(want, R) and r_eq(v, want) for v in r.values):
                return defer(c, '%s: %s is logged without its label: %s' % (q, what, show(r.text, 100)))
    if not c.require(bool(hits), 'recorded', q, 'the log states the %s' % what):
        return
    c.same(b_or(*[r.cond for r, i in hits]), cond, 'recorded', q, 'the log always states the %s' % what, facts)
    for r, i in hits:
        f = facts or Facts()
        for x in r.conds:
            f = f.add(x)
        got = r.values[i]
        if isinstance(want, R) and want.single() is not None and want.single().boolean:
            got = b_atom(got) if isinstance(got, R) else got
            want_ = b_atom(want)
        else:
            want_ = want
        if not isinstance(got, (R, B, bool)):
            defer(c, '%s: %s logged as %s' % (q, what, show(got, 200)))
            continue
        c.same(got, want_, 'recorded', q, 'the %s in the log is the %s of the run' % (what, what), f)
        faithful(c, q, r, i, what)


def faithful(c, q, r, i, what):
    s = r.specs[i]
    c.require(isinstance(s, str) and not s.endswith('%'), 'recorded', q, 'the %s is logged unscaled (%s)' % (what, s))


def listed(c, recs, q, seq, what):
    """Every element of the list appears in a record of its own loop pass, or
    the list appears whole."""
    for r in recs:
        if r.t.name in LOUD and any(isinstance(v, R) and r_eq(v, seq) for v in r.values) and not r.loops:
            return c.require(r.cond is True, 'listed', q, 'the log lists every %s' % what)
    for r in recs:
        if r.t.name not in LOUD or len(r.loops) != 1:
            continue
        k = R.atom(r.loops[0].k)
        whole = any(isinstance(v, R) and r_eq(v, idx(seq, k)) for v in r.values)
        parts = all(any(isinstance(v, R) and r_eq(v, idx(seq, k, num(j))) for v in r.values) for j in range(4))
        if whole or parts:
            c.same(as_r(r.loops[0].n), mk_len(seq), 'listed', q, 'the log lists every %s' % what)
            f = Facts().add(mk_cmp(mk_len(seq) - k, '>'))
            return c.same(r.cond, True, 'listed', q, 'the log lists every %s' % what, f)
    near = [r for r in recs if r.loops and any(isinstance(v, (R, B)) and any(
        a.id == seq.single().id for a in all_atoms(v)) for v in r.values)]
    if near:
        for r in near:
            v = [v for v in r.values if isinstance(v, R) and v.single() is not None and v.single().op == 'idx']
            if v:
                return c.require(False, 'listed', q, 'the log lists every %s as it is: %s' % (what, show(r.text, 200)))
        raise Unsupported('%s: listing of the %ss: %s' % (q, what, show(near[0].text, 200)))
    return c.require(False, 'listed', q, 'the log lists every %s' % what)


def C27(c):
    runlog(c)
    for why in getattr(c, 'pending', ()):
        raise Unsupported(why)


def runlog(c):
    """The run log states every parameter, well and observation, the area and
    probability results, and each realization's own values."""
    placeholders(c)
    sinks(c)
    realization(c.again(), 'stochastic')
    realization(c.again(), 'deterministic')
    e = Entry(c, typed=True)
    if not c.require(e.r.state is not None, 'total', ON, 'a valid run returns'):
        raise Stop()
    loggers(c, records(e.ev), ON, 'the run')
    many = mk_cmp(e.kw['nrealizations'] - num(1), '>')
    start = [x[0].kind for x in e.ev].index('call')     # everything logged before the run starts computing
    head = records(e.ev[:start])
    recs = records(e.ev[start:])
    for n in PARAMS:
        if n in ('stochastic_wells', 'observations'):
            continue
        labelled(c, head, LOGRUN, n.replace('_', ''), e.kw[n], True, n)
    for n, what in (('stochastic_wells', 'well'), ('observations', 'observation')):
        listed(c, head, LOGRUN, e.kw[n], what)
        for r in head:
            for i, v in enumerate(r.values):
                w = re.sub('[^a-z]', '', r.labels[i].lower())
                if w in (n.replace('_', ''), what + 's', 'numberof%ss' % what) and isinstance(v, R) and not r_eq(v, e.kw[n]):
                    c.same(v, mk_len(e.kw[n]), 'counted', LOGRUN, 'the number of %ss in the log is the number of them' % what,
                           Facts().add(r.cond))
    st = [r for r in head if r.find('nrealizations')]
    for word, cond in (('stochastic', many), ('deterministic', b_not(many))):
        c.same(b_or(*[r.cond for r in st if re.sub('[^a-z]', '', r.tail.lower()) == word]), cond, 'kind', LOGRUN,
               'the log calls a run %s exactly when it is' % word)
    # decile table
    rows = [r for r in recs if len(r.values) == 3]
    if any(r.loops for r in rows):
        given = set(all_atoms(e.kw['nrealizations'])) | set(all_atoms(e.pr.single().shape[0]))
        for r in rows:      # as many rows as the input says
            if len(r.loops) == 1 and r.loops[0].n is not None and given & set(all_atoms(as_r(r.loops[0].n))):
                c.same(as_r(r.loops[0].n), num(19), 'deciles', ON, 'the log has one row for each of 5%, 10%, ... 95%',
                       Facts().add(r.cond).add(mk_cmp(as_r(r.loops[0].n), '>')))
        raise Unsupported('%s: decile table not expanded' % ON)
    if c.require(len(rows) == 19, 'deciles', ON, 'the log has one row for each of 5%%, 10%%, ... 95%% (%d rows)' % len(rows)):
        n = e.pr.single().shape[0]
        for i, r in enumerate(rows, 1):
            p = R.const(Fraction(i, 20))
            c.same(r.cond, many, 'deciles', ON, 'the decile rows are logged for stochastic runs')
            k, k2 = (fresh_atom('k', integer=True, nonneg=True) for _ in (0, 1))
            import loops
            first = loops.mk_first(n, k, mk_cmp(p - idx(e.pr, R.atom(k)), '>='))
            free = loops.mk_first(None, k, mk_cmp(p - idx(e.pr, R.atom(k)), '>='))
            count = sumk(n, lambda j: ite(mk_cmp(idx(e.pr, j) - p, '>'), num(1), num(0)))
            f = Facts().add(mk_exists(n, k2, mk_cmp(p - idx(e.pr, R.atom(k2)), '>=')))
            for v, want, what in zip(r.values, (lambda j: idx(e.pr, j), lambda j: idx(e.area, j),
                                                lambda j: idx(e.area, j) / ACRE),
                                     ('probability', 'area', 'area in acres')):
                c.same_any(as_r(v), [want(free), want(count), want(first)], 'deciles', ON,
                           'row %d%% reports the %s of the first curve point not above it' % (5 * i, what), f)
                faithful(c, ON, r, r.values.index(v), what)
    # deterministic area
    few = b_not(many)
    one = [r for r in recs if len(r.values) == 1 and not r.loops and
           any(a.name == 'capture_area' for a in (all_atoms(r.values[0]) if isinstance(r.values[0], R) else []))]
    for unit, want in (('m', e.darea), ('acres', e.darea / ACRE)):
        hit = [r for r in one if re.sub('[^a-z]', '', (r.tail + r.labels[0]).lower().replace('area', '')) in
               (unit, 'capturezone' + unit)]
        if not c.require(bool(hit), 'area', ON, 'the log states the capture zone area in %s' % unit):
            continue
        c.same(b_or(*[r.cond for r in hit]), few, 'area', ON, 'the area is logged for deterministic runs (%s)' % unit)
        for r in hit:
            c.same(as_r(r.values[0]), want, 'area', ON, 'the area logged in %s' % unit, Facts().add(few))


def placeholders(c):
    """A constant log text must not contain a replacement field over names of
    the function it is logged in (a lost f prefix or format call)."""
    import ast
    n = 0
    for name in sorted(n for n in c.I.prog.paths if n.startswith('oneka') or n == 'runme'):
        for fn in [x for x in ast.walk(c.I.prog.tree(name)) if isinstance(x, ast.FunctionDef)]:
            names = {x.arg for x in ast.walk(fn.args) if isinstance(x, ast.arg)}
            names |= {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            for call in [x for x in ast.walk(fn) if isinstance(x, ast.Call)]:
                if not (isinstance(call.func, ast.Attribute) and call.func.attr in LOUD + ('debug',) and len(call.args) == 1):
                    continue
                n += 1
                a = call.args[0]
                if not (isinstance(a, ast.Constant) and isinstance(a.value, str)):
                    continue
                for body in re.findall(r'\{([^{}]+)\}', a.value):
                    e = re.split('[!:]', body)[0]
                    try:
                        used = {x.id for x in ast.walk(ast.parse(e.strip(), mode='eval')) if isinstance(x, ast.Name)}
                    except SyntaxError:
                        continue
                    c.require(not (used and used <= names), 'placeholder', '%s.%s' % (name, fn.name),
                              'a log text shows the placeholder {%s} instead of the value (line %d)' % (body, call.lineno))
    c.require(n > 0, 'placeholder', ON, 'log calls were found')


def sinks(c):
    """Every log call of the package goes to the Oneka logger."""
    import ast
    I = c.I
    n = 0
    for name in sorted(n for n in I.prog.paths if n.split('.')[0] == 'oneka'):
        tree = I.prog.tree(name)
        own = {}                    # local names bound once, to a logger or module
        for fn in [x for x in ast.walk(tree) if isinstance(x, (ast.FunctionDef, ast.Lambda))]:
            for a in [x for x in ast.walk(fn) if isinstance(x, ast.arg)]:
                own.setdefault(a.arg, []).append(None)
            for x in ast.walk(fn):
                if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                    own.setdefault(x.targets[0].id, []).append(x.value)
                if isinstance(x, ast.Import):
                    for a in x.names:
                        own.setdefault(a.asname or a.name.split('.')[0], []).append(ExtV(a.name if a.asname else a.name.split('.')[0]))
                if isinstance(x, ast.ImportFrom) and not x.level:
                    for a in x.names:
                        own.setdefault(a.asname or a.name, []).append(ExtV('%s.%s' % (x.module, a.name)))

        def value(x, depth=0):
            if isinstance(x, ExtV):
                return x
            if isinstance(x, ast.Call) and isinstance(x.func, (ast.Attribute, ast.Name)):
                f = value(x.func, depth)
                if isinstance(f, ExtV) and f.path == 'logging.getLogger' and not x.keywords:
                    a = x.args[0] if x.args else ast.Constant('')
                    a = a.value if isinstance(a, ast.Constant) else name if isinstance(a, ast.Name) and a.id == '__name__' else None
                    if isinstance(a, str) or a is None and x.args and isinstance(x.args[0], ast.Constant):
                        return ExtObj('logging.Logger', ('logger', a or ''), ())
            if isinstance(x, ast.Name) and depth < 4:
                if x.id in own:
                    return value(own[x.id][0], depth + 1) if len(own[x.id]) == 1 and own[x.id][0] is not None else None
                try:
                    return I.get('%s.%s' % (name, x.id))
                except Exception:
                    return None
            if isinstance(x, ast.Attribute):
                b = value(x.value, depth)
                if isinstance(b, ExtV):
                    return ExtV(b.path + '.' + x.attr)
            return None
        for call in [x for x in ast.walk(tree) if isinstance(x, ast.Call)]:
            if not (isinstance(call.func, ast.Attribute) and call.func.attr in LOUD + ('debug',)):
                continue
            b = value(call.func.value)
            if isinstance(b, ExtV) and b.path == 'logging':
                got = ''
            elif isinstance(b, ExtObj) and b.path == 'logging.Logger':
                got = b.uid[1]
            else:
                continue
            n += 1
            c.require(got == 'Oneka' or got.startswith('Oneka.'), 'logger', name,
                      'line %d logs under %r, not under Oneka' % (call.lineno, got or 'root'),
                      '%s:%d' % (os.path.relpath(I.prog.paths[name], c.root), call.lineno))
    c.require(n > 0, 'logger', ON, 'log calls were found')


def realization(c, which):
    run = Run(c, which)
    q, I = run.q, c.I
    recs = records(run.ev)
    loggers(c, recs, q, 'a realization')
    evs, ids = run.model_events()
    if not evs:
        raise Unsupported('%s: no model behind the velocity' % q)
    m = evs[0][0]
    coef = [as_r(I.elem(m.kwargs['coef'], num(i))) for i in range(6)]
    est = [a for s in run.ev if s[0].kind == 'fit' and s[0].name == 'solve' for a in [s[0].args[0].single()]]
    rec = num(-2) * (coef[0] + coef[1])
    K, P, T = (as_r(m.kwargs[k]) for k in ('conductivity', 'porosity', 'thickness'))
    if which == 'deterministic':
        for label, want in [('base', run.base), ('conductivity', K), ('porosity', P), ('recharge', rec)] + list(zip('abcdef', coef)):
            labelled(c, recs, q, label, want, True, {'a': 'coefficient A'}.get(label, label))
        return
    body = [r for r in recs if r.loops and r.loops[0] is run.loops[0] and len(r.loops) == 1]
    table = {'realization': [R.atom(run.loops[0].k), run.base, K, P, T, rec], 'coefrng': coef}
    if len(est) == 1:
        table['coefev'] = [idx(R.atom(est[0]), num(i), num(0)) for i in range(6)]
    f = Facts().add(mk_cmp(as_r(run.loops[0].n) - R.atom(run.loops[0].k), '>'))
    for label, want in table.items():
        hit = [r for r in body if r.values and r.label(0) == label and r.t.name in LOUD]
        if not c.require(bool(hit), 'realization', q, 'every realization logs its %s' % label):
            continue
        c.same(b_or(*[r.cond for r in hit]), True, 'realization', q, 'every realization logs its %s' % label, f)
        for r in hit:
            vals = [as_r(v) for v in flat(I, r.values)]
            if not c.require(len(vals) == len(want), 'realization', q, '%s: %d values are logged, not %d' % (label, len(vals), len(want))):
                continue
            for i, (v, w) in enumerate(zip(vals, want)):
                c.same(v, w, 'realization', q, '%s: value %d is the one the traces used' % (label, i + 1), f)


def flat(I, vals):
    out = []
    for v in vals:
        out += list(v.items) if isinstance(v, (TupleV, VecV)) else [v]
    return out


def words(r):
    return re.sub('[^a-z]', '', (''.join(r.labels) + r.tail).lower())


def C35(c):
    """The filter log tells what became of the observations: each one removed
    with a well it is too close to, each merged one, and the numbered list of
    those retained."""
    if alg.SIZES:
        return few_logged(c)
    I = c.I
    obs, wells, buffer = seqsym('obs', width=4), seqsym('wells', width=4), sym('buffer', pos=True)
    c.fn(FO)
    I.recs.clear()
    try:
        r = c.call(FO, [obs, wells, buffer])
    except Unsupported:
        fl = Filter(c, groups=True)         # the selected observations by name
        r, obs, wells, buffer = fl.r, fl.obs, fl.wells, fl.buffer
    c.plain |= {ce.mu.id for rec in I.recs for t in rec.locs.values() for ce in t.cells if ce.mu is not None}
    if not c.require(r.state is not None and not r.raises, 'total', FO, 'filtering raises nothing: %s' % c.exc_names(r)):
        raise Stop()
    value = I.freeze(r.value, r.state)
    recs = [x for x in records(walk_trace(r.state.trace)) if x.t.name in LOUD]
    loggers(c, recs, FO, 'filtering')
    n = as_r(I.length(value))
    # how many are active, and which
    hits = [x for x in recs if words(x).startswith('activeobservations') and x.values]
    if c.require(bool(hits), 'count', FO, 'the log states how many observations are active'):
        said = [(x, int(m.group(1))) for x in recs if not x.values and not x.loops and words(x).startswith('activeobservations')
                for m in [re.search(r'(\d+)\W*$', ''.join(x.labels) + x.tail)] if m]
        c.same(b_or(*[x.cond for x in hits + [y for y, m in said]]), True, 'count', FO, 'the number of active observations is always stated')
        for x, m in said:
            c.same(num(m), n, 'count', FO, 'the number stated is the number returned', Facts().add(x.cond))
        for x in hits:
            c.same(as_r(x.values[0]), n, 'count', FO, 'the number stated is the number returned',
                   Facts() if x.cond is True or x.loops else Facts().add(x.cond))
            faithful(c, FO, x, 0, 'number of active observations')
    if isinstance(value, Gamma):        # nothing is listed where nothing is returned
        sides = [v for v in (value.a, value.b) if not (isinstance(v, (TupleV, VecV)) and not v.items or isinstance(v, ListV) and not v.parts)]
        value = sides[0] if len(sides) == 1 else value
    rows = []
    for x in recs:
        if len(x.loops) != 1 or not x.values or x.loops[0].n is None:
            continue
        k = R.atom(x.loops[0].k)
        if any(veq(v, I.elem(value, k)) or same_row(I, v, I.elem(value, k)) for v in x.values if isinstance(v, (R, TupleV, VecV))):
            rows.append(x)
    near = [x for x in recs if x.loops and x.values and not x.labels[0].strip(' [(#') and x.loops[0].n is not None]
    if c.require(bool(rows or near), 'listing', FO, 'the log lists the active observations'):
        for x in rows or near:
            k = R.atom(x.loops[0].k)
            f = Facts().add(mk_cmp(n - k, '>'))
            c.same(as_r(x.loops[0].n), n, 'listing', FO, 'every active observation is listed', Facts().add(mk_cmp(n, '>')))
            c.same(x.cond, True, 'listing', FO, 'every active observation is listed', f)
            c.require(x in rows, 'listing', FO, 'each active observation is listed as it is: %s' % show(x.text, 200))
            numbers = [v for v in x.values if isinstance(v, R) and rank(v) in (None, 0) and alg.is_int(v)]
            if c.require(len(numbers) == 1, 'number', FO, 'each active observation is listed with its number'):
                c.same(numbers[0], k, 'number', FO, 'active observations are numbered 0, 1, 2, ... in order')
    # which are removed, and why
    def d2(k, w):
        dx, dy = idx(obs, k, num(0)) - idx(wells, w, num(0)), idx(obs, k, num(1)) - idx(wells, w, num(1))
        return mk_cmp(buffer * buffer - dx * dx - dy * dy, '>=')

    def first_near(k):
        import loops
        kk = fresh_atom('k', integer=True, nonneg=True)
        return loops.mk_first(mk_len(wells), kk, d2(k, R.atom(kk)))
    out = [x for x in recs if 'removed' in words(x)]
    if c.require(bool(out), 'removed', FO, 'the log tells which observations are removed'):
        for x in out:
            if not 1 <= len(x.loops) <= 2 or x.loops[0].n is None:
                raise Unsupported('%s: removed observations are logged as %s' % (FO, show(x.text, 200)))
            k = R.atom(x.loops[0].k)
            f = Facts().add(mk_cmp(mk_len(obs) - k, '>'))
            c.same(as_r(x.loops[0].n), mk_len(obs), 'removed', FO, 'every observation is considered')
            if len(x.loops) == 2:       # logged where the first well that is too close is found
                w = x.loops[1]
                W, v = R.atom(w.k), fresh_atom('k', integer=True, nonneg=True)
                gone = existsk(mk_len(wells), lambda w: d2(k, w))
                stop, _ = alg.resolve(as_r(w.n), f.add(gone))
                if r_eq(stop, first_near(k) + num(1)):      # the search ends there
                    f = f.add(mk_cmp(stop - W, '>')).add(gone)
                    c.same(x.cond, d2(k, W), 'removed', FO,
                           'an observation is reported removed iff some well is within the buffer distance', f)
                else:
                    c.same(as_r(w.n), mk_len(wells), 'removed', FO, 'every well is considered')
                    f = f.add(mk_cmp(mk_len(wells) - W, '>'))
                    earlier = mk_exists(W, v, d2(k, R.atom(v)))
                    c.same(x.cond, b_and(d2(k, W), b_not(earlier)), 'removed', FO,
                           'an observation is reported removed once, iff some well is within the buffer distance', f)
                who = W
            else:
                gone = existsk(mk_len(wells), lambda w: d2(k, w))
                c.same(b_or(*[y.cond for y in out if y.loops[0].k is x.loops[0].k]), gone, 'removed', FO,
                       'an observation is reported removed iff some well is within the buffer distance', f)
                f = f.add(gone)
                who = first_near(k)
            for y in x.conds:
                f = f.add(y)
            for i in (0, 1):
                c.same(part(I, x.values[0], i, f), idx(obs, k, num(i)), 'removed', FO,
                       'the observation reported removed is the one examined', f)
                if len(x.values) > 1:
                    c.same(part(I, x.values[1], i, f), idx(wells, who, num(i)), 'why', FO,
                           'the well named is one within the buffer distance', f)
    # which are merged
    made = [x for x in recs if 'created' in words(x) and x.values]
    if c.require(bool(made), 'merged', FO, 'the log tells which observations are averaged'):
        cells = [ce for rec in I.recs for t in rec.locs.values() for ce in t.cells if ce.kind == 'list' and ce.mu is not None]
        out = [ce.f for ce in cells if isinstance(value, R) and value.single() is not None and ce.mu.id == value.single().id]
        added = [p for f in out if isinstance(f, ListV) and f.parts[0][0] == 'sym' for p in f.parts[1:]]
        for x in made:
            v = x.values[0]
            if not added or any(p[0] != 'item' for p in added) or not isinstance(v, (TupleV, VecV, R, Gamma)):
                continue            # not logged where they are retained: not compared
            for p in added:
                if b_and(x.cond, p[1]) is False:
                    continue
                f = Facts().add(p[1])
                for y in x.conds:
                    f = f.add(y)
                for i in range(4):
                    c.same(I.elem(v, num(i)), I.elem(p[2], num(i)), 'merged', FO,
                           'the average reported is the one retained', f)


def few_logged(c):
    """The same for a handful of observations and every pattern of distances."""
    from rules_runs import patterns
    I = c.I
    for p in patterns(c, True, True):
        recs = [x for x in records(walk_trace(p.r.state.trace)) if x.t.name in LOUD]
        loggers(c, recs, FO, 'filtering')
        if any(x.loops or alg.decide(x.cond, p.facts) is None for x in recs) or any(cd is not True for cd, _ in p.items):
            raise Unsupported('%s: log of %d observations' % (FO, p.n))
        recs = [x for x in recs if alg.decide(x.cond, p.facts) is not False]
        rows = [I.freeze(x, p.r.state) for _, x in p.items]

        def about(x, s, k):
            row = TupleV([idx(s, num(k), num(j)) for j in range(4)])
            return any(isinstance(v, (R, TupleV, VecV)) and same_row(I, v, row) for v in x.values)
        heads = [k for k, x in enumerate(recs) if words(x).startswith('activeobservations')]
        if not c.require(bool(heads), 'count', FO, 'the log states how many observations are active'):
            return
        for k in heads:
            x = recs[k]
            m = re.search(r'(\d+)\W*$', ''.join(x.labels) + x.tail)
            said = as_r(x.values[0]) if x.values else num(int(m.group(1))) if m else None
            if said is None:
                raise Unsupported('%s: number of active observations: %s' % (FO, show(x.text, 100)))
            c.same(said, num(len(rows)), 'count', FO, 'the number stated is the number returned, ' + p.what)
        listed = []
        for x in recs[heads[-1] + 1:]:
            for v in x.values:
                if lib2.row_items(v) is not None:
                    nums = [int(y.value()) for y in x.values if isinstance(y, R) and y.is_const()]
                    nums += [int(y) for y in re.findall(r'\d+', ''.join(x.labels) + x.tail)] if not nums else []
                    listed.append((nums, v))
        ok = len(listed) == len(rows) and all(same_row(I, v, w) for (_, v), w in zip(listed, rows))
        c.require(ok, 'listing', FO, 'exactly the active observations are listed as they are, ' + p.what)
        if ok:
            c.require(all(k in nums for k, (nums, _) in enumerate(listed)), 'number', FO,
                      'active observations are numbered 0, 1, 2, ... in order, ' + p.what)
        out = [x for x in recs if 'removed' in words(x)]
        for i in range(p.n):
            ws = [w for w in range(p.m) if p.near.get((i, w))]
            mine = [x for x in out if about(x, p.obs, i)]
            c.require(bool(mine) == bool(ws), 'removed', FO,
                      'an observation is reported removed iff some well is within the buffer distance, ' + p.what)
            for x in mine:
                named = [w for w in range(p.m) if about(x, p.wells, w)]
                c.require(not named or named[0] in ws, 'why', FO, 'the well named is one within the buffer distance, ' + p.what)
        made = [x for x in recs if 'created' in words(x) and x.values]
        want = [w for w, g in zip(rows, p.groups) if len(g) > 1] if len(rows) == len(p.groups) else None
        if want is not None and len(made) == len(want):
            c.require(all(same_row(I, x.values[0], w) for x, w in zip(made, want)), 'merged', FO,
                      'the average reported is the one retained, ' + p.what)
        elif want is not None:
            c.require(bool(made) or not want, 'merged', FO, 'the log tells which observations are averaged')
        if c.viol:
            return


def part(I, v, i, f):
    """Coordinate i of a row that may depend on a condition known in f."""
    while isinstance(v, Gamma):
        t = alg.decide(v.cond, f)
        if t is not True and t is not False:
            raise Unsupported('%s: the row logged depends on %s' % (FO, show(v.cond, 200)))
        v = v.a if t else v.b
    if v is None:
        return None
    return I.elem(v, num(i))


def same_row(I, v, w):
    try:
        return all(veq(I.elem(v, num(i)), I.elem(w, num(i))) for i in range(4))
    except Exception:
        return False


RULES = {'C27': C27, 'C35': C35}
C27.modes = 1

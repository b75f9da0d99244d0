"""check.py PROPERTY [quick|thorough]: decide one property on /repo's current
source.  Exit 0 held, 1 violated, 2 no answer."""
import json
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
VERIF = os.path.dirname(HERE)


class Late(BaseException):
    pass


SIZES = ({'*': 1}, {'*': 2}, {'*': 3})
SIZED = {p: SIZES for p in ('C01', 'C02', 'C04', 'C05', 'C16', 'C17')}     # rules about sequences of any length
SIZED['C19'] = SIZED['C35'] = SIZES[:2]
SIZED['C25'] = SIZES[1:2]
SIZED['C20'] = SIZES
DEADLINE = 400                  # seconds for one attempt at a rule


def all_rules():
    import importlib
    out = {}
    for f in sorted(os.listdir(HERE)):
        if f.startswith('rules_') and f.endswith('.py'):
            out.update(importlib.import_module(f[:-3]).RULES)
    return out


def attempt_here(rule, prop, root, inline, tier, overlay=None, sizes=None):
    import alg
    import core
    from interp import Anchor, PyDead
    if sizes is not None:
        alg.SIZES.update(sizes)
        alg.EXPAND[0] = True
    c = core.Ctx(prop, root, inline, tier, overlay)
    err = None
    del alg.UNORDERED[:]

    def late(*_):
        raise Late('analysis deadline of %d s passed' % DEADLINE)
    old = signal.signal(signal.SIGALRM, late)
    signal.alarm(DEADLINE)
    try:
        try:
            rule(c)
        finally:
            import rules_misc
            if prop in rules_misc.HISTORY:
                rules_misc.histories(c, prop)
        if alg.UNORDERED and not c.viol:
            err = 'Unsupported: %s: order of a set' % alg.UNORDERED[0]
    except core.Stop:
        if not c.viol:
            err = 'rule stopped without a verdict'
    except (alg.Unsupported, Anchor, PyDead, RecursionError) as e:
        err = '%s: %s' % (type(e).__name__, e)
        if os.environ.get('SA_TRACE'):
            traceback.print_exc()
    except Late as e:
        err = str(e)
    except Exception as e:          # an engine bug is no answer, never a verdict
        err = 'internal %s: %s' % (type(e).__name__, e)
        if os.environ.get('SA_TRACE'):
            traceback.print_exc()
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return c, err


class Result:
    """What an attempt leaves: the book-keeping of its Ctx, without the analysis."""


def attempt(rule, prop, root, inline, tier, overlay=None, sizes=None):
    """One attempt in a process of its own: no attempt sees the symbols, caches
    or switches another left behind."""
    import pickle
    if os.environ.get('SA_NOFORK'):
        return attempt_here(rule, prop, root, inline, tier, overlay, sizes)
    sys.stdout.flush()
    sys.stderr.flush()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                c, err = attempt_here(rule, prop, root, inline, tier, overlay, sizes)
                out = {k: getattr(c, k, None) for k in ('n', 'ok', 'cases', 'viol', 'rules', 'units', 'note')}
                st = c.I.stats if c.I else {}
                out['stats'] = {k: len(v) if hasattr(v, '__len__') else v for k, v in st.items()}
                out['err'] = err
                data = pickle.dumps(out)
            except Exception as e:
                data = pickle.dumps(dict(n=0, ok=0, cases=0, viol=[], rules={}, units=[], note=None, stats={},
                                         err='internal %s: %s' % (type(e).__name__, e)))
            with os.fdopen(w, 'wb') as f:
                f.write(data)
            sys.stdout.flush()
            sys.stderr.flush()
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    try:
        out = pickle.loads(data)
    except Exception:
        out = dict(n=0, ok=0, cases=0, viol=[], rules={}, units=[], note=None, stats={},
                   err='the analysis process ended without a result')
    c = Result()
    err = out.pop('err')
    c.__dict__.update(out)
    return c, err


def decide(prop, root='/repo', tier='quick', overlay=None):
    """decide_own plus the parts of the statement other properties' rules decide.
    A part that those rules cannot settle is left to that property's own check
    (and named in the evidence)."""
    from compose import PARTS
    st, c, err, n = decide_own(prop, root, tier, overlay)
    if st != 'held' or os.environ.get('SA_OWN'):
        return st, c, err, n
    parts = {}
    for other, rules in PARTS.get(prop, ()):
        s2, c2, err2, n2 = decide_own(other, root, tier, overlay)
        take = [v for v in c2.viol if rules is None or v[0] in rules]
        cnt = sum(k for r, k in c2.rules.items() if rules is None or r in rules)
        parts[other] = '%s (%d obligations)' % ('undecided here: %s' % err2 if s2 == 'unknown' else 'violated' if take else 'held', cnt)
        if s2 == 'violated' and take:
            c.viol += take
            st = 'violated'
        c.n += cnt
        c.ok += cnt - len(take) if s2 != 'unknown' else 0
        c.units += [u for u in c2.units if u not in c.units]
    if parts:
        c.note = dict(getattr(c, 'note', None) or {}, parts=parts)
    return st, c, err, n


def thresholds(root, overlay, units, top):
    """Whole numbers above top that the analysed code compares with, slices by
    or counts to: behaviour may change beyond them."""
    import ast
    from interp import Program
    prog = Program(root, overlay)
    found = set()
    for m in sorted({u.rsplit('.', k)[0] for u in units for k in (1, 2)} & set(prog.paths)):
        tree = (overlay or {}).get(m) or ast.parse(open(prog.paths[m]).read())
        for x in ast.walk(tree):
            if isinstance(x, ast.Compare):
                part = [x.left] + x.comparators
            elif isinstance(x, ast.Slice):
                part = [x.lower, x.upper, x.step]
            elif isinstance(x, ast.BinOp) and isinstance(x.op, (ast.Mod, ast.FloorDiv)):
                part = [x.right]
            elif isinstance(x, ast.Call) and getattr(x.func, 'attr', getattr(x.func, 'id', '')) in ('range', 'min', 'max', 'minimum', 'islice', 'clip'):
                part = x.args
            elif isinstance(x, ast.Assign) and x in tree.body:
                part = [x.value]
            else:
                continue
            for p in part:
                for y in ast.walk(p) if p is not None else ():
                    if isinstance(y, ast.Constant) and type(y.value) is int and y.value > top:
                        found.add(y.value)
    return found


def short(rule, prop, root, inline, tier, overlay):
    """No answer for sequences of every length: the property is decided for
    short ones, and the evidence says so."""
    done = []
    last = None
    for sizes in SIZED.get(prop, ()):
        c, err = attempt(rule, prop, root, inline, tier, overlay, sizes)
        if os.environ.get('SA_TRACE'):
            print('sizes', sizes, c.viol, err)
        if c.viol:
            return 'violated', c, err
        if err is None and c.n:
            done.append(sizes['*'])
            last = c
    if len(done) < len(SIZED.get(prop, (0,))) or thresholds(root, overlay, last.units, max(done)):
        return None, None, None
    last.note = dict(getattr(last, 'note', None) or {}, bounded='decided for input sequences of length %s only' % (
        ' and '.join(map(str, done))))
    return 'held', last, None


def decide_own(prop, root='/repo', tier='quick', overlay=None):
    """-> (status, ctx, error, attempts)"""
    rule = all_rules()[prop]
    if os.environ.get('SA_INLINE'):     # development aid: the second mode alone
        c, err = attempt(rule, prop, root, True, tier, overlay)
        return ('violated' if c.viol else 'unknown' if err else 'held'), c, err, 1
    c, err = attempt(rule, prop, root, False, tier, overlay)
    if err is None and not c.viol:
        return 'held', c, None, 1
    modes = getattr(rule, 'modes', 2)
    if modes < 2:
        if not c.viol:
            st, c3, err3 = short(rule, prop, root, False, tier, overlay)
            if st is not None:
                return st, c3, err3, 2
        return ('violated' if c.viol else 'unknown'), c, err, 1
    # calls summarised modularly did not settle it: look through them
    c2, err2 = attempt(rule, prop, root, True, tier, overlay)
    if err2 is None and not c2.viol:
        return 'held', c2, None, 2
    if c2.viol:
        return 'violated', c2, err2, 2
    if c.viol:
        return 'violated', c, err, 2
    st, c3, err3 = short(rule, prop, root, True, tier, overlay)
    if st is not None:
        return st, c3, err3, 3
    return 'unknown', c2, err or err2, 2


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    root = os.environ.get('SA_ROOT', '/repo')
    t0 = time.time()
    status, c, err, n = decide(prop, root, tier)
    known = load_known()
    viol, kf = split(prop, c, known)
    kf_lines = sorted({'KNOWN-FINDING: property=%s %s (%s)' % (prop, v[3], known[(prop, '%s %s' % (v[0], v[1]))]) for v in kf})
    for l in kf_lines:
        print(l)
    if status == 'violated' and not viol:
        status = 'held'
        if err is not None:
            status = 'unknown'
    print('%s: %d obligations over %s; %d discharged; %d sign cases; functions: %s' % (
        prop, c.n, ', '.join('%s=%d' % kv for kv in sorted(c.rules.items())), c.ok, c.cases,
        ', '.join(c.units)))
    extra = {}
    if tier == 'thorough' and status == 'held':
        try:
            import sensitivity
        except ImportError:
            sensitivity = None
        if sensitivity:
            extra = sensitivity.run(prop, root, c.units, budget=600)
            print('%s: sensitivity: %s' % (prop, extra.get('summary')))
    wall = time.time() - t0
    if status == 'held' and c.n == 0:
        status, err = 'unknown', 'no obligation was generated'
    write_evidence(prop, tier, root, status, c, err, n, wall, len(viol), kf_lines, extra)
    if status == 'violated':
        rp = os.path.join(VERIF, 'evidence', '%s.violation.txt' % prop)
        with open(rp, 'w') as f:
            for rule, con, where, msg in viol:
                f.write('%s %s in %s: rule %s: %s\n' % (prop, where, con, rule, msg))
        for rule, con, where, msg in viol:
            print('  %s in %s: rule %s: %s' % (where, con, rule, msg[:1500]))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    if status == 'unknown':
        print('NO ANSWER property=%s: %s' % (prop, err))
        return 2
    return 0


def split(prop, c, known):
    """(violations to report, listed findings)"""
    viol, kf = [], []
    for v in c.viol:
        (kf if (prop, '%s %s' % (v[0], v[1])) in known else viol).append(v)
    return viol, kf


def load_known():
    """findings.json: entries that are recorded, not repaired."""
    p = os.path.join(VERIF, 'known-findings.txt')
    out = {}
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: '):
                # known: property=C28 rule=<rule> construct=<construct> : text
                head, text = l[7:].split(' : ', 1)
                d = dict(x.split('=', 1) for x in head.split())
                out[(d['property'], '%s %s' % (d['rule'], d['construct']))] = text
    return out


def write_evidence(prop, tier, root, status, c, err, n, wall, nv, kf, extra):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    st = c.stats if hasattr(c, 'stats') else {k: len(v) if hasattr(v, '__len__') else v for k, v in c.I.stats.items()}
    cov = {
        'explanation': 'Static decision: the functions below were read from the current source and abstractly '
                       'interpreted (gated value graph, loop recurrences in closed form, polyhedral sign facts); '
                       'every obligation compares the resulting value, condition or effect with the required one '
                       'for all inputs at once. Nothing of the analysed program was executed.',
        'obligations': c.n, 'discharged': c.ok, 'sign_cases': c.cases,
        'rules': c.rules, 'functions_under_rule': c.units,
        'functions_interpreted': st.get('functions', 0), 'calls_interpreted': st.get('calls', 0),
        'loops_summarised': st.get('loops', 0), 'attempts': n, 'status': status,
        'known_findings': kf,
    }
    if err:
        cov['error'] = err
    cov.update(getattr(c, 'note', None) or {})
    cov.update(extra)
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'other',
          'coverage': cov, 'wall_s': round(wall, 3), 'violations': nv,
          'assumptions': ['numbers are exact reals; rounding is out of scope',
                          'library calls behave as documented (numpy, logging, matplotlib, pickle)']}
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')


if __name__ == '__main__':
    sys.exit(main())

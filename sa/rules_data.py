"""C30: the driver runs what the data module says; shipped data sets are valid."""
import ast
import math
import os
from core import *
from values import walk_trace, ObjC, ExtObj
from rules_main import ON, PARAMS, thread

MAIN = 'runme.main'
NAME = {p: p.upper() for p in PARAMS if p != 'runtime'}
NAME['stochastic_wells'] = 'WELLS'


# -- constants -------------------------------------------------------------------
class NotConst(Exception):
    pass


OPS = {ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b, ast.Div: lambda a, b: a / b,
       ast.FloorDiv: lambda a, b: a // b, ast.Pow: lambda a, b: a ** b, ast.Mod: lambda a, b: a % b}


def const(e, env):
    if isinstance(e, ast.Constant):
        return e.value
    if isinstance(e, ast.Name):
        if e.id in env:
            return env[e.id]
        raise NotConst('name %s' % e.id)
    if isinstance(e, (ast.Tuple, ast.List)):
        out = []
        for x in e.elts:
            out += list(const(x.value, env)) if isinstance(x, ast.Starred) else [const(x, env)]
        return tuple(out) if isinstance(e, ast.Tuple) else out
    if isinstance(e, ast.Dict):
        return {const(k, env): const(v, env) for k, v in zip(e.keys, e.values)}
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, (ast.USub, ast.UAdd, ast.Not)):
        v = const(e.operand, env)
        return -v if isinstance(e.op, ast.USub) else +v if isinstance(e.op, ast.UAdd) else not v
    if isinstance(e, ast.BinOp) and type(e.op) in OPS:
        a, b = const(e.left, env), const(e.right, env)
        try:
            return OPS[type(e.op)](a, b)
        except (TypeError, ArithmeticError) as x:
            raise NotConst(str(x))
    if isinstance(e, ast.Subscript):
        try:
            return const(e.value, env)[const(e.slice, env)]
        except (TypeError, LookupError) as x:
            raise NotConst(str(x))
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('list', 'tuple', 'float', 'int', 'str', 'bool', 'sorted') \
            and len(e.args) <= 1 and not e.keywords:
        f = dict(list=list, tuple=tuple, float=float, int=int, str=str, bool=bool, sorted=sorted)[e.func.id]
        return f(*[const(a, env) for a in e.args])
    if isinstance(e, (ast.ListComp, ast.GeneratorExp)) and len(e.generators) == 1:
        g, out = e.generators[0], []
        for x in const(g.iter, env):
            loc = dict(env)
            bind(g.target, x, loc)
            if all(const(i, loc) for i in g.ifs):
                out.append(const(e.elt, loc))
        return out
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        a, b = const(e.left, env), const(e.comparators[0], env)
        f = {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b,
             ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b}.get(type(e.ops[0]))
        if f:
            return f()
    raise NotConst(ast.unparse(e)[:60])


def bind(t, v, env):
    if isinstance(t, ast.Name):
        env[t.id] = v
    elif isinstance(t, (ast.Tuple, ast.List)) and not any(isinstance(x, ast.Starred) for x in t.elts) and len(t.elts) == len(v):
        for x, y in zip(t.elts, v):
            bind(x, y, env)
    else:
        raise NotConst('assignment to %s' % ast.unparse(t))


def module_values(tree, prog):
    """Constants a data module defines: name -> (value, line)."""
    env, line = {}, {}
    for st in tree.body:
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
            continue
        if isinstance(st, ast.Assign):
            v = const(st.value, env)
            for t in st.targets:
                bind(t, v, env)
                for n in ast.walk(t):
                    if isinstance(n, ast.Name):
                        line[n.id] = st.lineno
        elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
            if st.value is not None:
                env[st.target.id] = const(st.value, env)
                line[st.target.id] = st.lineno
        elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name) and type(st.op) in OPS:
            env[st.target.id] = OPS[type(st.op)](const(st.target, env), const(st.value, env))
        elif isinstance(st, ast.ImportFrom) and st.module in prog.paths:
            e2, l2 = module_values(prog.tree(st.module), prog)
            for a in st.names:
                if a.name == '*':
                    env.update(e2)
                    line.update({k: st.lineno for k in e2})
                elif a.name in e2:
                    env[a.asname or a.name] = e2[a.name]
                    line[a.asname or a.name] = st.lineno
                else:
                    raise NotConst('import of %s' % a.name)
        elif isinstance(st, (ast.Import, ast.ImportFrom)) or isinstance(st, ast.Pass):
            continue
        else:
            raise NotConst('statement at line %d' % st.lineno)
    return env, line


def isnum(x):
    return isinstance(x, (int, float)) and x == x


def isdist(d, lo, hi):
    if isinstance(d, (int, float)):
        return lo <= d <= hi
    return isinstance(d, (tuple, list)) and len(d) in (2, 3) and all(isnum(x) for x in d) \
        and all(a <= b for a, b in zip((lo,) + tuple(d), tuple(d) + (hi,)))


INFTY = float('inf')
DOMAIN = {
    'PROJECTNAME': lambda v, e: isinstance(v, str),
    'TARGET': lambda v, e: isinstance(v, int) and 0 <= v < len(e['WELLS']),
    'NPATHS': lambda v, e: isinstance(v, int) and 0 < v,
    'DURATION': lambda v, e: isnum(v) and v != 0,
    'NREALIZATIONS': lambda v, e: isinstance(v, int) and v >= 1,
    'BASE': lambda v, e: isnum(v),
    'C_DIST': lambda v, e: isdist(v, 0, INFTY), 'P_DIST': lambda v, e: isdist(v, 0, 1), 'T_DIST': lambda v, e: isdist(v, 0, INFTY),
    'WELLS': lambda v, e: isinstance(v, list) and len(v) >= 1 and all(
        isinstance(w, (tuple, list)) and len(w) == 4 and all(isnum(x) for x in w[:3]) and w[2] > 0 and isdist(w[3], -INFTY, INFTY) for w in v),
    'OBSERVATIONS': lambda v, e: isinstance(v, list) and len(v) > 6 and all(
        isinstance(o, (tuple, list)) and len(o) == 4 and all(isnum(x) for x in o) and o[3] > 0 for o in v),
    'BUFFER': lambda v, e: isnum(v) and v > 0, 'SPACING': lambda v, e: isnum(v) and v > 0, 'UMBRA': lambda v, e: isnum(v) and v > 0,
    'SMOOTH': lambda v, e: isnum(v) and v >= 0, 'CONFINED': lambda v, e: isinstance(v, bool),
    'TOL': lambda v, e: isnum(v) and v > 0, 'MAXSTEP': lambda v, e: isnum(v) and v > 0,
}


def dataset(c, m):
    p = c.I.prog.paths[m]
    rel = os.path.relpath(p, c.root)
    try:
        env, line = module_values(c.I.prog.tree(m), c.I.prog)
    except NotConst as x:
        raise Unsupported('%s: not a constant table: %s' % (m, x))
    missing = sorted(set(NAME.values()) - set(env))
    c.require(not missing, 'data', m, 'the data set defines %s' % ', '.join(missing), rel)
    if missing:
        return
    good = True
    for n, ok in DOMAIN.items():
        try:
            r = ok(env[n], env)
        except (TypeError, IndexError, KeyError):
            r = False
        good &= bool(r)
        c.require(r, 'data', m, '%s is inside the documented domain: %s' % (n, str(env[n])[:80]), '%s:%d' % (rel, line.get(n, 1)))
    if not good:
        return
    obs, wells = env['OBSERVATIONS'], env['WELLS']
    kept = [o for o in obs if all(math.hypot(o[0] - w[0], o[1] - w[1]) > env['BUFFER'] for w in wells)]
    left, n = list(kept), 0
    while left:
        first, n = left[0], n + 1
        left = [o for o in left[1:] if not math.hypot(first[0] - o[0], first[1] - o[1]) < 1.0]
    c.require(n > 6, 'data', m, 'seven observations or more are retained (%d)' % n, '%s:%d' % (rel, line['OBSERVATIONS']))
    low = [o for o in kept if not o[2] > env['BASE']]
    c.require(not low, 'data', m, 'the retained levels are above the base: %s' % low[:2], '%s:%d' % (rel, line['OBSERVATIONS']))


def C30(c):
    I = c.I
    ms = sorted(m for m in I.prog.paths if m.startswith('data.'))
    if not ms:
        raise Anchor('no shipped data sets')
    for m in ms:
        dataset(c, m)
    driver(c)


LEVELS = {'DEBUG': 10, 'INFO': 20, 'WARNING': 30, 'WARN': 30, 'ERROR': 40, 'CRITICAL': 50, 'FATAL': 50, 'NOTSET': 0}


def level(v):
    if isinstance(v, ExtV) and v.path.startswith('logging.'):
        return LEVELS.get(v.path[8:])
    if isinstance(v, str):
        return LEVELS.get(v)
    if isinstance(v, R) and v.is_const():
        return int(v.value()) if hasattr(v, 'value') else None
    return None


def driver(c):
    I = c.I
    I.load('runme')
    c.fn(MAIN)
    c.opaque(ON, None, ON)
    st = I.start()
    vals = {n: sym('module_' + n) for n in NAME.values()}
    mod = I.new_ref(st, ObjC(None, dict(vals)))
    I.module_stub = mod
    name = sym('module_name')
    try:
        r = c.call(MAIN, [name], st=st)
    finally:
        I.module_stub = None
    if not c.require(r.state is not None and not r.raises, 'driver', MAIN, 'a run of a data module comes through (%s)' % c.exc_names(r)):
        return
    ev = list(walk_trace(r.state.trace))
    imp = [e for e, cd, l in ev if e.name == 'importlib.import_module']
    c.require(len(imp) == 1 and veq(imp[0].args[0], name), 'driver', MAIN, 'the data module asked for is the one loaded')
    calls = [(k, e, cd, l) for k, (e, cd, l) in enumerate(ev) if e.kind == 'call' and e.name == ON]
    if not c.require(len(calls) == 1 and not calls[0][2] and not calls[0][3], 'driver', MAIN, 'oneka() is run exactly once'):
        return
    k, e, _, _ = calls[0]
    a = e.extra['frozen']
    for p, n in sorted(NAME.items()):
        if p not in a:
            raise Unsupported('oneka() has no parameter %s' % p)
        thread(c, a[p], vals[n], MAIN, 'parameter %s is the %s of the data module' % (p, n))
    before = [e for e, cd, l in ev[:k] if not cd and not l]
    every = [e for e, cd, l in ev[:k]]
    # what the handlers need to see the run's own messages
    hs = [e for e in before if e.kind == 'logconf' and e.name == 'addHandler' and e.args and e.args[0] in ('Oneka', '', 'root', None)
          and 'FileHandler' in show(e.args[1])]
    basic = [e for e in before if e.name == 'logging.basicConfig' and ('filename' in e.kwargs or 'handlers' in e.kwargs)]
    c.require(bool(hs or basic), 'run-log', MAIN, 'a log file handler is attached to the Oneka logger before the run')
    sets = [level(e.args[-1]) for e in every if e.kind == 'logconf' and e.name == 'setLevel' and e.args and e.args[0] == 'Oneka']
    root = [level(e.args[-1]) for e in every if e.kind == 'logconf' and e.name == 'setLevel' and e.args and e.args[0] in ('', 'root', None)]
    root += [level(e.kwargs['level']) for e in every if e.name == 'logging.basicConfig' and 'level' in e.kwargs]
    if any(x is None for x in sets + root):
        raise Unsupported('%s: log level' % MAIN)
    eff = sets[-1] if sets else root[-1] if root else 30
    c.require(eff <= 20, 'run-log', MAIN, 'the Oneka logger passes its INFO messages (level %s)' % eff)
    own = [level(e.args[-1]) for e in every if e.name.endswith('FileHandler.setLevel')]
    if any(x is None for x in own):
        raise Unsupported('%s: handler level' % MAIN)
    c.require(not own or own[-1] <= 20, 'run-log', MAIN, 'the log file takes INFO messages')


RULES = {'C30': C30}
C30.modes = 1

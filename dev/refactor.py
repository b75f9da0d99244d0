"""dev/refactor.py [T...]: behaviour-preserving rewrites of every module, one
kind at a time; every check must stay quiet.  Failures are narrowed to a module
and function.  `dump T DIR` writes the rewritten sources instead."""
import ast, copy, os, re, sys, time
from multiprocessing import Pool
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'sa'))
sys.setrecursionlimit(20000)
ROOT = os.environ.get('RF_ROOT', '/repo')
MODS = ['runme.py'] + sorted('oneka/' + f for f in os.listdir(ROOT + '/oneka') if f.endswith('.py'))
SRC = {m: open(ROOT + '/' + m).read() for m in MODS}
FN = (ast.FunctionDef,)
name = lambda s, ctx=None: ast.Name(id=s, ctx=ctx or ast.Load())
store = lambda s: ast.Name(id=s, ctx=ast.Store())
_n = [0]


def new(p='tmp'):
    _n[0] += 1
    return '%s_%d' % (p, _n[0])


def blocks(fn):
    """All statement lists of a function, nested definitions excluded."""
    out = []

    def go(n):
        for f, v in ast.iter_fields(n):
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                out.append(v)
                for s in v:
                    if not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                        go(s)
            elif isinstance(v, list):
                for s in v:
                    if isinstance(s, (ast.ExceptHandler,)) or type(s).__name__ == 'match_case':
                        go(s)
    go(fn)
    return out


def rename(fn, mod):
    params = {a.arg for n in ast.walk(fn) if isinstance(n, ast.arguments)
              for a in n.args + n.kwonlyargs + n.posonlyargs + [x for x in (n.vararg, n.kwarg) if x]}
    bad = {x for n in ast.walk(fn) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
    st = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - params - bad
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and n.id in st:
            n.id = 'v_' + n.id


def swap_if(fn, mod):
    for n in ast.walk(fn):
        if isinstance(n, ast.If) and n.orelse:
            n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body
        elif isinstance(n, ast.IfExp):
            n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body


def load(t):
    t = copy.deepcopy(t)
    for n in ast.walk(t):
        if hasattr(n, 'ctx'):
            n.ctx = ast.Load()
    return t


class Aug(ast.NodeTransformer):
    def visit_AugAssign(self, n):
        return ast.Assign([n.target], ast.BinOp(load(n.target), n.op, n.value))


def aug(fn, mod):
    Aug().visit(fn)


class Flip(ast.NodeTransformer):
    M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.M:
            return ast.Compare(n.comparators[0], [self.M[type(n.ops[0])]()], [n.left])
        return n


def flip(fn, mod):
    Flip().visit(fn)


class Neg(ast.NodeTransformer):
    M = {ast.Lt: ast.GtE, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.GtE: ast.Lt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in (ast.Eq, ast.NotEq):
            return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [self.M[type(n.ops[0])]()], n.comparators))
        return n


def neg(fn, mod):
    for n in ast.walk(fn):
        if isinstance(n, (ast.If, ast.While, ast.IfExp, ast.Assert)):
            n.test = Neg().visit(n.test)


def demorgan(fn, mod):
    def dm(t):
        if isinstance(t, ast.BoolOp):
            op = ast.Or() if isinstance(t.op, ast.And) else ast.And()
            return ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), dm(v)) for v in t.values]))
        return t
    for n in ast.walk(fn):
        if isinstance(n, (ast.If, ast.While, ast.IfExp, ast.Assert)):
            n.test = dm(n.test)


class Chain(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) > 1 and all(isinstance(c, (ast.Name, ast.Constant)) for c in n.comparators[:-1]):
            xs = [n.left] + n.comparators
            return ast.BoolOp(ast.And(), [ast.Compare(load(xs[i]), [n.ops[i]], [xs[i + 1]]) for i in range(len(n.ops))])
        return n


def chain(fn, mod):
    Chain().visit(fn)


def ret_tmp(fn, mod):
    for b in blocks(fn):
        for i in range(len(b))[::-1]:
            if isinstance(b[i], ast.Return) and b[i].value is not None:
                t = new('result')
                b[i:i + 1] = [ast.Assign([store(t)], b[i].value), ast.Return(name(t))]


def hoist_args(fn, mod):
    for b in blocks(fn):
        for i in range(len(b))[::-1]:
            s = b[i]
            if isinstance(s, (ast.Assign, ast.Expr)) and isinstance(s.value, ast.Call):
                c = s.value
                f = c.func
                while isinstance(f, ast.Attribute):
                    f = f.value
                if not isinstance(f, ast.Name) or any(isinstance(a, ast.Starred) for a in c.args) or any(k.arg is None for k in c.keywords):
                    continue
                pre = []
                for j, a in enumerate(c.args):
                    if not isinstance(a, (ast.Constant, ast.Name, ast.JoinedStr)):
                        t = new('arg')
                        pre.append(ast.Assign([store(t)], a))
                        c.args[j] = name(t)
                for k in c.keywords:
                    if not isinstance(k.value, (ast.Constant, ast.Name)):
                        t = new('arg')
                        pre.append(ast.Assign([store(t)], k.value))
                        k.value = name(t)
                b[i:i] = pre


def hoist_ops(fn, mod):
    """Operands of the outermost arithmetic of an assignment."""
    for b in blocks(fn):
        for i in range(len(b))[::-1]:
            s = b[i]
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.BinOp):
                pre = []
                for f in ('left', 'right'):
                    v = getattr(s.value, f)
                    if isinstance(v, (ast.BinOp, ast.Call)):
                        t = new('term')
                        pre.append(ast.Assign([store(t)], v))
                        setattr(s.value, f, name(t))
                b[i:i] = pre


def for_while(fn, mod):
    for b in blocks(fn):
        for i in range(len(b))[::-1]:
            s = b[i]
            if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == 'range' \
                    and len(s.iter.args) == 1 and isinstance(s.target, ast.Name) and not s.orelse and not any(
                        isinstance(x, ast.Continue) for x in ast.walk(s)):
                n, k = new('n'), new('k')
                b[i:i + 1] = [ast.Assign([store(n)], s.iter.args[0]), ast.Assign([store(k)], ast.Constant(0)),
                              ast.While(ast.Compare(name(k), [ast.Lt()], [name(n)]),
                                        [ast.Assign([s.target], name(k))] + s.body + [ast.AugAssign(store(k), ast.Add(), ast.Constant(1))], [])]


def for_index(fn, mod):
    """for x in seq -> for k in range(len(seq)): x = seq[k]   (names and attributes)"""
    for b in blocks(fn):
        for s in b:
            if isinstance(s, ast.For) and isinstance(s.iter, (ast.Name, ast.Attribute)):
                k = new('k')
                t, it = s.target, s.iter
                s.target = store(k)
                s.iter = ast.Call(name('range'), [ast.Call(name('len'), [load(it)], [])], [])
                s.body.insert(0, ast.Assign([t], ast.Subscript(load(it), name(k), ast.Load())))


def for_enum(fn, mod):
    for b in blocks(fn):
        for s in b:
            if isinstance(s, ast.For) and not (isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id in ('zip', 'enumerate')):
                s.target = ast.Tuple([store(new('k')), s.target], ast.Store())
                s.iter = ast.Call(name('enumerate'), [s.iter], [])


def sigs():
    out = {}
    for m, s in SRC.items():
        for n in ast.walk(ast.parse(s)):
            if isinstance(n, ast.ClassDef):
                for f in n.body:
                    if isinstance(f, ast.FunctionDef):
                        st = any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in f.decorator_list)
                        ps = [a.arg for a in f.args.args]
                        out[('m', f.name)] = ps if st else ps[1:]
                        if f.name == '__init__':
                            out[('f', n.name)] = ps[1:]
            elif isinstance(n, ast.Module):
                for f in n.body:
                    if isinstance(f, ast.FunctionDef):
                        out[('f', f.name)] = [a.arg for a in f.args.args]
                        out[('m', f.name)] = [a.arg for a in f.args.args]
    return out


def kwargs(fn, mod):
    S = sigs()
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and not any(isinstance(a, ast.Starred) for a in n.args):
            f = n.func
            key = ('f', f.id) if isinstance(f, ast.Name) else ('m', f.attr) if isinstance(f, ast.Attribute) else None
            ps = S.get(key)
            if ps and len(n.args) <= len(ps) and not (isinstance(f, ast.Attribute) and f.attr in ('load', 'save', 'reset')):
                n.keywords = [ast.keyword(p, a) for p, a in zip(ps, n.args)] + n.keywords
                n.args = []


def comp_loop(fn, mod):
    for b in blocks(fn):
        for i in range(len(b))[::-1]:
            s = b[i]
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1:
                g = s.value.generators[0]
                vs = {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
                t = new('acc')
                for n in ast.walk(s.value):
                    if isinstance(n, ast.Name) and n.id in vs:
                        n.id = 'q_' + n.id
                body = ast.Expr(ast.Call(ast.Attribute(name(t), 'append', ast.Load()), [s.value.elt], []))
                for c in g.ifs[::-1]:
                    body = ast.If(c, [body], [])
                b[i:i + 1] = [ast.Assign([store(t)], ast.List([], ast.Load())), ast.For(g.target, g.iter, [body], []),
                              ast.Assign(s.targets, name(t))]


def loop_comp(fn, mod):
    for b in blocks(fn):
        i = 0
        while i + 1 < len(b):
            s, l = b[i], b[i + 1]
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.List) and not s.value.elts and isinstance(l, ast.For) and len(l.body) == 1 \
                    and isinstance(l.body[0], ast.Expr) and isinstance(l.body[0].value, ast.Call) and isinstance(l.body[0].value.func, ast.Attribute) \
                    and l.body[0].value.func.attr == 'append' and ast.unparse(l.body[0].value.func.value) == ast.unparse(s.targets[0]):
                b[i:i + 2] = [ast.Assign(s.targets, ast.ListComp(l.body[0].value.args[0], [ast.comprehension(l.target, l.iter, [], 0)]))]
            i += 1


def names(n, ctx):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ctx)}


def pure(e):
    return not any(isinstance(x, (ast.Call, ast.Yield, ast.Await, ast.NamedExpr)) for x in ast.walk(e))


def tuples(fn, mod):
    for b in blocks(fn):
        i = 0
        while i + 1 < len(b):
            s, t = b[i], b[i + 1]
            if all(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) for x in (s, t)) \
                    and s.targets[0].id not in names(t, ast.Load) and s.targets[0].id != t.targets[0].id:
                b[i:i + 2] = [ast.Assign([ast.Tuple([s.targets[0], t.targets[0]], ast.Store())], ast.Tuple([s.value, t.value], ast.Load()))]
            i += 1


def reorder(fn, mod):
    for b in blocks(fn):
        i = 0
        while i + 1 < len(b):
            s, t = b[i], b[i + 1]
            if all(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and pure(x.value) for x in (s, t)) \
                    and s.targets[0].id not in names(t, ast.Load) and t.targets[0].id not in names(s, ast.Load) and s.targets[0].id != t.targets[0].id:
                b[i], b[i + 1] = t, s
                i += 1
            i += 1


def ends(b):
    return bool(b) and (isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)) or
                        isinstance(b[-1], ast.If) and ends(b[-1].body) and ends(b[-1].orelse))


def flatten(fn, mod):
    for _ in range(5):
        for b in blocks(fn):
            for i in range(len(b))[::-1]:
                s = b[i]
                if isinstance(s, ast.If) and s.orelse and ends(s.body):
                    b[i + 1:i + 1] = s.orelse
                    s.orelse = []


def nest(fn, mod):
    for b in blocks(fn):
        for i in range(len(b)):
            s = b[i]
            if isinstance(s, ast.If) and not s.orelse and ends(s.body) and b[i + 1:]:
                s.orelse = b[i + 1:]
                del b[i + 1:]
                break


def while_true(fn, mod):
    for n in ast.walk(fn):
        if isinstance(n, ast.While) and not (isinstance(n.test, ast.Constant)) and not n.orelse:
            n.body.insert(0, ast.If(ast.UnaryOp(ast.Not(), n.test), [ast.Break()], []))
            n.test = ast.Constant(True)


def squares(fn, mod):
    class T(ast.NodeTransformer):
        def visit_BinOp(self, n):
            self.generic_visit(n)
            if isinstance(n.op, ast.Pow) and isinstance(n.left, ast.Name) and isinstance(n.right, ast.Constant) and n.right.value == 2:
                return ast.BinOp(n.left, ast.Mult(), load(n.left))
            if isinstance(n.op, ast.Mult) and isinstance(n.left, ast.Name) and isinstance(n.right, ast.Name) and n.left.id == n.right.id:
                return ast.BinOp(n.left, ast.Pow(), ast.Constant(2))
            return n
    T().visit(fn)


def commute(fn, mod):
    """a*b -> b*a for names, attributes and subscripts; a + b -> b + a for products."""
    class T(ast.NodeTransformer):
        def visit_BinOp(self, n):
            self.generic_visit(n)
            ok = (ast.Name, ast.Attribute, ast.Subscript, ast.Constant)
            num = lambda e: not (isinstance(e, ast.Constant) and isinstance(e.value, str))
            if isinstance(n.op, ast.Mult) and isinstance(n.left, ok) and isinstance(n.right, ok) and num(n.left) and num(n.right):
                return ast.BinOp(n.right, n.op, n.left)
            if isinstance(n.op, ast.Add) and all(isinstance(x, ast.BinOp) and isinstance(x.op, (ast.Mult, ast.Div, ast.Pow)) for x in (n.left, n.right)):
                return ast.BinOp(n.right, n.op, n.left)
            return n
    T().visit(fn)


def alias_self(fn, mod):
    if not fn.args.args or fn.args.args[0].arg != 'self' or fn.decorator_list:
        return
    st = {n.attr for n in ast.walk(fn) if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del))}
    ld = {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self':
            ld.setdefault(n.attr, []).append(n)
    called = {n.func.attr for n in ast.walk(fn) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)}
    if called & {x[1] for x in sigs() if x[0] == 'm'} or st:
        return
    use = [a for a in ld if a not in called]

    class T(ast.NodeTransformer):
        def visit_Attribute(self, n):
            self.generic_visit(n)
            if isinstance(n.value, ast.Name) and n.value.id == 'self' and n.attr in use and isinstance(n.ctx, ast.Load):
                return name('s_' + n.attr)
            return n
    T().visit(fn)
    k = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
    fn.body[k:k] = [ast.Assign([store('s_' + a)], ast.Attribute(name('self'), a, ast.Load())) for a in use]


def helper_expr(fn, mod):
    """The right side of arithmetic assignments in a function of its own."""
    if any(isinstance(g, ast.FunctionDef) and g is not fn and any(x is fn for x in ast.walk(g)) for g in ast.walk(mod)):
        return
    loc = {a.arg for a in ast.walk(fn) if isinstance(a, ast.arg)} | names(fn, ast.Store)
    for b in blocks(fn):
        for s in b:
            if isinstance(s, ast.Assign) and isinstance(s.value, (ast.BinOp, ast.Call, ast.IfExp)) and not any(
                    isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp, ast.NamedExpr)) for x in ast.walk(s.value)):
                used = sorted(names(s.value, ast.Load) & loc)
                if not used:
                    continue
                h = new('_helper')
                mod.body.append(ast.FunctionDef(h, ast.arguments([], [ast.arg(a) for a in used], None, [], [], None, []),
                                                [ast.Return(s.value)], []))
                s.value = ast.Call(name(h), [name(a) for a in used], [])


def helper_cond(fn, mod):
    if any(isinstance(g, ast.FunctionDef) and g is not fn and any(x is fn for x in ast.walk(g)) for g in ast.walk(mod)):
        return
    loc = {a.arg for a in ast.walk(fn) if isinstance(a, ast.arg)} | names(fn, ast.Store)
    for b in blocks(fn):
        for s in b:
            if isinstance(s, ast.If) and not any(isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.NamedExpr)) for x in ast.walk(s.test)):
                used = sorted(names(s.test, ast.Load) & loc)
                if used:
                    h = new('_is')
                    mod.body.append(ast.FunctionDef(h, ast.arguments([], [ast.arg(a) for a in used], None, [], [], None, []),
                                                    [ast.Return(s.test)], []))
                    s.test = ast.Call(name(h), [name(a) for a in used], [])


def impl(fn, mod):
    """f(...) delegates to _f_impl(...)"""
    if fn.decorator_list or fn.name.startswith('__') or fn.args.vararg or fn.args.kwarg or fn.args.kwonlyargs:
        return
    owner = [c for c in ast.walk(mod) if isinstance(c, (ast.ClassDef, ast.Module)) and fn in c.body]
    if not owner:
        return
    g = copy.deepcopy(fn)
    g.name = '_%s_impl' % fn.name
    ps = [a.arg for a in fn.args.args]
    cls = isinstance(owner[0], ast.ClassDef)
    f = ast.Attribute(name('self'), g.name, ast.Load()) if cls else name(g.name)
    call = ast.Call(f, [name(p) for p in (ps[1:] if cls else ps)], [])
    fn.body = fn.body[:1] if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else []
    fn.body.append(ast.Return(call))
    owner[0].body.insert(owner[0].body.index(fn) + 1, g)


def loop_helper(fn, mod):
    """for/while-free: the body of each for loop whose stores stay inside it moves to a nested function."""
    for b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.For) and not any(isinstance(x, (ast.Continue, ast.Break, ast.Return, ast.Yield)) for x in ast.walk(s)):
                st = set().union(*[names(x, ast.Store) for x in s.body])
                tg = names(s.target, ast.Store)
                inside = {id(x) for y in s.body for x in ast.walk(y)}
                outer = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and id(x) not in inside}
                if st & (outer - tg) or any(isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) for x in ast.walk(s)):
                    continue
                h = new('_each')
                fd = ast.FunctionDef(h, ast.arguments([], [ast.arg(a) for a in sorted(tg)], None, [], [], None, []), s.body, [])
                s.body = [ast.Expr(ast.Call(name(h), [name(a) for a in sorted(tg)], []))]
                b.insert(i, fd)
                return


def consts(fn, mod):
    class T(ast.NodeTransformer):
        def visit_JoinedStr(self, n):
            return n

        def visit_FunctionDef(self, n):
            n.body = [self.visit(x) for x in n.body]
            return n

        def visit_Constant(self, n):
            if isinstance(n.value, float):
                c = '_CONST_%d' % (_n[0] + 1)
                _n[0] += 1
                new_consts.append(ast.Assign([store(c)], n))
                return name(c)
            return n
    new_consts = []
    T().visit(fn)
    k = max([i for i, s in enumerate(mod.body) if isinstance(s, (ast.Import, ast.ImportFrom))], default=-1) + 1
    mod.body[k:k] = new_consts


def fstrings(fn, mod):
    class T(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Attribute) and n.func.attr == 'format' and isinstance(n.func.value, ast.Constant) and not n.keywords \
                    and isinstance(n.func.value.value, str):
                import string
                parts, auto = [], 0
                for lit, fld, spec, conv in string.Formatter().parse(n.func.value.value):
                    if lit:
                        parts.append(ast.Constant(lit))
                    if fld is None:
                        continue
                    if fld == '':
                        fld, auto = str(auto), auto + 1
                    m = re.fullmatch(r'(\d+)((?:\[\d+\]|\.\w+)*)', fld)
                    if not m or conv or '{' in (spec or ''):
                        return n
                    if int(m[1]) >= len(n.args):
                        return n
                    e = copy.deepcopy(n.args[int(m[1])])
                    for q in re.findall(r'\[(\d+)\]|\.(\w+)', m[2]):
                        e = ast.Subscript(e, ast.Constant(int(q[0])), ast.Load()) if q[0] else ast.Attribute(e, q[1], ast.Load())
                    parts.append(ast.FormattedValue(e, -1, ast.JoinedStr([ast.Constant(spec)]) if spec else None))
                return ast.JoinedStr(parts)
            return n
    T().visit(fn)


def dup_assert(fn, mod):
    """Statements that do nothing."""
    k = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
    fn.body.insert(k, ast.Assign([store('unused')], ast.Constant(0)))
    for b in blocks(fn):
        b.append(ast.Pass())


def with_try(fn, mod):
    """for loops: sequence evaluated before."""
    for b in blocks(fn):
        for i in range(len(b))[::-1]:
            s = b[i]
            if isinstance(s, ast.For):
                t = new('items')
                b.insert(i, ast.Assign([store(t)], s.iter))
                s.iter = name(t)


def cond_tmp(fn, mod):
    for b in blocks(fn):
        for i in range(len(b))[::-1]:
            s = b[i]
            if isinstance(s, ast.If):
                t = new('flag')
                b.insert(i, ast.Assign([store(t)], s.test))
                s.test = name(t)


def ifexp(fn, mod):
    """if c: x = a else: x = b  ->  x = a if c else b"""
    for b in blocks(fn):
        for i in range(len(b)):
            s = b[i]
            if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and all(isinstance(x, ast.Assign) for x in s.body + s.orelse) \
                    and ast.unparse(s.body[0].targets) == ast.unparse(s.orelse[0].targets) if isinstance(s, ast.If) and s.body and s.orelse and isinstance(s.body[0], ast.Assign) and isinstance(s.orelse[0], ast.Assign) else False:
                b[i] = ast.Assign(s.body[0].targets, ast.IfExp(s.test, s.body[0].value, s.orelse[0].value))


def unifexp(fn, mod):
    for b in blocks(fn):
        for i in range(len(b)):
            s = b[i]
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp):
                b[i] = ast.If(s.value.test, [ast.Assign(s.targets, s.value.body)], [ast.Assign(copy.deepcopy(s.targets), s.value.orelse)])


def split_and(fn, mod):
    """if a and b: ... (no else)  ->  nested ifs"""
    for n in list(ast.walk(fn)):
        if isinstance(n, ast.If) and not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
            rest = n.test.values[1:]
            n.test, n.body = n.test.values[0], [ast.If(rest[0] if len(rest) == 1 else ast.BoolOp(ast.And(), rest), n.body, [])]


def index_unpack(fn, mod):
    """x, y, z = row  ->  x = row[0] ..."""
    for b in blocks(fn):
        for i in range(len(b))[::-1]:
            s = b[i]
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Tuple) and not isinstance(s.value, (ast.Tuple, ast.Call)) \
                    and not any(isinstance(x, ast.Starred) for x in s.targets[0].elts):
                b[i:i + 1] = [ast.Assign([e], ast.Subscript(load(s.value), ast.Constant(j), ast.Load())) for j, e in enumerate(s.targets[0].elts)]


def call_unpack(fn, mod):
    """x, y = f()  ->  r = f(); x = r[0]; y = r[1]"""
    for b in blocks(fn):
        for i in range(len(b))[::-1]:
            s = b[i]
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Call):
                t = new('pair')
                b[i:i + 1] = [ast.Assign([store(t)], s.value)] + [
                    ast.Assign([e], ast.Subscript(name(t), ast.Constant(j), ast.Load())) for j, e in enumerate(s.targets[0].elts)]


TS = dict(rename=rename, swap_if=swap_if, aug=aug, flip=flip, neg=neg, demorgan=demorgan, chain=chain, ret_tmp=ret_tmp, hoist_args=hoist_args,
          hoist_ops=hoist_ops, for_while=for_while, for_index=for_index, for_enum=for_enum, kwargs=kwargs, comp_loop=comp_loop,
          loop_comp=loop_comp, tuples=tuples, reorder=reorder, flatten=flatten, nest=nest, while_true=while_true, squares=squares,
          commute=commute, alias_self=alias_self, helper_expr=helper_expr, helper_cond=helper_cond, impl=impl, loop_helper=loop_helper,
          consts=consts, fstrings=fstrings, noop=dup_assert, iter_tmp=with_try, cond_tmp=cond_tmp, ifexp=ifexp, unifexp=unifexp,
          split_and=split_and, index_unpack=index_unpack, call_unpack=call_unpack)


def functions(t):
    return [n for n in ast.walk(t) if isinstance(n, ast.FunctionDef)]


def transform(T, mods=None, fns=None, start=0):
    """-> {rel: tree} of the modules that changed"""
    out = {}
    _n[0] = 0
    if '+' in T:
        out = {m: SRC[m] for m in MODS}
        save = dict(SRC)
        try:
            for one in T.split('+'):
                n0 = _n[0]
                out = transform(one, mods, fns, n0)
                SRC.update(out)
            return {m: SRC[m] for m in MODS if SRC[m] != save[m]}
        finally:
            SRC.update(save)
    _n[0] = start
    for m in MODS:
        if mods is not None and m not in mods:
            continue
        t = ast.parse(SRC[m])
        done = set()
        for f in functions(t):
            if id(f) in done or (fns is not None and f.name not in fns):
                continue
            done.add(id(f))
            TS[T](f, t)
        ast.fix_missing_locations(t)
        s = ast.unparse(t)
        if s != ast.unparse(ast.parse(SRC[m])):
            out[m] = s
    return out


def job(a):
    T, mods, fns, p = a
    import check
    src = transform(T, mods, fns)
    if not src:
        return a, 'held', ''
    ov = {r[:-3].replace('/', '.'): ast.parse(x) for r, x in src.items()}
    t = time.time()
    st, c, e, n = check.decide(p, overlay=ov)
    c.viol = check.split(p, c, check.load_known())[0]
    st = 'held' if st == 'violated' and not c.viol else st
    return a, st, (e or '')[:300] + (' | '.join('%s %s' % (v[0], v[3][:250]) for v in c.viol[:2])) + ' %.1fs' % (time.time() - t)


def main():
    if sys.argv[1:2] == ['dump']:
        T, d = sys.argv[2:4]
        for r, s in transform(T).items():
            open(os.path.join(d, r), 'w').write(s)
        return
    import check
    props = sorted(check.all_rules())
    ts = [a for a in sys.argv[1:] if all(x in TS for x in a.split('+'))] or list(TS)
    for a in sys.argv[1:]:
        if a.startswith('pairs='):          # pairs=N:SEED random combinations
            import random
            n, seed = a[6:].split(':')
            rnd = random.Random(int(seed))
            ts = ['+'.join(rnd.sample(list(TS), rnd.choice((2, 2, 3)))) for _ in range(int(n))]
    props = [a for a in sys.argv[1:] if a in props] or props
    with Pool(8, maxtasksperchild=4) as pool:
        bad = []
        for a, st, e in pool.imap_unordered(job, [(T, None, None, p) for T in ts for p in props], chunksize=1):
            if st != 'held':
                bad.append(a)
                print('ALL', a[0], a[3], st, e[:200], flush=True)
        # narrow
        jobs = [(T, (m,), None, p) for T, _, _, p in bad for m in MODS]
        bad2 = [a for a, st, e in pool.imap_unordered(job, jobs, chunksize=1) if st != 'held']
        jobs = [(T, m, (f.name,), p) for T, m, _, p in bad2 for f in functions(ast.parse(SRC[m[0]]))]
        for a, st, e in pool.imap_unordered(job, jobs, chunksize=1):
            if st != 'held':
                print('FN ', a[0], a[1][0], a[2][0], a[3], st, e, flush=True)


if __name__ == '__main__':
    main()

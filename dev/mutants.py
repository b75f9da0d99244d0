"""Small faults in every function, and which checks report them.

python3-vt dev/mutants.py [module...] [n=COUNT] [seed=S]: prints the mutants no
check reports (development aid: each is then judged by hand, and a check is
strengthened where the mutant breaks a property)."""
import ast
import copy
import os
import random
import sys
import time
from multiprocessing import Pool
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, '..', 'sa'))
sys.setrecursionlimit(20000)
ROOT = '/repo/oneka'
MODS = [f[:-3] for f in sorted(os.listdir(ROOT)) if f.endswith('.py')]
SRC = {m: open(os.path.join(ROOT, m + '.py')).read() for m in MODS}
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE],
       ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.Pow: [ast.Mult], ast.MatMult: [],
       ast.FloorDiv: [ast.Div], ast.Mod: [ast.FloorDiv]}


def docs(t):
    out = set()
    for n in ast.walk(t):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(
                n.body[0].value, ast.Constant):
            out.add(id(n.body[0]))
            out.add(id(n.body[0].value))
    return out


def sites(t):
    """-> list of (description, line, mutate()) acting on t in place, undo by re-copying"""
    skip = docs(t)
    out = []

    def add(d, n, f):
        out.append((d, getattr(n, 'lineno', 0), f))
    funcs = [n for n in ast.walk(t) if isinstance(n, ast.FunctionDef)]
    owner = {}
    for f in funcs:
        for n in ast.walk(f):
            owner[id(n)] = f
    for n in ast.walk(t):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare):
            for i, o in enumerate(n.ops):
                for w in CMP.get(type(o), []):
                    add('%s -> %s' % (type(o).__name__, w.__name__), n, lambda n=n, i=i, w=w: n.ops.__setitem__(i, w()))
        elif isinstance(n, ast.BinOp):
            for w in BIN.get(type(n.op), []):
                add('%s -> %s' % (type(n.op).__name__, w.__name__), n, lambda n=n, w=w: setattr(n, 'op', w()))
            if isinstance(n.op, (ast.Sub, ast.Div, ast.MatMult)):
                def sw(n=n):
                    n.left, n.right = n.right, n.left
                add('swap operands', n, sw)
        elif isinstance(n, ast.AugAssign):
            for w in BIN.get(type(n.op), []):
                add('aug %s' % w.__name__, n, lambda n=n, w=w: setattr(n, 'op', w()))
        elif isinstance(n, ast.BoolOp):
            add('and/or', n, lambda n=n: setattr(n, 'op', ast.Or() if isinstance(n.op, ast.And) else ast.And()))
            for i in range(len(n.values)):
                if len(n.values) > 1:
                    add('drop condition %d' % i, n, lambda n=n, i=i: n.values.pop(i))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add('drop not', n, lambda n=n: (setattr(n, 'operand', ast.UnaryOp(ast.Not(), n.operand))))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            add('drop minus', n, lambda n=n: setattr(n, 'op', ast.UAdd()))
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                add('bool', n, lambda n=n: setattr(n, 'value', not n.value))
            elif isinstance(n.value, int):
                add('%d+1' % n.value, n, lambda n=n: setattr(n, 'value', n.value + 1))
                if n.value > 0:
                    add('%d-1' % n.value, n, lambda n=n: setattr(n, 'value', n.value - 1))
            elif isinstance(n.value, float):
                add('%g*1.5' % n.value, n, lambda n=n: setattr(n, 'value', n.value * 1.5 + (n.value == 0)))
            elif isinstance(n.value, str) and len(n.value) < 30:
                add('str %r' % n.value, n, lambda n=n: setattr(n, 'value', n.value + 'q'))
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            add('cond True', n, lambda n=n: setattr(n, 'test', ast.Constant(True))) if not isinstance(n, ast.While) else None
            add('cond False', n, lambda n=n: setattr(n, 'test', ast.Constant(False)))
        elif isinstance(n, ast.Call):
            for i in range(len(n.args) - 1):
                def sa(n=n, i=i):
                    n.args[i], n.args[i + 1] = n.args[i + 1], n.args[i]
                add('swap args %d' % i, n, sa)
            for i in range(len(n.keywords)):
                add('drop keyword %s' % n.keywords[i].arg, n, lambda n=n, i=i: n.keywords.pop(i))
            if len(n.args) == 1 and not n.keywords and id(n) in owner:
                add('drop call', n, ('repl', n, n.args[0]))
        elif isinstance(n, ast.Break):
            add('break->continue', n, ('repl', n, ast.Continue()))
        elif isinstance(n, ast.Continue):
            add('continue->break', n, ('repl', n, ast.Break()))
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and id(n) in owner:
            f = owner[id(n)]
            loc = sorted({x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} |
                         {a.arg for a in f.args.args} - {'self'})
            if n.id in loc and len(loc) > 1:
                w = loc[(loc.index(n.id) + 1) % len(loc)]
                add('%s -> %s' % (n.id, w), n, lambda n=n, w=w: setattr(n, 'id', w))
                w2 = loc[loc.index(n.id) - 1]
                if w2 != w:
                    add('%s -> %s' % (n.id, w2), n, lambda n=n, w2=w2: setattr(n, 'id', w2))
        for fld in ('body', 'orelse', 'finalbody'):
            b = getattr(n, fld, None)
            if isinstance(b, list) and id(n) in owner:
                for i, s in enumerate(b):
                    if id(s) in skip:
                        continue
                    if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Assert, ast.Return, ast.If, ast.For, ast.While)):
                        add('delete %s' % ast.unparse(s).split('\n')[0][:60], s, lambda b=b, i=i: b.__setitem__(i, ast.Pass()))
                    if i + 1 < len(b) and isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign)) and isinstance(
                            b[i + 1], (ast.Expr, ast.Assign, ast.AugAssign)):
                        def sb(b=b, i=i):
                            b[i], b[i + 1] = b[i + 1], b[i]
                        add('swap statements', s, sb)
    return out


class Repl(ast.NodeTransformer):
    def __init__(self, old, nw):
        self.old, self.nw = old, nw

    def visit(self, n):
        if n is self.old:
            return self.nw
        return self.generic_visit(n)


def mutate(m, k):
    t = ast.parse(SRC[m])
    d, line, f = sites(t)[k]
    if isinstance(f, tuple):
        t = Repl(f[1], f[2]).visit(t)
    else:
        f()
    ast.fix_missing_locations(t)
    return d, line, ast.unparse(t)


def passes(m, s):
    """The package with module m replaced passes its tests (in a scratch copy)."""
    import shutil, subprocess
    d = '/tmp/mt/%d' % os.getpid()
    if not os.path.exists(d):
        shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git'))
    f = d + '/oneka/' + m + '.py'
    open(f, 'w').write(s)
    try:
        r = subprocess.run(['/opt/venv/bin/python', '-W', 'ignore', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'],
                           cwd=d, capture_output=True, timeout=40).returncode
    except subprocess.TimeoutExpired:
        r = 99
    open(f, 'w').write(SRC[m])
    return r == 0


def job(a):
    m, k, props = a
    import check
    d, line, s = mutate(m, k)
    hit, unk = [], []
    try:
        tree = ast.parse(s)
        compile(s, 'x', 'exec')
    except SyntaxError:
        return m, k, d, line, ['syntax'], []
    if ast.dump(tree) == ast.dump(ast.parse(SRC[m])):
        return m, k, d, line, ['same'], []
    if not passes(m, s):
        return m, k, d, line, ['tests'], []
    for p in props:
        st, c, e, n = check.decide(p, overlay={'oneka.' + m: tree})
        v = check.split(p, c, check.load_known())[0]
        if st == 'violated' and v:
            hit.append(p)
            break
        if st == 'unknown':
            unk.append(p)
            if len(unk) > 3:
                break
    return m, k, d, line, hit, unk


def main():
    import check
    os.environ['SA_OWN'] = '1'
    mods = [a for a in sys.argv[1:] if a in MODS] or MODS
    opt = dict(a.split('=') for a in sys.argv[1:] if '=' in a)
    rnd = random.Random(int(opt.get('seed', 1)))
    jobs = []
    props = sorted(check.all_rules())
    for m in mods:
        ks = list(range(len(sites(ast.parse(SRC[m])))))
        rnd.shuffle(ks)
        jobs += [(m, k) for k in ks]
    rnd.shuffle(jobs)
    if 'from' in opt:
        import re
        rows = [re.match(r'(SURVIVED|UNKNOWN) (\w+):\d+ #(\d+) (.*)', l) for l in open(opt['from'])]
        jobs = sorted({(r.group(2), int(r.group(3))) for r in rows if r and not r.group(4).startswith('swap statements')})
    jobs = jobs[:int(opt.get('n', 10 ** 9))]
    print(len(jobs), 'mutants', flush=True)
    tot = [0, 0, 0]
    t0 = time.time()
    order = {'model': 'C03 C02 C04 C05 C06 C07', 'probabilityfield': 'C09 C10 C11 C08 C12', 'capturezone': 'C14 C13 C12 C15',
             'utilities': 'C20 C21 C19', 'oneka': 'C22 C28 C29 C30 C31 C18', 'visualize': 'C23 C24 C25', 'stochastic': 'C16 C17 C18 C26 C27',
             'deterministic': 'C16 C15 C26 C27', 'confined': 'C03'}

    def ps(m):
        first = [p for p in order.get(m, '').split() if p in props]
        return first + [p for p in props if p not in first]
    with Pool(8) as pool:
        for m, k, d, line, hit, unk in pool.imap_unordered(job, [(m, k, ps(m)) for m, k in jobs], chunksize=1):
            tot[0 if hit else 1 if unk else 2] += 1
            if not hit:
                print('%s %s:%d #%d %s | %s %s' % ('UNKNOWN' if unk else 'SURVIVED', m, line, k, d,
                      SRC[m].split('\n')[line - 1].strip()[:90], ' '.join(unk)), flush=True)
    import shutil
    shutil.rmtree('/tmp/mt', ignore_errors=True)
    print('caught %d, unknown %d, survived %d, %.0f s' % (*tot, time.time() - t0))


if __name__ == '__main__':
    main()

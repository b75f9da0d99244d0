"""Name, attribute, signature and format resolution over the whole source.

Every reference is judged where it stands, whatever path leads to it: the names
of every scope, the attributes of modules, classes and instances, the
parameters of the functions called, the fields of the texts formatted.  What
cannot be typed from the source is not judged."""
import ast
import builtins
import json
import os
import re
import string
import subprocess

PY = '/opt/venv/bin/python'
PLAIN = ('staticmethod', 'classmethod', 'property', 'functools.lru_cache', 'functools.cache', 'contextlib.contextmanager',
         'functools.cached_property')
DOCUMENTED = ('Model', 'ProbabilityField')         # the classes docstrings give as parameter types
MODATTR = {'__name__', '__file__', '__doc__', '__package__', '__spec__', '__path__', '__builtins__', '__loader__', '__dict__',
           '__annotations__', '__cached__'}

ORACLE = r'''
import sys, json, importlib, importlib.util, inspect, warnings
warnings.simplefilter('ignore')
import os
os.environ['MPLBACKEND'] = 'Agg'
q = json.load(sys.stdin)
out = {}
def find(path):
    parts = path.split('.')
    for n in range(len(parts), 0, -1):
        try:
            o = importlib.import_module('.'.join(parts[:n]))
        except ImportError:
            continue
        except Exception:
            return 'unknown', None
        for p in parts[n:]:
            try:
                o = getattr(o, p)
            except AttributeError:
                if inspect.ismodule(o) or inspect.isclass(o) or inspect.isroutine(o):
                    return 'missing', None
                return 'unknown', None
            except Exception:
                return 'unknown', None
        return 'found', o
    return 'missing', None
for path in q['paths']:
    s, o = find(path)
    kind = None
    if s == 'found':
        kind = ('exception' if inspect.isclass(o) and issubclass(o, BaseException) else 'class' if inspect.isclass(o)
                else 'module' if inspect.ismodule(o) else 'other')
    out[path] = [s, kind]
calls = []
for path, n, kw in q['calls']:
    s, o = find(path)
    ok = None
    if s == 'found':
        try:
            sig = inspect.signature(o)
        except (TypeError, ValueError):
            sig = None
        if sig is not None:
            try:
                sig.bind(*[None] * n, **{k: None for k in kw})
            except TypeError as e:
                ok = str(e)
    calls.append(ok)
print(json.dumps([out, calls]))
'''


class Cls:
    def __init__(self, node, mod, qual):
        self.node, self.mod, self.qual, self.name = node, mod, qual, node.name
        self.members, self.fields, self.bases = {}, set(), []
        self.open = False

    def mro(self):
        yield self
        for b in self.bases:
            if b and b[0] == 'class':
                yield from b[1].mro()

    def is_open(self):
        return any(c.open or any(b is None or b[0] == 'ext' and not b[1].startswith('builtins.') for b in c.bases) for c in self.mro())

    def find(self, name):
        for c in self.mro():
            if name in c.members:
                return c.members[name]
        return None

    def has(self, name):
        if any(name in c.members or name in c.fields for c in self.mro()):
            return True
        return any(hasattr(getattr(builtins, b[1][9:], object), name) for c in self.mro() for b in c.bases if b and b[0] == 'ext') \
            or hasattr(object, name)

    def is_exc(self):
        """True, False or None (unknown)."""
        for c in self.mro():
            for b in c.bases:
                if b is None:
                    return None
                if b[0] == 'ext':
                    o = getattr(builtins, b[1][9:], None) if b[1].startswith('builtins.') else None
                    if o is None:
                        return None
                    if isinstance(o, type) and issubclass(o, BaseException):
                        return True
        return False


class Scope:
    def __init__(self, node, parent, mod, qual, kind, cls=None):
        self.node, self.parent, self.mod, self.qual, self.kind, self.cls = node, parent, mod, qual, kind, cls
        self.binds = {}             # name -> list of binding nodes
        self.types = {}
        self.open = False
        self.globals = set()
        self.nonlocals = set()


class Names:
    def __init__(self, prog):
        self.prog = prog
        self.mods = {}
        self.checks = []            # (rule, construct, where, ok, message)
        self.ext_paths = {}         # path -> [(construct, where, guard)]
        self.ext_calls = []
        self.scopes = {}
        self.calls_of = {}          # id(function node) -> [(call, scope, shift)]
        self.busy = set()
        self.classes = []
        for m in sorted(prog.paths):
            if m.split('.')[0] in ('tests', 'test'):
                continue
            self.module(m)
        for m in self.mods:
            self.class_bases(self.mods[m])
        for m in self.mods:
            self.collect_fields(self.mods[m].node)
        for rnd in range(2):
            self.collect = rnd == 0
            self.checks = []
            self.ext_paths, self.ext_calls = {}, []
            for m in self.mods:
                self.cur = self.mods[m]
                self.check_body(self.mods[m].node.body, self.mods[m], frozenset())
            self.memo = {}
        self.ask()

    # -- scopes -----------------------------------------------------------------
    def module(self, m):
        tree = self.prog.tree(m)
        s = Scope(tree, None, m, m, 'module')
        self.mods[m] = s
        self.scopes[id(tree)] = s
        self.bind_body(tree.body, s)

    def bind(self, s, name, node):
        if name in s.globals:
            g = self.mods[s.mod]
            g.binds.setdefault(name, []).append((node, s))
            return
        if name in s.nonlocals:
            p = s.parent
            while p is not None and not (p.kind == 'func' and name in p.binds):
                p = p.parent
            if p is not None:
                p.binds[name].append((node, s))
            return
        s.binds.setdefault(name, []).append((node, s))

    def bind_body(self, body, s):
        for st in body:
            for n in self.own(st):
                if isinstance(n, ast.Global):
                    s.globals |= set(n.names)
                elif isinstance(n, ast.Nonlocal):
                    s.nonlocals |= set(n.names)
        for st in body:
            for n in self.own(st):
                self.bind_node(n, s)

    def own(self, n):
        """Nodes of this scope (entering nothing that has its own scope)."""
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            for d in n.decorator_list:
                yield from self.own(d)
            if not isinstance(n, ast.ClassDef):
                for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                    yield from self.own(d)
            else:
                for d in n.bases:
                    yield from self.own(d)
            return
        if isinstance(n, ast.Lambda):
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                yield from self.own(d)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            yield from self.own(n.generators[0].iter)
            for w in ast.walk(n):
                if isinstance(w, ast.NamedExpr):
                    yield w.target
            return
        for c in ast.iter_child_nodes(n):
            yield from self.own(c)

    def bind_node(self, n, s):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.bind(s, n.name, n)
            self.func_scope(n, s)
        elif isinstance(n, ast.ClassDef):
            self.bind(s, n.name, n)
            c = Cls(n, s.mod, s.qual + '.' + n.name)
            self.classes.append(c)
            cs = Scope(n, s, s.mod, c.qual, 'class', c)
            self.scopes[id(n)] = cs
            self.bind_body(n.body, cs)
            c.scope = cs
            for k, v in cs.binds.items():
                c.members[k] = v[-1][0]
        elif isinstance(n, ast.Lambda):
            self.func_scope(n, s)
        elif isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            k = Scope(n, s, s.mod, s.qual, 'comp')
            self.scopes[id(n)] = k
            for g in n.generators:
                for t in self.own(g.target):
                    self.bind_node(t, k)
            inner = [g.iter for g in n.generators[1:]] + [i for g in n.generators for i in g.ifs]
            inner += [n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]
            for e in inner:
                for t in self.own(e):
                    self.bind_node(t, k)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            self.bind(s, n.id, n)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                if a.name == '*':
                    src = self.from_module(n, s)
                    if src in self.prog.paths:
                        if src not in self.mods:
                            self.module(src)
                        for k in self.mods[src].binds:
                            self.bind(s, k, ('from', src, k))
                    else:
                        s.open = True
                elif isinstance(n, ast.Import):
                    self.bind(s, a.asname or a.name.split('.')[0], ('mod', a.name if a.asname else a.name.split('.')[0]))
                else:
                    self.bind(s, a.asname or a.name, ('from', self.from_module(n, s), a.name))
        elif isinstance(n, ast.ExceptHandler) and n.name:
            self.bind(s, n.name, n)
        elif type(n).__name__ in ('MatchAs', 'MatchStar') and n.name:
            self.bind(s, n.name, n)
        elif type(n).__name__ == 'MatchMapping' and n.rest:
            self.bind(s, n.rest, n)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('exec', 'eval', 'globals', 'locals', 'vars'):
            p = s
            while p is not None:
                p.open = True
                p = p.parent

    def from_module(self, n, s):
        if not n.level:
            return n.module
        parts = s.mod.split('.')
        path = self.prog.paths.get(s.mod, '')
        if not path.endswith('__init__.py'):
            parts = parts[:-1]
        parts = parts[:len(parts) - n.level + 1]
        return '.'.join(parts + ([n.module] if n.module else []))

    def func_scope(self, n, s):
        name = getattr(n, 'name', '<lambda>')
        k = Scope(n, s, s.mod, s.qual + ('.' + name if name != '<lambda>' else ''), 'func', s.cls if s.kind == 'class' else None)
        self.scopes[id(n)] = k
        a = n.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            k.binds.setdefault(x.arg, []).append((x, k))
        if isinstance(n, ast.Lambda):
            for t in self.own(n.body):
                self.bind_node(t, k)
        else:
            self.bind_body(n.body, k)

    def find(self, name, s):
        """(scope, bindings) | 'builtin' | 'open' | None."""
        p, first = s, True
        while p is not None:
            if not (p.kind == 'class' and not first):
                if name in p.globals:
                    g = self.mods[p.mod]
                    if name in g.binds:
                        return g, g.binds[name]
                elif name in p.binds and name not in p.nonlocals:
                    return p, p.binds[name]
            if p.open:
                return 'open'
            first = False
            p = p.parent
        if hasattr(builtins, name) or name in MODATTR:
            return 'builtin'
        if name == '__class__':
            return 'open'
        return None

    # -- classes ------------------------------------------------------------------
    def class_bases(self, ms):
        for c in self.classes:
            if c.mod != ms.mod:
                continue
            c.bases = [self.type_of(b, c.scope.parent) or None for b in c.node.bases]
            decs = [self.dotted(d, c.scope.parent) for d in c.node.decorator_list]
            if any(d not in ('dataclasses.dataclass',) for d in decs) or c.node.keywords:
                c.open = True
            if '__getattr__' in c.members or '__getattribute__' in c.members or '__slots__' in c.members and False:
                c.open = True
            if c.node.bases and any(not isinstance(b, (ast.Name, ast.Attribute)) for b in c.node.bases):
                c.open = True
            for st in c.node.body:
                if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                    c.fields.add(st.target.id)

    def collect_fields(self, tree):
        """self.x = ..., obj.x = ..., setattr(obj, 'x', ...)."""
        for sid, s in list(self.scopes.items()):
            if s.kind != 'func' or isinstance(s.node, ast.Lambda) or s.mod != self.mod_of(tree):
                continue
            for n in ast.walk(s.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    t = self.type_of(n.value, s)
                    if t and t[0] in ('inst', 'class'):
                        for c in t[1].mro():
                            c.fields.add(n.attr)
                    elif t is None and isinstance(n.value, ast.Name):
                        self.loose = getattr(self, 'loose', set()) | {n.attr}
                elif isinstance(n, ast.Call) and (
                        isinstance(n.func, ast.Name) and n.func.id == 'setattr' or
                        isinstance(n.func, ast.Attribute) and n.func.attr in ('__setattr__', 'update') and '__dict__' in ast.dump(n)
                        or isinstance(n.func, ast.Attribute) and n.func.attr == '__setattr__'):
                    for c in self.classes:
                        if c.mod == s.mod:
                            c.open = True
                elif isinstance(n, ast.Attribute) and n.attr == '__dict__':
                    for c in self.classes:
                        if c.mod == s.mod:
                            c.open = True

    def mod_of(self, tree):
        return next(m for m, s in self.mods.items() if s.node is tree)

    # -- types ----------------------------------------------------------------------
    def type_of(self, e, s, depth=0):
        """('mod', m) ('ext', path) ('func', node, scope, shift) ('class', Cls) ('inst', Cls) or None."""
        if depth > 12:
            return None
        if isinstance(e, ast.Name):
            r = self.find(e.id, s)
            if r == 'builtin':
                return ('ext', 'builtins.' + e.id) if hasattr(builtins, e.id) else None
            if r is None or r == 'open':
                return None
            return self.bound_type(e.id, r[0], r[1], depth + 1)
        if isinstance(e, ast.Attribute):
            t = self.type_of(e.value, s, depth + 1)
            return self.attr_type(t, e.attr, depth)
        if isinstance(e, ast.Call):
            t = self.type_of(e.func, s, depth + 1)
            if t and t[0] == 'class' and not any(c.open for c in t[1].mro()):
                return ('inst', t[1])
            if t and t[0] == 'func':
                return self.returned(t, depth + 1)
            if t and t == ('ext', 'builtins.super') and not e.args:
                return None
            return None
        if isinstance(e, ast.IfExp):
            a, b = self.type_of(e.body, s, depth + 1), self.type_of(e.orelse, s, depth + 1)
            return a if a == b else None
        if isinstance(e, ast.NamedExpr):
            return self.type_of(e.value, s, depth + 1)
        return None

    def returned(self, t, depth):
        """Instance type every return of a function has."""
        node = t[1]
        if isinstance(node, ast.Lambda) or node.decorator_list or id(node) in self.busy:
            return None
        self.busy.add(id(node))
        try:
            k = self.scopes[id(node)]
            rs = [n for st in node.body for n in self.own(st) if isinstance(n, (ast.Return, ast.Yield, ast.YieldFrom))]
            if not rs or any(not isinstance(r, ast.Return) or r.value is None for r in rs):
                return None
            ts = [self.type_of(r.value, k, depth) for r in rs]
            return ts[0] if ts[0] and ts[0][0] == 'inst' and all(x == ts[0] for x in ts) else None
        finally:
            self.busy.discard(id(node))

    def attr_type(self, t, name, depth=0):
        if t is None:
            return None
        if t[0] == 'mod':
            full = t[1] + '.' + name
            m = self.mods.get(t[1])
            if m is not None and name in m.binds:
                return self.bound_type(name, m, m.binds[name], depth + 1)
            if full in self.prog.paths:
                return ('mod', full)
            return None
        if t[0] == 'ext':
            return ('ext', t[1] + '.' + name)
        if t[0] in ('class', 'inst'):
            n = t[1].find(name)
            if isinstance(n, ast.FunctionDef) and not (t[0] == 'inst' and any(name in c.fields for c in t[1].mro())):
                own = next(c for c in t[1].mro() if name in c.members)
                decs = [self.dotted(d, own.scope) for d in n.decorator_list]
                if any(d not in PLAIN for d in decs) or 'property' in decs or 'functools.cached_property' in decs:
                    return None
                shift = 0 if 'staticmethod' in decs else 1 if t[0] == 'inst' or 'classmethod' in decs else 0
                return ('func', n, own.scope, shift)
        return None

    def bound_type(self, name, s, binds, depth):
        key = (id(s), name)
        if key in self.busy:
            return None
        self.busy.add(key)
        try:
            ts = [self.binding_type(name, b, bs, depth) for b, bs in binds]
        finally:
            self.busy.discard(key)
        if ts and ts[0] is not None and all(t == ts[0] for t in ts):
            return ts[0]
        return None

    def binding_type(self, name, b, s, depth):
        if isinstance(b, tuple):
            if b[0] == 'mod':
                return ('mod', b[1]) if b[1] in self.prog.paths or self.is_pkg(b[1]) else ('ext', b[1])
            src, nm = b[1], b[2]
            if src + '.' + nm in self.prog.paths and not (src in self.mods and nm in self.mods[src].binds):
                return ('mod', src + '.' + nm)
            if src in self.prog.paths:
                m = self.mods.get(src)
                return self.bound_type(nm, m, m.binds[nm], depth + 1) if m and nm in m.binds else None
            return None if self.is_pkg(src) else ('ext', src + '.' + nm)
        if isinstance(b, ast.FunctionDef):
            if any(self.dotted(d, s) not in PLAIN for d in b.decorator_list):
                return None
            return ('func', b, s, 0)
        if isinstance(b, ast.ClassDef):
            return ('class', self.scopes[id(b)].cls)
        if isinstance(b, ast.arg):
            return self.param_type(b, s, depth)
        if isinstance(b, ast.Name):
            st = self.stmt_of(b, s)
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and st.targets[0] is b:
                return self.type_of(st.value, s, depth + 1)
            if isinstance(st, ast.AnnAssign) and st.target is b and st.value is not None:
                return self.type_of(st.value, s, depth + 1)
        return None

    def is_pkg(self, m):
        return any(p.startswith(m + '.') for p in self.prog.paths)

    def stmt_of(self, node, s):
        key = id(s)
        mp = self.__dict__.setdefault('stmts', {})
        if key not in mp:
            d = {}
            body = s.node.body if isinstance(getattr(s.node, 'body', None), list) else []
            for st in body:
                for n in self.own(st):
                    if isinstance(n, (ast.Assign, ast.AnnAssign)):
                        for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                            d[id(t)] = n
            mp[key] = d
        return mp[key].get(id(node))

    def param_type(self, a, s, depth):
        f = s.node
        ps = f.args.posonlyargs + f.args.args
        if s.cls is not None and ps and ps[0] is a and isinstance(f, ast.FunctionDef):
            decs = [self.dotted(d, s.parent) for d in f.decorator_list]
            if 'classmethod' in decs:
                return ('class', s.cls)
            if 'staticmethod' not in decs:
                return ('inst', s.cls)
        if a.annotation is not None:
            t = self.type_of(a.annotation, s.parent, depth + 1)
            return ('inst', t[1]) if t and t[0] == 'class' and not any(c.open for c in t[1].mro()) else None
        if isinstance(f, ast.FunctionDef):
            c = self.documented(f, a.arg)
            if c is not None:
                return ('inst', c)
        if a not in ps:
            return None
        cs = self.calls_of.get(id(f), [])
        if not cs or f.args.vararg:
            return None
        ts = []
        for call, cs_, shift in cs:
            i = ps.index(a) - shift
            v = next((k.value for k in call.keywords if k.arg == a.arg), None)
            if v is None and 0 <= i < len(call.args) and not any(isinstance(x, ast.Starred) for x in call.args):
                v = call.args[i]
            if v is None:
                return None
            ts.append(self.type_of(v, cs_, depth + 1))
        return ts[0] if ts[0] and ts[0][0] == 'inst' and all(t == ts[0] for t in ts) else None

    def documented(self, f, name):
        """The class of the repository the docstring gives a parameter."""
        doc = ast.get_docstring(f) or ''
        m = re.search(r'(?m)^\s*%s\s*:\s*([^\n]+?)\s*$' % re.escape(name), doc)
        if not m:
            return None
        cs = [c for c in self.classes if c.name in DOCUMENTED and re.search(r'\b%s\b' % c.name, m.group(1), re.I) and c.is_exc() is not True]
        return cs[0] if len(cs) == 1 and not re.search(r'(?i)\b(list|tuple|dict|array|function|or)\b', m.group(1)) else None

    def dotted(self, d, s):
        if isinstance(d, ast.Call):
            d = d.func
        t = self.type_of(d, s)
        if t and t[0] == 'ext':
            return t[1][9:] if t[1].startswith('builtins.') else t[1]
        return ast.unparse(d)

    # -- checks ----------------------------------------------------------------------
    def where(self, n):
        p = self.prog.paths.get(self.cur.mod, self.cur.mod)
        return '%s:%d' % (os.path.relpath(p, self.prog.root), getattr(n, 'lineno', 0))

    def put(self, rule, ok, n, s, con, msg):
        self.checks.append((rule, con, self.where(n), bool(ok), '%s: %s' % (s.qual, msg)))

    def check_body(self, body, s, guard):
        for st in body:
            self.check(st, s, guard)

    def check(self, n, s, guard):
        if isinstance(n, ast.Try) or type(n).__name__ == 'TryStar':
            g = set(guard)
            for h in n.handlers:
                for t in ([h.type] if h.type is not None and not isinstance(h.type, ast.Tuple) else h.type.elts if h.type else []):
                    g.add(ast.unparse(t).split('.')[-1])
            self.check_body(n.body, s, frozenset(g))
            for h in n.handlers:
                if h.type is not None:
                    for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
                        self.exc(t, s, 'caught')
                    self.check(h.type, s, guard)
                self.check_body(h.body, s, guard)
            self.check_body(n.orelse + n.finalbody, s, guard)
            return
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x]:
                self.check(d, s, guard)
            k = self.scopes[id(n)]
            self.check_body(n.body, k, frozenset())
            self.unbound(n, k)
            return
        if isinstance(n, ast.Lambda):
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                self.check(d, s, guard)
            self.check(n.body, self.scopes[id(n)], guard)
            return
        if isinstance(n, ast.ClassDef):
            for d in n.decorator_list + n.bases + [k.value for k in n.keywords]:
                self.check(d, s, guard)
            self.check_body(n.body, self.scopes[id(n)], guard)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            k = self.scopes.get(id(n))
            self.check(n.generators[0].iter, s, guard)
            for g in n.generators[1:]:
                self.check(g.iter, k, guard)
            for g in n.generators:
                self.check(g.target, k, guard)
                for i in g.ifs:
                    self.check(i, k, guard)
            for e in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                self.check(e, k, guard)
            return
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            self.imports(n, s, guard)
            return
        if isinstance(n, ast.Raise) and n.exc is not None:
            self.exc(n.exc.func if isinstance(n.exc, ast.Call) else n.exc, s, 'raised')
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            r = self.find(n.id, s)
            if not guard & {'NameError'}:
                self.put('name', r is not None, n, s, '%s:%s' % (s.mod, n.id), 'the name %s is defined nowhere' % n.id)
        if isinstance(n, ast.Attribute):
            self.attribute(n, s, guard)
        if isinstance(n, ast.Call):
            self.call(n, s)
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            self.percent(n.left.value, n.right, n, s)
        for c in ast.iter_child_nodes(n):
            self.check(c, s, guard)

    def imports(self, n, s, guard):
        if guard & {'ImportError', 'ModuleNotFoundError', 'Exception'}:
            return
        if isinstance(n, ast.Import):
            for a in n.names:
                self.module_exists(a.name, n, s)
            return
        src = self.from_module(n, s)
        self.module_exists(src, n, s)
        for a in n.names:
            if a.name == '*':
                continue
            if src in self.mods:
                m = self.mods[src]
                self.put('import', a.name in m.binds or m.open or src + '.' + a.name in self.prog.paths or '__getattr__' in m.binds
                         or a.name in MODATTR, n, s, '%s:%s.%s' % (s.mod, src, a.name), 'module %s has no %s' % (src, a.name))
            elif not self.is_pkg(src):
                self.external(src + '.' + a.name, n, s, 'import')

    def module_exists(self, m, n, s):
        if m in self.prog.paths or self.is_pkg(m):
            self.put('import', True, n, s, '%s:%s' % (s.mod, m), '')
        elif m.split('.')[0] in {p.split('.')[0] for p in self.prog.paths if '.' in p}:
            self.put('import', False, n, s, '%s:%s' % (s.mod, m), 'there is no module %s' % m)
        else:
            self.external(m, n, s, 'import')

    def external(self, path, n, s, rule):
        self.ext_paths.setdefault(path, []).append((rule, '%s:%s' % (s.mod, path), self.where(n), s.qual))

    def attribute(self, n, s, guard):
        if guard & {'AttributeError'} or not isinstance(n.ctx, ast.Load):
            return
        t = self.type_of(n.value, s)
        if t is None or self.probed(n.attr, s):
            return
        if t[0] == 'mod':
            m = self.mods.get(t[1])
            ok = m is None or n.attr in m.binds or m.open or t[1] + '.' + n.attr in self.prog.paths or n.attr in MODATTR \
                or '__getattr__' in m.binds or self.is_pkg(t[1] + '.' + n.attr)
            if m is None:
                ok = t[1] + '.' + n.attr in self.prog.paths or self.is_pkg(t[1] + '.' + n.attr) or t[1] in self.prog.paths
            self.put('attribute', ok, n, s, '%s:%s.%s' % (s.mod, t[1], n.attr), 'module %s has no %s' % (t[1], n.attr))
        elif t[0] == 'ext':
            if not t[1].startswith('builtins.') or hasattr(builtins, t[1][9:].split('.')[0]):
                self.external(t[1] + '.' + n.attr, n, s, 'attribute')
        elif t[0] in ('class', 'inst'):
            c = t[1]
            if c.is_open() or n.attr in getattr(self, 'loose', ()):
                return
            self.put('attribute', c.has(n.attr) or n.attr in ('__dict__', '__name__', '__qualname__', '__mro__', '__bases__'), n, s,
                     '%s:%s.%s' % (s.mod, c.name, n.attr), 'a %s has no %s' % (c.name, n.attr))

    def probed(self, attr, s):
        """The attribute is looked up defensively in the same function."""
        while s is not None and s.kind not in ('func', 'module'):
            s = s.parent
        for n in ast.walk(s.node) if s and s.kind == 'func' else ():
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('hasattr', 'getattr') and len(n.args) > 1 \
                    and isinstance(n.args[1], ast.Constant) and n.args[1].value == attr:
                return True
        return False

    def call(self, n, s):
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'format':
            f = n.func.value
            if isinstance(f, ast.Constant) and isinstance(f.value, str):
                self.format(f.value, n, s)
        if isinstance(n.func, ast.Attribute) and n.func.attr in ('debug', 'info', 'warning', 'error', 'critical', 'exception') \
                and n.args and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str) and len(n.args) > 1 \
                and not any(isinstance(a, ast.Starred) for a in n.args):
            self.percent(n.args[0].value, ast.Tuple(n.args[1:], ast.Load()), n, s)
        t = self.type_of(n.func, s)
        if t is None:
            return
        star = any(isinstance(a, ast.Starred) for a in n.args)
        kws = [k.arg for k in n.keywords]
        if t[0] == 'ext':
            if not star and None not in kws and not t[1].startswith('builtins.'):
                self.ext_calls.append((t[1], len(n.args), kws, '%s:%s()' % (s.mod, t[1]), self.where(n), s.qual))
            return
        if t[0] == 'class':
            f = t[1].find('__init__')
            if not isinstance(f, ast.FunctionDef) or t[1].is_open() and not f or f.decorator_list:
                if t[1].is_exc() is None or t[1].is_exc() or any('dataclass' in ast.unparse(d) for c in t[1].mro() for d in c.node.decorator_list):
                    return
                if f is None and not t[1].is_open() and not t[1].find('__new__'):
                    self.put('arguments', not n.args and not n.keywords, n, s, '%s:%s()' % (s.mod, t[1].name),
                             '%s() takes no arguments' % t[1].name)
                return
            f, shift, name = f, 1, t[1].name
        elif t[0] == 'func':
            f, shift, name = t[1], t[3], t[1].name
        else:
            return
        if self.collect:
            self.calls_of.setdefault(id(f), []).append((n, s, shift))
        msg = self.fits(f, shift, n, star, kws)
        self.put('arguments', msg is None, n, s, '%s:%s()' % (s.mod, name), 'the call of %s does not fit its parameters: %s' % (name, msg))

    def fits(self, f, shift, n, star, kws):
        a = f.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        npos = len(n.args) + shift
        dstar = None in kws
        given = {k for k in kws if k is not None}
        if not star and npos > len(ps) and not a.vararg:
            return '%d positional arguments for %d' % (npos - shift, len(ps) - shift)
        names = set(x.arg for x in a.args + a.kwonlyargs)
        if not a.kwarg:
            for k in sorted(given - names):
                return 'there is no parameter %s' % k
        if not star:
            for k in ps[:npos]:
                if k in given and k not in [x.arg for x in a.posonlyargs]:
                    return 'two values for %s' % k
            if not dstar:
                need = ps[npos:len(ps) - len(a.defaults)] if len(ps) - len(a.defaults) > npos else []
                for k in need:
                    if k not in given:
                        return 'no value for %s' % k
        if not dstar:
            for x, d in zip(a.kwonlyargs, a.kw_defaults):
                if d is None and x.arg not in given:
                    return 'no value for %s' % x.arg
        if not star and dstar is False and len(kws) != len(given):
            return 'a keyword twice'
        return None

    def exc(self, e, s, what):
        t = self.type_of(e, s)
        if t is None:
            return
        con = '%s:%s' % (s.mod, ast.unparse(e))
        if t[0] == 'class':
            ok = t[1].is_exc()
            if ok is not None:
                self.put('exception', ok, e, s, con, '%s is %s but is no exception' % (ast.unparse(e), what))
        elif t[0] == 'ext' and t[1].startswith('builtins.'):
            o = getattr(builtins, t[1][9:], None)
            self.put('exception', isinstance(o, type) and issubclass(o, BaseException), e, s, con,
                     '%s is %s but is no exception' % (ast.unparse(e), what))
        elif t[0] in ('func', 'inst', 'mod'):
            ok = t[0] == 'inst' and what == 'raised' and t[1].is_exc() is not False
            if t[0] == 'func' and self.returned(t, 0):
                r = self.returned(t, 0)
                ok = r[1].is_exc() is not False
            elif t[0] == 'func':
                return
            self.put('exception', ok, e, s, con, '%s is %s but is no exception' % (ast.unparse(e), what))

    def format(self, text, n, s):
        if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
            return
        kws = {k.arg: k.value for k in n.keywords}
        bad, auto = None, [0]

        def walk(t):
            nonlocal bad
            try:
                parts = list(string.Formatter().parse(t))
            except ValueError as e:
                bad = str(e)
                return
            for _, field, spec, _ in parts:
                if field is None:
                    continue
                head = re.split(r'[.\[]', field, maxsplit=1)
                if head[0] == '':
                    i = auto[0]
                    auto[0] += 1
                elif head[0].isdigit():
                    i = int(head[0])
                else:
                    i = None
                    if head[0] not in kws:
                        bad = 'no value for {%s}' % head[0]
                if i is not None and i >= len(n.args):
                    bad = 'no value for field %d' % i
                elif len(head) > 1 and field[len(head[0])] == '.' and bad is None:
                    v = n.args[i] if i is not None else kws[head[0]]
                    at = re.match(r'\w+', head[1]).group()
                    t_ = self.type_of(v, s)
                    if t_ and t_[0] == 'inst' and not t_[1].is_open():
                        self.put('attribute', t_[1].has(at), n, s, '%s:%s.%s' % (s.mod, t_[1].name, at), 'a %s has no %s' % (t_[1].name, at))
                if spec:
                    walk(spec)
        walk(text)
        self.put('format', bad is None, n, s, '%s:format %r' % (s.mod, text[:40]), 'the text %r cannot be filled: %s' % (text[:80], bad))

    def percent(self, text, right, n, s):
        specs = re.findall(r'%(\(\w+\))?[-+ #0]*(\*|\d+)?(?:\.(\*|\d+))?[hlL]?([%a-zA-Z])', text)
        need = sum(1 + (w == '*') + (p == '*') for k, w, p, c in specs if c != '%')
        if any(k for k, w, p, c in specs) or not isinstance(right, ast.Tuple) or any(isinstance(x, ast.Starred) for x in right.elts):
            return
        self.put('format', need == len(right.elts), n, s, '%s:%% %r' % (s.mod, text[:40]),
                 'the text %r needs %d values, %d given' % (text[:80], need, len(right.elts)))

    # -- locals no assignment reaches ----------------------------------------------------
    def unbound(self, f, k):
        loc = {x for x, bs in k.binds.items() if x not in k.globals and x not in k.nonlocals and all(b[1] is k for b in bs)}
        a = f.args
        start = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}

        def stores(n):
            out = set()
            for w in self.own(n):
                if isinstance(w, ast.Name) and isinstance(w.ctx, ast.Store):
                    out.add(w.id)
                elif isinstance(w, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                    out.add(w.name)
                elif isinstance(w, (ast.Import, ast.ImportFrom)):
                    out |= {x.asname or x.name.split('.')[0] for x in w.names}
                elif isinstance(w, ast.ExceptHandler) and w.name:
                    out.add(w.name)
                elif type(w).__name__ in ('MatchAs', 'MatchStar', 'MatchMapping'):
                    out.add(getattr(w, 'name', None) or getattr(w, 'rest', None))
            return out

        def loads(n, have):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                return
            if isinstance(n, ast.NamedExpr):
                loads(n.value, have)
                have.add(n.target.id)
                return
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                loads(n.generators[0].iter, have)
                inner = set(self.scopes[id(n)].binds)
                for w in ast.walk(n):
                    if isinstance(w, ast.NamedExpr):
                        have.add(w.target.id)
                for w in ast.walk(n):
                    if isinstance(w, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)) and w is not n:
                        return
                for w in ast.walk(n):
                    if isinstance(w, ast.Name) and isinstance(w.ctx, ast.Load) and w.id in loc and w.id not in inner:
                        use(w, have)
                return
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in loc:
                use(n, have)
            for c in ast.iter_child_nodes(n):
                loads(c, have)

        def use(n, have):
            self.put('name', n.id in have, n, k, '%s:%s' % (k.mod, n.id), 'the local %s is used where no assignment has reached' % n.id)

        def block(body, have):
            for st in body:
                have = stmt(st, have)
            return have

        def stmt(st, have):
            have = set(have)
            if isinstance(st, ast.If):
                loads(st.test, have)
                return block(st.body, have) | block(st.orelse, have)
            if isinstance(st, (ast.For, ast.AsyncFor)):
                loads(st.iter, have)
                more = have | stores(st.target) | set().union(*[stores(x) for x in st.body] or [set()])
                out = block(st.body, more)
                return have | out | block(st.orelse, have | out)
            if isinstance(st, ast.While):
                more = have | set().union(*[stores(x) for x in st.body] or [set()])
                loads(st.test, more)
                out = block(st.body, more)
                return have | out | block(st.orelse, have | out)
            if isinstance(st, ast.Try) or type(st).__name__ == 'TryStar':
                out = block(st.body, have)
                every = have | out | set().union(*[stores(x) for x in st.body] or [set()])
                for h in st.handlers:
                    out |= block(h.body, every | ({h.name} if h.name else set()))
                out |= block(st.orelse, out)
                return block(st.finalbody, out | every)
            if isinstance(st, (ast.With, ast.AsyncWith)):
                for i in st.items:
                    loads(i.context_expr, have)
                    if i.optional_vars is not None:
                        have |= stores(i.optional_vars)
                return block(st.body, have)
            if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                return have | {st.name}
            if type(st).__name__ == 'Match':
                loads(st.subject, have)
                out = set(have)
                for c in st.cases:
                    out |= block(c.body, have | stores(c.pattern))
                return out
            if isinstance(st, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                if st.value is not None:
                    loads(st.value, have)
                for t in (st.targets if isinstance(st, ast.Assign) else [st.target]):
                    if isinstance(st, ast.AugAssign) and isinstance(t, ast.Name) and t.id in loc:
                        use(t, have)
                    loads(t, have)
                return have | stores(st)
            loads(st, have)
            return have | stores(st)
        block(f.body, start)

    # -- libraries ---------------------------------------------------------------------
    def ask(self):
        """Look the library references up in the installed libraries."""
        self.asked = None
        paths = sorted(self.ext_paths)
        calls = [(p, n, [x for x in k]) for p, n, k, *_ in self.ext_calls]
        if not os.path.exists(PY) or not paths:
            return
        try:
            r = subprocess.run([PY, '-I', '-c', ORACLE], input=json.dumps({'paths': paths, 'calls': calls}), capture_output=True,
                               text=True, timeout=120, cwd='/')
            out, cs = json.loads(r.stdout.strip().splitlines()[-1])
        except (OSError, ValueError, IndexError, subprocess.SubprocessError):
            return
        self.asked = len(paths)
        for p in paths:
            st = out[p][0]
            if st == 'unknown':
                continue
            for rule, con, where, qual in self.ext_paths[p]:
                self.checks.append((rule, con, where, st == 'found', '%s: the installed libraries have no %s' % (qual, p)))
        for (p, n, k, con, where, qual), msg in zip(self.ext_calls, cs):
            self.checks.append(('arguments', con, where, msg is None, '%s: the call of %s does not fit: %s' % (qual, p, msg)))

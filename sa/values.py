"""Program-level values: functions, classes, modules, heap objects, states,
traces.  (Numbers, booleans and sequences live in alg.py.)"""
import ast
import os
from alg import *
import alg


class FuncV:
    def __init__(self, node, module, fid, name, qual, cls=None, kind='plain'):
        self.node, self.module, self.fid = node, module, fid
        self.name, self.qual, self.cls, self.kind = name, qual, cls, kind
        self.defaults = []
        self.kwdefaults = {}

    def __eq__(self, o):
        return isinstance(o, FuncV) and o.node is self.node and o.fid == self.fid

    def __hash__(self):
        return hash((id(self.node), self.fid))

    def __repr__(self):
        return '<function %s>' % self.qual


class BoundV:
    def __init__(self, self_, func):
        self.self_, self.func = self_, func

    def __eq__(self, o):
        return isinstance(o, BoundV) and veq(o.self_, self.self_) and o.func == self.func

    def __hash__(self):
        return hash(self.func)

    def __repr__(self):
        return '<bound %s>' % getattr(self.func, 'qual', self.func)


class PropV:
    def __init__(self, fget=None, fset=None):
        self.fget, self.fset = fget, fset


class ClassV:
    def __init__(self, node, module, name, qual, bases):
        self.node, self.module, self.name, self.qual = node, module, name, qual
        self.bases = bases
        self.members = {}

    def lookup(self, name):
        if name in self.members:
            return self.members[name]
        for b in self.bases:
            if isinstance(b, ClassV):
                r = b.lookup(name)
                if r is not None:
                    return r
        return None

    def is_sub(self, o):
        if self is o:
            return True
        for b in self.bases:
            if b == o or (isinstance(b, ClassV) and b.is_sub(o)):
                return True
            if isinstance(b, ExtV) and isinstance(o, ExtV) and ext_exc_sub(b.path, o.path):
                return True
        return False

    def __repr__(self):
        return '<class %s>' % self.qual


EXC_TREE = {
    'Exception': 'BaseException', 'KeyboardInterrupt': 'BaseException', 'SystemExit': 'BaseException',
    'GeneratorExit': 'BaseException', 'ArithmeticError': 'Exception', 'ZeroDivisionError': 'ArithmeticError',
    'FloatingPointError': 'ArithmeticError', 'OverflowError': 'ArithmeticError', 'AssertionError': 'Exception',
    'LookupError': 'Exception', 'IndexError': 'LookupError', 'KeyError': 'LookupError',
    'ValueError': 'Exception', 'TypeError': 'Exception', 'RuntimeError': 'Exception',
    'NotImplementedError': 'RuntimeError', 'ImportError': 'Exception', 'ModuleNotFoundError': 'ImportError',
    'OSError': 'Exception', 'StopIteration': 'Exception', 'AttributeError': 'Exception',
    'NameError': 'Exception', 'LinAlgError': 'Exception', 'FileNotFoundError': 'OSError',
    'FileExistsError': 'OSError', 'PermissionError': 'OSError', 'RecursionError': 'RuntimeError',
    'MemoryError': 'Exception', 'EOFError': 'Exception', 'UnicodeError': 'ValueError', 'Warning': 'Exception',
    'UserWarning': 'Warning', 'RuntimeWarning': 'Warning',
}


def ext_exc_sub(a, b):
    a, b = a.split('.')[-1], b.split('.')[-1]
    while a:
        if a == b:
            return True
        a = EXC_TREE.get(a)
    return False


class ExtV:
    """A name outside the repository, by canonical dotted path."""

    def __init__(self, path):
        self.path = path

    def __eq__(self, o):
        return isinstance(o, ExtV) and o.path == self.path

    def __hash__(self):
        return hash(self.path)

    def __repr__(self):
        return '<%s>' % self.path


class ModV:
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, ModV) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return '<module %s>' % self.name


class OpaqueF:
    """A callable supplied by a rule: handler(interp, st, args, kwargs, node)."""

    def __init__(self, name, handler):
        self.name, self.handler = name, handler

    def __repr__(self):
        return '<%s>' % self.name


class ExtObj:
    """Result of an effectful external call (file handle, axes, generator...)."""

    def __init__(self, path, uid, args=()):
        self.path, self.uid, self.args = path, uid, args

    def __eq__(self, o):
        return isinstance(o, ExtObj) and (o.path, o.uid) == (self.path, self.uid)

    def __hash__(self):
        return hash((self.path, self.uid))

    def __repr__(self):
        return '<%s>' % self.path


class PartialV:
    def __init__(self, f, args, kwargs):
        self.f, self.args, self.kwargs = f, args, kwargs

    def __repr__(self):
        return '<partial %r>' % (self.f,)


class StarSeq:
    def __init__(self, v):
        self.v = v


# -- heap ------------------------------------------------------------------
class ObjC:
    __slots__ = ('cls', 'fields')

    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields

    def copy(self):
        return ObjC(self.cls, dict(self.fields))


class ListC:
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = tuple(parts)


class DictC:
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)       # (key, value)


class ArrC:
    __slots__ = ('val',)

    def __init__(self, val):
        self.val = val


# -- trace -----------------------------------------------------------------
class Event:
    def __init__(self, kind, name, args, kwargs, node, where, result=None, uid=None):
        self.kind, self.name, self.args, self.kwargs = kind, name, args, kwargs
        self.node, self.where, self.result, self.uid = node, where, result, uid
        self.extra = {}

    def __repr__(self):
        return '%s:%s%s' % (self.kind, self.name, show(TupleV(list(self.args)), 200))

    def map(self, f):
        e = Event(self.kind, self.name, tuple(f(a) for a in self.args),
                  {k: f(v) for k, v in self.kwargs.items()}, self.node, self.where,
                  f(self.result) if self.result is not None else None, self.uid)
        e.extra = dict(self.extra)
        return e


class IfNode:
    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b

    def __repr__(self):
        return 'if(%s)%r else %r' % (show(self.cond), self.a, self.b)

    def map(self, f):
        return IfNode(f(self.cond), [x.map(f) for x in self.a], [x.map(f) for x in self.b])


class LoopNode:
    """k in [0, n): body events.  `alive` is the condition under which
    iteration k runs (no earlier exit)."""

    def __init__(self, n, k, body, node=None, rec=None):
        self.n, self.k, self.body, self.node, self.rec = n, k, body, node, rec

    def __repr__(self):
        return 'for(%s<%s)%r' % (self.k and self.k.name, show(self.n), self.body)

    def map(self, f):
        return LoopNode(f(self.n), self.k, [x.map(f) for x in self.body], self.node, self.rec)


def walk_trace(tr, conds=(), loops=()):
    """Yield (event, conditions, enclosing loops) in order."""
    for t in tr:
        if isinstance(t, Event):
            yield t, conds, loops
        elif isinstance(t, IfNode):
            yield from walk_trace(t.a, conds + (t.cond,), loops)
            yield from walk_trace(t.b, conds + (b_not(t.cond),), loops)
        elif isinstance(t, LoopNode):
            yield from walk_trace(t.body, conds, loops + (t,))


# -- state -----------------------------------------------------------------
class State:
    __slots__ = ('frames', 'heap', 'pc', 'trace')

    def __init__(self):
        self.frames = {}
        self.heap = {}
        self.pc = ()
        self.trace = []

    def copy(self):
        s = State()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = dict(self.heap)
        s.pc = self.pc
        s.trace = list(self.trace)
        return s

    def become(self, o):
        self.frames, self.heap, self.pc, self.trace = o.frames, o.heap, o.pc, o.trace


class Out:
    __slots__ = ('next', 'rets', 'brks', 'conts', 'raises')

    def __init__(self, next=None):
        self.next = next
        self.rets, self.brks, self.conts, self.raises = [], [], [], []

    def absorb(self, o):
        self.rets += o.rets
        self.brks += o.brks
        self.conts += o.conts
        self.raises += o.raises


def restrict(v, lits):
    """Simplify value/bool under literals assumed true (structural)."""
    if isinstance(v, bool) or not lits:
        return v
    if isinstance(v, B):
        for l in lits:
            if isinstance(l, bool):
                continue
            if beq(v, l):
                return True
            if beq(v, b_not(l)) if isinstance(b_not(l), B) else False:
                return False
        if v.kind in ('and', 'or'):
            for l in lits:      # a disjunction assumed: what it contains, and the denial of all it contains
                if isinstance(l, B) and (l.kind == 'or' or l.kind == 'not' and l.args[0].kind == 'and'):
                    xs = l.args if l.kind == 'or' else [b_not(x) for x in l.args[0].args]
                    ps = [b_not(p) for p in v.args] if v.kind == 'and' else v.args
                    if all(any(beq(p, q) for q in ps) for p in xs):
                        return v.kind == 'or'
        if v.kind == 'and':
            return b_and(*[restrict(x, lits) for x in v.args])
        if v.kind == 'or':
            return b_or(*[restrict(x, lits) for x in v.args])
        if v.kind == 'not':
            return b_not(restrict(v.args[0], lits))
    return v


def conj_literals(conds):
    out = []
    for c in conds:
        if isinstance(c, B) and c.kind == 'and':
            out.extend(conj_literals(c.args))
        elif isinstance(c, B) and c.kind == 'not' and c.args[0].kind == 'or':
            out.extend(conj_literals([b_not(x) for x in c.args[0].args]))
        elif isinstance(c, B):
            out.append(c)
    return out


def or_simplify(conds):
    """Disjunction with  c or (not c and d)  ->  c or d."""
    cs = [c for c in conds if c is not False]
    if any(c is True for c in cs):
        return True
    for _ in range(4):
        changed = False
        out = []
        for i, c in enumerate(cs):
            parts = list(c.args) if c.kind == 'and' else [c]
            keep = []
            for p in parts:
                np_ = b_not(p)
                drop = False
                for j, d in enumerate(cs):
                    if i == j or d is None:
                        continue
                    if isinstance(np_, bool):
                        continue
                    if beq(d, np_) or (d.kind == 'and' and any(beq(np_, y) for y in d.args) and all(
                            beq(y, np_) or any(beq(y, z) for z in parts) for y in d.args)):
                        drop = True
                        break
                if drop:
                    changed = True
                else:
                    keep.append(p)
            r = b_and(*keep)
            if r is True:
                return True
            cs[i] = r
            out.append(r)
        cs = out
        if not changed:
            break
    return b_or(*cs)
